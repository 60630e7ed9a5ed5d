"""Fetches data files from a local copy and two servers (on the loopback) that fail in all kinds of ways."""
import os
import sys
import gzip
import time
import random
import signal
import shutil
import socket
import calendar
import warnings
import tempfile
import threading
import email.utils
import http.client
import urllib.request
from io import BytesIO
from datetime import datetime

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import drv
warnings.simplefilter('ignore')

SCRATCH = tempfile.mkdtemp(prefix='fetch-', dir=os.environ.get('HOME', '/tmp'))
LOCAL = os.path.join(SCRATCH, 'local')
import lsl.common.paths
lsl.common.paths.DATA = LOCAL

STEP = int(1.01 * 86400)
NAMES = ('a.txt', 'd/b.npz', 'c-ssmif.txt')
BASE = {'A': 'https://fornax.phys.unm.edu/lwa/data/lsl/', 'B': 'https://leo.phys.unm.edu/data/lsl/'}


POOL = ''.join(random.Random(7).choice('abcdefghijklmnopqrstuvwxyz\n') for i in range(4099))


def body(ver, size):
    """No two versions are alike, and no part of one is a version."""
    s = ('%i %i\n' % (ver, size))[:size]
    if size < 100:
        s = (chr(65 + ver % 26) + chr(97 + ver // 26) + 'z' * size)[:size]
    k = 17 * ver % 4099
    t = (POOL[k:] + POOL * 14)[:size]
    return (s + t)[:size].encode()


class Server(object):
    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(50)
        self.port = self.sock.getsockname()[1]
        self.files = {}
        self.fault = 'none'
        self.stall = None
        self.stalled = threading.Event()
        self.wire = 0
        self.sent = b''
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                c, a = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            self.answer(c)
        except OSError:
            pass
        finally:
            c.close()

    def answer(self, c):
        req = b''
        while b'\r\n\r\n' not in req:
            d = c.recv(4096)
            if not d:
                return
            req += d
        lines = req.decode().split('\r\n')
        method, path = lines[0].split()[:2]
        head = {k.strip().lower(): v.strip() for k, v in (x.split(':', 1) for x in lines[1:] if ':' in x)}
        f = self.fault
        if f == 'reset':
            return
        name = [n for n in NAMES if path.endswith('/' + n)]
        if f == 'error' or not name or name[0] not in self.files:
            m = b'something went wrong' if f == 'error' else b'no such file is here'
            c.sendall(b'HTTP/1.1 %s\r\nContent-Length: %i\r\nConnection: close\r\n\r\n' % (b'503 Unavailable' if f == 'error' else b'404 Not Found', len(m)) + m)
            return
        ver, size, mtime = self.files[name[0]]
        data = body(ver, size)
        status = b'200 OK'
        if 'range' in head:
            a, b = head['range'].split('=')[1].split('-')
            if int(a) >= len(data):
                c.sendall(b'HTTP/1.1 416 Range Not Satisfiable\r\nContent-Length: 0\r\nConnection: close\r\n\r\n')
                return
            data = data[int(a):int(b) + 1]
            status = b'206 Partial Content'
        out = b'HTTP/1.1 ' + status + b'\r\nConnection: close\r\n'
        if f in ('gzip', 'shortgzip') and 'gzip' in head.get('accept-encoding', '') and 'range' not in head:
            data = gzip.compress(data)
            out += b'Content-Encoding: gzip\r\n'
        if f != 'nolen':
            out += b'Content-Length: %i\r\n' % len(data)
        if f == 'baddate':
            out += b'Last-Modified: the other day\r\n'
        elif f != 'nodate':
            out += b'Last-Modified: %s\r\n' % email.utils.formatdate(mtime, usegmt=True).encode()
        out += b'\r\n'
        if method == 'HEAD':
            c.sendall(out)
            return
        self.wire = len(data)
        if self.stall is not None:
            if self.stall == 'body':
                c.sendall(out + data[:len(data) // 2])
            elif self.stall == 'end':
                c.sendall(out + data[:-1])
            self.stalled.set()
            time.sleep(20)
            return
        if f in ('short', 'shortgzip'):
            data = data[:len(data) // 2]
        self.sent = data
        c.sendall(out + data)


SERVERS = {}
DEAD = socket.socket()
DEAD.bind(('127.0.0.1', 0))


class Road(urllib.request.HTTPSHandler):
    """All that goes out goes to the loopback."""
    def https_open(self, req):
        which = 'A' if 'fornax' in req.host else 'B' if 'leo' in req.host else None
        s = SERVERS[which] if which else None
        port = s.port if s is not None and s.fault != 'down' else DEAD.getsockname()[1]

        def conn(host, **kw):
            return http.client.HTTPConnection('127.0.0.1', port, timeout=10)
        return self.do_open(conn, req)
    http_open = https_open


urllib.request.install_opener(urllib.request.build_opener(Road, urllib.request.ProxyHandler({})))
from lsl.common import data_access as da
from lsl.config import LSL_CONFIG

CACHE = os.path.join(LSL_CONFIG.dirname, 'data_cache')


def older(days):
    for top in (CACHE, LOCAL):
        for d, _, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                st = os.stat(p)
                os.utime(p, (st.st_atime, st.st_mtime - days * STEP))
    for s in SERVERS.values():
        s.files = {n: (v, k, m - days * STEP) for n, (v, k, m) in s.files.items()}


def name(e):
    return type(e).__name__


def size_of(acc, n):
    try:
        return acc.getsize(n)
    except (OSError, KeyError):
        return -1


def run(job, rec, rng):
    assert CACHE.startswith(os.environ['HOME'])
    fresh = type(da.DataAccess)
    for b in drv.mine(job, job['behaviours']):
        rec.begin()
        shutil.rmtree(CACHE, ignore_errors=True)
        shutil.rmtree(LOCAL, ignore_errors=True)
        os.makedirs(os.path.join(LOCAL, 'd'))
        SERVERS.clear()
        SERVERS.update(A=Server(), B=Server())
        acc = fresh()
        known = {}
        for o in b['ops']:
            op = o['op']
            n = o.get('n')
            if op == 'edit':
                p = os.path.join(LOCAL, n)
                now = int(time.time())
                if o['ver']:
                    known[o['ver']] = body(o['ver'], o['size'])
                if o['w'] == 'local':
                    if o['ver']:
                        with open(p, 'wb') as fh:
                            fh.write(known[o['ver']])
                    elif os.path.exists(p):
                        os.unlink(p)
                for s in SERVERS:
                    if s in o['w'] and o['w'] != 'local':
                        f = dict(SERVERS[s].files)
                        f.pop(n, None)
                        if o['ver']:
                            f[n] = (o['ver'], o['size'], now)
                        SERVERS[s].files = f
                rec.ev('edit', w=o['w'], n=n, ver=o['ver'], size=o['size'])
            elif op == 'fault':
                SERVERS[o['s']].fault = o['f']
                rec.ev('fault', s=o['s'], f=o['f'])
            elif op == 'wait':
                rec.ev('wait', d=o['d'])
            elif op == 'session':
                acc = fresh()
                rec.ev('session')
            elif op == 'remove':
                acc.remove(n)
                rec.ev('remove', n=n)
            elif op == 'size':
                rec.ev('size', n=n, size=size_of(acc, n))
            elif op == 'fetch':
                exc = ''
                try:
                    acc.fetch_data_file(n)
                except Exception as e:
                    exc = name(e)
                rec.ev('fetch', n=n, exc=exc, size=size_of(acc, n))
            elif op in ('open', 'text'):
                exc, ver, size = '', 0, -1
                try:
                    with acc.open(n, 'r' if op == 'text' else 'rb') as fh:
                        data = fh.read()
                    if op == 'text':
                        data = data.encode()
                    hit = [v for v, x in known.items() if x == data]
                    ver = hit[0] if hit else -1
                    size = size_of(acc, n)
                except Exception as e:
                    exc = name(e)
                rec.ev(op, n=n, exc=exc, ver=ver, size=size)
            elif op == 'kill':
                for s in SERVERS.values():
                    s.stalled.clear()
                    s.stall = o['at']
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        signal.alarm(15)
                        try:
                            acc.fetch_data_file(n)
                            os.write(w, b'done')
                        except Exception as e:
                            os.write(w, name(e).encode())
                    finally:
                        os._exit(0)
                os.close(w)
                end = None
                while end is None:
                    if os.waitpid(pid, os.WNOHANG)[0]:
                        end = os.read(r, 100).decode() or 'nothing'
                    elif any(s.stalled.is_set() for s in SERVERS.values()):
                        time.sleep(0.02)
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        end = 'killed'
                    else:
                        time.sleep(0.002)
                os.close(r)
                for s in SERVERS.values():
                    s.stall = None
                rec.ev('kill', n=n, at=o['at'], end=end)
            elif op == 'direct':
                s = SERVERS[o['s']]
                s.wire = 0
                r = o['r'] or None
                d = {'n': n, 's': o['s'], 'to': o['to'], 'r': o['r'], 'v': [0, 0], 'mt': 'zero', 'wire': 0, 'got': [0, 0, 0], 'pre': 0, 'exc': ''}
                out = os.path.join(SCRATCH, 'out')
                url = BASE[o['s']] + n
                try:
                    if o['to'] == 'check':
                        size, mt = da.check_url(url, byte_range=r, verbose=False)
                        res = [size, size]
                    elif o['to'] == 'text':
                        with open(out, 'w') as fh:
                            da.download_file(url, fh, byte_range=r, verbose=False)
                        res, mt = [0, 0], 0
                    else:
                        if o['to'] == 'name':
                            a, c, mt = da.download_file(url, out, byte_range=r, verbose=False)
                        else:
                            with open(out, 'wb') as fh:
                                a, c, mt = da.download_file(url, fh, byte_range=r, verbose=False)
                        res = [a, c]
                        with open(out, 'rb') as fh:
                            data = fh.read()
                        f = s.files.get(n)
                        if f:
                            whole = known[f[0]]
                            want = whole if r is None else whole[r[0]:r[1] + 1]
                            if data == want and data:
                                d['got'] = [f[0], 0 if r is None else r[0], len(whole) - 1 if r is None else min(r[1], len(whole) - 1)]
                            d['pre'] = len(data) if want.startswith(data) else -1
                    f = s.files.get(n)
                    d.update(v=[int(x) for x in res], wire=s.wire, mt='zero' if mt == 0 else 'right' if f and not isinstance(mt, str) and abs(mt - f[2]) <= 1 else 'wrong')
                except Exception as e:
                    d.update(exc=name(e), m=str(e)[:80])
                rec.ev('direct', **d)
            older(o['d'] if op == 'wait' else 1)
        for s in SERVERS.values():
            s.sock.close()
    shutil.rmtree(SCRATCH, ignore_errors=True)


drv.main(run)
