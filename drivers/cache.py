"""Drives lsl.misc.file_cache: FileCache and MemoryCache."""
import os
import time
import shutil
import tempfile
import threading

from vf.drv import main, mine
from lsl.misc.file_cache import FileCache, MemoryCache

UNIT = 1024
NAMES = [None, 'a.txt', 'longer name_02.dat', 'sub/c', 'sub/deep/d.tar']
BASE = 1000000000


class Planned(Exception):
    pass


def block(t, n):
    """n units of text for token t: numbered 64-character lines"""
    return ''.join('%06d %03d %02d %s\n' % (t, u, i, 'xyz'[t % 3]*49) for u in range(n) for i in range(16))


def parse(data):
    """bytes -> blocks"""
    out = []
    if len(data) % UNIT:
        return [{'t': -1, 'n': len(data)}]
    for o in range(0, len(data), UNIT):
        u = data[o:o+UNIT].decode('latin-1')
        try:
            t, k = int(u[:6]), int(u[7:10])
        except ValueError:
            return [{'t': -2, 'n': len(data)}]
        whole = ''.join('%06d %03d %02d %s\n' % (t, k, i, 'xyz'[t % 3]*49) for i in range(16))
        if u != whole:
            return [{'t': -3, 'n': len(data)}]
        if k == 0:
            out.append({'t': t, 'n': 1})
        elif out and out[-1]['t'] == t and out[-1]['n'] == k:
            out[-1]['n'] += 1
        else:
            return [{'t': -4, 'n': len(data)}]
    return out


def err(fn):
    try:
        fn()
    except OSError:
        return 'OSError'
    except Exception as e:
        return type(e).__name__
    return 'none'


class Episode(object):
    def __init__(self, rec, rng, kind, limit, src, top):
        self.rec, self.rng, self.kind = rec, rng, kind
        self.dir = os.path.join(top, 'c%d' % rec.n, 'x', 'cache')
        self.stamp = {}
        self.tok = 0
        self.steps = rng.choice([[10], [0.25], [0.125, 0.25, 1, 10, 100000]])
        self.call = rng.random() < 0.5
        self.make(limit)
        rec.begin(kind=kind, names=4, limit=limit, src=src)

    def make(self, limit):
        self.limit = limit
        v = limit*UNIT/1024.**2
        if self.call:
            v = lambda: self.limit*UNIT/1024.**2
        if self.kind == 'file':
            self.cache = FileCache(self.dir, max_size=v)
        elif hasattr(self, 'cache'):
            self.cache.max_size = v
        else:
            self.cache = MemoryCache(max_size=v)

    def inside(self):
        return [n for n in range(1, 5) if NAMES[n] in self.cache]

    def write(self, n, mode, k, fail, nested=0, probe=False):
        rng, rec = self.rng, self.rec
        put = []
        while k > 0:
            self.tok += 1
            x = rng.randrange(1, k+1)
            put.append({'t': self.tok, 'n': x})
            k -= x
        binary = rng.random() < 0.5
        exc, inside, handle, locked, got = '', [], True, True, None
        try:
            with self.cache.open(NAMES[n], mode + ('b' if binary else '')) as fh:
                inside = self.inside()
                handle = not fh.closed
                for b in put:
                    s = block(b['t'], b['n'])
                    fh.write(s.encode() if binary else s)
                    if rng.random() < 0.3:
                        fh.flush()
                if nested and nested != n and nested in inside:
                    with self.cache.open(NAMES[nested], 'rb') as f2:
                        got = parse(f2.read())
                if probe:
                    locked = not self.reachable(0.15)
                handle = handle and not fh.closed
                if fail:
                    raise Planned()
        except Exception as e:
            exc = type(e).__name__
        if self.kind == 'file':
            self.clock = getattr(self, 'clock', 0) + rng.choice(self.steps)
            self.stamp[n] = BASE + self.clock
            try:
                os.utime(os.path.join(self.dir, NAMES[n]), (BASE - self.clock, self.stamp[n]))
            except OSError:
                pass
        else:
            self.stamp[n] = time.time()
            while time.time() == self.stamp[n]:
                pass
        rec.ev('write', n=n, mode=mode, put=put, fail=fail, exc=exc, inside=inside, handle=handle, locked=locked)
        if got is not None:
            # nested was not written to since
            rec.ev('nested', n=nested, blocks=got)

    def reachable(self, wait):
        """can another thread get at the cache?"""
        done = []
        t = threading.Thread(target=lambda: done.append(err(lambda: self.cache.getsize('nothing'))), daemon=True)
        t.start()
        t.join(wait)
        ok = bool(done)
        self.late = t
        return ok

    def see(self):
        c = self.cache
        sizes, stats, blocks, text, lines, mtimes, absent = [], [], [], [], [], [], []
        names = self.inside()
        for n in range(1, 5):
            f = NAMES[n]
            if n not in names:
                a = ' '.join([err(lambda: c.open(f, 'r').__enter__()), err(lambda: c.getsize(f)),
                              err(lambda: c.getmtime(f)), err(lambda: c.stat(f))])
                if f in c:
                    a += ' made'
                absent.append(a)
                for x, d in ((sizes, -1), (stats, -1), (blocks, []), (text, True), (lines, True), (mtimes, True)):
                    x.append(d)
                continue
            absent.append('')
            try:
                sizes.append(exact(c.getsize(f)))
                st = c.stat(f)
                stats.append(exact(st.st_size))
                if self.kind == 'file':
                    mtimes.append(c.getmtime(f) == self.stamp[n] == st.st_mtime)
                else:
                    mtimes.append(abs(c.getmtime(f) - self.stamp[n]) <= 1.5 and abs(st.st_mtime - self.stamp[n]) <= 1.5)
                with c.open(f, 'rb') as fh:
                    data = fh.read()
                blocks.append(parse(data))
                with c.open(f, 'r') as fh:
                    pieces = []
                    while True:
                        p = fh.read(self.rng.choice([1, 37, 64, 500, 4096]))
                        if len(p) == 0:
                            break
                        pieces.append(p)
                    same = ''.join(pieces) == data.decode()
                    fh.seek(0)
                    again = fh.read()
                    text.append(same and again == data.decode() and isinstance(again, str))
                with c.open(f) as fh:
                    ls = [x for x in fh]
                with c.open(f, 'rb') as fh:
                    l0 = fh.readline()
                    k0 = fh.tell()
                    fh.seek(k0)
                    rest = fh.read()
                want = data.decode().splitlines(True)
                lines.append(ls == want and l0 + rest == data and k0 == len(want[0].encode() if want else b''))
            except Exception as e:
                for x, d in ((sizes, -2), (stats, -2), (blocks, [{'t': -9, 'n': 0}]), (text, False), (lines, False), (mtimes, False)):
                    if len(x) < n:
                        x.append(d)
        self.rec.ev('see', names=names, sizes=sizes, stats=stats, blocks=blocks, text=text, lines=lines, mtimes=mtimes,
                    absent=absent)

    def do(self, o, probe):
        if o['op'] == 'write':
            nested = self.rng.randrange(1, 5) if self.rng.random() < 0.2 else 0
            self.write(o['n'], o['mode'], o['k'], o['fail'], nested, probe and self.rng.random() < 0.4)
        elif o['op'] == 'remove':
            try:
                self.cache.remove(NAMES[o['n']])
                e = ''
            except Exception as ex:
                e = type(ex).__name__
            self.rec.ev('remove', n=o['n'], exc=e)
        elif o['op'] == 'read':
            err(lambda: self.cache.open(NAMES[o['n']], 'r').__enter__())
        elif o['op'] == 'reopen':
            self.make(o['k'])
            self.rec.ev('reopen', k=o['k'])
        self.see()
        if probe:
            if hasattr(self, 'late'):
                self.late.join(20)
            self.rec.ev('unlocked', ok=self.reachable(20))


def exact(size):
    return size // UNIT if size % UNIT == 0 else -3


def counting(rec, rng, top, procs, threads, reps):
    """Everyone takes the cache, reads a number and writes it back one higher."""
    d = os.path.join(top, 'n%d' % rec.n)
    rec.begin(kind='count', names=4, limit=0, src='count')
    cache = FileCache(d)
    with cache.open('number', 'w') as fh:
        fh.write('0')

    def work(c):
        for _ in range(reps):
            with c.open('guard', 'a') as g:
                with c.open('number', 'r') as fh:
                    v = int(fh.read() or '0')
                time.sleep(0.0005)
                with c.open('number', 'w') as fh:
                    fh.write('%d' % (v+1))
                g.write('.')

    pids = []
    for p in range(procs):
        pid = os.fork()
        if pid == 0:
            try:
                c = FileCache(d)
                ts = [threading.Thread(target=work, args=(c,)) for _ in range(threads)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    try:
        with cache.open('number', 'r') as fh:
            got = int(fh.read() or '0')
        size = cache.getsize('guard')
    except Exception:
        got = size = -1
    rec.ev('count', got=got, want=procs*threads*reps)
    rec.ev('count', got=size, want=procs*threads*reps)


def run(job, rec, rng):
    top = tempfile.mkdtemp()
    try:
        for i in range(job['count'] // job['shards']):
            counting(rec, rng, top, *rng.choice([(1, 4, 6), (2, 2, 6), (3, 1, 6)]))
        for i, b in enumerate(mine(job, job['behaviours'])):
            ep = Episode(rec, rng, 'file' if i % 2 else 'memory', b[0]['k'], 'tlc', top)
            for o in b[1:]:
                ep.do(o, False)
            if ep.kind == 'file':
                shutil.rmtree(ep.dir, ignore_errors=True)
        for i in range(job['random'] // job['shards']):
            ep = Episode(rec, rng, rng.choice(['file', 'memory']), rng.choice([0, 1, 3, 6, 10]), 'random', top)
            probe = i < job['probe'] // job['shards']
            for _ in range(8 if probe else rng.randrange(5, 40)):
                r = rng.random()
                n = rng.randrange(1, 5)
                if r < 0.75:
                    o = {'op': 'write', 'n': n, 'mode': rng.choice('wa'), 'k': rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), 'fail': rng.random() < 0.25}
                elif r < 0.87:
                    o = {'op': 'remove', 'n': n}
                elif r < 0.95:
                    o = {'op': 'read', 'n': n}
                else:
                    o = {'op': 'reopen', 'k': rng.choice([0, 1, 3, 6, 10])}
                ep.do(o, probe)
            if ep.kind == 'file':
                shutil.rmtree(ep.dir, ignore_errors=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


main(run)
