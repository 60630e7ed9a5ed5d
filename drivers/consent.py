"""Runs sessions that count calls, are turned on and off, end and die, and sends what they wrote down."""
import io
import os
import sys
import glob
import json
import time
import fcntl
import select
import shutil
import signal
import atexit
import resource
import warnings
import tempfile
import threading
import contextlib
import subprocess
import urllib.parse
import urllib.request
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import drv
warnings.simplefilter('ignore')
import uuid, inspect, logging, runpy, argparse, numpy           # (the sessions find them loaded)

SCRATCH = tempfile.mkdtemp(prefix='consent-', dir=os.environ.get('HOME', '/tmp'))
HOME = os.path.join(SCRATCH, 'lsl')
CACHE = os.path.join(HOME, 'telemetry_cache')
WEEK = 8 * 86400

CODE = '''
from lsl.misc import telemetry
import time
@telemetry.track_function
def fn(x):
    "the doc"
    return x + 1
@telemetry.track_function_timed
def fnt(x, y=2):
    time.sleep(0.0005)
    return x + y
@telemetry.track_function
def bad(x):
    raise KeyError(x)
class Thing(object):
    @telemetry.track_method
    def meth(self, x):
        return x + 3
    @telemetry.track_method_timed
    def metht(self, x):
        time.sleep(0.0005)
        return x + 4
@telemetry.track_class
class Klass(object):
    def __init__(self, x, y=1):
        self.x = x + y
class Sub(Klass):
    def __init__(self, x):
        Klass.__init__(self, x, 5)
def script():
    telemetry.track_script()
def module():
    telemetry.track_module()
'''
NAMES = {'lsl.vfmod.fn()': 'fn', 'lsl.vfmod.fnt()': 'fnt', 'lsl.vfmod.Thing.meth()': 'meth', 'lsl.vfmod.Thing.metht()': 'metht',
         'lsl.vfmod.Klass': 'cls', 'lsl.scripts.vfscript.py': 'script', 'lsl.vfmod': 'module'}
KINDS = sorted(NAMES.values())


# ---- in a session ----
def module(name):
    m = types.ModuleType(name)
    m.__file__ = '/somewhere/vfscript.py'
    exec(CODE, m.__dict__)
    return m


def once(m, f, k):
    """One call; whether it came out as it should."""
    if k == 'fn':
        return m.fn(4) == 5 and m.fn.__name__ == 'fn' and m.fn.__doc__ == 'the doc'
    if k == 'fnt':
        return m.fnt(4, y=5) == 9
    if k == 'meth':
        return m.Thing().meth(1) == 4
    if k == 'metht':
        return m.Thing().metht(1) == 5
    if k == 'cls':
        return m.Klass(2, y=3).x == 5
    if k == 'sub':
        return m.Sub(2).x == 7
    if k == 'script':
        m.script()
        return True
    if k == 'module':
        m.module()
        return True
    if k == 'foreign':
        return f.fn(4) == 5 and f.Thing().meth(1) == 4
    try:
        m.bad('why')
    except KeyError as e:
        return e.args == ('why',)
    return False


def session(fin, fout):
    signal.alarm(120)
    atexit._clear()
    for k in [k for k in sys.modules if k == 'lsl' or k.startswith('lsl.')]:
        del sys.modules[k]
    os.environ['LSLCONFIGDIR'] = HOME
    warnings.simplefilter('ignore')
    sys.setswitchinterval(1e-5)
    spawned = []
    real = subprocess.Popen

    def spawn(args, *a, **kw):
        if '_telemetry_send' in str(args):
            spawned.append(args)
            return None
        return real(args, *a, **kw)
    subprocess.Popen = spawn
    fin, fout = os.fdopen(fin, 'r'), os.fdopen(fout, 'w')

    def say(**kw):
        fout.write(json_dumps(kw) + '\n')
        fout.flush()
    json_dumps = json.dumps
    stop = {'at': None}

    def dumps(*a, **kw):
        if stop['at']:
            stop['at'] = None
            say(paused=True)
            fin.readline()
        return json_dumps(*a, **kw)
    json.dumps = dumps
    first = json.loads(fin.readline())
    if first['op'] == 'cli':
        sys.argv = ['telemetry'] + ([first['a']] if first['a'] else [])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            runpy.run_module('lsl.misc.telemetry', run_name='__main__')
        atexit._run_exitfuncs()
        say(active='in-active' not in out.getvalue() and 'active' in out.getvalue(), out=out.getvalue())
        os._exit(0)
    from lsl.misc import telemetry
    m, f = module('lsl.vfmod'), module('other.vfmod')
    with contextlib.suppress(Exception):
        logging.disable(logging.CRITICAL)
    say(active=bool(telemetry.is_active()), spawned=bool(spawned), key=telemetry._INSTALL_KEY)
    while True:
        o = json.loads(fin.readline())
        op = o['op']
        if op in ('call', 'calls'):
            ks = [o['k']] if op == 'call' else o['ks']
            res = []

            def work(n):
                for i in range(n):
                    for k in ks:
                        res.append(once(m, f, k))
            if o.get('t', 1) == 1:
                work(o['n'])
            else:
                ts = [threading.Thread(target=work, args=(o['n'],)) for i in range(o['t'])]
                [t.start() for t in ts]
                [t.join() for t in ts]
            say(ret=all(res) and len(res) == o['n'] * o.get('t', 1) * len(ks), active=bool(telemetry.is_active()))
        elif op in ('ignore', 'disable', 'enable'):
            getattr(telemetry, op)()
            say(active=bool(telemetry.is_active()))
        elif op == 'limit':
            resource.setrlimit(resource.RLIMIT_FSIZE, (o['n'] if o['n'] >= 0 else resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            say()
        elif op == 'exit':
            stop['at'] = o['pause']
            atexit._run_exitfuncs()
            say(done=True)
            os._exit(0)


class Session(object):
    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                os.close(b)
                os.close(c)
                session(a, d)
            except BaseException as e:
                os.write(d, (json.dumps({'exc': type(e).__name__, 'm': str(e)[:200]}) + '\n').encode())
            finally:
                os._exit(3)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, 'w'), os.fdopen(c, 'r')

    def ask(self, **kw):
        self.w.write(json.dumps(kw) + '\n')
        self.w.flush()
        return self.hear()

    def hear(self):
        line = self.r.readline()
        if not line:
            return {'exc': 'died'}
        return json.loads(line)

    def end(self, kill=False):
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        self.w.close()
        self.r.close()


# ---- the world ----
class World(object):
    def __init__(self):
        self.got = []

    def look(self):
        """What the logs hold and what the server has been told."""
        out = {'disk': dict.fromkeys(KINDS, 0), 'got': dict.fromkeys(KINDS, 0), 'timed': dict.fromkeys(KINDS, 0), 'strange': [], 'keys': True}
        logs = []
        for fn in glob.glob(os.path.join(CACHE, 'telemetry_*.log')):
            with contextlib.suppress(Exception):
                logs.append(json.load(open(fn)))
        key = None
        with contextlib.suppress(OSError):
            key = open(os.path.join(CACHE, 'install.key')).read().strip()
        for where, ps in (('disk', logs), ('got', self.got)):
            for p in ps:
                out['keys'] = out['keys'] and p['install_key'] == key
                for n, c in p['calls'].items():
                    if n in NAMES:
                        out[where][NAMES[n]] += c['total_count']
                        out['timed'][NAMES[n]] += c['timed_count']
                    elif 'vf' in n:
                        out['strange'].append(n)
        return out

    def old(self):
        ok = [fn for fn in glob.glob(os.path.join(CACHE, 'telemetry_*.log'))]
        read = 0
        for fn in ok:
            with contextlib.suppress(Exception):
                json.load(open(fn))
                read += 1
        return bool(read) and max(time.time() - os.path.getmtime(fn) for fn in ok) > 7 * 86400

    def age(self):
        for fn in glob.glob(os.path.join(CACHE, 'telemetry_*.log')):
            t = time.time() - WEEK
            os.utime(fn, (t, t))

    def send(self, f, mid=None):
        """A sender; what the server is told comes over a pipe, and it waits in the middle."""
        hold = None
        if f == 'locked':
            hold = open(os.path.join(CACHE, 'send.lock'), 'w')
            fcntl.flock(hold, fcntl.LOCK_EX)
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(60)
                if hold is not None:
                    os.close(hold.fileno())
                atexit._clear()
                for k in [k for k in sys.modules if k == 'lsl' or k.startswith('lsl.')]:
                    del sys.modules[k]
                os.environ['LSLCONFIGDIR'] = HOME

                def urlopen(url, data=None, timeout=None, **kw):
                    if hasattr(url, 'data'):
                        data = url.data
                    body = urllib.parse.parse_qs(data.decode())['payload'][0].encode()
                    os.write(b, b'%i\n' % len(body))
                    k = 0
                    while k < len(body):
                        k += os.write(b, body[k:k + 4096])
                    os.read(c, 1)
                    if f in ('error', 'ackloss'):
                        raise OSError('the network is gone')
                    return io.BytesIO(b'' if f == 'ok' else b'come back later')
                urllib.request.urlopen = urlopen
                from lsl.misc import _telemetry_send as ts
                ts.main(CACHE, 5)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(b)
        os.close(c)
        ps = None
        with os.fdopen(a, 'rb') as fh:
            n = fh.readline()
            if n:
                ps = json.loads(fh.read(int(n)))
                if mid:
                    mid()
                if f in ('ok', 'ackloss'):
                    self.got.extend(ps)
                os.write(d, b'x')
        os.close(d)
        _, st = os.waitpid(pid, 0)
        if hold is not None:
            hold.close()
        if mid and ps is None:
            mid()
        return ps is not None, st


def run(job, rec, rng):
    assert SCRATCH.startswith(os.environ['HOME'])
    for b in drv.mine(job, job['behaviours']):
        shutil.rmtree(HOME, ignore_errors=True)
        os.makedirs(HOME)
        cfgfile = os.path.join(HOME, 'lsl.cfg')
        with open(cfgfile, 'w') as fh:
            fh.write('[ telemetry ]\nenabled = %s\nmax_entries = %i\ntimeout = 5\n' % (b['cfg'], b['max']))
        os.utime(cfgfile, (1e9, 1e9))
        rec.begin(cfg=b['cfg'])
        w = World()
        live = {}

        def fail(r):
            if 'exc' in r:
                raise RuntimeError('session: %s' % r)
            return r

        def start(s):
            live[s] = Session()
            r = fail(live[s].ask(op='start'))
            rec.ev('start', s=s, active=r['active'], spawned=r['spawned'], key=r['key'], **w.look())

        def leave(s, mid='none', f='ok'):
            x = live.pop(s)
            r = fail(x.ask(op='exit', pause=mid != 'none'))
            end = 'exit'
            if r.get('paused'):
                if mid == 'send':
                    send(f, None, True)
                if mid == 'kill':
                    end = 'killed'
                else:
                    fail(x.ask(op='go'))
            x.end(kill=end == 'killed')
            rec.ev('exit', s=s, end=end, **w.look())

        def send(f, mid, aged):
            if aged:
                w.age()
            old = w.old()
            sent, st = w.send(f, (lambda: leave(mid)) if mid in live else None)
            if st:
                raise RuntimeError('sender: %s' % st)
            rec.ev('send', f=f, sent=sent, old=old, **w.look())
        try:
            for o in b['ops']:
                op = o['op']
                s = o.get('s')
                if op == 'start':
                    if s not in live:
                        start(s)
                elif op in ('call', 'calls', 'ignore', 'disable', 'enable', 'full'):
                    if s not in live:
                        start(s)
                    if op == 'full':
                        fail(live[s].ask(op='limit', n=rng.choice((0, 1, 60, 200))))
                        r = fail(live[s].ask(op='calls', ks=['fn', 'fnt', 'metht'], n=1))
                        fail(live[s].ask(op='limit', n=-1))
                        rec.ev('calls', s=s, ks=['fn', 'fnt', 'metht'], n=1, ret=r['ret'], active=r['active'], **w.look())
                    elif op == 'call':
                        r = fail(live[s].ask(**o))
                        rec.ev('call', s=s, k=o['k'], n=o['n'] * o['t'], ret=r['ret'], active=r['active'], **w.look())
                    elif op == 'calls':
                        r = fail(live[s].ask(**o))
                        rec.ev('calls', s=s, ks=o['ks'], n=o['n'], ret=r['ret'], active=r['active'], **w.look())
                    else:
                        r = fail(live[s].ask(**o))
                        rec.ev(op, s=s, active=r['active'], **w.look())
                elif op == 'exit':
                    if s in live:
                        leave(s, o['mid'], o['f'])
                elif op == 'kill':
                    if s in live:
                        live.pop(s).end(kill=True)
                        rec.ev('kill', s=s, **w.look())
                elif op == 'send':
                    if os.path.isdir(CACHE):
                        send(o['f'], o['mid'], o['aged'])
                elif op == 'junk':
                    if os.path.isdir(CACHE):
                        with open(os.path.join(CACHE, 'telemetry_%i_1.log' % rng.randrange(1000)), 'w') as fh:
                            fh.write(rng.choice(('', '{"timestamp": 1, "calls": {"lsl.vfm', 'nothing')))
                        rec.ev('junk', **w.look())
                elif op == 'cli':
                    x = Session()
                    r = fail(x.ask(op='cli', a=o['a']))
                    x.end()
                    rec.ev('cli', a=o['a'], active=r['active'], **w.look())
            for s in sorted(live):
                leave(s)
            if os.path.isdir(CACHE):
                send('ok', None, True)
        finally:
            for s in list(live):
                live.pop(s).end(kill=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


drv.main(run)
