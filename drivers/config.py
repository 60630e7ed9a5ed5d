"""Drives lsl.config."""
import os
import re
import shutil
import tempfile
import warnings

from vf.drv import main, mine
import lsl.config as C

warnings.simplefilter('ignore')
NAMES = [None, 'download.timeout', 'telemetry.enabled', 'astro.leapsec_url', 'observing.observer_name', 'ionosphere.igs_mirror']
DEF = [None, 120, True, 'https://hpiers.obspm.fr/iers/bul/bulc/Leap_Second.dat', None, 'ftp://gssc.esa.int/gnss/products/ionex/']
STR = ['https://example.org/a?b=c#d', 'J. Q. Public', "O'Brien = 7", 'x' * 200, '[ brackets ]x', 'tab\tinside', '# not a comment', 'None', 'true', '1.2.3', '0x10', 'é']


class Values(object):
    """Maps the abstract values to real ones and back, for one episode."""

    def __init__(self, rng):
        self.m = {}
        for p in range(1, 6):
            t0 = type(DEF[p]).__name__
            self.m[p] = {('none', 0): None, ('none', 1): None,
                         ('int', 1): rng.choice([0, -5, 3, 99999, 10**12]), ('bool', 1): False,
                         ('str', 1): rng.choice(STR), ('float', 1): rng.choice([0.5, -1e-7, 1.5e30])}
            if DEF[p] is not None:
                self.m[p][(t0, 0)] = DEF[p]

    def real(self, p, x):
        return self.m[p][(x['ty'], x['v'])]

    def abstract(self, p, value):
        t = {type(None): 'none'}.get(type(value), type(value).__name__)
        if t == 'none':
            return {'ty': 'none', 'v': 0}
        for (ty, v), r in self.m[p].items():
            if ty == t and type(r) is type(value) and r == value:
                return {'ty': t, 'v': v}
        return {'ty': t, 'v': 99}


def err(fn):
    try:
        fn()
    except Exception as e:
        return type(e).__name__
    return ''


class Episode(object):
    def __init__(self, rec, rng, src, top):
        self.rec, self.rng = rec, rng
        self.dir = tempfile.mkdtemp(dir=top)
        self.fn = os.path.join(self.dir, 'lsl.cfg')
        self.vals = Values(rng)
        self.c, self.temps = {1: None, 2: None}, {1: [], 2: []}
        self.names = None
        rec.begin(kind='config', src=src)

    def tick(self):
        """Until a file written now is newer than the configuration file."""
        if not os.path.exists(self.fn):
            return
        m = os.stat(self.fn).st_mtime
        t = os.path.join(self.dir, 'tick')
        while True:
            with open(t, 'w') as fh:
                fh.write('.')
            if os.stat(t).st_mtime > m:
                return

    def look(self, s):
        c = self.c[s]
        vals = [self.vals.abstract(p, c.get(NAMES[p])) for p in range(1, 6)]
        views = True
        for p in range(1, 6):
            sec, item = NAMES[p].split('.')
            a, b = c.get(NAMES[p]), c.view(sec).get(item)
            other = c.view('ldp').get(NAMES[p])
            views = views and a is b and other is a
        others = True
        for sec in C.DEFAULTS_ALL:
            for item in C.DEFAULTS_ALL[sec]:
                n = sec+'.'+item
                if n not in NAMES:
                    v = c.get(n)
                    d = C.DEFAULTS_ALL[sec][item]['value']
                    others = others and type(v) is type(d) and v == d
        def tmp():
            with c.set_temp('no.such', 1):
                pass
        unknown = ' '.join(err(f) or 'none' for f in (lambda: c.get('no.such'), lambda: c.set('no.such', 1), tmp, lambda: c.view('nosuch')))
        return dict(vals=vals, views=bool(views), others=bool(others), unknown=unknown)

    def file(self, before):
        if not os.path.exists(self.fn):
            return dict(there=False, file=[], cur=True, wrote=False)
        st = os.stat(self.fn)
        c = C.LSLConfigContainer(self.fn)
        with open(self.fn) as fh:
            text = fh.read()
        return dict(there=True, file=[self.vals.abstract(p, c.get(NAMES[p])) for p in range(1, 6)],
                    cur=('LSL Version: %s\n' % C.lsl_version) in text, wrote=before != (st.st_mtime_ns, st.st_ino))

    def before(self):
        try:
            st = os.stat(self.fn)
            return (st.st_mtime_ns, st.st_ino)
        except OSError:
            return None

    def do(self, o):
        rng, rec = self.rng, self.rec
        op = o['op']
        before = self.before()
        if op == 'open':
            s = o['s']
            self.temps[s] = []
            e = err(lambda: self.c.__setitem__(s, C.LSLConfigContainer(self.fn)))
            rec.ev('open', s=s, exc=e, **(self.look(s) if not e else {}))
            return not e
        if op in ('set', 'temp'):
            s, p, x = o['s'], o['p'], o['x']
            c, n, v = self.c[s], NAMES[p], self.vals.real(p, x)
            sec, item = n.split('.')
            how = rng.randrange(3)
            tgt, key = [(c, n), (c.view(sec), item), (c.view('ldp'), n)][how]
            if op == 'set':
                e = err(lambda: tgt.set(key, v))
                rec.ev('set', s=s, p=p, x=x, exc=e, how=how, **self.look(s), **self.file(before))
            else:
                box = []
                def go():
                    cm = tgt.set_temp(key, v)
                    cm.__enter__()
                    box.append(cm)
                e = err(go)
                if box:
                    self.temps[s].append(box[0])
                rec.ev('temp', s=s, p=p, x=x, exc=e, how=how, **self.look(s))
        elif op == 'untemp':
            s = o['s']
            cm = self.temps[s].pop()
            ex = rng.choice([None, None, KeyError('k'), ValueError('v'), KeyboardInterrupt()])
            try:
                if ex is None:
                    cm.__exit__(None, None, None)
                    out = 'kept'
                else:
                    out = 'kept' if not cm.__exit__(type(ex), ex, None) else 'swallowed'
            except BaseException as e:
                out = type(e).__name__
            rec.ev('untemp', s=s, exc=out, **self.look(s), **self.file(before))
        elif op == 'save':
            s = o['s']
            self.tick()
            e = err(self.c[s]._save_config)
            rec.ev('save', s=s, exc=e, **self.look(s), **self.file(before))
        elif op == 'close':
            s = o['s']
            self.c[s] = None
            rec.ev('close', s=s, **self.file(before))
        elif op == 'edit':
            p, x = o['p'], o['x']
            v = self.vals.real(p, x)
            sec, item = NAMES[p].split('.')
            self.tick()
            with open(self.fn) as fh:
                lines = fh.read().split('\n')
            out, cur, done = [], None, False
            for line in lines:
                m = re.match(r'^\[ (.*) \]$', line)
                if m:
                    cur = m.group(1)
                if cur == sec and re.match(r'^#?%s *=' % item, line):
                    eq = rng.choice([' = ', '=', '  =   '])
                    line = item + eq + ('' if v is None else '%s' % v) + rng.choice(['', '  '])
                    done = True
                out.append(line)
            if not done:
                return False
            with open(self.fn, 'w') as fh:
                fh.write('\n'.join(out))
            rec.ev('edit', p=p, x=x)
        elif op == 'upgrade':
            st = os.stat(self.fn)
            with open(self.fn) as fh:
                text = fh.read()
            with open(self.fn, 'w') as fh:
                fh.write(re.sub(r'# LSL Version: .*\n', '# LSL Version: 0.0.1\n', text))
            os.utime(self.fn, ns=(st.st_atime_ns, st.st_mtime_ns))
            rec.ev('upgrade')
        return True


TYPES = {1: [('int', 0), ('int', 1)], 2: [('bool', 0), ('bool', 1)], 3: [('str', 0), ('str', 1)],
         4: [('none', 0), ('str', 1), ('int', 1)], 5: [('none', 0), ('str', 0), ('str', 1)]}


def walk(rng):
    """sessions one after another, each with a run of changes (and changes of mind) before it saves"""
    out = []
    for k in range(rng.randrange(2, 5)):
        s = rng.choice([1, 2])
        out.append({'op': 'open', 's': s})
        pool = rng.sample(range(1, 6), rng.choice([1, 2, 2, 3]))
        for i in range(rng.randrange(0, 7)):
            p = rng.choice(pool)
            t, v = rng.choice(TYPES[p])
            x = {'ty': t, 'v': v}
            if rng.random() < 0.15:
                out.append({'op': 'temp', 's': s, 'p': p, 'x': x})
                out.append({'op': 'untemp', 's': s})
            else:
                out.append({'op': 'set', 's': s, 'p': p, 'x': x})
        if k == 0 or rng.random() < 0.9:
            out.append({'op': 'save', 's': s})
            if rng.random() < 0.3:
                p = rng.choice(pool)
                t, v = rng.choice(TYPES[p])
                out.append({'op': 'set', 's': s, 'p': p, 'x': {'ty': t, 'v': v}})
                out.append({'op': 'save', 's': s})
        out.append({'op': 'close', 's': s})
        if rng.random() < 0.15:
            out.append({'op': 'upgrade'})
    return out


def run(job, rec, rng):
    top = tempfile.mkdtemp()
    try:
        for b in mine(job, job['behaviours']):
            ep = Episode(rec, rng, 'tlc', top)
            for o in b:
                if not ep.do(o):
                    break
            shutil.rmtree(ep.dir, ignore_errors=True)
        for i in mine(job, range(job.get('random', 0))):
            ep = Episode(rec, rng, 'random', top)
            for o in walk(rng):
                if not ep.do(o):
                    break
            shutil.rmtree(ep.dir, ignore_errors=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


main(run)
