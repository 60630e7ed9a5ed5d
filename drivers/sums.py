"""Frames that are added, divided, compared and sorted: what every one of them holds afterwards."""
import operator

import numpy as np
from lsl.reader import drx, drx8, tbx, vdif, cor, drspec
from lsl.reader.base import FrameTimestamp
from vf import drv

FS, BASE, U = 196000000, 1514764800 + 86400*40, 8
OPS = {'+': (operator.add, operator.iadd), '-': (operator.sub, operator.isub), '*': (operator.mul, operator.imul), '/': (operator.truediv, operator.itruediv), '//': (operator.floordiv, operator.ifloordiv)}
BITS = {'XX': 1, 'XY_real': 2, 'XY_imag': 4, 'YY': 8, 'I': 16, 'Q': 32, 'U': 64, 'V': 128}
TAG = {'drx': 'drx_id', 'drx8': 'drx_id', 'tbx': 'frame_id', 'vdif': 'thread_id', 'real': 'thread_id', 'cor': 'first_chan', 'spec': 'beam'}


class Held(object):
    def __init__(self, kind, prods, f, off=0):
        self.kind, self.prods, self.f, self.off = kind, prods, f, off

    def set(self, t, tag, valid):
        f = self.f
        if self.kind in ('vdif', 'real'):
            f.header.ref_epoch = 36
            f.header.seconds_from_epoch = BASE - 1514764800 + t//2
        else:
            f.payload.timetag = (BASE + t//2)*FS + t % 2 + self.off     # an odd time is one sample later
        setattr(f.header, TAG[self.kind], tag)
        f.valid = valid

    def get(self):
        f = self.f
        if self.kind == 'spec':
            x = np.concatenate([getattr(f.payload, p + str(t)) for p in self.prods for t in (0, 1)])
        else:
            x = f.payload.data
        good = str(x.dtype) == ('float32' if self.kind in ('spec', 'real') else 'complex64')
        def q(v):
            v = float(v)*U
            if not np.isfinite(v) or not good:
                return 999999999
            r = int(round(v))
            return r if abs(v - r) < 0.1 else 900000000
        y = np.asarray(x, dtype=np.complex128).ravel()
        sec, tick = divmod(int(f.time.dp_timetag) - BASE*FS, FS)
        return {'kind': self.kind, 'prods': list(f.data_products) if self.kind == 'spec' else [], 't': 2*sec + tick if tick in (0, 1) else -1, 'valid': bool(f.valid), 'tag': int(getattr(f.header, TAG[self.kind])),
                'd': [[q(v.real), q(v.imag)] for v in y]}


def make(fr, rng):
    k, d = fr['kind'], np.array([complex(a, b)/U for a, b in fr['d']])
    off = 0
    if k == 'spec':
        off = rng.choice([0, 6660])
        f = drspec.Frame(header=drspec.FrameHeader(beam=1, format=sum(BITS[p] for p in fr['prods']), decimation=10, time_offset=off, nints=4), payload=drspec.FramePayload(timetag=0))
        d = d.real.astype(np.float32).reshape(2*len(fr['prods']), 2)
        n = 0
        for p in fr['prods']:
            for t in (0, 1):
                setattr(f.payload, p + str(t), d[n, :].copy())
                n += 1
    elif k in ('drx', 'drx8'):
        m = {'drx': drx, 'drx8': drx8}[k]
        off = rng.choice([0, 6660])
        f = m.Frame(header=m.FrameHeader(frame_count=0, drx_id=1, second_count=0, decimation=10, time_offset=off), payload=m.FramePayload(timetag=0, tuning_word=1, flags=0, iq=d.astype(np.complex64)))
    elif k == 'tbx':
        f = tbx.Frame(header=tbx.FrameHeader(frame_id=1, frame_count=0, second_count=0, first_chan=0, nstand=3, nchan=1), payload=tbx.FramePayload(timetag=0, fDomain=d.astype(np.complex64).reshape(rng.choice([(3,), (1, 3), (3, 1)]))))
    elif k == 'cor':
        f = cor.Frame(header=cor.FrameHeader(adp_id=1, frame_count=0, second_count=0, first_chan=0, gain=1), payload=cor.FramePayload(timetag=0, navg=1, stand0=1, stand1=2, vis=d.astype(np.complex64)))
    else:
        f = vdif.Frame(header=vdif.FrameHeader(ref_epoch=36, sample_rate=19600000.0, nchan=1, frame_length=100, bits_per_sample=8), payload=vdif.FramePayload(data=d.astype(np.complex64) if k == 'vdif' else d.real.astype(np.float32)))
    h = Held(k, fr['prods'], f, off)
    h.set(fr['t'], fr['tag'], fr['valid'])
    return h


def number(v, rng):
    a, b = v[0]/U, v[1]/U
    if b:
        return complex(a, b)
    return rng.choice([int(a), float(a)]) if a == int(a) else float(a)


def do(hs, o, rng, res):
    op = o['op']
    if op == 'new':
        hs.append(make(o['frame'], rng))
    elif op == 'set':
        hs[o['i']-1].set(o['t'], o['tag'], o['valid'])
    elif op == 'do':
        x = hs[o['i']-1]
        if o['with'] == 'frame':
            y = hs[o['j']-1].f
            if x.kind == 'tbx' and hs[o['j']-1].kind == 'tbx':
                y.payload._data = y.payload._data.reshape(x.f.payload._data.shape)
        elif o['with'] == 'num':
            y = number(o['v'], rng)
        elif o['with'] == 'array':
            y = np.array([complex(a, b)/U for a, b in o['vals']]).reshape(x.f.payload._data.shape)
            if x.kind == 'real':
                y = y.real
        else:
            y = rng.choice(['2', None, [1, 2, 3], (1, 2, 3), {}, FrameTimestamp(BASE)])
        keep = y.copy() if isinstance(y, np.ndarray) else None
        r = OPS[o['f']][1 if o['inplace'] else 0](x.f, y)
        res['same'] = r is x.f
        if keep is not None and not np.array_equal(keep, y):
            res['same'] = not o['inplace']
        if r is not x.f:
            hs.append(Held(x.kind, x.prods, r, x.off))
    elif op == 'cmp':
        x = hs[o['i']-1].f
        w = o['with']
        y = hs[o['j']-1].f if w == 'frame' else FrameTimestamp(BASE + o['t']//2) if w == 'stamp' else BASE + o['t']//2 if w == 'int' else float(BASE + o['t']//2)
        if w in ('int', 'float') and rng.random() < 0.3:
            y = np.int64(y) if w == 'int' else np.float64(y)
        res['r'] = {k: bool(getattr(operator, k)(x, y)) for k in ('lt', 'le', 'eq', 'ne', 'ge', 'gt')}
    elif op == 'sort':
        ids = {id(h.f): n for n, h in enumerate(hs, 1)}
        res['r'] = [ids[id(f)] for f in sorted([h.f for h in hs])]


def run(job, rec, rng):
    for beh in drv.mine(job, job['behaviours']):
        rec.begin()
        hs = []
        for o in beh['ops']:
            res = {'same': False, 'exc': ''}
            try:
                with np.errstate(all='ignore'):
                    do(hs, o, rng, res)
            except Exception as e:
                res['exc'] = type(e).__name__
            rec.ev('do', o=o, all=[h.get() for h in hs], **res)


drv.main(run)
