"""
Drives the five frame buffers of lsl.reader.buffer and records what they do.
"""
import copy
import numpy as np

from vf.drv import main, mine
from lsl.reader import buffer as B
from lsl.reader import drx, drx8, cor, vdif, tbx
from lsl.reader.base import CI8


class SmallCOR(B.CORFrameBuffer):
    """A two-stand correlator; get_max_frames() is the documented extension point."""
    def get_max_frames(self):
        self.stands = [1, 2]
        return B.CORFrameBuffer.get_max_frames(self)


class DRXKind(object):
    mod = drx
    flag = 0

    def __init__(self, rng, small):
        self.ci8 = rng.random() < 0.3
        self.plain = rng.random() < 0.5
        self.beams = [rng.randrange(1, 5)] if rng.random() < 0.8 else sorted(rng.sample(range(1, 5), 2))
        self.tunes = [1, 2] if rng.random() < 0.7 else [rng.choice([1, 2])]
        self.pols = [0, 1] if rng.random() < 0.7 else [rng.choice([0, 1])]
        if small:
            self.beams, self.tunes, self.pols = [rng.randrange(1, 5)], rng.choice([[1, 2], [1], [2]]), [0, 1]
            if len(self.tunes) == 2:
                self.pols = [rng.choice([0, 1])]
        self.ids = [(b, t, p) for b in sorted(self.beams) for t in sorted(self.tunes) for p in sorted(self.pols)]
        self.decim = rng.choice([784, 392, 10, 20])
        self.t0 = 257355782095018376 + rng.randrange(10**9)
        self.floor_ok = True

    def make(self, nseg, reorder):
        cls = B.DRXFrameBuffer if self.flag == 0 else B.DRX8FrameBuffer
        kw = {'tunes': self.tunes, 'pols': self.pols}
        if self.plain:
            # both tunings and both polarizations are what it takes by itself
            kw = {k: v for k, v in kw.items() if len(v) == 1}
        return cls(beams=self.beams, nsegments=nseg, reorder=reorder, **kw)

    def tag(self, t):
        return self.t0 + t * 4096 * self.decim if t > 0 else 12345 + t

    def frame(self, t, i, s):
        b, tu, p = self.ids[i-1]
        h = self.mod.FrameHeader(frame_count=0, drx_id=b | (tu << 3) | self.flag | (p << 7),
                                 second_count=0, decimation=self.decim, time_offset=77)
        if self.ci8:
            d = np.zeros(16, dtype=CI8)
            d['re'] = s % 100 + 1
            d['im'] = -(s // 100) - 1
        else:
            d = np.full(16, s+1j, dtype=np.complex64)
        pl = self.mod.FramePayload(timetag=self.tag(t), tuning_word=1234567, flags=3, iq=d)
        return self.mod.Frame(header=h, payload=pl)

    def ident(self, f):
        return self.ids.index(f.id) + 1 if f.id in self.ids else 0

    def time(self, f):
        return (f.payload.timetag - self.t0) // (4096*self.decim) if (f.payload.timetag - self.t0) % (4096*self.decim) == 0 else -9

    def serial(self, f):
        d = f.payload.data
        if d.shape != (16,):
            return -2
        if self.ci8:
            if (d['re'] == 0).all() and (d['im'] == 0).all():
                return 0
            s = int(d['re'][0]) - 1 + 100*(-int(d['im'][0]) - 1)
            return s if (d['re'] == d['re'][0]).all() and (d['im'] == d['im'][0]).all() else -1
        if (d == 0).all():
            return 0
        return int(d[0].real) if (d == d[0]).all() and d[0].imag == 1 else -1

    def attrs(self, f):
        return bool(f.header.decimation == self.decim and f.header.time_offset == 77
                    and f.payload.tuning_word == 1234567
                    and (f.header.drx_id & 0x40) == self.flag)


class DRX8Kind(DRXKind):
    mod = drx8
    flag = 0x40


class CORKind(object):
    floor_ok = False

    def __init__(self, rng, small):
        n = 1 if small else rng.choice([1, 2])
        self.chans = sorted(rng.sample(range(0, 4096-132), n))
        self.ids = [(a, b, c) for (a, b) in ((1, 1), (1, 2), (2, 2)) for c in self.chans]
        self.t0 = 257355782095018376 + rng.randrange(10**9)

    def make(self, nseg, reorder):
        return SmallCOR(self.chans, nsegments=nseg, reorder=reorder)

    def tag(self, t):
        return self.t0 + t*980000000

    def frame(self, t, i, s):
        a, b, c = self.ids[i-1]
        h = cor.FrameHeader(adp_id=2, frame_count=1, second_count=2, first_chan=c, gain=4)
        pl = cor.FramePayload(timetag=self.tag(t), navg=50000, stand0=a, stand1=b,
                              vis=np.full((4, 2, 2), s+1j, dtype=np.complex64))
        return cor.Frame(header=h, payload=pl)

    def ident(self, f):
        i = f.id + (f.header.first_chan,)
        return self.ids.index(i) + 1 if i in self.ids else 0

    def time(self, f):
        d = f.payload.timetag - self.t0
        return d // 980000000 if d % 980000000 == 0 else -9

    def serial(self, f):
        d = f.payload.data
        if d.shape != (4, 2, 2):
            return -2
        if (d == 0).all():
            return 0
        return int(d.flat[0].real) if (d == d.flat[0]).all() and d.flat[0].imag == 1 else -1

    def attrs(self, f):
        return bool(f.payload.navg == 50000 and f.header.gain == 4 and f.is_cor)


class TBXKind(object):
    floor_ok = False

    def __init__(self, rng, small):
        self.ci8 = rng.random() < 0.3
        n = 2 if small else rng.choice([1, 2, 3, 4])
        self.ids = sorted(rng.sample(range(0, 4096-16), n))
        self.t0 = 257355782095018376 + rng.randrange(10**9)

    def make(self, nseg, reorder):
        return B.TBXFrameBuffer(self.ids, nsegments=nseg, reorder=reorder)

    def tag(self, t):
        return self.t0 + t*7840

    def frame(self, t, i, s):
        h = tbx.FrameHeader(frame_id=8, frame_count=1, second_count=2, first_chan=self.ids[i-1], nstand=2, nchan=4)
        if self.ci8:
            d = np.zeros((4, 2, 2), dtype=CI8)
            d['re'] = s % 100 + 1
            d['im'] = -(s // 100) - 1
        else:
            d = np.full((4, 2, 2), s+1j, dtype=np.complex64)
        pl = tbx.FramePayload(timetag=self.tag(t), fDomain=d)
        return tbx.Frame(header=h, payload=pl)

    def ident(self, f):
        i = f.header.first_chan
        return self.ids.index(i) + 1 if i in self.ids else 0

    def time(self, f):
        d = f.payload.timetag - self.t0
        return d // 7840 if d % 7840 == 0 else -9

    def serial(self, f):
        d = f.payload.data
        if d.shape != (4, 2, 2):
            return -2
        if self.ci8:
            if (d['re'] == 0).all() and (d['im'] == 0).all():
                return 0
            r, i = d['re'].ravel(), d['im'].ravel()
            return int(r[0]) - 1 + 100*(-int(i[0]) - 1) if (r == r[0]).all() and (i == i[0]).all() else -1
        return CORKind.serial(self, f)

    def attrs(self, f):
        return bool(f.header.nstand == 2 and f.header.nchan == 4 and f.is_tbx)


class VDIFKind(object):
    floor_ok = False

    def __init__(self, rng, small):
        n = 2 if small else rng.choice([1, 2, 3, 4])
        self.ids = sorted(rng.sample(range(0, 1024), n))
        self.station = rng.randrange(1, 9)
        self.epoch = rng.randrange(10**6, 2*10**7)
        self.fps = rng.choice([3, 5, 1000, 25600, 100000])
        # the stream starts shortly before the end of a second
        self.off = self.fps - rng.randrange(2, 6) if self.fps > 5 else 0

    def make(self, nseg, reorder):
        return B.VDIFFrameBuffer(threads=self.ids, nsegments=nseg, reorder=reorder)

    def frame(self, t, i, s):
        # t counts frames; fps of them make a second, so slots cross second borders
        h = vdif.FrameHeader(is_invalid=0, is_legacy=0, seconds_from_epoch=self.epoch + (t+self.off)//self.fps, ref_epoch=30,
                             frame_in_second=(t+self.off) % self.fps, version=1, nchan=1, frame_length=8, is_complex='C',
                             bits_per_sample=8, thread_id=self.ids[i-1], station_id=self.station,
                             sample_rate=1e6, central_freq=10e6)
        pl = vdif.FramePayload(data=np.full(16, s+1j, dtype=np.complex64))
        return vdif.Frame(header=h, payload=pl)

    def ident(self, f):
        i = f.id
        return self.ids.index(i[1]) + 1 if i[0] == self.station and i[1] in self.ids else 0

    def time(self, f):
        return (f.header.seconds_from_epoch - self.epoch)*self.fps + f.header.frame_in_second - self.off

    def serial(self, f):
        d = f.payload.data
        if d.shape != (16,):
            return -2
        if (d == 0).all():
            return 0
        return int(d[0].real) if (d == d[0]).all() and d[0].imag == 1 else -1

    def attrs(self, f):
        return bool(f.header.ref_epoch == 30 and f.header.bits_per_sample == 8 and f.header.sample_rate == 1e6)


KINDS = [DRXKind, DRX8Kind, CORKind, TBXKind, VDIFKind]


def play(rec, kind, k, ops, nseg, reorder, how, rng, src):
    rec.begin(kind=kind, nids=len(k.ids), nseg=nseg, reorder=reorder, src=src)
    buf = k.make(nseg, reorder)
    base = [0, 0, 0, 0]
    srt = bool(reorder and kind != 'COR')

    def proj(frames):
        return [{'t': int(k.time(f)), 'id': k.ident(f), 's': k.serial(f), 'valid': bool(f.valid),
                 'attrs': k.attrs(f)} for f in frames]

    def put(fs):
        if how == 'list':
            buf.append(list(fs))
        elif how == 'put':
            for f in fs:
                buf.put(f)
        else:
            for f in fs:
                buf.append(f)

    def stat():
        s = [buf.full - base[0], buf.partial - base[1], buf.missing - base[2], buf.dropped - base[3]]
        rec.ev('stat', full=s[0], partial=s[1], missing=s[2], dropped=s[3], empty=bool(buf.is_empty()),
               filled=bool(buf.filled), overfilled=bool(buf.overfilled))

    pend = []
    for op in ops:
        o = op['op']
        if o == 'put':
            f = k.frame(op['t'], op['id'], op['s'])
            exc = ''
            try:
                put([f])
            except Exception as e:
                exc = type(e).__name__
            rec.ev('put', t=op['t'], id=op['id'], s=op['s'], exc=exc)
        elif o in ('get', 'getoldest'):
            exc, fr = '', None
            try:
                if o == 'get':
                    fr = buf.get()
                else:
                    key = buf.peek(require_filled=False)
                    fr = buf.get(key) if key is not None else None
                fr = None if fr is None else proj(list(fr))
            except Exception as e:
                exc = type(e).__name__
                fr = None
            rec.ev(o, none=fr is None, frames=fr or [], sorted=srt, exc=exc)
        elif o == 'flush':
            exc, gr = '', []
            try:
                for fr in buf.flush():
                    gr.append(proj(list(fr)))
            except Exception as e:
                exc = type(e).__name__
            rec.ev('flush', groups=gr, sorted=srt, exc=exc)
        elif o == 'reset':
            buf.reset()
            rec.ev('reset')
            base = [buf.full, buf.partial, buf.missing, buf.dropped]
        stat()


def random_ops(rng, k, n):
    """A stream in roughly increasing time with jitter, losses, duplicates and stragglers."""
    ops, s, t = [], 0, 1
    nid = len(k.ids)
    jitter = rng.choice([0, 1, 2, 4, 8])
    loss = rng.choice([0, 0.1, 0.4])
    dup = rng.choice([0, 0.1, 0.4])
    getp = rng.choice([0.2, 0.5, 1.0])
    pend = []
    while len(ops) < n:
        for d in range(1, nid+1):
            if rng.random() < loss:
                continue
            for _ in range(2 if rng.random() < dup else 1):
                pend.append((t + rng.uniform(0, jitter), t, d))
        pend.sort()
        while pend and (pend[0][0] <= t or jitter == 0):
            _, tt, d = pend.pop(0)
            s += 1
            ops.append({'op': 'put', 't': tt, 'id': d, 's': s})
            if rng.random() < getp:
                ops.append({'op': 'get'})
        r = rng.random()
        if r < 0.02:
            ops.append({'op': 'flush'})
        elif r < 0.04:
            ops.append({'op': 'reset'})
            if rng.random() < 0.5:
                t = 1
                pend = []
        elif r < 0.08:
            ops.append({'op': 'getoldest'})
        elif r < 0.11 and t > 3:
            s += 1
            ops.append({'op': 'put', 't': rng.randrange(1, t), 'id': rng.randrange(1, nid+1), 's': s})
        elif r < 0.13 and k.floor_ok and not any(o['op'] == 'reset' for o in ops):
            s += 1
            ops.append({'op': 'put', 't': 0, 'id': 1, 's': s})
        t += 1 if rng.random() < 0.95 else rng.randrange(2, 5)
    for _, tt, d in pend:
        s += 1
        ops.append({'op': 'put', 't': tt, 'id': d, 's': s})
    ops.append({'op': 'flush'})
    return ops


def run(job, rec, rng):
    for i, ops in enumerate(mine(job, job['behaviours'])):
        # the generated behaviours use identities 1..2; give each flavour its turn
        K = KINDS[(i + job['seed']) % 5]
        k = K(rng, True)
        name = K.__name__[:-4]
        play(rec, name, k, ops, job['gen_nseg'], bool(i & 1), ['one', 'list', 'put'][i % 3], rng, 'tlc')
    for i in range(job['random'] // job['shards']):
        K = KINDS[i % 5]
        k = K(rng, False)
        name = K.__name__[:-4]
        ops = random_ops(rng, k, rng.choice([20, 40, 60]))
        play(rec, name, k, ops, rng.choice([1, 2, 3, 5]), rng.random() < 0.5,
             rng.choice(['one', 'list', 'put']), rng, 'random')


main(run)
