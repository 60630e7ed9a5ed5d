"""Drives lsl.reader.ldp: DRXFile, DRX8File, TBXFile and DRSpecFile on synthetic recordings."""
import os
import shutil
import struct
import tempfile

import logging
import numpy as np

from vf.drv import main, mine
import lsl.reader.ldp as ldp
from lsl.reader.base import FrameTimestamp, CI8
from lsl.reader.utils import SplitFileWrapper

logging.disable(logging.CRITICAL)
FS = 196000000
T0 = 274400000000000000       # 2014, in ticks of 1/196 MHz
SYNC = bytes([0xDE, 0xC0, 0xDE, 0x5C])
DECS = [784, 392, 196, 98, 40, 20, 10]


class Format(object):
    """A format: frames of a slot and identity in, what read() returns decoded to serial numbers out."""

    def __init__(self, rng, nstand):
        self.nstand = nstand
        self.cache = {}

    def pattern(self, serial):
        if serial not in self.cache:
            r = np.random.RandomState(serial)
            self.cache[serial] = r.randint(1, self.top, size=(self.npoint, 2)) * r.choice([-1, 1], size=(self.npoint, 2))
        return self.cache[serial].astype(np.int8)

    def code(self, block, cand):
        """Serial number of a block of npoint complex samples (0: zeros, -1: something else)."""
        if block.dtype == CI8:
            b = np.ascontiguousarray(block).view(np.int8).reshape(self.npoint, 2)
        else:
            b = np.stack([block.real, block.imag], axis=1)
        if not b.any():
            return 0
        for s in cand:
            if s and np.array_equal(b, self.pattern(s)):
                return s
        return -1


class DRX(Format):
    cls, tag, top, npoint, fsize = 'DRXFile', 'drx', 8, 4096, 4128
    autofill, ring = 'drx_autofill_size', 'drx_buffer_size'
    ci8 = True

    def __init__(self, rng, nstand):
        Format.__init__(self, rng, nstand)
        self.dec = rng.choice(DECS)
        self.toff = rng.choice([0, 0, 100, 6660])
        self.beam = rng.randrange(1, 5)
        # the tuning/polarization pairs of this file
        if nstand == 4:
            self.ids = [(1, 0), (1, 1), (2, 0), (2, 1)]
        elif nstand == 2:
            self.ids = rng.choice([[(1, 0), (1, 1)], [(2, 0), (2, 1)]])
        else:
            self.ids = [rng.choice([(1, 0), (1, 1), (2, 0), (2, 1)])]
        self.skip = 4096*self.dec
        self.unit = 4096.0*self.dec/FS      # seconds a slot

    def idbyte(self, s):
        t, p = self.ids[s]
        return self.beam | (t << 3) | (p << 7)

    def payload(self, serial):
        p = self.pattern(serial)
        return (((p[:, 0] & 0xF) << 4) | (p[:, 1] & 0xF)).astype(np.uint8).tobytes()

    def frame(self, slot, s, serial):
        tt = T0 + slot*self.skip + self.toff
        return SYNC + struct.pack('>IIHHQII', (self.idbyte(s) << 24) | 0, 0, self.dec, self.toff, tt,
                                  0x40000000 + 0x10000000*self.ids[s][0], 0) + self.payload(serial)

    def decode(self, data, lookup, first, n):
        out = []
        for s in range(self.nstand):
            t, p = self.ids[s]
            row = data[2*(t-1)+p]
            out.append([self.code(row[j*4096:(j+1)*4096], lookup(first, j, s)) for j in range(n)])
        extra = any(data[a].view(np.int8).any() if data.dtype == CI8 else data[a].any()
                    for a in range(4) if (a//2+1, a % 2) not in self.ids)
        return out, extra

    def nset(self, data):
        return data.shape[1] // 4096

    def seconds(self, n):
        return n*self.unit


class DRX8(DRX):
    cls, tag, top, fsize = 'DRX8File', 'drx8', 100, 4096*2+32

    def idbyte(self, s):
        return DRX.idbyte(self, s) | 0x40

    def payload(self, serial):
        return self.pattern(serial).tobytes()


class TBX(Format):
    cls, tag, top = 'TBXFile', 'tbx', 8
    autofill, ring = 'tbx_autofill_size', 'tbx_buffer_size'
    ci8 = True
    toff = 0

    def __init__(self, rng, nstand):
        Format.__init__(self, rng, nstand)
        self.nant = 64
        self.nchan = rng.choice([4, 8])
        self.npoint = self.nchan*self.nant*2
        self.fsize = 4+4+4+4+2+2+8 + self.npoint
        self.skip = rng.choice([8192, 8192, 7840])
        self.unit = self.skip/float(FS)
        self.chan0 = rng.randrange(100, 2000)
        self.toff = 0

    def frame(self, slot, s, serial):
        p = self.pattern(serial)
        b = (((p[:, 0] & 0xF) << 4) | (p[:, 1] & 0xF)).astype(np.uint8).tobytes()
        return SYNC + struct.pack('>IIIHHq', (0x08 << 24) | (slot + 1), 0, self.chan0 + s*self.nchan, self.nant,
                                  self.nchan, T0 + slot*self.skip) + b

    def decode(self, data, lookup, first, n):
        out = []
        for s in range(self.nstand):
            row = []
            for j in range(n):
                b = data[:, s*self.nchan:(s+1)*self.nchan, j].T.reshape(-1)
                row.append(self.code(b, lookup(first, j, s)))
            out.append(row)
        return out, data.shape[0] != 2*self.nant or data.shape[1] != self.nstand*self.nchan

    def nset(self, data):
        return data.shape[2]


class DRSpec(Format):
    cls, tag = 'DRSpecFile', 'drspec'
    autofill = ring = None
    ci8 = False

    def __init__(self, rng, nstand):
        self.fmt, self.nprod = {2: (rng.choice([0x01, 0x10, 0x08]), 1), 4: (0x09, 2)}[nstand]
        Format.__init__(self, rng, nstand)
        self.lfft = rng.choice([32, 64])
        self.nint = rng.choice([64, 128, 768])
        self.dec = rng.choice(DECS)
        self.toff = rng.choice([0, 50])
        self.fills = 4
        self.skip = self.dec*self.lfft*self.nint
        self.unit = self.skip/float(FS)
        self.npoint = self.lfft
        self.fsize = 76 + 4*2*self.nprod*self.lfft

    def vals(self, serial):
        if serial not in self.cache:
            self.cache[serial] = np.random.RandomState(serial).randint(1, 1000, size=self.lfft).astype(np.float32)
        return self.cache[serial]

    def slot_frame(self, slot, serials):
        h = struct.pack('<IQHHII4I4BBBBBII4II', 0xC0DEC0DE, T0 + slot*self.skip + self.toff, self.toff, self.dec, 1 << 30,
                        2 << 30 - 1, *([self.fills]*4 + [0]*4 + [2, self.fmt, 3, 0, self.lfft, self.nint] + [0]*4
                                       + [0xED0CED0C]))
        d = np.zeros((2, self.lfft, self.nprod), dtype=np.float32)
        for t in range(2):
            for p in range(self.nprod):
                d[t, :, p] = self.vals(serials[t*self.nprod + p])*self.lfft*self.fills
        return h + d.tobytes()

    def decode(self, data, lookup, first, n):
        out = []
        for s in range(self.nstand):
            row = []
            for j in range(n):
                b = data[s, j, :]
                if not b.any():
                    row.append(0)
                    continue
                hit = [x for x in lookup(first, j, s) if x and np.array_equal(self.vals(x), b)]
                row.append(hit[0] if hit else -1)
            out.append(row)
        return out, data.shape[0] != self.nstand

    def nset(self, data):
        return data.shape[1]


FORMATS = {'drx': DRX, 'drx8': DRX8, 'tbx': TBX, 'drspec': DRSpec}


def assemble(fmt, slots, order, lead, tail):
    out = [lead]
    if fmt.tag == 'drspec':
        for i, sl in enumerate(slots):
            if any(sl):
                out.append(fmt.slot_frame(i, sl))
        out.append(fmt.slot_frame(len(slots), [9999]*fmt.nstand)[:tail])
    else:
        for (i, s) in order:
            out.append(fmt.frame(i, s, slots[i][s]))
        out.append(fmt.frame(len(slots), 0, 9999)[:tail])
    return b''.join(out)


def play(rec, rng, spec):
    """spec: fmt, nstand, slots, order, ring, fill, ignore, lead, tail, cuts, ops"""
    fmt = FORMATS[spec['fmt']](rng, spec['nstand'])
    slots = spec['slots']
    d = tempfile.mkdtemp()
    obj = None
    try:
        raw = assemble(fmt, slots, spec['order'], spec['lead'], spec['tail'] if spec['tail'] < fmt.fsize else fmt.fsize-1)
        names = []
        cuts = sorted(set([0] + [int(c*len(raw)) for c in spec['cuts']] + [len(raw)]))
        for i in range(len(cuts)-1):
            names.append(os.path.join(d, 'f_%03d' % i))
            with open(names[-1], 'wb') as fh:
                fh.write(raw[cuts[i]:cuts[i+1]])
        if fmt.ring:
            ldp.LDP_CONFIG.set(fmt.ring, spec['ring'])
            ldp.LDP_CONFIG.set(fmt.autofill, spec['fill'])
        # what is really in the file: up to the last slot with something in it
        inorder = spec['order'] == sorted(spec['order'])
        complete = all(all(sl) for sl in slots)
        margin = spec['ring'] + (32 // spec['nstand'] if spec['fmt'].startswith('drx') else 2) + 2
        rec.begin(fmt=spec['fmt'], slots=slots, ns=spec['nstand'], fill=spec['fill'] if fmt.ring else 1, ignore=spec['ignore'],
                  ring=spec['ring'], exact=spec['fmt'] != 'tbx', parts=len(names), lead=len(spec['lead']), tail=spec['tail'],
                  complete=complete, offmargin=margin, src=spec['src'], skip=fmt.skip, inorder=inorder)
        exc = ''
        try:
            if len(names) > 1:
                fh = SplitFileWrapper(names, sort=False)
                obj = getattr(ldp, fmt.cls)(fh=fh, ignore_timetag_errors=spec['ignore'])
            else:
                obj = getattr(ldp, fmt.cls)(names[0], ignore_timetag_errors=spec['ignore'])
        except Exception as e:
            exc = type(e).__name__
            rec.ev('open', exc=exc, start=0, nframe=0)
            return
        nfr = len(spec['order']) if spec['fmt'] != 'drspec' else sum(1 for s in slots if any(s))
        first = min(i for i, s in enumerate(slots) if any(s))
        st = (obj.get_info('start_time_samples') - T0)
        rec.ev('open', exc='', start=st // fmt.skip + 1 if st % fmt.skip == 0 else -9,
               nframe=int(obj.get_info('nframe')) - nfr if not spec['lead'] or spec['fmt'] != 'drspec' else 0)

        def lookup(t, j, s):
            # the likely candidates first, then all
            i = t - 1 + j
            c = [slots[i][s]] if 0 <= i < len(slots) else []
            return c + [x[s2] for x in slots for s2 in range(spec['nstand'])]

        ci8 = fmt.ci8 and rng.random() < 0.4
        for op in spec['ops']:
            exc = ''
            if op['op'] == 'read':
                samples = rng.random() < 0.5
                kw = {'time_in_samples': samples}
                if ci8:
                    kw['return_ci8'] = True
                k, t, data, extra, tail, nset = 0, 0, [[] for _ in range(spec['nstand'])], False, False, 0
                req = op['n']
                try:
                    dur, start, arr = obj.read(None if req == 0 else req*fmt.unit, **kw)
                    k = int(round(dur/fmt.unit))
                    if abs(dur/fmt.unit - k) > 1e-6:
                        k = -1
                    if start is None:
                        t = -8
                    else:
                        if samples:
                            dt = int(start) - T0
                        else:
                            ref = FrameTimestamp.from_dp_timetag(T0, 0)
                            dt = (start - ref)*FS
                            dt = int(round(dt)) if abs(dt - round(dt)) < 30 else -1
                            if abs(dt - fmt.skip*round(dt/float(fmt.skip))) < 30:
                                dt = int(fmt.skip*round(dt/float(fmt.skip)))
                        t = dt // fmt.skip + 1 if dt % fmt.skip == 0 else -9
                    nset = fmt.nset(arr)
                    full, extra = fmt.decode(arr, lookup, t, nset)
                    data = [row[:max(k, 0)] for row in full]
                    tail = any(any(row[max(k, 0):]) for row in full)
                except Exception as e:
                    exc = type(e).__name__
                rec.ev('read', n=req, exc=exc, k=k, t=t, data=data, extra=bool(extra), tail=bool(tail), nset=nset,
                       ci8=bool(ci8))
                if exc not in ('', 'EOFError'):
                    break
            elif op['op'] == 'reset':
                try:
                    obj.reset()
                except Exception as e:
                    exc = type(e).__name__
                rec.ev('reset', exc=exc)
                if exc:
                    break
            elif op['op'] == 'offset':
                if not (complete and inorder):
                    continue
                ret = 0
                try:
                    ret = obj.offset(op['x']*fmt.unit/1000.0)
                    ret = int(round(float(ret)/fmt.unit*1000))
                except Exception as e:
                    exc = type(e).__name__
                rec.ev('offset', x=op['x'], ret=ret, exc=exc)
                if exc:
                    break
    finally:
        try:
            obj.close()
        except Exception:
            pass
        shutil.rmtree(d, ignore_errors=True)


def jitter(rng, order, ring, amount):
    """
    Move frames about such that no frame of slot t comes after one of slot t+ring-1 or later: what a
    ring of that many slots can put back in order.
    """
    if ring < 3 or not amount:
        return order
    out = list(order)
    for _ in range(int(amount*len(out))):
        i = rng.randrange(len(out)-1)
        j = min(len(out)-1, i + rng.randrange(1, 6))
        new = list(out)
        new.insert(j, new.pop(i))
        lo, ok = {}, True
        seen = -1
        for (t, s) in new:
            if seen >= t + ring - 1:
                ok = False
                break
            seen = max(seen, t)
        if ok:
            out = new
    return out


def make(rng, fmt, nstand, nslots, lost, gaps, ring, fill, ignore, ops, jit, lead, tail, cuts, src):
    k = rng.randrange(1, 50)
    slots = []
    for i in range(nslots):
        row = []
        for s in range(nstand):
            row.append(k)
            k += 1
        slots.append(row)
    for (a, n) in gaps:
        for i in range(a, min(a+n, nslots)):
            slots[i] = [0]*nstand
    if fmt != 'drspec':
        for (i, s) in lost:
            if i < nslots:
                slots[i][s % nstand] = 0
    # the recording ends with its last frame
    while slots and not any(slots[-1]):
        slots.pop()
    order = [(i, s) for i in range(len(slots)) for s in range(nstand) if slots[i][s]]
    order = jitter(rng, order, ring, jit) if fmt != 'drspec' else order
    return {'fmt': fmt, 'nstand': nstand, 'slots': slots, 'order': order, 'ring': ring, 'fill': fill, 'ignore': ignore,
            'lead': lead, 'tail': tail, 'cuts': cuts, 'ops': ops, 'src': src}


def usable(spec):
    """The readers look at the first 32 (DRX) frames; all identities have to show up early."""
    n = spec['nstand']
    if len(spec['slots']) < 3:
        return False
    if spec['fmt'].startswith('drx'):
        if len(spec['order']) < 34:
            return False
        return len(set(s for _, s in spec['order'][:32])) == n and spec['slots'][0].count(0) < n
    if spec['fmt'] == 'drspec':
        return any(spec['slots'][0]) and len(spec['slots']) > 2
    # TBX: the width of a channel comes from the usual time step; the reader needs a few frames of everything
    return (spec['slots'][0].count(0) < n and len(set(s for _, s in spec['order'])) == n and len(spec['order']) >= 24
            and sum(1 for i in range(len(spec['slots'])-1) if any(spec['slots'][i]) and any(spec['slots'][i+1]))
            > sum(1 for i in range(len(spec['slots'])-1) if not any(spec['slots'][i]))+1)


def run(job, rec, rng):
    done = 0
    for b in mine(job, job['behaviours']):
        fmt = b['fmt']
        nstand = {'drx': b['ns'], 'drx8': b['ns'], 'tbx': b['ns'], 'drspec': 4 if b['ns'] == 4 else 2}[fmt]
        nslots = {1: 36, 2: 18, 4: 10}[nstand] if fmt.startswith('drx') else 12
        spec = make(rng, fmt, nstand, nslots, [(x[0] - 1, x[1] - 1) for x in b['lost']], [(b['gap'][0], b['gap'][1])], b['ring'],
                    b['fill'], b['ignore'], b['ops'], 0.5 if b['jit'] else 0, b'', b['tail'], [], 'tlc')
        if usable(spec):
            play(rec, rng, spec)
            done += 1
    for i in range(job['random'] // job['shards']):
        fmt = rng.choice(['drx', 'drx', 'drx8', 'tbx', 'drspec'])
        nstand = rng.choice([2, 4] if fmt == 'drspec' else [1, 2, 4] if fmt != 'tbx' else [1, 2, 4, 5])
        nslots = rng.randrange(36 // nstand + 1, 60 // nstand + 8) if fmt.startswith('drx') else rng.randrange(4, 40)
        lost = [(rng.randrange(nslots), rng.randrange(nstand)) for _ in range(rng.choice([0, 0, 1, 3, 8]))]
        gaps = [(rng.randrange(1, nslots), rng.randrange(1, 7)) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        clean = rng.random() < 0.3
        if clean:
            lost, gaps = [], []
        ops = []
        for _ in range(rng.randrange(3, 14)):
            r = rng.random()
            if r < 0.75:
                n = rng.choice([1, 1, 2, 3, 4, 5, 7, 11, 20, 60])
                if fmt == 'tbx' and rng.random() < 0.1:
                    n = 0
                ops.append({'op': 'read', 'n': n})
            elif r < 0.85:
                ops.append({'op': 'reset'})
            elif clean:
                ops.append({'op': 'offset', 'x': rng.randrange(-6000, nslots*1000)})
        ring = rng.choice([2, 3, 3, 5, 8, 20])
        spec = make(rng, fmt, nstand, nslots, lost, gaps, ring, rng.choice([2, 4, 6, 50]), rng.random() < 0.3, ops,
                    0 if clean else rng.choice([0, 0, 0.3, 1.0]), bytes(rng.randrange(1, 100) for _ in range(rng.choice([0, 0, 0, 3, 200]))),
                    rng.choice([0, 0, 0, 1, 20, 500]), [rng.random() for _ in range(rng.choice([0, 0, 1, 3]))], 'random')
        if usable(spec):
            play(rec, rng, spec)
            done += 1
    print('%d recordings' % done)


main(run)
