"""Drives the frame readers of lsl.reader on rendered recordings."""
import io
import struct
import tempfile
import numpy as np

from vf.drv import main, mine
from lsl.reader import drx, drx8, tbx, cor, vdif, drspec
from lsl.reader.errors import SyncError, EOFError as LEOFError

SYNC = [0xDE, 0xC0, 0xDE, 0x5C]
FORMATS = ('drx', 'drx8', 'tbx', 'cor', 'vdif', 'drspec')
DECS = [784, 392, 196, 98, 40, 20, 10]
DFORMATS = [1, 2, 4, 8, 9, 6, 15, 16, 32, 64, 128, 144, 240]


def be(x, n, signed=False):
    return list(int(x).to_bytes(n, 'big', signed=signed))


def le(x, n):
    return list(int(x).to_bytes(n, 'little'))


def rb(rng, n):
    k = rng.random()
    if k < 0.1:
        return [0xFF]*n
    if k < 0.2:
        return [0x80] + [0]*(n-1)
    return [rng.randrange(256) for _ in range(n)]


def pattern(s):
    return bytes((s['a']*i + s['b']) % 256 for i in range(s['n']))


def content(s):
    if s.get('f'):
        p = struct.pack('<%df' % len(s['f']), *s['f'])[:s['n']]
    else:
        p = pattern(s)
    return bytes(s['h']) + p


class Style(object):
    """What is common to the frames of a recording."""

    def __init__(self, fmt, rng, describe=True):
        self.fmt, self.rng = fmt, rng
        self.wide = not describe
        if fmt == 'tbx':
            self.nst, self.nch = rng.choice([64, 64, 64, 128, 256]), rng.choice([4, 4, 8, 12, 16])
        if fmt == 'cor':
            self.nch = rng.choice([33, 33, 33, 72, 112, 192])
        if fmt == 'vdif':
            self.legacy, self.cplx, self.bits = rng.randrange(2), rng.randrange(2), rng.choice([1, 2, 4, 8])
            self.lchan = rng.choice([0, 0, 1, 2])
            self.words = rng.choice([1, 2, 3, 5, 8])
        if fmt == 'drspec':
            self.format, self.nf = rng.choice(DFORMATS), rng.choice([1, 2, 4, 8, 16, 32])

    def slot(self, kind, **kw):
        fmt, rng = self.fmt, self.rng
        f = []
        if fmt in ('drx', 'drx8'):
            did = kw.get('id', rng.randrange(256))
            h = SYNC + [did] + rb(rng, 3) + rb(rng, 4) + (be(rng.choice(DECS), 2) if rng.random() < 0.8 else rb(rng, 2)) \
                + rb(rng, 2) + rb(rng, 8) + rb(rng, 4) + rb(rng, 4)
            n = 4096 if fmt == 'drx' else 8192
        elif fmt == 'tbx':
            h = SYNC + [kw.get('id', 8 if rng.random() < 0.9 else rng.randrange(256))] + rb(rng, 3) + rb(rng, 4) \
                + (rb(rng, 4) if self.wide else [0] + be(kw.get('chan', rng.randrange(4096)), 3)) \
                + be(self.nst, 2) + be(self.nch, 2) + rb(rng, 8)
            n = 2*self.nst*self.nch
        elif fmt == 'cor':
            s0 = rb(rng, 2)
            h = SYNC + [kw.get('id', rng.choice([2, 2, 2, 6]))] + rb(rng, 3) + rb(rng, 4) \
                + be(kw.get('chan', rng.choice([0, 72, 144, 1000, 4095, 65535])), 2) + rb(rng, 2) + rb(rng, 8) + rb(rng, 4) \
                + s0 + (s0 if rng.random() < 0.5 else rb(rng, 2))
            n = 32*self.nch
        elif fmt == 'vdif':
            bits, hl = self.bits, 16 if self.legacy else 32
            n = 8*self.words
            length = (hl + n)//8
            if kind == 'odd':
                bits = rng.choice([3, 5, 6, 7, 10, 16, 32])
            if kind == 'bad':
                length = rng.randrange(hl//8)
            sec = kw.get('sec', rng.randrange(2**30))
            fis = kw.get('fis', rng.randrange(2**24))
            w0 = sec | (self.legacy << 30) | (rng.randrange(2) << 31)
            w1 = fis | (rng.randrange(64) << 24) | (rng.randrange(4) << 30)
            w2 = length | (self.lchan << 24) | (rng.randrange(8) << 29)
            w3 = rng.randrange(65536) | (kw.get('thread', rng.choice([0, 1, 2, 1023])) << 16) | ((bits-1) << 26) | (self.cplx << 31)
            h = le(w0, 4) + le(w1, 4) + le(w2, 4) + le(w3, 4) + ([] if self.legacy else rb(rng, 16))
        else:
            form = self.format
            if kind == 'odd':
                form = rng.choice([x for x in range(256) if x not in DFORMATS])
            np_ = bin(form).count('1')
            h = [0xDE, 0xC0, 0xDE, 0xC0] + rb(rng, 8) + rb(rng, 2) + le(rng.choice(DECS), 2) + rb(rng, 8) \
                + sum([le(rng.choice([1, 2, 3, 4, 6, 12]), 4) for _ in range(4)], []) + rb(rng, 4) + [rng.randrange(1, 5), form] \
                + rb(rng, 2) + le(self.nf, 4) + rb(rng, 4) + rb(rng, 16) + [0x0C, 0xED, 0x0C, 0xED]
            f = [self.nf*12*rng.randrange(-300, 300) for _ in range(2*np_*self.nf)]
            n = 4*len(f)
        if kind == 'bad' and fmt != 'vdif':
            i = rng.randrange(4)
            if fmt == 'drspec' and rng.random() < 0.5:
                i += 72
            h[i] = (h[i] + 1 + rng.randrange(255)) % 256
        if kind == 'short':
            keep = rng.randrange(1, len(h) + n)
            if keep < len(h):
                h, n = h[:keep], 0
            else:
                n = keep - len(h)
        return {'h': h, 'n': n, 'a': rng.choice([1, 3, 5, 7, 11, 37, 101, 253]), 'b': rng.randrange(256), 'f': f,
                'short': kind == 'short'}


def code(fn):
    try:
        return int(fn())
    except (KeyError, ZeroDivisionError):
        return 0


def spell(fmt, fr):
    h, p = fr.header, fr.payload
    if fmt in ('drx', 'drx8'):
        hdr = [h.drx_id] + be(h.frame_count, 3) + be(h.second_count, 4) + be(h.decimation, 2) + be(h.time_offset, 2) \
            + be(p.timetag, 8) + be(p.tuning_word, 4) + be(p.flags, 4)
        drv = list(fr.id) + [int(fr.is_drx if fmt == 'drx' else fr.is_drx8), code(lambda: fr.filter_code)] \
            + be(round(fr.central_freq*2**32/196e6), 4)
    elif fmt == 'tbx':
        hdr = [h.frame_id] + be(h.frame_count, 3) + be(h.second_count, 4) + be(h.first_chan, 4) + be(h.nstand, 2) \
            + be(h.nchan, 2) + be(p.timetag, 8, True)
        drv = [int(fr.is_tbx), fr.nstand, fr.nchan]
    elif fmt == 'cor':
        hdr = [h.adp_id] + be(h.frame_count, 3) + be(h.second_count, 4) + be(h.first_chan, 2) + be(h.gain % 65536, 2) \
            + be(p.timetag, 8, True) + be(p.navg, 4, True) + be(p.stand0, 2, True) + be(p.stand1, 2, True)
        drv = [int(fr.is_cor)]
    elif fmt == 'vdif':
        hdr = [h.is_invalid, h.is_legacy, h.seconds_from_epoch, h.ref_epoch, h.frame_in_second, h.version, h.nchan,
               h.frame_length, h.is_complex, h.bits_per_sample, h.thread_id, h.station_id] \
            + le(h.extended_data_1, 4) + le(h.extended_data_2, 4) + le(h.extended_data_3, 4) + le(h.extended_data_4, 4)
        drv = list(fr.id)
    else:
        hdr = [h.beam, h.format] + le(h.decimation, 2) + le(h.time_offset, 2) + le(h.nints, 4) + le(p.timetag, 8) \
            + sum([le(x, 4) for x in p.tuning_words], []) + sum([le(x, 4) for x in p.fills], []) + list(p.errors) \
            + sum([le(x, 4) for x in p.saturations], [])
        names = {'XX': 1, 'XY_real': 2, 'XY_imag': 4, 'YY': 8, 'I': 16, 'Q': 32, 'U': 64, 'V': 128}
        drv = [int(h.is_linear), int(h.is_stokes), int(fr.transform_size), code(lambda: fr.filter_code)] \
            + [names[x] for x in h.data_products]
    return [int(x) for x in hdr], [int(x) for x in drv]


def whole(x):
    x = np.asarray(x, dtype=np.float64).ravel()
    r = np.rint(x)
    return [int(b) if a == b else -99999 for a, b in zip(x, r)]


def samples(fmt, v, fr):
    if fmt == 'drspec':
        out, n = [], 0
        for name in fr.header.data_products:
            for t in (0, 1):
                a = getattr(fr.payload, '%s%i' % (name, t))
                out += whole(a)
                n = a.size
        return [2*len(fr.header.data_products), n], out
    d = fr.payload.data
    shape = list(d.shape)
    if fmt == 'cor':
        return shape, list(np.ascontiguousarray(d).tobytes())
    if fmt == 'vdif':
        if np.iscomplexobj(d):
            d = np.ascontiguousarray(d).view(np.float32)
        if v == 'i':
            return shape, whole(d)
        return shape, [int(x) for x in np.rint(np.asarray(d, dtype=np.float64).ravel()*1e6)]
    if v == 'i':
        return shape, [int(x) for x in np.ascontiguousarray(d).view(np.int8).ravel()]
    return shape, whole(np.ascontiguousarray(d).view(np.float32))


READ = {'drx': (drx.read_frame, drx.read_frame_ci8), 'drx8': (drx8.read_frame, drx8.read_frame_ci8),
        'tbx': (tbx.read_frame, tbx.read_frame_ci8), 'cor': (cor.read_frame, cor.read_frame),
        'vdif': (vdif.read_frame, vdif.read_frame_i8), 'drspec': (drspec.read_frame, drspec.read_frame)}
PRODS = {'XX': 1, 'XY_real': 2, 'XY_imag': 4, 'YY': 8, 'I': 16, 'Q': 32, 'U': 64, 'V': 128}
DESCRIBE = {
    'drx': {'drx_rate': lambda fh: [code(lambda: drx.get_sample_rate(fh, filter_code=True))],
            'drx_beams': lambda fh: [drx.get_beam_count(fh)], 'drx_frames': lambda fh: list(drx.get_frames_per_obs(fh))},
    'drx8': {'drx_rate': lambda fh: [code(lambda: drx8.get_sample_rate(fh, filter_code=True))],
             'drx_beams': lambda fh: [drx8.get_beam_count(fh)], 'drx_frames': lambda fh: list(drx8.get_frames_per_obs(fh))},
    'tbx': {'tbx_size': lambda fh: [tbx.get_frame_size(fh)], 'tbx_frames': lambda fh: [tbx.get_frames_per_obs(fh)],
            'tbx_channels': lambda fh: [tbx.get_channel_count(fh)],
            'tbx_first': lambda fh: list(tbx.get_first_channel(fh, all_frames=True)),
            'tbx_count': lambda fh: [tbx.get_first_frame_count(fh)]},
    'cor': {'cor_size': lambda fh: [cor.get_frame_size(fh)], 'cor_channels': lambda fh: [cor.get_channel_count(fh)],
            'cor_first': lambda fh: list(cor.get_first_channel(fh, all_frames=True))},
    'vdif': {'vdif_size': lambda fh: [vdif.get_frame_size(fh)], 'vdif_threads': lambda fh: [vdif.get_thread_count(fh)],
             'vdif_fps': lambda fh: [vdif.get_frames_per_second(fh)], 'vdif_rate': lambda fh: [int(vdif.get_sample_rate(fh))]},
    'drspec': {'drs_size': lambda fh: [drspec.get_frame_size(fh)],
               'drs_nfft': lambda fh: le(drspec.get_ffts_per_integration(fh), 4),
               'drs_lfft': lambda fh: [drspec.get_transform_size(fh)],
               'drs_products': lambda fh: [PRODS[x] for x in drspec.get_data_products(fh)],
               'drs_linear': lambda fh: [int(drspec.is_linear(fh)), int(drspec.is_stokes(fh))],
               'drs_rate': lambda fh: [code(lambda: drspec.get_sample_rate(fh, filter_code=True))]},
}


def prime_cor(nch, rng):
    """
    The COR reader remembers the number of channels of the last frame that the process read, and a
    frame does not tell (known finding C08-cor-mode).  Put it in the state that it has when the
    process has read this recording before.
    """
    try:
        cor.read_frame(io.BytesIO(bytes(8192)))
    except (SyncError, LEOFError):
        pass
    st = Style('cor', rng)
    st.nch = nch
    one = content(st.slot('good'))
    try:
        cor.read_frame(io.BytesIO(one*(6200//len(one) + 2)))
    except (SyncError, LEOFError):
        pass


def play(rec, fmt, slots, ops, rng, src, regular=0, style=None, prime=True, real=False):
    raw = b''.join(content(s) for s in slots)
    starts = [0]
    for s in slots:
        starts.append(starts[-1] + len(s['h']) + s['n'])
    rec.begin(fmt=fmt, slots=slots, src=src)
    if fmt == 'cor' and prime:
        prime_cor(style.nch, rng)
    if real:
        fh = tempfile.TemporaryFile()
        fh.write(raw)
        fh.seek(0)
    else:
        fh = io.BytesIO(raw)
    lost = False
    for op in ops:
        if op['op'] == 'read' and not lost:
            exc, loc, hdr, drv, shape, data = '', 0, [], [], [], []
            try:
                fr = READ[fmt][1 if op['v'] == 'i' else 0](fh)
            except SyncError as e:
                exc, loc = 'SYNC', int(e.location)
            except LEOFError:
                exc = 'EOF'
            except RuntimeError:
                exc = 'RUNTIME'
            except Exception as e:
                exc = type(e).__name__
            else:
                hdr, drv = spell(fmt, fr)
                shape, data = samples(fmt, op['v'], fr)
            rec.ev('read', v=op['v'], exc=exc, loc=loc, pos=fh.tell(), hdr=hdr, drv=drv, shape=shape, data=data)
            lost = exc not in ('', 'SYNC')
            if fmt == 'cor' and exc and prime:
                prime_cor(style.nch, rng)
        elif op['op'] == 'skip' and not lost:
            p = fh.tell()
            if p in starts and p < starts[-1]:
                q = starts[starts.index(p) + 1]
                fh.seek(q)
                rec.ev('seek', p=q, exc='')
        elif op['op'] == 'seek':
            k = op['k']
            q = starts[k-1] if k <= len(starts) else starts[-1]
            exc = ''
            try:
                fh.seek(q)
            except Exception as e:
                exc = type(e).__name__
            rec.ev('seek', p=q, exc=exc)
            lost = False
        elif op['op'] == 'describe' and not lost:
            names = sorted(DESCRIBE[fmt])
            name = op.get('name') or rng.choice(names)
            exc, val = '', []
            try:
                val = [int(x) for x in DESCRIBE[fmt][name](fh)]
            except Exception as e:
                exc = type(e).__name__
            rec.ev('describe', name=name, exc=exc, val=val, pos=fh.tell(), regular=regular)
            if fmt == 'cor' and prime:
                prime_cor(style.nch, rng)
    fh.close()


def run(job, rec, rng):
    for b in mine(job, job['behaviours']):
        fmt = b['fmt']
        st = Style(fmt, rng)
        if any(k == 'bad' for k in b['kinds']) and fmt == 'tbx':
            # where nothing tells a frame from the end of the file both answers are allowed
            pass
        play(rec, fmt, [st.slot(k) for k in b['kinds']], b['ops'], rng, 'tlc', style=st, real=rng.random() < 0.2)
    n = job['random'] // job['shards']
    for i in range(n):
        fmt = FORMATS[i % 6]
        # every field, every byte: no descriptions
        st = Style(fmt, rng, describe=False)
        slots = [st.slot('good') for _ in range(2)]
        play(rec, fmt, slots, [{'op': 'read', 'v': 'c'}, {'op': 'read', 'v': 'i'}, {'op': 'read', 'v': 'c'}, {'op': 'seek', 'k': 1},
                               {'op': 'read', 'v': 'i'}, {'op': 'read', 'v': 'c'}], rng, 'exact', style=st)
    for i in range(max(n // 4, 6)):
        fmt = FORMATS[i % 6]
        st = Style(fmt, rng)
        regular = 0
        alld = [{'op': 'describe', 'name': x} for x in sorted(DESCRIBE[fmt])]
        ops = alld + [{'op': 'seek', 'k': 1 + rng.randrange(3)}] + alld
        if fmt in ('drx', 'drx8'):
            ids = [rng.randrange(1, 5) | (rng.randrange(1, 3) << 3) | (rng.randrange(2) << 7) for _ in range(rng.randrange(1, 9))]
            slots = [st.slot('good' if rng.random() < 0.998 else 'bad', id=rng.choice(ids)) for _ in range(rng.choice([31, 32, 33, 34, 40]))]
        elif fmt == 'tbx':
            chans = rng.sample(range(0, 4096, 4), rng.randrange(1, 6))
            order = [rng.choice(chans) for _ in range(rng.randrange(4, 24))]
            if rng.random() < 0.4:
                order = chans + chans
            slots = [st.slot('good' if j < 2 or rng.random() < 0.93 else 'bad', chan=c) for j, c in enumerate(order)]
        elif fmt == 'cor':
            chans = rng.sample(range(0, 4096, 72), rng.randrange(1, 5))
            slots = [st.slot('good', chan=rng.choice(chans)) for _ in range(rng.randrange(4, 12))]
        elif fmt == 'vdif':
            regular, threads = rng.randrange(1, 12), rng.sample(range(1024), rng.randrange(1, 4))
            s0, f0 = rng.randrange(2**20), rng.randrange(regular)
            slots = []
            for j in range(f0, f0 + 3*regular + 2):
                th = list(threads)
                rng.shuffle(th)
                for t in th:
                    slots.append(st.slot('good', thread=t, sec=s0 + j // regular, fis=j % regular))
            ops = alld + [{'op': 'seek', 'k': 1 + len(threads)*rng.randrange(regular + 1)}] + alld
        else:
            slots = [st.slot('good') for _ in range(3)]
        play(rec, fmt, slots, ops, rng, 'describe', regular=regular, style=st)
    if job['shard'] == 0:
        # the known finding: more channels than the recording before
        small, big = Style('cor', rng), Style('cor', rng)
        small.nch, big.nch = 33, 72
        prime_cor(33, rng)
        play(rec, 'cor', [big.slot('good') for _ in range(4)], [{'op': 'read', 'v': 'c'}], rng, 'finding-cor-mode',
             style=big, prime=False)


main(run)
