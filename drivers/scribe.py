"""Frames and files written and read back: DRX (simulated), VDIF, SDFITS."""
import os
import shutil
import tempfile
import warnings
import random as _r

import numpy as np
warnings.simplefilter('ignore')

from astropy.time import Time as AstroTime
from astropy.io import fits as astrofits
from lsl.reader import drx as rdrx, vdif as rvdif
from lsl.reader.base import FrameTimestamp, CI8
from lsl.sim import drx as sdrx, ndp
from lsl.writer import vdif as wvdif, sdfits
from lsl.common.stations import lwa1
from vf import drv

import logging
logging.disable(logging.CRITICAL)

NAMES = {1: 'I', 2: 'Q', 3: 'U', 4: 'V', -1: 'RR', -2: 'LL', -3: 'RL', -4: 'LR', -5: 'XX', -6: 'YY', -7: 'XY', -8: 'YX'}


def split16(v):
    v = int(v)
    return [(v >> s) & 0xFFFF for s in (48, 32, 16, 0)]


def join16(w):
    return (w[0] << 48) | (w[1] << 32) | (w[2] << 16) | w[3]


def attempt(fn):
    try:
        return fn(), ''
    except Exception as e:
        return None, type(e).__name__


def do_drx(p, rng, tmp):
    n = p['len']
    g = np.random.RandomState(rng.randrange(2**31))
    if p['kind'] == 'ci8':
        re, im = g.randint(-8, 8, n)*4, g.randint(-8, 8, n)*4
        data = np.zeros(n, dtype=CI8)
        data['re'], data['im'] = re//4, im//4
    else:
        re, im = g.randint(-45, 46, n), g.randint(-45, 46, n)
        if p['kind'] == 'f':
            data = (re/4.0).astype(np.float32)
        else:
            data = (re/4.0 + 1j*im/4.0).astype({'c64': np.complex64, 'c128': np.complex128}[p['kind']])
    kept = data.copy()
    ev = {'p': p, 'exc': '', 'wrote': 0, 'valid': False, 'id': [], 'dec': 0, 'toff': 0, 'tt': [], 'flags': [], 'given': [], 'got': [], 'again': False}
    fr = sdrx.SimFrame(beam=p['beam'], tune=p['tune'], pol=p['pol'], decimation=p['dec'], time_offset=p['toff'],
                       frame_count=0, obs_time=join16(p['tt']), flags=join16(p['flags']), data=data)
    ev['valid'], e0 = attempt(fr.is_valid)
    ev['valid'] = bool(ev['valid'])
    fn = os.path.join(tmp, 'drx')
    with open(fn, 'wb') as fh:
        _, ev['exc'] = attempt(lambda: fr.write_raw_frame(fh))
    ev['wrote'] = os.path.getsize(fn)
    if not ev['exc'] and ev['wrote'] == 4128:
        with open(fn, 'rb') as fh:
            back, ev['exc'] = attempt(lambda: rdrx.read_frame(fh))
        if back is not None:
            ev['id'] = [int(x) for x in back.id]
            ev['dec'] = int(back.header.decimation)
            ev['toff'] = int(back.header.time_offset) & 0xFFFF
            ev['tt'], ev['flags'] = split16(back.payload.timetag), split16((int(back.payload.tuning_word) << 32) | int(back.payload.flags))
            pos = sorted(rng.sample(range(n), 24)) + [0, n - 1]
            d = back.payload.data
            ev['given'] = [int(re[i]) for i in pos] + [int(im[i]) for i in pos]
            ev['got'] = [int(round(float(d[i].real)*1)) for i in pos] + [int(round(float(d[i].imag))) for i in pos]
            # all of them, as one more sample that is right or not
            def lv(q):
                return np.clip(np.round(q/4.0), -8, 7)
            if not (np.array_equal(d.real, lv(re)) and np.array_equal(d.imag, lv(im))):
                bad = int(np.where((d.real != lv(re)) | (d.imag != lv(im)))[0][0])
                ev['given'] += [int(re[bad]), int(im[bad])]
                ev['got'] += [int(round(float(d[bad].real))), int(round(float(d[bad].imag)))]
            def again():
                s2 = sdrx.SimFrame()
                s2.load_frame(back)
                return bytes(s2.create_raw_frame().tobytes())
            raw, e = attempt(again)
            with open(fn, 'rb') as fh:
                ev['again'] = (e == '' and raw == fh.read())
            # and writing does not change what was given
            ev['again'] = ev['again'] and np.array_equal(kept, data)
    return ev


_CAL = {}


def levels(bits, cplx):
    """What the reader makes of every level, from a frame packed by hand."""
    if (bits, cplx) not in _CAL:
        n = 256*8
        lev = np.tile(np.arange(2**bits), n)[:n]
        raw = np.zeros(32 + n*bits//8, dtype=np.uint8)
        w0 = 0
        head = [0, 0, (1 << 29) | (len(raw)//8), ((1 << 31) if cplx else 0) | ((bits - 1) << 26), 0x01000000 | 8000, 0, 0, 0]
        raw[:32] = np.array(head, dtype='<u4').view(np.uint8)
        per = 8//bits
        for p in range(per):
            raw[32:] |= (lev[p::per] << (bits*p)).astype(np.uint8)
        head = np.array(head, dtype='<u4')
        # version 1
        head[2] = (1 << 30) | (len(raw)//8)
        raw[:32] = head.view(np.uint8)
        d = rvdif.read_frame(_tmpfile(raw)).payload.data
        flat = d.ravel()
        if cplx:
            flat = np.stack([flat.real, flat.imag], axis=-1).ravel()
        _CAL[(bits, cplx)] = {float(np.float32(v)): int(k) for v, k in zip(flat, lev)}
    return _CAL[(bits, cplx)]


def _tmpfile(raw):
    fh = tempfile.TemporaryFile()
    raw.tofile(fh)
    fh.flush()
    fh.seek(0)
    return fh


def do_vdif(p, rng, tmp):
    p = dict(p)
    p['k'] = p['k'] % p['frate']
    n, bits = p['n'], p['bits']
    lo, hi = -2**(bits - 1), 2**(bits - 1)
    g = np.random.RandomState(rng.randrange(2**31))
    if p['cplx']:
        v = g.randint(lo, hi, 2*n)
        data = (v[0::2] + 1j*v[1::2]).astype([np.complex64, np.complex128, np.complex64, np.complex128][p['dt']])
    else:
        v = g.randint(lo, hi, n)
        data = v.astype([np.int8, np.int16, np.float32, np.int32][p['dt']])
    if p['sq']:
        data = data.reshape(1, -1)
    srate = n*p['frate']
    unix = (p['day'] - 40587)*86400 + p['sec']
    frac = p['k']/p['frate']
    if p['how'] == 'float':
        when = unix + frac
    elif p['how'] == 'stamp':
        when = FrameTimestamp(unix, frac)
    elif p['how'] == 'less':
        f = frac - 2e-9
        when = (unix, f) if f >= 0 else (unix - 1, 1.0 + f)
    else:
        when = (unix, frac)
    ev = {'p': p, 'exc': '', 'wrote': 0, 'flen': 0, 'station': 0, 'thread': 0, 'epoch': 0, 'seconds': 0, 'frame': 0, 'bits': 0, 'cplx': False, 'nchan': 0,
          'legacy': False, 'invalid': False, 'given': [int(x) for x in v], 'got': [], 'time': [0, 0, 0], 'rate': 0}
    fn = os.path.join(tmp, 'vdif')
    with open(fn, 'wb') as fh:
        _, ev['exc'] = attempt(lambda: wvdif.Frame(p['stand'], when, bits=bits, data=data, sample_rate=srate).write_raw_frame(fh))
    ev['wrote'] = os.path.getsize(fn)
    if ev['exc']:
        return ev
    with open(fn, 'rb') as fh:
        if rng.random() < 0.5:
            back, ev['exc'] = attempt(lambda: rvdif.read_frame(fh))
        else:
            back, ev['exc'] = attempt(lambda: rvdif.read_frame(fh, sample_rate=float(srate)))
    if back is None:
        return ev
    h = back.header
    ev.update(flen=int(h.frame_length), station=int(h.station_id), thread=int(h.thread_id), epoch=int(h.ref_epoch), seconds=int(h.seconds_from_epoch),
              frame=int(h.frame_in_second), bits=int(h.bits_per_sample), cplx=bool(h.is_complex), nchan=int(h.nchan), legacy=bool(h.is_legacy), invalid=bool(h.is_invalid))
    flat = back.payload.data.ravel()
    if p['cplx']:
        flat = np.stack([flat.real, flat.imag], axis=-1).ravel()
    cal = levels(bits, p['cplx'])
    ev['got'] = [cal.get(float(np.float32(x)), -1) for x in flat]
    t, ev['exc'] = attempt(lambda: back.time)
    if t is not None:
        a, b = t
        us = int(a)*1000000 + int(round(float(b)*1e6))
        ev['time'] = [us//1000000//86400 + 40587, us//1000000 % 86400, us % 1000000]
        eud = h.extended_user_data
        ev['rate'] = int(eud.get('sample_rate', 0))*(1000000 if eud.get('sample_rate_units') == 'MHz' else 1000)
    return ev


ANTS = {}
for _a in lwa1.antennas:
    if _a.id <= 8:
        ANTS[_a.id] = _a


def do_sd(p, rng, tmp):
    p = dict(p)
    p['pols'], p['beams'] = sorted(p['pols'], key=abs), sorted(p['beams'])
    r = _r.Random(p['seed'])
    fn = os.path.join(tmp, 'sd.fits')
    base_ms = p['start']*1000 + p['sub']
    adds, aid = [], 0
    for k in range(p['nt']):
        for j, pol in enumerate(p['pols']):
            aid += 1
            beams = list(p['beams'])
            if j > 0 and p['fewer'] and len(beams) > 1 and r.random() < 0.5:
                beams.remove(r.choice(beams))
            r.shuffle(beams)
            adds.append({'t': k*p['gap'], 'pol': pol, 'beams': beams, 'id': aid, 'exp': k + 1})
    if p['mix'] == 'shuffle':
        r.shuffle(adds)
    elif p['mix'] == 'bypol':
        adds.sort(key=lambda a: (abs(a['pol']), a['t']))
    elif p['mix'] == 'back':
        adds.reverse()
    def when(t):
        ms = base_ms + t
        unix = (p['day'] - 40587)*86400 + ms//1000
        if p['form'] == 'stamp':
            return FrameTimestamp(unix, (ms % 1000)/1000.0)
        at = AstroTime(unix, (ms % 1000)/1000.0, format='unix', scale='utc')
        return at if p['form'] == 'astropy' else at.tai.mjd
    ev = {'p': p, 'exc': '', 'adds': adds, 'rows': [], 'stokes0': 0, 'step': 0, 'freq': [], 'dims': [], 'notes': 0, 'keys': 0}
    notes = ['note %i' % i for i in range(p['notes'])]
    keys = [('VFKEY%i' % i, i + 11) for i in range(p['keys'])]
    if os.path.exists(fn):
        os.unlink(fn)
    def write():
        sd = sdfits.Sd(fn)
        sd.set_observer('me', project='them', mode='ZA')
        pols = list(p['pols'])
        r.shuffle(pols)
        sd.set_stokes([NAMES[q] if p['named'] else q for q in pols])
        sd.set_frequency(np.arange(p['nchan'])*25000.0 + 40e6)
        for x in notes:
            sd.add_comment(x)
            sd.add_history(x)
        for n, v in keys:
            sd.add_header_keyword(n, v)
        for a in adds:
            d = np.zeros((len(a['beams']), p['nchan']), dtype=np.float32)
            for i, b in enumerate(a['beams']):
                d[i, :] = a['id']*1000 + b*20 + np.arange(p['nchan'])
            sd.add_data_set(when(a['t']), float(a['exp']), [ANTS[b] for b in a['beams']], d, pol=NAMES[a['pol']] if p['named'] else a['pol'])
        sd.write()
        sd.close()
    _, ev['exc'] = attempt(write)
    if ev['exc']:
        return ev
    with astrofits.open(fn, memmap=False) as hdus:
        hd = hdus[0].header
        c, h = [str(x) for x in hd.get('COMMENT', [])], [str(x) for x in hd.get('HISTORY', [])]
        ev['notes'] = len(notes) if [x for x in c if x.startswith('note ')] == notes and [x for x in h if x.startswith('note ')] == notes else -1
        ev['keys'] = sum(1 for n, v in keys if hd.get(n) == v)
        tab = hdus['SINGLE DISH']
        ev['stokes0'], ev['step'] = int(tab.header['CRVAL2']), int(tab.header['CDELT2'])
        ev['freq'] = [int(tab.header['CRVAL1']), int(tab.header['CRPIX1']), int(tab.header['CDELT1'])]
        col = tab.columns.names.index('DATA') + 1
        dims = tab.header['TDIM%i' % col].strip('()').split(',')
        ev['dims'] = [int(dims[0]), int(dims[1])]
        for row in tab.data:
            y, m, d = [int(x) for x in row['DATE-OBS'].split('-')]
            day = int(round(AstroTime('%04i-%02i-%02i' % (y, m, d), format='iso', scale='utc').mjd))
            ms = (day - p['day'])*86400000 + int(round(float(row['TIME'])*1000.0)) - base_ms
            ms = max(-10**9, min(10**9, ms))
            ev['rows'].append({'scan': int(row['SCAN']), 't': ms, 'inday': bool(-0.001 < row['TIME'] < 86400.001), 'beam': int(row['BEAM']), 'exp': int(round(float(row['EXPOSURE']))),
                               'data': [int(round(float(x))) for x in np.asarray(row['DATA']).ravel()]})
    return ev


def do_stream(p, rng, tmp):
    start = p['start'] + p['half']*0.25
    ev = {'p': p, 'exc': '', 'frames': [], 'rest': 0, 't0': 0}
    fn = os.path.join(tmp, 'stream')
    with open(fn, 'wb') as fh:
        _, ev['exc'] = attempt(lambda: ndp.basic_signal(fh, list(p['beams']), p['nframes'], mode='DRX', filter=p['filter'], ntuning=p['ntune'], start_time=start, noise_strength=0.01))
    if ev['exc']:
        return ev
    first = None
    with open(fn, 'rb') as fh:
        while os.path.getsize(fn) - fh.tell() >= 4128:
            fr, ev['exc'] = attempt(lambda: rdrx.read_frame(fh))
            if fr is None:
                return ev
            tt = int(fr.payload.timetag)
            if first is None:
                first = tt
                ev['t0'] = max(-10**9, min(10**9, tt - (p['start']*196000000 + p['half']*49000000)))
            b, t, q = fr.id
            ev['frames'].append({'beam': int(b), 'tune': int(t), 'pol': int(q), 'dec': int(fr.header.decimation), 'dt': max(-2**30, min(2**30, tt - first)),
                                 'tone': int(np.argmax(np.abs(np.fft.fft(fr.payload.data))))})
        ev['rest'] = os.path.getsize(fn) - fh.tell()
    return ev


def run(job, rec, rng):
    tmp = tempfile.mkdtemp(prefix='scribe-')
    try:
        for beh in drv.mine(job, job['behaviours']):
            rec.begin(beh=beh.get('n', 0))
            for o in beh['ops']:
                ev = {'drx': do_drx, 'vdif': do_vdif, 'sd': do_sd, 'stream': do_stream}[o['op']]({k: v for k, v in o.items() if k != 'op'}, rng, tmp)
                rec.ev(o['op'], **ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


drv.main(run)
