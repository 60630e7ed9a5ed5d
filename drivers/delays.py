"""Dispersion taken out of spectra and voltages, and signals put in phase and added."""
import math
import warnings
from fractions import Fraction
warnings.simplefilter('ignore')

import ephem
import numpy as np
from astropy.coordinates import Angle

from lsl.misc import dedispersion, beamformer
from lsl.common.stations import Antenna, Stand, Cable, FEE
from vf import drv

C = 299792458.0
SETS = [(40.0e6, 5.0e4, 0.1), (40.0e6, 5.0e4, 0.17), (60.0e6, 1.0e5, 0.05), (38.0e6, 2.0e4, 0.5), (74.03e6, 1.0e5, 0.25), (40.0e6, 5.0e4, 0.06)]
DTYPES = {'c8': np.complex64, 'c16': np.complex128, 'f8': np.float64, 'f4': np.float32, 'i4': np.int32, 'i2': np.int16, 'i1': np.int8}


def do_inc(p, rng):
    freq = [120e6/m for m in p['ms']]
    if not p['list']:
        freq = np.array(freq)
    n, c = p['n'], len(p['ms'])
    data = np.array([[100*(j + 1) + i + 1 for j in range(c)] for i in range(n)]).astype(DTYPES[p['type']])
    before = data.copy()
    fill = {'nan': np.nan, 'num': -7.0, 'zero': 0.0}[p['fill']]
    kw = {'boundary': 'wrap' if p['wrap'] else 'fill', 'fill_value': fill}
    if p['wrap'] and p['fill'] == 'nan':
        kw = {}
    out = {'p': p, 'exc': '', 'got': [], 'kept': True}
    try:
        r = dedispersion.incoherent(freq, data, p['t']/1000.0, p['d']/1000.0, **kw)
        for i in range(r.shape[0]):
            row = []
            for j in range(r.shape[1]):
                v = float(r[i, j])
                if v != v or v == -7.0 or v == 0.0:
                    row.append(0 if (v != v and p['fill'] == 'nan') or v == fill else -1)
                elif v == int(v) and 1 <= v - 100*(j + 1) <= n:
                    row.append(int(v) - 100*(j + 1))
                else:
                    row.append(-1)
            out['got'].append(row)
    except Exception as e:
        out['exc'] = type(e).__name__
    out['kept'] = bool((data == before).all())
    return out


def do_lag(p, rng):
    freq = [120e6/m for m in p['ms']]
    if len(freq) == 1 and p['list']:
        freq = freq[0]
    elif not p['list']:
        freq = np.array(freq)
    out = {'p': p, 'exc': '', 'got': []}
    try:
        r = np.atleast_1d(dedispersion.delay(freq, p['d']/1000.0))
        out['got'] = [int(math.floor(float(x)*1e6)) for x in r]
    except Exception as e:
        out['exc'] = type(e).__name__
    return out


def size_of(f0, bw, dm):
    """Samples that the delay over the band takes, rounded up."""
    f0, bw, dm = Fraction(f0), Fraction(bw), Fraction(str(dm))
    d = dm*Fraction('4148.808')*(Fraction(10**12)/(f0 - bw/2)**2 - Fraction(10**12)/(f0 + bw/2)**2)
    return math.ceil(d*bw)


def chirp_of(n, f0, bw, dm, taper):
    f = (np.array([k if k < n//2 else k - n for k in range(n)])*bw/n + f0)/1e6
    mid = f.mean()
    off = f - mid
    out = np.exp(-2j*np.pi*4.148808e9*dm*off**2/(mid**2*f))
    if taper:
        width = off.max() - off.min()
        out = out/np.sqrt(1.0 + (np.abs(off)/(0.47*width))**80)
    return out


def do_coh(p, rng):
    f0, bw, dm = SETS[p['set'] - 1]
    need = size_of(f0, bw, dm)
    n = 2
    while n < 2*need:
        n *= 2
    size = p['m']*n + p['r']*(n//8) + p['j']
    if p['few']:
        size = rng.choice([n - 1, n//2, 1])
    rs = np.random.RandomState(rng.randrange(1 << 30))
    total = size + 2*n
    s = (rs.randn(total) + 1j*rs.randn(total)).astype(DTYPES[p['type']])
    t = 1000.0 + np.arange(total)*3.0
    kw = {'taper': p['taper'], 'enable_caching': p['cache']}
    a, b = n, n + size
    short = n//4 - 1
    if p['prev'] != 'none':
        k = n if p['prev'] == 'ok' else short
        kw['previous_time'], kw['previous_data'] = t[a-k:a], s[a-k:a]
    if p['next'] != 'none':
        k = n if p['next'] == 'ok' else short
        kw['next_time'], kw['next_data'] = t[b:b+k], s[b:b+k]
    before = s.copy()
    out = {'p': p, 'exc': '', 'n': 0, 'need': need, 'len': size, 'data': [], 'time': [], 'size': [0, 0], 'kept': True}
    try:
        out['n'] = int(dedispersion.get_coherent_sample_size(f0, bw, dm))
        ot, od = dedispersion.coherent(t[a:b], s[a:b], f0, bw, dm, **kw)
        out['size'] = [len(ot), len(od)]
        chirp = chirp_of(n, f0, bw, dm, p['taper'])
        tol = 2e-4 if p['type'] == 'c8' else 1e-8
        for i in range(-(-size//(n//2))):
            lo, hi = i*(n//2), min((i + 1)*(n//2), size)
            w = s[a + lo - n//4:a + lo - n//4 + n].astype(np.complex128)
            cut = w.copy()
            over = lo - n//4 + n - size
            if over > 0:
                cut[n - over:] = 0
            got, found = od[lo:hi], []
            for name, x in (('whole', w), ('cut', cut)):
                ref = np.fft.ifft(np.fft.fft(x)*chirp)[n//4:n//4 + hi - lo]
                if np.abs(got - ref).max() < tol:
                    found.append(name)
            if (got == 0).all():
                found.append('zero')
            out['data'].append(found)
            gt = ot[lo:hi]
            out['time'].append('zero' if (gt == 0).all() else 'whole' if (gt == t[a+lo:a+hi]).all() else 'other')
    except (Exception, RuntimeWarning) as e:
        out['exc'] = type(e).__name__
    out['kept'] = bool((s == before).all())
    return out


POINT = {'zenith': (0, 90), 'north': (0, 0), 'east': (90, 0), 'south': (180, 0), 'west': (270, 0)}


def as_angle(x, kind):
    if kind == 'astropy':
        return Angle(x, unit='deg')
    if kind == 'ephem':
        return ephem.degrees(math.radians(x))
    return int(x) if kind == 'int' else float(x)


F = 30.0e6


def antennas(p, rng):
    out = []
    unit = C/F/4
    for k, a in enumerate(p['ants']):
        st, fs = (3, 3) if a['good'] else rng.choice([(3, 2), (2, 3), (0, 3), (3, 0), (1, 1)])
        out.append(Antenna(k + 1, stand=Stand(a['stand'], a['pos'][0]*unit, a['pos'][1]*unit, a['pos'][2]*unit), pol=a['pol'],
                           fee=FEE('f%i' % k, k + 1, status=fs), cable=Cable('c%i' % k, a['cable']*unit*0.8, vf=0.8, dd=0.0), status=st))
    return out


def whole(x):
    v = int(round(float(x)))
    return v if abs(float(x) - v) < 2e-3 else 99999


def do_beam(p, rng):
    out = {'p': p, 'exc': '', 'got': [], 'lags': [], 'shape': [], 'again': True, 'kept': True, 'real': False}
    ants = antennas(p, rng)
    az, alt = [as_angle(x, p['angle']) for x in POINT[p['dir']]]
    core = sum(1 for a in p['ants'] if a['stand'] <= 256)
    re, im = np.array(p['re']), np.array(p['im'])
    re, im = np.tile(re, (1, 1, p['rep'])), np.tile(im, (1, 1, p['rep']))
    kind = p['type']
    if kind == 'ci8' and p['nch'] == 0:
        kind = 'c8'
    if kind == 'ci8':
        data = np.stack([re, im], axis=-1).astype(np.int8)
    elif kind in ('c8', 'c16'):
        data = (re + 1j*im).astype(DTYPES[kind])
    else:
        data = re.astype(DTYPES[kind])
        out['real'] = True
    nch = p['nch']
    if nch == 0:
        data = data[:, 0, ...]
        freq = F
    else:
        freq = [F*(k + 1) for k in range(nch)]
        if not p['flist']:
            freq = np.array(freq)
    if p['strided']:
        big = np.repeat(data, 2, axis=0)
        data = big[::2]
    before = data.copy()
    fbefore = np.array(freq).copy()
    try:
        lags = beamformer.calc_delay(ants, freq=freq, azimuth=az, altitude=alt)
        lags = lags.reshape(len(ants), -1)
        out['lags'] = [[whole(x*4*F*core) for x in row] for row in lags]
        r = beamformer.phase_and_sum(ants, data, central_freq=freq, azimuth=az, altitude=alt)
        out['shape'] = list(r.shape)
        if nch == 0:
            r = r.reshape(r.shape[0], 1, r.shape[-1])
        nt = p['nt']
        out['again'] = bool(np.allclose(r, np.tile(r[..., :nt], (1, 1, p['rep'])), atol=1e-5))
        have = [k for k in (0, 1) if any(a['pol'] == k and a['good'] for a in p['ants'])] or [1]
        for k in range(r.shape[0]):
            num = sum(1 for a in p['ants'] if a['good'] and a['pol'] == have[min(k, len(have) - 1)])
            out['got'].append([[[whole(x.real*num), whole(x.imag*num)] for x in row[:nt]] for row in r[k]])
    except Exception as e:
        out['exc'] = type(e).__name__
    out['kept'] = bool((data == before).all() and (np.array(freq) == fbefore).all())
    return out


def do_bad(p, rng):
    out = {'p': p, 'exc': ''}
    a = antennas({'ants': [{'stand': 1, 'pos': [0, 0, 0], 'cable': 0, 'pol': 0, 'good': True}, {'stand': 2, 'pos': [1, 0, 0], 'cable': 0, 'pol': 1, 'good': True}]}, rng)
    try:
        beamformer.calc_delay(a, freq=F, azimuth=as_angle(p['az'], p['angle']), altitude=as_angle(p['alt'], p['angle']))
    except Exception as e:
        out['exc'] = type(e).__name__
    return out


def do_circ(p, rng):
    out = {'p': p, 'exc': '', 'l': [], 'r': []}
    try:
        x, y = np.array([complex(*p['x'])]), np.array([complex(*p['y'])])
        l, r = beamformer.circularize(x, y, iau=p['iau']) if not p['iau'] or rng.random() < 0.5 else beamformer.circularize(x, y)
        out['l'], out['r'] = [[whole(v[0].real*math.sqrt(2)), whole(v[0].imag*math.sqrt(2))] for v in (l, r)]
    except Exception as e:
        out['exc'] = type(e).__name__
    return out


def run(job, rec, rng):
    dos = {'inc': do_inc, 'lag': do_lag, 'coh': do_coh, 'beam': do_beam, 'bad': do_bad, 'circ': do_circ}
    for beh in drv.mine(job, job['behaviours']):
        rec.begin(beh=1)
        for o in beh['ops']:
            rec.ev(o['op'], **dos[o['op']]({k: v for k, v in o.items() if k != 'op'}, rng))


drv.main(run)
