"""Drives lsl.correlator.fx and lsl.correlator.uvutils."""
import warnings
import numpy as np
import ephem
from astropy.coordinates import AltAz, SkyCoord, EarthLocation, Angle
import astropy.units as u

from vf.drv import main, mine
from lsl.reader.base import CI8
from lsl.common import stations
from lsl.correlator import fx, uvutils

warnings.simplefilter('ignore')
C = fx.speedOfLight
EXACT = (1, 2, 4)


class TestCable(stations.Cable):
    """a cable with given delays (in samples, by channel) and gain 4^g"""

    def setup(self, f0, df, ds, dt, g):
        self.f0, self.df, self.ds, self.dt, self.g = f0, df, list(ds), dt, g
        return self

    def delay(self, frequency=49e6, ns=False):
        f = np.asarray(frequency, dtype=float)
        k = np.rint((f - self.f0)/self.df).astype(int) if self.df else np.zeros(f.shape, dtype=int)
        d = np.array(self.ds, dtype=float)[np.clip(k, 0, len(self.ds)-1)]*self.dt
        return d*1e9 if ns else d

    def gain(self, frequency=49e6, dB=False, include_asp_atten=True):
        g = np.ones(np.asarray(frequency).shape)*4.0**self.g
        return 10*np.log10(g) if dB else g

    def attenuation(self, frequency=49e6, dB=False, include_asp_atten=True):
        g = 1/self.gain(frequency)
        return 10*np.log10(g) if dB else g


def num(x, unit):
    x = float(x)
    if not np.isfinite(x):
        return 0
    return int(round(x*unit))


def cpl(z, unit):
    z = complex(z)
    return [num(z.real, unit), num(z.imag, unit)]


def turns(x):
    """close to an integer, or none"""
    r = int(round(float(x)))
    return r if abs(float(x) - r) < 1e-4 else -999999


SOURCES = {  # east, north, up: the ways to ask for it
    'z': ('z', (0.0, 0.0, 1.0)),
    'tuple-z': ((0.0, 90.0), (0.0, 0.0, 1.0)),
    'n': ((0.0, 0.0), (0.0, 1.0, 0.0)),
    'e': ((90.0, 0.0), (1.0, 0.0, 0.0)),
    's': ((180.0, 0.0), (0.0, -1.0, 0.0)),
    'altaz-e': (AltAz(az=90*u.deg, alt=0*u.deg), (1.0, 0.0, 0.0)),
    'altaz-n': (AltAz(az=0*u.deg, alt=0*u.deg), (0.0, 1.0, 0.0)),
}


def antennas(rng, stands, fs, f0, df, cable_d, gains, xyz):
    """stands: list of (stand id, pol)"""
    out = []
    seen = {}
    for i, (s, p) in enumerate(stands):
        if s not in seen:
            seen[s] = stations.Stand(s, *[v*C/fs for v in xyz[s]])
        cab = TestCable('c%d' % i, 10.0).setup(f0, df, cable_d[i], 1.0/fs, gains[i])
        out.append(stations.Antenna(rng.randrange(100, 200)*100 + i, stand=seen[s], pol=p, cable=cab, status=3))
    return out


def signals(rng, par, dtype):
    sig = np.array([[complex(*x) for x in a['sig']] for a in par['ants']])
    if dtype == 'ci8':
        out = np.zeros(sig.shape, dtype=CI8)
        out['re'], out['im'] = sig.real, sig.imag
        return out
    if par['real']:
        return sig.real.astype(dtype)
    return sig.astype(dtype)


def window(par):
    w = par['win']
    return lambda n: np.array(w, dtype=float) if n == len(w) else np.full(n, np.nan)


def complete(rng, par, ep):
    """What a run needs besides par: sample rate, geometry, data type."""
    n = 2*par['L'] if par['real'] else par['L']
    fs = rng.choice([1e5, 19.6e6, 196e6, 4.9e6])
    df = fs/n
    f0 = 0.0 if par['real'] else (par['fc'] - par['L']//2)*df
    src, vec = SOURCES[rng.choice(sorted(SOURCES))]
    stands = [(a['stand'], a['pol']) for a in par['ants']]
    xyz = {s: [rng.randrange(-3, 4) for i in range(3)] for s, p in stands}
    cd = []
    for a in par['ants']:
        g = int(round(sum(v*w for v, w in zip(vec, xyz[a['stand']]))))
        a['xyz'] = xyz[a['stand']]
        cd.append([d + g for d in a['d']])
    ants = antennas(rng, stands, fs, f0, df, cd, [a['g'] for a in par['ants']], xyz)
    if par['real']:
        dts = ['int8', 'int16', 'int32', 'int64', 'float32', 'float64']
    else:
        dts = ['ci8', 'complex64', 'complex128']
    return n, fs, df, src, ants, rng.choice(dts)


def ids(bl):
    return [[a.stand.id, a.pol, b.stand.id, b.pol] for a, b in bl]


def run_fx(rec, rng, par, kinds, src_name):
    n, fs, df, src, ants, dt = complete(rng, par, None)
    unit = 10**4 if n in EXACT else 10**6
    rec.begin(par=par, src=src_name, dtype=dt)
    data = signals(rng, par, dt)
    kw = dict(LFFT=par['L'])
    if fs != 196e6 or rng.random() < 0.5:
        kw['sample_rate'] = fs
    if not par['real']:
        kw['central_freq'] = par['fc']*df
    w = {}
    if any(v != 1 for v in par['win']) or rng.random() < 0.3:
        w['window'] = window(par)
    pols = 'XY'[par['p1']] + 'XY'[par['p2']]
    if rng.random() < 0.2:
        pols = pols.replace('X', 'R').replace('Y', 'L')
    if rng.random() < 0.2:
        pols = pols.lower()
    keep = data.copy()
    for kind in kinds:
        try:
            with np.errstate(all='ignore'):
                if kind == 'fx':
                    r = fx.FXMaster(data, ants, overlap=par['ov'], include_auto=par['auto'], pol=pols, gain_correct=par['gain'],
                                    return_baselines=True, clip_level=par['clip'], phase_center=src, **kw, **w)
                elif kind == 'fxstokes':
                    r = fx.FXStokes(data, ants, overlap=par['ov'], include_auto=par['auto'], gain_correct=par['gain'],
                                    return_baselines=True, clip_level=par['clip'], phase_center=src, **kw, **w)
                elif kind == 'spec':
                    r = fx.SpecMaster(data, clip_level=par['clip'], **kw, **w)
                elif kind == 'pstokes':
                    r = fx.StokesMaster(data, ants, clip_level=par['clip'], **kw, **w)
        except Exception as e:
            rec.ev('raise', what=kind, exc=type(e).__name__ + ': ' + str(e)[:200])
            continue
        kept = bool(np.array_equal(keep, data))
        if kind in ('fx', 'fxstokes'):
            bl, freq, vis = r
        else:
            freq, vis = r
        fr = [turns(f/df) for f in freq]
        if kind == 'fx':
            rec.ev('fx', bl=ids(bl), freq=fr, vis=[[cpl(z, unit) for z in b] for b in vis], kept=kept)
        elif kind == 'fxstokes':
            rec.ev('fxstokes', bl=ids(bl), freq=fr, vis=[[[cpl(z, unit) for z in b] for b in s] for s in vis], kept=kept)
        elif kind == 'spec':
            rec.ev('spec', freq=fr, psd=[[num(z, unit) for z in b] for b in vis], kept=kept)
        else:
            rec.ev('pstokes', freq=fr, psd=[[[num(z, unit) for z in b] for b in s] for s in vis], kept=kept)


def random_par(rng, stokes, spec):
    """A random set up; small enough for TLC's integers."""
    real = rng.random() < 0.4
    L = rng.choice([1, 2] if real else [1, 2, 4, 4]) if rng.random() < 0.6 else rng.choice([3, 4] if real else [3, 5, 6, 8])
    n = 2*L if real else L
    exact = n in EXACT
    ov = 1 if spec else rng.choice([1, 1, 2, 3, 4])
    ov = min(ov, n)
    if real and n == 2 and ov > 2:
        ov = 2
    clip = 0 if rng.random() < 0.5 else rng.choice([1, 2, 3, 5])
    if stokes and not spec:
        clip = 0
    win = [1]*n
    if exact and rng.random() < 0.4:
        win = [rng.choice([0, 1, 2, 1]) for i in range(n)]
    amp = rng.choice([1, 3, 5]) if exact else 1
    nw = rng.randrange(1, 6 if ov < 3 else 4)
    maxd = 0 if spec else rng.choice([0, 1, 3, 6])
    ns = rng.choice([1, 2, 2, 3, 4]) if not stokes else rng.choice([1, 2, 3])
    ids_ = rng.sample(range(1, 60), ns)
    both = stokes or rng.random() < 0.5
    p1, p2 = (0, 1) if stokes else rng.choice([(0, 0), (1, 1), (0, 1), (1, 0)] if both else [(0, 0)])
    order = [(s, p) for s in ids_ for p in ((0, 1) if both else (0,))]
    if both:
        k = rng.randrange(3)
        if k == 1:
            order = [(s, 0) for s in ids_] + [(s, 1) for s in ids_]
        elif k == 2:
            order = [(s, 1-p) for s, p in order]
    T = n*nw + maxd + rng.randrange(0, n)
    if not exact:
        T = min(T, (n*7)//max(1, ov) + n)
    T = max(T, n + maxd)
    gs = {s: rng.choice([0, 0, 1, 2]) for s in ids_}
    ants = []
    for s, p in order:
        base = rng.randrange(0, maxd+1)
        d = [base]*L
        if maxd and rng.random() < 0.4:
            d = [base + rng.choice([-1, 0, 0, 1, 2]) for c in range(L)]
            d[L//2] = base
        def val():
            if real:
                return [rng.randrange(-amp, amp+1), 0]
            return [rng.randrange(-amp, amp+1), rng.randrange(-amp, amp+1)]
        sig = [val() for t in range(T)]
        if clip and rng.random() < 0.5:
            sig = [x if rng.random() < 0.15 else [0 if real or rng.random() < 0.5 else rng.choice([-1, 1])*(clip > 1), 0] for x in sig]
        ants.append({'stand': s, 'pol': p, 'd': d, 'g': gs[s] if stokes else rng.choice([0, 0, 1, 2]), 'sig': sig})
    return {'real': real, 'L': L, 'ov': ov, 'clip': clip, 'win': win, 'fc': 0 if real else rng.choice([0, 1, 7, -2, 100]),
            'p1': p1, 'p2': p2, 'auto': rng.random() < 0.6, 'gain': (not spec) and rng.random() < 0.4, 'ants': ants}


def x_episode(rec, rng):
    """spectra in, visibilities out"""
    stokes = rng.random() < 0.5
    ns = rng.choice([1, 2, 3, 4])
    ids_ = rng.sample(range(1, 60), ns)
    both = stokes or rng.random() < 0.5
    p1, p2 = (0, 1) if stokes else rng.choice([(0, 0), (1, 1), (0, 1), (1, 0)] if both else [(0, 0)])
    order = [(s, p) for s in ids_ for p in ((0, 1) if both else (0,))]
    if both and rng.random() < 0.5:
        order = [(s, 0) for s in ids_] + [(s, 1) for s in ids_]
    L, T = rng.randrange(1, 6), rng.randrange(1, 6)
    df = rng.choice([1e3, 25e3, 1e6])
    fs = 4*df                                             # delays in quarter turns of a channel
    k0 = rng.choice([0, 1, 1000, 3001])
    freqs = [k0 + c for c in range(L)]
    gs = {s: rng.choice([0, 0, 1, 2]) for s in ids_}
    src, vec = SOURCES[rng.choice(sorted(SOURCES))]
    xyz = {s: [rng.randrange(-3, 4) for i in range(3)] for s in ids_}
    ants, cd = [], []
    for s, p in order:
        d = [rng.randrange(0, 6)]*L
        if rng.random() < 0.4:
            d = [rng.randrange(0, 6) for c in range(L)]
        ants.append({'stand': s, 'pol': p, 'd': d, 'g': gs[s] if stokes else rng.choice([0, 1, 2]), 'xyz': xyz[s],
                     'spec': [[[rng.randrange(-4, 5), rng.randrange(-4, 5)] for t in range(T)] for c in range(L)]})
        g = int(round(sum(v*w for v, w in zip(vec, xyz[s]))))
        cd.append([x + g for x in d])
    par = {'real': False, 'L': L, 'T': T, 'freqs': [f % 4 for f in freqs], 'p1': p1, 'p2': p2, 'auto': rng.random() < 0.6,
           'gain': rng.random() < 0.4, 'ants': ants}
    A = antennas(rng, order, fs, k0*df, df, cd, [a['g'] for a in ants], xyz)
    rec.begin(par=par, src='random')
    data = np.array([[[complex(*z) for z in c] for c in a['spec']] for a in ants]).astype(rng.choice(['complex64', 'complex128']))
    freq = np.array(freqs)*df
    keep = data.copy()
    try:
        if stokes:
            bl, vis = fx.XStokes(freq, data, A, include_auto=par['auto'], gain_correct=par['gain'], return_baselines=True, phase_center=src)
            rec.ev('xstokes', bl=ids(bl), vis=[[[cpl(z, 10**4) for z in b] for b in s] for s in vis], kept=bool(np.array_equal(keep, data)))
        else:
            bl, vis = fx.XMaster(freq, data, A, include_auto=par['auto'], pol='XY'[p1]+'XY'[p2], gain_correct=par['gain'],
                                 return_baselines=True, phase_center=src)
            rec.ev('x', bl=ids(bl), vis=[[cpl(z, 10**4) for z in b] for b in vis], kept=bool(np.array_equal(keep, data)))
    except Exception as e:
        rec.ev('raise', what='x', exc=type(e).__name__ + ': ' + str(e)[:200])


class Site(object):
    def __init__(self, lat):
        self.lat = lat


def bl_episode(rec, rng):
    """baseline numbers and uvw"""
    ns = rng.randrange(2, 6)
    ids_ = rng.sample(range(1, 60), ns)
    both = rng.random() < 0.5
    p1, p2 = rng.choice([(0, 0), (0, 1), (1, 0)]) if both else (0, 0)
    order = [(s, p) for s in ids_ for p in ((0, 1) if both else (0,))]
    xyz = {s: [rng.randrange(-9, 10) for i in range(3)] for s in ids_}
    auto = rng.random() < 0.6
    par = {'real': False, 'L': 1, 'p1': p1, 'p2': p2, 'auto': auto,
           'ants': [{'stand': s, 'pol': p, 'xyz': xyz[s]} for s, p in order]}
    A = antennas(rng, order, 1.0*C, 0.0, 1.0, [[0]]*len(order), [0]*len(order), xyz)
    rec.begin(par=par, src='random')
    a1, a2 = [a for a in A if a.pol == p1], [a for a in A if a.pol == p2]
    try:
        bl = uvutils.get_baselines(a1, antennas2=a2, include_auto=auto)
        kw = dict(include_auto=auto)
        if rng.random() < 0.4:
            kw = dict(baseline_list=bl)
        to = [uvutils.baseline_to_antennas(i, a1, antennas2=a2, **kw) for i in range(len(bl))]
        fr = [uvutils.antennas_to_baseline(a, b, a1, antennas2=a2, **kw) for a, b in bl]
        back = [uvutils.antennas_to_baseline(b, a, a1, antennas2=a2, **kw) for a, b in bl]
        other = stations.Antenna(7, stand=stations.Stand(77, 0, 0, 0), pol=0)
        rec.ev('number', list=ids(bl), to=ids(to), **{'from': fr}, back=back,
               none=uvutils.antennas_to_baseline(a1[0], other, a1, antennas2=a2, **kw))
        for k in range(3):
            lat, ha, dec = rng.randrange(-1, 2), rng.randrange(-1, 3), rng.randrange(-1, 2)
            nf = rng.choice([[1], [2, 3, 5], [[1, 2], [3, 4]]])
            # in units in which a wavelength is a metre
            f = np.array(nf)*C
            farg = f if np.ndim(nf) != 1 or len(nf) > 1 else rng.choice([f, float(f[0]), [float(f[0])]])
            H = rng.choice([6.0*ha, ephem.hours(ha*np.pi/2), Angle(90*ha, 'deg')])
            D = rng.choice([90.0*dec, ephem.degrees(dec*np.pi/2), Angle(90*dec, 'deg')])
            site = rng.choice([Site(lat*np.pi/2), EarthLocation.from_geodetic(10*u.deg, 90*lat*u.deg, height=0*u.m)])
            arg = bl if (both or rng.random() < 0.5) else a1
            v = uvutils.compute_uvw(arg, HA=H, dec=D, freq=farg, site=site, include_auto=auto)
            good = v.shape == (len(bl), 3) + np.array(farg, ndmin=1).shape
            v = v.reshape(len(bl), 3, -1)
            rec.ev('uvw', lat=lat, ha=ha, dec=dec, fr=[int(x) for x in np.ravel(nf)],
                   uvw=[[[turns(b[i, j]) for i in range(3)] for j in range(b.shape[1])] for b in v] if good else [])
    except Exception as e:
        rec.ev('raise', what='baselines', exc=type(e).__name__ + ': ' + str(e)[:200])


def run(job, rec, rng):
    for par in mine(job, job['behaviours']):
        par['auto'], par['gain'] = True, False
        for a in par['ants']:
            a['g'] = 0
        run_fx(rec, rng, par, ['fx'], 'tlc')
    for i in mine(job, range(job['fx'])):
        run_fx(rec, rng, random_par(rng, False, False), ['fx'], 'random')
    for i in mine(job, range(job['stokes'])):
        run_fx(rec, rng, random_par(rng, True, False), ['fxstokes'], 'random')
    for i in mine(job, range(job['spec'])):
        run_fx(rec, rng, random_par(rng, True, True), ['spec', 'pstokes'], 'random')
    for i in mine(job, range(job['x'])):
        x_episode(rec, rng)
    for i in mine(job, range(job['bl'])):
        bl_episode(rec, rng)


main(run)
