"""Writes visibility files with lsl.writer and reads them with lsl.imaging.utils."""
import os
import hashlib
import logging
import shutil
import tarfile
import tempfile
import warnings
import numpy as np

from vf.drv import main, mine
from lsl.common import stations
from lsl.writer import fitsidi, uvfits, measurementset
from lsl.imaging import utils
from lsl import astro
from lsl.imaging.data import VisibilityDataSet

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
WRITERS = {'idi': fitsidi.Idi, 'ext': fitsidi.ExtendedIdi, 'aips': fitsidi.Aips, 'uv': uvfits.Uv, 'ms': measurementset.Ms}
READERS = {'idi': utils.CorrelatedDataIDI, 'ext': utils.CorrelatedDataIDI, 'aips': utils.CorrelatedDataIDI,
           'uv': utils.CorrelatedDataUV, 'ms': utils.CorrelatedDataMS}
FAMILIES = (('XX', 'YY', 'XY', 'YX'), ('RR', 'LL', 'RL', 'LR'), ('I', 'Q', 'U', 'V'))
MSFAMILIES = (('XX', 'XY', 'YX', 'YY'), ('RR', 'RL', 'LR', 'LL'), ('I', 'Q', 'U', 'V'))
C = 299792458.0
CH = 25000.0


def val(d, a, b, c, full=True):
    v = complex(1000*d['k'] + 100*a + 10*b, 10*d['pol'] + c)
    w = 1 + (d['k'] + 2*a + 3*b + c + d['pol']) % 7 if d['wgt'] else 1
    return v, w


def exact(x):
    x = float(x)
    return int(x) if x == int(x) else -99999999


def digest(path):
    h = hashlib.md5()
    if os.path.isdir(path):
        for r, ds, fs in sorted(os.walk(path)):
            for f in sorted(fs):
                h.update(f.encode())
                with open(os.path.join(r, f), 'rb') as fh:
                    h.update(fh.read())
    else:
        with open(path, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def episode(rec, rng, beh, scratch):
    conf = beh['conf']
    fmt = conf['fmt']
    fam = rng.choice(MSFAMILIES if fmt == 'ms' else FAMILIES)
    names = [fam[p-1] for p in conf['pols']]
    steps = rng.choice(((0, 1.0, 10.0, 61.0), (0, 5.0, 3600.0, 7200.0), (0, 10.0, 43200.0, 86400.0), (0, 2.0, 86398.0, 3*86400.0)))
    t0 = 59000.0 + rng.choice((0.25, 0.5, 0.99987, 0.0001))
    site = stations.LWAStation('T', 34.070, -107.628, 2133.6)
    ants = []
    for i, (s, p) in enumerate(zip(conf['stands'], conf['pos'])):
        ants.append(stations.Antenna(2*i+1, stand=stations.Stand(s, *[float(x) for x in p]), pol=0))
    site.antennas = ants
    bstart = rng.sample(range(0, 6), conf['bands'])
    if rng.random() < 0.5:
        bstart.sort()
    freqs = [30e6 + 1e6*b + CH*np.arange(conf['chans']) for b in bstart]
    path = os.path.join(scratch, 'v.' + fmt)
    ref = rng.choice((1.6e9, 1234567890))
    w = WRITERS[fmt](path, ref_time=ref)
    order = list(names)
    rng.shuffle(order)
    w.set_stokes(order[:1])
    w.set_stokes(order)
    for f in freqs:
        w.set_frequency(f)
    w.set_geometry(site, ants)
    w.set_observer('me', 'P1')
    kfreq = [int(round(f/1000)) for fr in freqs for f in fr]
    rec.begin(conf=conf, fam=list(fam), t0=t0, steps=list(steps), kfreq=kfreq)
    pend = []
    k = 0
    n = conf['bands']*conf['chans']
    written = False
    shared = {}

    def add(t, pol, wgt, bls):
        nonlocal k
        k += 1
        d = {'k': k, 't': t, 'pol': pol, 'int': t, 'wgt': wgt, 'bls': [list(b) for b in bls]}
        rec.ev('add', **d)
        vis = np.array([[val(d, a, b, c)[0] for c in range(1, n+1)] for a, b in bls])
        vis = vis.astype(rng.choice((np.complex64, np.complex128)))
        kw = {}
        if wgt:
            kw['weights'] = np.array([[val(d, a, b, c)[1] for c in range(1, n+1)] for a, b in bls], dtype=np.float32)
        # the same list object, or another one with the same baselines
        key = tuple(map(tuple, bls))
        if rng.random() < 0.5 and key in shared:
            lst = shared[key]
        else:
            lst = shared[key] = [(ants[a-1], ants[b-1]) for a, b in bls]
        name = fam[pol-1]
        if rng.random() < 0.3:
            name = name.lower()
        w.add_data_set(t0 + steps[t-1]/86400.0, float(t), lst, vis, pol=name, **kw)

    def turn(s, r):
        return [s[(i + r) % len(s)] for i in range(len(s))]

    for op in beh['ops']:
        o = op['op']
        if o == 'bl':
            pend = pend + [[op['a'], op['b']]]
        elif o == 'mix':
            pend = turn(pend, op['r'])
        elif o == 'drop':
            pend = pend[1:]
        elif o == 'all':
            ps = conf['pols'][::-1] if op['rev'] else conf['pols']
            for i, p in enumerate(ps):
                add(op['t'], p, op['wgt'], pend if i == 0 else turn(pend, op['r']))
        elif o == 'one':
            add(op['t'], op['pol'], False, pend)
        elif o == 'write':
            try:
                w.write()
                w.close()
                written = True
                rec.ev('write', ok=True)
            except RuntimeError as e:
                rec.ev('write', ok=False, err=str(e))
                return
            # an existing file is kept unless told otherwise
            h = digest(path)
            try:
                WRITERS[fmt](path, ref_time=ref)
                kept = False
            except IOError:
                kept = digest(path) == h
            rec.ev('exists', kept=kept)
            src = path
            if fmt == 'ms' and rng.random() < 0.3:
                src = os.path.join(scratch, 'v.tar.gz')
                with tarfile.open(src, 'w:gz') as tf:
                    tf.add(path, arcname='v.ms')
            r = (utils.CorrelatedData if rng.random() < 0.5 else READERS[fmt])(src)
            a0 = r.antennas[0].stand
            rec.ev('meta', kind=type(r).__name__, count=int(r.integration_count), rows=int(r.total_baseline_count),
                   pols=[(utils.NUMERIC_STOKESMS if fmt == 'ms' else utils.NUMERIC_STOKES)[int(p)] for p in r.pols],
                   freq=[int(round(f/1000)) for f in r.freq], stands=[int(a.stand.id) for a in r.antennas],
                   stands2=[int(s) for s in r.stands],
                   pos=[[int(round(x)) for x in (a.stand.x - a0.x, a.stand.y - a0.y, a.stand.z - a0.z)] for a in r.antennas],
                   high=int(round(float(r.station.elev))), lat=int(round(float(r.station.lat)*180/np.pi*1000)),
                   lng=int(round(float(r.station.long)*180/np.pi*1000)))
            if rng.random() < 0.3:
                ds = [x for x in r.data_set_sequence(include_auto=True)]
                rec.ev('read', sets=list(range(1, r.integration_count+1)), auto=True, sort=True, lo=-1, hi=100000,
                       got=[out(x, fmt, t0, steps, fam, a0) for x in ds], seq=True)
        elif o == 'read' and written:
            kw = {'include_auto': op['auto'], 'sort': op['sort']}
            # in wavelengths at the central channel
            fc = r.freq[len(r.freq)//2]
            if op['lo'] > 0:
                kw['min_uv'] = np.sqrt(op['lo'] + 0.5)*fc/C
            if op['hi'] < 100000:
                kw['max_uv'] = np.sqrt(op['hi'] + 0.5)*fc/C
            sets = op['sets']
            if len(sets) == 1 and rng.random() < 0.5:
                sets = sets[0]
            try:
                ds = r.get_data_set(sets, **kw)
            except ValueError as e:
                rec.ev('readraise', sets=op['sets'], auto=op['auto'], lo=op['lo'], hi=op['hi'], err=str(e))
                continue
            ds = [ds] if isinstance(ds, VisibilityDataSet) else list(ds)
            rec.ev('read', sets=op['sets'], auto=op['auto'], sort=op['sort'], lo=op['lo'], hi=op['hi'],
                   got=[out(x, fmt, t0, steps, fam, a0) for x in ds], seq=False)


def out(x, fmt, t0, steps, fam, a0):
    # the time: which one of those given (a measurement set has the middle of the integration)
    t = -1
    for i, s in enumerate(steps):
        utc = astro.taimjd_to_utcjd(t0 + s/86400.0)
        if fmt == 'ms':
            utc += x.int_time/2/86400.0
        if abs(x.jd - utc)*86400.0 < (0.02 if fmt == 'uv' else 0.001):
            t = i+1
    cells = []
    for p in x.pols:
        pds = getattr(x, p)
        ok = pds.data.shape == pds.weight.shape == pds.mask.shape and not pds.mask.any()
        cells.append([[[exact(v.real), exact(v.imag), exact(wt) if ok else -1] for v, wt in zip(vr, wr)]
                      for vr, wr in zip(pds.data, pds.weight)])
    uvw = [[[int(round(float(q)*C/f*10)) for q in row[:, c]] for c, f in enumerate(x.freq)] for row in x.uvw]
    alt = 90
    if x.phase_center is not None:
        x.antennaarray.set_jultime(x.jd - (x.int_time/2/86400.0 if fmt == 'ms' else 0))
        x.phase_center.compute(x.antennaarray)
        alt = float(x.phase_center.alt)*180/np.pi
    return {'t': t, 'int': exact(x.int_time), 'bls': [[int(a)+1, int(b)+1] for a, b in x.baselines], 'pols': list(x.pols),
            'cells': cells, 'uvw': uvw, 'alt': 90 if alt > 89.9 else int(alt), 'freq': [int(round(f/1000)) for f in x.freq]}


def run(job, rec, rng):
    for beh in mine(job, job['behaviours']):
        scratch = tempfile.mkdtemp()
        try:
            episode(rec, rng, beh, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


main(run)
