"""Replays operations on lsl.imaging.data objects and records everything after each one."""
import copy
import logging
import warnings
import numpy as np

from vf.drv import main, mine
from lsl.common import stations
from lsl.imaging import utils
from lsl.imaging.data import PolarizationDataSet, VisibilityDataSet, VisibilityData
from lsl.sim import vis as simVis

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
POS = ((0, 0), (3, 4), (-5, 0), (9, -12))
CODE = {'XX': 1, 'YY': 2, 'XY': 3, 'YX': 4, 'I': 5, 'Q': 6, 'U': 7, 'V': 8}
JD0 = 2458849.5
TO = {'stokes': 'convert_to_stokes', 'linear': 'convert_to_linear', 'circular': 'convert_to_circular'}
NAMES = ('XX', 'YY', 'XY', 'YX', 'I', 'Q', 'U', 'V', 'RR', 'LL', 'RL', 'LR')


def num(x):
    x = float(x)
    return int(x) if x == int(x) else -99999999


def rows(k, p, n):
    d = np.zeros((n, 2), dtype=np.complex64)
    w = np.zeros((n, 2), dtype=np.float32)
    m = np.zeros((n, 2), dtype=bool)
    for b in range(1, n+1):
        for c in (1, 2):
            d[b-1, c-1] = complex(64*(7*k + 3*b + c + CODE[p]), 64*(b*c - k))
            w[b-1, c-1] = 64*(1 + (k+b+c) % 3)
            m[b-1, c-1] = (k+b+c+CODE[p]) % 4 == 0
    return d, w, m


def cells(pds):
    if len(pds.data) == 0:
        return []
    out = []
    for b in range(pds.data.shape[0]):
        out.append([[num(pds.data[b, c].real), num(pds.data[b, c].imag), num(pds.weight[b, c]), int(pds.mask[b, c])]
                    for c in range(pds.data.shape[1])])
    if pds.weight.shape != pds.data.shape or pds.mask.shape != pds.data.shape:
        out.append('shapes')
    return out


def dump(o):
    uv = []
    for b in range(len(o.uvw)):
        # the u and v of the center channel; the others are in proportion
        u = [num(o.uvw[b, x, 1]) for x in (0, 1)]
        uv.append(u)
    return {'t': int(round((o.jd - JD0)*24)), 'f': [num(f/1e6) for f in o.freq],
            'bls': [[a+1, b+1] for a, b in o.baselines], 'uv': uv, 'pols': list(o.pols),
            'd': {p.polarization: cells(p) for p in o}}


class World(object):
    def __init__(self, aa, stands, rng):
        self.aa, self.stands, self.rng = aa, stands, rng
        self.heap, self.pds = [], []
        self.lists = {x: VisibilityData() for x in 'abc'}

    def ref(self, o):
        for i, x in enumerate(self.heap):
            if x is o:
                return i + 1
        return 0

    def new(self, t, bls, pols):
        k = len(self.heap) + 1
        uvw = np.zeros((len(bls), 3, 2))
        for i, (a, b) in enumerate(bls):
            for x in (0, 1):
                uvw[i, x, :] = POS[a-1][x] - POS[b-1][x]
        kw = {}
        for p in pols:
            d, w, m = rows(k, p, len(bls))
            kw[p] = PolarizationDataSet(p, data=d, weight=w, mask=m)
        ds = VisibilityDataSet(JD0 + t/24.0, np.array([10e6, 11e6]), [(a-1, b-1) for a, b in bls], uvw,
                               antennaarray=self.aa, phase_center='z', tag=['x', k], **kw)
        self.heap.append(ds)

    def sel(self, ev):
        inc, exc, by = ev['inc'], ev['exc'], {}
        conv = (lambda a: self.stands[a-1]) if (ev['st'] and self.aa is not None) else (lambda a: a-1)
        by['indicies'] = not (ev['st'] and self.aa is not None)
        if inc != [0]:
            by['include'] = [conv(a) for a in inc]
        elif self.rng.random() < 0.3:
            by['include'] = 'all'
        if exc:
            by['exclude'] = [conv(a) for a in exc]
            if self.rng.random() < 0.3:
                by['exclude'] = tuple(by['exclude'])
        elif self.rng.random() < 0.3:
            by['exclude'] = 'none'
        return by

    def do(self, ev):
        """Carry out an operation: (raised, what else is recorded)"""
        op, H = ev['op'], self.heap
        o = H[ev['i']-1] if 'i' in ev and not op.startswith('p') or op == 'put' else None
        more = {}
        args = True
        if op == 'new':
            self.new(ev['t'], ev['bls'], ev['pols'])
        elif op == 'copy':
            H.append(o.copy())
            args = H[-1].tag == o.tag and H[-1].phase_center == o.phase_center
        elif op == 'bare':
            H.append(o.copy(include_pols=False))
        elif op == 'set':
            p = getattr(o, ev['p'])
            b, c, v = ev['b']-1, ev['c']-1, ev['v']
            p.data[b, c] = complex(v[0], v[1])
            p.weight[b, c] = v[2]
            p.mask[b, c] = bool(v[3])
        elif op == 'setuv':
            o.uvw[ev['b']-1, 0, :] = ev['v'][0]
            o.uvw[ev['b']-1, 1, :] = ev['v'][1]
        elif op == 'setfreq':
            o.freq[ev['c']-1] = ev['v']*1e6
        elif op == 'addpol':
            d, w, m = rows(ev['k'], ev['p'], len(o.baselines))
            o.append(PolarizationDataSet(ev['p'], data=d, weight=w, mask=m))
        elif op == 'sort':
            o.sort()
        elif op == 'sortas':
            order = [i-1 for i in ev['idx']]
            keep = list(order)
            o.sort(order=order)
            args = order == keep
        elif op == 'range':
            H.append(o.get_uv_range(min_uv=ev['lo'], max_uv=ev['hi']))
        elif op == 'subset':
            by = self.sel(ev)
            keep = copy.deepcopy(by)
            H.append(o.get_antenna_subset(**by))
            args = by == keep
        elif op == 'to':
            try:
                H.append(getattr(utils, TO[ev['to']])(o))
            except RuntimeError:
                return True, more, True
        elif op == 'add':
            try:
                self.lists[ev['x']].append(o)
            except ValueError:
                return True, more, True
        elif op == 'make':
            arg = [H[i-1] for i in ev['l']]
            self.lists[ev['x']] = VisibilityData(arg if self.rng.random() < 0.7 else tuple(arg))
            arg.append(None)
        elif op == 'put':
            self.lists[ev['x']][ev['k']-1] = o
        elif op == 'pop':
            k, n = ev['k'], len(self.lists[ev['x']])
            got = self.lists[ev['x']].pop() if k == n and self.rng.random() < 0.5 else self.lists[ev['x']].pop(k-1)
            more['got'] = self.ref(got)
        elif op == 'sortlist':
            self.lists[ev['x']].sort()
        elif op in ('copylist', 'rangelist', 'subsetlist', 'tolist'):
            src = self.lists[ev['x']]
            if op == 'copylist':
                new = src.copy()
            elif op == 'rangelist':
                new = src.get_uv_range(min_uv=ev['lo'], max_uv=ev['hi'])
            elif op == 'subsetlist':
                by = self.sel(ev)
                keep = copy.deepcopy(by)
                new = src.get_antenna_subset(**by)
                args = by == keep
            else:
                try:
                    new = getattr(utils, TO[ev['to']])(src)
                except RuntimeError:
                    return True, more, True
            for o in new:
                if self.ref(o) == 0:
                    H.append(o)
            self.lists[ev['y']] = new
        elif op == 'pnew':
            self.pds.append(PolarizationDataSet('xx'))
        elif op == 'padd':
            d, w, m = rows(ev['k'], 'XX', ev['n'])
            kw = {'weight': w, 'mask': m} if ev['full'] else {}
            t = self.pds[ev['i']-1]
            if ev['n'] == 1:
                t.append(d[0], **{x: kw[x][0] for x in kw})
            else:
                t.extend(d, **kw)
        elif op == 'pcopy':
            self.pds.append(self.pds[ev['i']-1].copy())
        elif op == 'ppick':
            self.pds.append(self.pds[ev['i']-1].subset([i-1 for i in ev['idx']]))
        elif op == 'psort':
            self.pds[ev['i']-1].sort([i-1 for i in ev['idx']])
        elif op == 'pset':
            p, v = self.pds[ev['i']-1], ev['v']
            p.data[ev['b']-1, ev['c']-1] = complex(v[0], v[1])
            p.weight[ev['b']-1, ev['c']-1] = v[2]
            p.mask[ev['b']-1, ev['c']-1] = bool(v[3])
        return False, more, args

    def record(self, rec, ev):
        raised, more, args = self.do(ev)
        out = dict(ev)
        out.pop('op')
        out.update(more)
        rec.ev(ev['op'], raised=raised, args=bool(args), heap=[dump(o) for o in self.heap], pds=[cells(p) for p in self.pds],
               lists={x: [self.ref(o) for o in self.lists[x]] for x in self.lists},
               sum={x: [int(round((t - JD0)*24)) for t in self.lists[x].jds] for x in self.lists},
               head={x: self.head(self.lists[x]) for x in self.lists}, **out)

    def head(self, v):
        # what a list says of all of its data sets, which is what the first has
        return {'f': [num(f/1e6) for f in v.freq], 'bls': [[a+1, b+1] for a, b in v.baselines], 'pols': list(v.pols),
                'n': [int(v.nbaseline), int(v.nchan), int(v.npol)], 't': [int(round((t + 2400000.5 - JD0)*24)) for t in v.mjds]}


def run(job, rec, rng):
    station = stations.lwa1
    ants = station.antennas[0:8:2]
    aa = simVis.build_sim_array(station, ants, np.array([10e6, 11e6]))
    stands = [int(s) for s in aa.get_stands()]
    for beh in mine(job, job['behaviours']):
        rec.begin()
        w = World(aa if rng.random() < 0.7 else None, stands, rng)
        for ev in beh:
            w.record(rec, ev)


main(run)
