"""Writes station files into a scratch directory, has lsl.common.stations read them, and uses the stations."""
import os
import gc
import copy
import math
import pickle
import shutil
import struct
import logging
import tempfile
import warnings

from vf.drv import main, mine
from vf import ssmif
from vf.ssmif import MILLI, FINE
from lsl.common import stations, sdm

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


def num(x, unit):
    """A number in units, if it is a number of units."""
    v = float(x)*unit
    if not math.isfinite(v) or abs(v - round(v)) > 0.02 or abs(v) > 2e9:
        return 'x%r' % x
    return int(round(v))


def whole(x):
    return int(x) if int(x) == x else 'x%r' % (x,)


def see_antenna(a):
    c = a.cable
    return {'id': whole(a.id), 'std': whole(a.stand.id), 'xyz': [num(v, 1000) for v in a.stand.xyz], 'pol': whole(a.pol), 'th': num(a.theta, 1000), 'ph': num(a.phi, 1000), 'stat': whole(a.status),
            'fee': [a.fee.id, whole(a.fee.id_number), num(a.fee.gain1, 1000), num(a.fee.gain2, 1000), whole(a.fee.status)], 'port': whole(a.fee_port),
            'cable': {'id': c.id, 'n': [num(c.length, 1000), num(c.vf, 100000), num(c.dd, 1e12), num(c.a0, 1e5), num(c.a1, 1e5), num(c.ref_freq, 1), num(c.stretch, 1000)]},
            'clk': num(c.clock_offset, 1e9), 'att': num(c.asp_atten_db, 2), 'arx': [whole(a.arx.id), whole(a.arx.channel), whole(a.arx.asp_channel)], 'io': [a.arx.input, a.arx.output],
            'brd': whole(a.board), 'dig': whole(a.digitizer), 'inr': a.input}


def see(s):
    m = s.beamformer_min_delay_samples
    return {'id': s.id, 'name': s.name, 'lat': num(math.degrees(s.lat), 1000), 'lon': num(math.degrees(s.long), 1000), 'el': num(s.elev, 1000), 'gain': whole(getattr(s, 'default_drx_gain', -1)),
            'min': -1 if m is None else whole(m), 'ndp': s.interface.backend == 'lsl.common.ndp' and s.interface.mcs == 'lsl.common.mcs' and s.interface.sdf == 'lsl.common.sdf',
            'ants': [see_antenna(a) for a in s.antennas]}


def placed(s, a):
    """The stand is where its offset from the station says."""
    me, it = s.earth_location, a.stand.earth_location
    lat, lon = me.lat.rad, me.lon.rad
    d = [it.x.value - me.x.value, it.y.value - me.y.value, it.z.value - me.z.value]
    e = [-math.sin(lon), math.cos(lon), 0]
    n = [-math.sin(lat)*math.cos(lon), -math.sin(lat)*math.sin(lon), math.cos(lat)]
    u = [math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon), math.sin(lat)]
    dot = lambda p: sum(x*y for x, y in zip(p, d))
    return all(abs(dot(p) - w) < 1e-3 for p, w in zip((e, n, u), a.stand.xyz))


class World(object):
    def __init__(self, rec, rng, lay, root):
        self.rec, self.rng, self.lay, self.root = rec, rng, lay, root
        self.sts = []
        self.n = 0

    def ev(self, op, err='', **kw):
        live = [see(s) for s in self.sts]
        loc = True
        if self.sts:
            s = self.rng.choice(self.sts)
            try:
                loc = placed(s, self.rng.choice(s.antennas))
            except ReferenceError:
                loc = False
        self.rec.ev(op, err=err, live=live, loc=loc, **kw)

    def value(self, k, v):
        r = self.rng
        if k in MILLI:
            return r.choice([repr(v/1000), '%+.3f' % (v/1000), '%.6f' % (v/1000), '%.8e' % (v/1000)])
        if k in FINE:
            return r.choice(['%.5f' % (v/1e5), '%.5e' % (v/1e5)])
        if k == 'RPD_FREF':
            return r.choice(['%ie6' % (v//1000000), str(v), '%.1E' % v])
        return str(v)

    def text(self, lines):
        r = self.rng
        out = []
        for s in lines:
            if r.random() < 0.15:
                out.append(r.choice(['', '   ', '# a comment', '#', '  # an indented comment', '\t#STD_LX[1] 5', '#N_STD 7']))
            out.append('%s%s%s%s%s%s' % (r.choice(['', '', '', ' ', '\t']), s['k'], ''.join('[%i]' % i for i in s['i']), r.choice([' ', '  ', '\t', '   \t ']), self.value(s['k'], s['v']),
                                         r.choice(['', '', '', ' ', '   ', '\t', ' # note', '# STD_LX[1] 9', '\t\t# [2] 5'])))
        end = r.choice(['\n', '\n', '\r\n'])
        return (end.join(out) + r.choice(['', end])).encode()

    def parse(self, e):
        r = self.rng
        self.n += 1
        fn = os.path.join(self.root, 'f%i%s' % (self.n, '.txt' if e['how'] == 'text' else '.dat'))
        with open(fn, 'wb') as fh:
            fh.write(self.text(e['lines']) if e['how'] == 'text' else ssmif.binary(self.lay, e['tab'], e['fill'], r))
        err, still = '', True
        try:
            if e['src'] == 'path':
                s = stations.parse_ssmif(fn)
            else:
                with open(fn, 'rb' if e['src'] == 'bhandle' or e['how'] == 'binary' else 'r') as fh:
                    s = stations.parse_ssmif(fh)
                    still = not fh.closed
            self.sts.append(s)
        except Exception as ex:
            err = type(ex).__name__
        self.ev('parse', err, lines=e['lines'], how=e['how'], src=e['src'], open=still)

    def clone(self, e):
        s = self.sts[e['s'] - 1]
        c = copy.copy(s) if e['how'] == 'copy' else copy.deepcopy(s) if e['how'] == 'deepcopy' else pickle.loads(pickle.dumps(s, self.rng.choice([0, 2, 3, 4])))
        got = see(c)
        kept = e['how'] != 'copy' and len(self.sts) < 3
        if kept:
            self.sts.append(c)
        del c, s
        gc.collect()
        self.ev('clone', s=e['s'], how=e['how'], got=got, kept=kept)

    def tweak(self, e):
        s = self.sts[e['s'] - 1]
        a = [x for x in s.antennas if x.id == e['a']][0]
        w, v = e['w'], e['v']
        if w == 'clk':
            a.cable.clock_offset = v*1e-9
        elif w == 'att':
            a.cable.asp_atten_db = v/2
        elif w == 'stat':
            a.status = v
        elif w == 'th':
            a.theta = v/1000
        elif w == 'pos':
            if self.rng.random() < 0.5:
                a.stand.x = float(v)
            else:
                a.stand[0] = v
        elif w == 'min':
            s.beamformer_min_delay_samples, s.beamformer_min_delay = v, v/196e6
        else:
            s.default_drx_gain = v
        self.ev('tweak', s=e['s'], a=e['a'], w=w, v=v)

    def sdm(self, e):
        s = self.sts[e['s'] - 1]
        d = sdm.SDM()
        d.ant_status = [[e['st'][2*i], e['st'][2*i + 1]] for i in range(4)] + [[0, 0]]*252
        new = d.update_antennas(s.antennas)
        got = [see_antenna(a) for a in new]
        if e['adopt']:
            s.antennas = new
        self.ev('sdm', s=e['s'], st=e['st'], adopt=e['adopt'], got=got)

    def assign(self, e):
        s = self.sts[e['s'] - 1]
        by = {a.id: a for a in s.antennas}
        s.antennas = [by[i] for i in e['p']]
        self.ev('assign', s=e['s'], p=e['p'])


def run(job, rec, rng):
    for beh in mine(job, job['behaviours']):
        root = tempfile.mkdtemp(dir=job.get('tmp'))
        w = World(rec, rng, beh['lay'], root)
        rec.begin()
        for e in beh['ops']:
            if e.get('s', 0) > len(w.sts):
                break                       # a file could not be read
            getattr(w, e['op'])(e)
        shutil.rmtree(root, ignore_errors=True)


main(run)
