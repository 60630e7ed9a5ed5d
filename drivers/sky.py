"""Carries angles from form to form and positions from frame to frame through lsl.astro."""
import os
import sys
import math
import copy
import pickle
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import drv
warnings.simplefilter('ignore')

import lsl
from lsl import astro
from lsl.astro import dms, hms

U = 360000


def dms_of(x):
    n = abs(x)
    return dms(x < 0, n // U, n // 6000 % 60, n % 6000 / 100.0)


def hms_of(x):
    return hms(x // (15 * U), x // 90000 % 60, x % 90000 / 1500.0)


def u(deg):
    return int(round(float(deg) * U))


def make_angle(f, x):
    if f == 'dms':
        return dms_of(x)
    if f == 'hms':
        return hms_of(x)
    if f == 'rad':
        return math.radians(x / U)
    if f == 'sec':
        return x / 1500.0
    return x / U


def whole(v):
    return isinstance(v, int) or float(v) == int(v)


def show_angle(f, v):
    if f == 'dms':
        return [bool(v.neg), int(v.degrees), int(v.minutes), int(round(v.seconds * 100)), bool(whole(v.degrees) and whole(v.minutes) and 0 <= v.seconds < 60.0)]
    if f == 'hms':
        return [int(v.hours), int(v.minutes), int(round(v.seconds * 1500)), bool(whole(v.hours) and whole(v.minutes) and 0 <= v.seconds < 60.0)]
    if f == 'rad':
        return [u(math.degrees(v))]
    if f == 'sec':
        return [int(round(v * 1500))]
    return [u(v)]


def convert(c, v, x):
    if c in ('dms_pickle', 'hms_pickle'):
        return pickle.loads(pickle.dumps(v))
    if c in ('dms_repr', 'hms_repr'):
        return eval(repr(v), {'lsl': lsl})
    if c == 'dms_neg':
        return -v
    if c in ('dms_deg', 'hms_deg'):
        return v.to_deg()
    if c in ('dms_rad', 'hms_rad'):
        return v.to_rad()
    if c == 'dms_hms':
        return v.to_hms()
    if c == 'hms_dms':
        return v.to_dms()
    if c == 'hms_sec':
        return v.to_sec()
    if c == 'add_secs_hms':
        return astro.add_secs_hms(v, x / 1500.0)
    if c == 'add_hms':
        return astro.add_hms(hms_of(x), v)
    if c == 'hms_iadd':
        v += hms_of(x)
        return v
    return getattr(astro, c)(v)


CLS = {'hrz': astro.hrz_posn, 'equ': astro.equ_posn, 'gal': astro.gal_posn, 'ecl': astro.ecl_posn, 'geo': astro.geo_posn}
ATTR = {'hrz': ('az', 'alt'), 'equ': ('ra', 'dec'), 'gal': ('l', 'b'), 'ecl': ('lng', 'lat'), 'geo': ('lng', 'lat')}


def kind(o):
    return [k for k, c in CLS.items() if isinstance(o, c)][0]


def show(o):
    return [u(o[0]), u(o[1])]


def coord(k, i, x, obj):
    if obj and k != 'hrz':
        if k == 'equ' and i == 1:
            if 0 <= x < 360 * U:
                return hms_of(x)
        elif abs(x) < 360 * U:
            return dms_of(x)
    return x / U


class World(object):
    def step(self, s, o):
        jd, obs, J = self.jd, self.obs, astro.J2000_UTC_JD
        if s == 'gal':
            return astro.get_gal_from_equ(o)
        if s == 'ungal':
            return astro.get_equ_from_gal(o)
        if s in ('ecl', 'becl', 'decl'):
            return o.to_ecl(jd)
        if s == 'unecl' or s == 'ungaljd':
            return o.to_equ(jd)
        if s in ('hrz', 'bhrz', 'dhrz'):
            return o.to_hrz(obs, jd)
        if s == 'unhrz':
            return o.to_equ(obs, jd)
        if s == 'b1950':
            return astro.J2000_to_B1950(o)
        if s == 'unb1950':
            return astro.B1950_to_J2000(o)
        if s in ('prec', 'bprec'):
            return o.precess(jd)
        if s == 'unprec':
            return astro.get_equ_prec(o, J)
        if s == 'unprec2':
            return astro.get_equ_prec2(o, jd, J)
        if s == 'galjd':
            return o.to_gal(jd)
        if s in ('bgal', 'dgal'):
            return astro.get_gal_from_equ(o)
        if s == 'rect':
            return astro.get_equ_from_rect(astro.get_rect_from_equ(o))
        if s == 'apparent':
            return astro.get_apparent_posn(o, jd)
        raise KeyError(s)


def when(jd):
    x = float(jd) - 2400000.5
    d = math.floor(x)
    return [int(d), min(86399, int(round((x - d) * 86400)))]


def caught(fn):
    try:
        fn()
    except Exception as e:
        return type(e).__name__
    return ''


def ask(w, q, o, p):
    """What is asked, or None where the question does not apply."""
    k = kind(o)
    if q == 'eq':
        if k == 'ecl' or kind(p) == 'ecl':
            return None
        if k != kind(p):
            return {'q': 'foreign', 'got': [caught(lambda: o == p), caught(lambda: o != p)]}
        return {'eq': bool(o == p), 'ne': bool(o != p)}
    if q == 'bad':
        def put():
            o[7] = 1.0
        return {'got': [caught(lambda: o[7]), caught(put)]}
    if q == 'sep':
        if k != 'equ' or kind(p) != 'equ' or not w.fixed(o) or not w.fixed(p):
            return None
        return {'s1': u(o.angular_separation(p)), 's2': u(astro.get_angular_separation(p, o)), 'pa': u(astro.get_rel_posn_angle(o, p))}
    if q == 'rst':
        if k != 'equ' or not w.fixed(o):
            return None
        r = astro.get_object_rst(w.jd, w.obs, o)
        return {'v': [] if r is None else [when(r.rise), when(r.set), when(r.transit)]}
    if q == 'look':
        if k != 'hrz':
            return None
        return {'v': [int(round(10000 * x)) for x in o.dir_cos()], 'zen': u(o.zen()), 'w': astro.hrz_to_nswe(o)}
    if q == 'geo':
        if k != 'geo':
            return None
        r = astro.get_rect_from_geo(o)
        g = astro.get_geo_from_rect(r)
        return {'v': [u(g.lng), u(g.lat), int(round(1000 * g.elv))], 'r': [int(round(x / 1000)) for x in (r.X, r.Y, r.Z)]}
    if q == 'lst':
        return {'v': [u(15 * astro.get_mean_sidereal_time(w.jd)), u(15 * astro.get_apparent_sidereal_time(w.jd)),
                      u(15 * astro.get_local_sidereal_time(w.lng / U, w.jd))]}
    if k == 'hrz':
        return None
    a, b = o.format()[:2]
    return {'v': [show_angle('hms' if k == 'equ' else 'dms', a), show_angle('dms', b)]}


def run(job, rec, rng):
    to = job['conv']
    for b in drv.mine(job, job['behaviours']):
        rec.begin()
        v, f, a = None, None, 0
        w = World()
        objs = {}
        apps = set()
        w.fixed = lambda o: id(o) not in apps
        for o in b['ops']:
            op = o['op']
            if op == 'ang':
                f, a = o['f'], o['a']
                try:
                    v = make_angle(f, a)
                    rec.ev('ang', f=f, a=a, v=show_angle(f, v), exc='')
                except Exception as e:
                    rec.ev('ang', f=f, a=a, v=[], exc=type(e).__name__, m=str(e)[:80])
                    v = None
            elif op == 'conv':
                if v is None:
                    continue
                c = o['c']
                adds = c in ('add_hms', 'hms_iadd', 'add_secs_hms')
                was = copy.deepcopy(v)
                try:
                    r = convert(c, v, o['x'])
                except Exception as e:
                    rec.ev('conv', c=c, x=o['x'], v=[], same=True, exc=type(e).__name__, m=str(e)[:80])
                    v = None
                    continue
                same = adds or (vars(was) == vars(v) if hasattr(v, '__dict__') else was == v)
                f, v = to[c][1], r
                rec.ev('conv', c=c, x=o['x'], v=show_angle(f, v), same=bool(same), exc='')
                a = None
            elif op == 'acmp':
                if v is None or not hasattr(v, 'to_deg'):
                    continue
                g, d = o['g'], o['d']
                x = u(v.to_deg()) + d
                if (g == 'hms' and not 0 <= x < 360 * U) or (g == 'dms' and abs(x) >= 360 * U):
                    continue
                y = make_angle(g, x)
                try:
                    r = {'lt': v < y, 'eq': v == y, 'gt': v > y, 'le': v <= y, 'ge': v >= y, 'ne': v != y}
                    y = copy.deepcopy(v)
                    me = {'lt': v < y, 'eq': v == y, 'gt': v > y, 'le': v <= y, 'ge': v >= y, 'ne': v != y}
                    rec.ev('acmp', d=d, g=g, r={k: bool(z) for k, z in r.items()}, me={k: bool(z) for k, z in me.items()}, exc='')
                except Exception as e:
                    rec.ev('acmp', d=d, g=g, r={}, exc=type(e).__name__, m=str(e)[:80])
            elif op == 'place':
                w.lng = o['lng']
                w.elv = o['elv']
                w.obs = astro.geo_posn(o['lng'] / U, o['lat'] / U, float(o['elv']))
                w.jd = 2400000.5 + o['day'] + o['sec'] / 86400.0
                rec.ev('place', **{k: o[k] for k in ('lat', 'lng', 'elv', 'day', 'sec')})
            elif op == 'make':
                k = o['k']
                x, y = coord(k, 1, o['x'], o['how'] == 'obj'), coord(k, 2, o['y'], o['how'] == 'obj')
                d = {'op': 'make', 'k': k, 'x': o['x'], 'y': o['y'], 'how': o['how'], 'to': o['to'], 'v': [], 'exc': ''}
                try:
                    if o['how'] == 'num2':
                        p = CLS[k](**dict(zip(ATTR[k], (x, y))))
                    else:
                        p = CLS[k](x, y)
                    if k == 'geo':
                        p.elv = float(w.elv)
                    d['v'] = show(p)
                    objs[o['to']] = p
                except Exception as e:
                    d.update(exc=type(e).__name__, m=str(e)[:80])
                rec.ev(d.pop('op'), **d)
            elif op == 'set':
                p = objs.get(o['i'])
                if p is None:
                    continue
                k, c, x, how = kind(p), o['c'], o['x'], o['how']
                if how == 'zen' and (k != 'hrz' or c == 1):
                    how = 'attr'
                y = coord(k, c, x, how == 'obj')
                exc, m = '', ''
                try:
                    if how == 'zen':
                        p.zen((90 * U - x) / U)
                    elif how == 'index':
                        p[c - 1] = y
                    else:
                        setattr(p, ATTR[k][c - 1], y)
                except Exception as e:
                    exc, m = type(e).__name__, str(e)[:80]
                rec.ev('set', i=o['i'], c=c, x=x, how=how, v=show(p), exc=exc, m=m)
            elif op == 'copy':
                p = objs.get(o['i'])
                if p is None:
                    continue
                d = {'i': o['i'], 'to': o['to'], 'how': o['how'], 'v': [], 'exact': False, 'exc': ''}
                try:
                    if o['how'] == 'pickle':
                        r = pickle.loads(pickle.dumps(p))
                    else:
                        import numpy
                        r = eval(repr(p), {'lsl': lsl, 'np': numpy})
                    d.update(v=show(r), exact=bool(type(r) is type(p) and r[0] == p[0] and r[1] == p[1] and (kind(p) != 'geo' or r[2] == p[2])))
                    objs[o['to']] = r
                except Exception as e:
                    d.update(exc=type(e).__name__, m=str(e)[:80])
                rec.ev('copy', **d)
                if d['exc']:
                    break
            elif op == 'step':
                p = objs.get(o['i'])
                if p is None or kind(p) != job['from'][o['s']]:
                    continue
                d = {'i': o['i'], 'to': o['to'], 's': o['s'], 'v': [], 'k': '', 'inr': True, 'exc': ''}
                try:
                    r = w.step(o['s'], p)
                    d.update(v=show(r), k=kind(r), inr=bool(0.0 <= r[0] < 360.0 and -90.0 <= r[1] <= 90.0))
                    objs[o['to']] = r
                    if o['s'] == 'apparent':
                        apps.add(id(r))
                        objs[('keep', id(r))] = r
                except Exception as e:
                    d.update(exc=type(e).__name__, m=str(e)[:80])
                rec.ev('step', **d)
                if d['exc']:
                    break
            elif op == 'ask':
                p, q = objs.get(o['i']), objs.get(o['j'])
                if p is None or q is None:
                    continue
                try:
                    r = ask(w, o['q'], p, q)
                    if r is not None:
                        rec.ev('ask', **dict({'q': o['q'], 'i': o['i'], 'j': o['j'], 'exc': ''}, **r))
                except Exception as e:
                    rec.ev('ask', q=o['q'], i=o['i'], j=o['j'], exc=type(e).__name__, m=str(e)[:80])


drv.main(run)
