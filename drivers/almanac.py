"""Carries instants from form to form through lsl.astro and lsl.common.mcs."""
import os
import sys
import math
import pickle
from fractions import Fraction
from datetime import datetime, timedelta, timezone

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import drv

from lsl import astro
from lsl.common import mcs

JD0 = Fraction(4800001, 2)
DAY = Fraction(86400)
HALF = Fraction(1, 2)
JDS = ('jd', 'taijd', 'ttjd', 'tdbjd')
EPOCH = datetime(1858, 11, 17)


def split(x):
    """A fraction of days since 1858-11-17 as a day, a second and a microsecond."""
    n = math.floor(x * 86400 * 1000000 + HALF)
    d, r = divmod(n, 86400 * 1000000)
    s, u = divmod(r, 1000000)
    return [int(d), int(s), int(u)]


def clock(f, t):
    """What a clock of this kind reads, as an exact number of days since 1858-11-17 (scales from astropy's own table)."""
    x = Fraction(t[0]) + (Fraction(t[1]) + Fraction(t[2], 1000000)) / 86400
    return x


def secs(x):
    s = int(math.floor(x))
    return [s, int(round((x - s) * 1000000))]


def show(f, v):
    if f in JDS:
        return split(Fraction(float(v)) - JD0)
    if f in ('mjd', 'taimjd'):
        return split(Fraction(float(v)))
    if f == 'unix':
        return split(Fraction(float(v)) / 86400 + 40587)
    if f in ('date', 'zone'):
        r = [int(v.years), int(v.months), int(v.days), int(v.hours), int(v.minutes)] + secs(float(v.seconds))
        return r + ([int(v.gmtoff)] if f == 'zone' else [])
    if f == 'dt':
        o = v.utcoffset()
        return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, int(o.total_seconds()) if o is not None else 0]
    return [int(v[0]), int(v[1])]


def make(f, t, off, how, leaps):
    at = EPOCH + timedelta(days=t[0], seconds=t[1], microseconds=t[2])
    x = clock(f, t)
    if f == 'date':
        return astro.date(at.year, at.month, at.day, at.hour, at.minute, at.second + at.microsecond / 1e6)
    if f == 'zone':
        at = at + timedelta(seconds=off)
        return astro.zonedate(at.year, at.month, at.day, at.hour, at.minute, at.second + at.microsecond / 1e6, off)
    if f == 'dt':
        if how == 'naive':
            return at
        return at.replace(tzinfo=timezone.utc).astimezone(timezone(timedelta(seconds=off)))
    if f == 'mjdmpm':
        return (t[0], t[1] * 1000 + t[2] // 1000)
    if f in ('taijd', 'taimjd'):
        x += Fraction(leaps) / 86400
    if f == 'ttjd':
        x += (Fraction(leaps) + Fraction(32184, 1000)) / 86400
    if f in JDS:
        return float(x + JD0)
    if f in ('mjd', 'taimjd'):
        return float(x)
    return float((x - 40587) * 86400)


def text(d):
    a, b = str(d).split()
    out = astro.date()
    out.load(a, b)
    return out


def convert(c, v, off):
    if c == 'date_to_jd' or c == 'zone_to_jd':
        return v.to_jd()
    if c == 'to_zone':
        return v.to_zone(off)
    if c == 'date_to_zonedate':
        return astro.date_to_zonedate(v, off)
    if c == 'to_date':
        return v.to_date()
    if c == 'jd_to_mjd_tai':
        return astro.jd_to_mjd(v)
    if c == 'mjd_to_jd_tai':
        return astro.mjd_to_jd(v)
    if c == 'datetime_to_mjdmpm':
        return mcs.datetime_to_mjdmpm(v)
    if c == 'mjdmpm_to_datetime':
        return mcs.mjdmpm_to_datetime(v[0], v[1], tz=timezone(timedelta(seconds=off)))
    if c == 'date_text':
        return text(v)
    if c in ('date_pickle', 'zone_pickle'):
        return pickle.loads(pickle.dumps(v))
    if c in ('date_repr', 'zone_repr'):
        import lsl
        return eval(repr(v), {'lsl': lsl})
    return getattr(astro, c)(v)


def name(e):
    return type(e).__name__


def run(job, rec, rng):
    to = {k: v[1] for k, v in job['conv'].items()}
    table = job['leaps']
    for b in drv.mine(job, job['behaviours']):
        rec.begin()
        v = None
        f = None
        t = None
        off = 0
        for o in b['ops']:
            if o['op'] == 'new':
                f, t, off = o['f'], o['t'], o['off']
                n = 9 + sum(1 for d in table if d <= t[0])
                v = make(f, t, off, o['how'], n)
                rec.ev('new', f=f, t=t, v=show(f, v))
            elif o['op'] == 'conv':
                if v is None:
                    continue
                c = o['c']
                g = to[c]
                if c in ('zone_pickle', 'zone_repr'):
                    o2 = off
                else:
                    o2 = o['off'] if g in ('zone', 'dt') else 0
                try:
                    v = convert(c, v, o2)
                except Exception as e:
                    rec.ev('conv', c=c, off=o2, v=[], exc=name(e), m=str(e)[:80])
                    v = None
                    continue
                f = g
                off = o2
                if c == 'datetime_to_mjdmpm':
                    t = [t[0], t[1], t[2] - t[2] % 1000]
                rec.ev('conv', c=c, off=o2, v=show(f, v), exc='')
            else:
                if v is None:
                    continue
                q = o['q']
                if q == 'week' and f != 'date':
                    continue
                try:
                    if q == 'week':
                        rec.ev('ask', q=q, v=int(astro.get_day_of_week(v)), exc='')
                    elif q == 'leap':
                        if t[0] < 41319:
                            continue
                        rec.ev('ask', q=q, v=int(round(1000 * astro.leap_secs(v))), exc='')
                    else:
                        d = o['d']
                        at = EPOCH + timedelta(days=t[0], seconds=t[1] + d, microseconds=t[2])
                        w = make('zone' if o['off'] else 'date', [(at - EPOCH).days, (at - EPOCH).seconds, at.microsecond], o['off'], '', 0)
                        r = {'lt': v < w, 'eq': v == w, 'gt': v > w, 'le': v <= w, 'ge': v >= w, 'ne': v != w}
                        rec.ev('ask', q=q, d=d, r={k: bool(x) for k, x in r.items()}, exc='')
                except Exception as e:
                    rec.ev('ask', q=q, v=0, exc=name(e), m=str(e)[:80])


drv.main(run)
