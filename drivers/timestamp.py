"""Drives lsl.reader.base.FrameTimestamp."""
import copy
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import numpy as np
from astropy.time import Time

from vf.drv import main, mine
from lsl.reader.base import FrameTimestamp

FS = 196000000
MJD0 = 40587
# days that end with a leap second (as days since 1970): astropy's UNIX time is not uniform on them
LEAP = set((datetime(y, m, d) - datetime(1970, 1, 1)).days for y, m, d in
           [(1972, 6, 30), (1972, 12, 31), (1973, 12, 31), (1974, 12, 31), (1975, 12, 31), (1976, 12, 31), (1977, 12, 31),
            (1978, 12, 31), (1979, 12, 31), (1981, 6, 30), (1982, 6, 30), (1983, 6, 30), (1985, 6, 30), (1987, 12, 31),
            (1989, 12, 31), (1990, 12, 31), (1992, 6, 30), (1993, 6, 30), (1994, 6, 30), (1995, 12, 31), (1997, 6, 30),
            (1998, 12, 31), (2005, 12, 31), (2008, 12, 31), (2012, 6, 30), (2015, 6, 30), (2016, 12, 31)])


def triple(x):
    """Seconds since 1970 (exact) to day, second, tick."""
    n = int(round(Fraction(x)*FS))
    s, k = divmod(n, FS)
    d, s = divmod(s, 86400)
    return [int(d), int(s), int(k)]


def reading(f):
    out = {}
    s, k = divmod(int(f.dp_timetag), FS)
    out['tag'] = [s // 86400, s % 86400, k]
    m, sec, fr = f.pulsar_mjd
    out['prange'] = bool(0 <= sec < 86400 and 0 <= fr < 1 and int(m) == m and int(sec) == sec)
    out['pulsar'] = triple((int(m) - MJD0)*86400 + int(sec) + Fraction(float(fr)))
    out['unix'] = triple(Fraction(float(f.unix)))
    out['mjd'] = triple((Fraction(float(f.mjd)) - MJD0)*86400)
    out['jd'] = triple((Fraction(float(f.jd)) - MJD0 - Fraction(24000005, 10))*86400)
    dt = f.utc_datetime - datetime(1970, 1, 1, tzinfo=timezone.utc)
    ok = f.datetime == f.utc_datetime.replace(tzinfo=None)
    out['dt'] = triple(Fraction(dt.days*86400 + dt.seconds) + Fraction(dt.microseconds, 1000000))
    a = f.astropy.utc
    out['ap'] = triple((Fraction(float(a.jd1)) + Fraction(float(a.jd2)) - MJD0 - Fraction(24000005, 10))*86400)
    u = float(f)
    ok = ok and u == float(f.unix) and int(u) == f[0] and abs(f[0] + f[1] - u) < 1e-6 and f"{f:.3f}" == f"{u:.3f}" and f"{f:d}" == str(int(u))
    out['fmtok'] = bool(ok)
    return out


BAD = {'tag': [0, 0, 0], 'pulsar': [0, 0, 0], 'prange': True, 'unix': [0, 0, 0], 'mjd': [0, 0, 0], 'jd': [0, 0, 0],
       'dt': [0, 0, 0], 'ap': [0, 0, 0], 'fmtok': True}


def play(rec, rng, ops, src):
    rec.begin(src=src)
    now = FrameTimestamp(0, 0.0)
    ref = FrameTimestamp(0, 0.0)
    cur = oref = (0, 0, 0)
    for op in ops:
        exc, out, touched = '', dict(BAD), False
        if op['op'] == 'set':
            d, s, k = op['d'], op['s'], op['k']
            tt = (d*86400 + s)*FS + k
            how = rng.choice(['tag', 'tag', 'tagoff', 'parts', 'parts2', 'pulsar', 'astropy', 'npint'] + (['mpm'] if k % 196000 == 0 else []))
            try:
                if how == 'tag':
                    now = FrameTimestamp.from_dp_timetag(tt)
                elif how == 'npint':
                    now = FrameTimestamp.from_dp_timetag(np.uint64(tt))
                elif how == 'tagoff':
                    off = rng.choice([1, 6660, rng.randrange(65536)])
                    now = FrameTimestamp.from_dp_timetag(tt + off, off)
                elif how == 'parts':
                    now = FrameTimestamp(d*86400 + s, k/FS)
                elif how == 'parts2':
                    j = rng.choice([-3, -1, 1, 2])
                    now = FrameTimestamp(d*86400 + s - j, k/FS + j)
                elif how == 'pulsar':
                    now = FrameTimestamp.from_pulsar_mjd(MJD0 + d, s, k/FS)
                elif how == 'mpm':
                    now = FrameTimestamp.from_mjd_mpm(MJD0 + d, s*1000 + k // 196000)
                else:
                    now = FrameTimestamp.from_astropy(Time(d*86400 + s, k/FS, format='unix', scale='utc'))
                out = reading(now)
            except Exception as e:
                exc = type(e).__name__
            cur = (d, s, k)
            rec.ev('set', d=d, s=s, k=k, how=how, exc=exc, touched=False, **out)
        elif op['op'] == 'shift':
            s, k = op['s'], op['k']
            tot = s*FS + k
            day = (cur[0]*86400 + cur[1] + tot//FS)//86400
            if day in LEAP or any(min(day, cur[0]) <= x <= max(day, cur[0]) for x in LEAP) or day < 3700:
                continue
            kinds = ['add', 'sub', 'iadd', 'isub', 'npadd']
            if k % 196 == 0:
                kinds += ['td', 'itd']
            if k % FS == 0:
                kinds += ['int', 'npint']
            how = rng.choice(kinds)
            old = now
            before = now.dp_timetag
            try:
                if how == 'add':
                    now = now + (s + k/FS)
                elif how == 'npadd':
                    now = now + np.float64(s + k/FS)
                elif how == 'sub':
                    now = now - (-s - k/FS)
                elif how == 'iadd':
                    now += (s + k/FS)
                elif how == 'isub':
                    now -= (-s - k/FS)
                elif how == 'int':
                    now = now + (s + k//FS)
                elif how == 'npint':
                    now = now - np.int64(-(s + k//FS))
                elif how == 'td':
                    now = now + timedelta(seconds=s, microseconds=k//196)
                elif how == 'itd':
                    now -= timedelta(seconds=-s, microseconds=-(k//196))
                if how[0] != 'i' or how == 'int':
                    touched = old.dp_timetag != before
                out = reading(now)
            except Exception as e:
                exc = type(e).__name__
            t = ((cur[0]*86400 + cur[1])*FS + cur[2] + tot)
            cur = (t//FS//86400, t//FS % 86400, t % FS)
            rec.ev('shift', s=s, k=k, how=how, exc=exc, touched=bool(touched), **out)
        elif op['op'] == 'mark':
            try:
                ref = copy.deepcopy(now)
            except Exception as e:
                exc = type(e).__name__
            oref = cur
            rec.ev('mark', exc=exc)
        # compare
        if any(min(cur[0], oref[0]) <= x <= max(cur[0], oref[0]) for x in LEAP):
            continue
        if oref == (0, 0, 0):
            continue
        try:
            same = op['op'] == 'mark'
            df = triple(Fraction(float(now - ref)))
            c = dict(lt=bool(now < ref), gt=bool(now > ref), le=bool(now <= ref), ge=bool(now >= ref), eq=bool(now == ref), ne=bool(now != ref))
            rec.ev('cmp', diff=df, same=bool(same), exc='', **c)
        except Exception as e:
            rec.ev('cmp', diff=[0, 0, 0], same=False, lt=False, gt=False, le=False, ge=False, eq=False, ne=False, exc=type(e).__name__)


def day(rng):
    while True:
        d = rng.choice([rng.randrange(3700, 25000), rng.randrange(17000, 21000)])
        if d not in LEAP:
            return d


def run(job, rec, rng):
    # TLC's small clock stands for the corners of the real one
    sec = {0: 0, 1: 43199, 2: 86399}
    tick = {0: 0, 1: 97999999, 2: FS-1}
    for b in mine(job, job['behaviours']):
        base = day(rng)
        ops = []
        for o in b:
            if o['op'] == 'set':
                ops.append({'op': 'set', 'd': base + o['d'] if base + o['d'] not in LEAP else base, 's': sec[o['s']], 'k': tick[o['k']]})
            elif o['op'] == 'shift':
                s = {-3: -86400, 3: 86400}.get(o['s'], o['s'])
                k = {-4: -FS-1, 3: FS}.get(o['k'], o['k'])
                ops.append({'op': 'shift', 's': s, 'k': k})
            else:
                ops.append(o)
        if ops[0]['op'] != 'set':
            ops.insert(0, {'op': 'set', 'd': base, 's': sec[rng.randrange(3)], 'k': tick[rng.randrange(3)]})
        play(rec, rng, ops, 'tlc')
    for i in range(job['random'] // job['shards']):
        ops = []
        for j in range(rng.randrange(2, 9)):
            r = rng.random()
            if j == 0 or r < 0.35:
                ops.append({'op': 'set', 'd': day(rng), 's': rng.choice([0, 1, 43199, 43200, 86399, rng.randrange(86400)]),
                            'k': rng.choice([0, 1, 2, FS//2-1, FS//2, FS//2+1, FS-1, FS-2, rng.randrange(FS), 196000*rng.randrange(1000)])})
            elif r < 0.8:
                ops.append({'op': 'shift', 's': rng.choice([0, 0, 0, 1, -1, 60, -86400, 86400, rng.randrange(-200000, 200000)]),
                            'k': rng.choice([0, 1, -1, 196, -1960, 40960, -40960, FS-1, 1-FS, rng.randrange(-FS, FS)])})
            else:
                ops.append({'op': 'mark'})
        play(rec, rng, ops, 'random')


main(run)
