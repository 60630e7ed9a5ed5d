"""The forms in which times, lengths, angles and tunings can be given."""
import math
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import ephem
from astropy import units as u
from astropy.time import Time as AstroTime
from astropy.coordinates import Angle

from lsl.common.ndp import word_to_freq

T0 = datetime(2024, 6, 19, tzinfo=timezone.utc)
MJD0 = 60480


def clock(st, us, form):
    t = T0 + timedelta(milliseconds=st, microseconds=us)
    if form == 'utc':
        return t.strftime('UTC %Y/%m/%d %H:%M:%S.%f')
    if form == 'iso':
        return t.strftime('%Y-%m-%dT%H:%M:%S.%f')
    if form == 'mon':
        return t.strftime('UTC %Y %b %d %H:%M:%S.%f')
    if form == 'mst':
        x = t.astimezone(ZoneInfo('America/Denver'))
        return x.strftime('%Z %Y/%m/%d %H:%M:%S.%f')
    if form == 'off':
        return t.astimezone(timezone(timedelta(hours=5, minutes=30))).strftime('%Y/%m/%d %H:%M:%S.%f +05:30')
    if form == 'off2':
        return t.astimezone(timezone(timedelta(hours=-7))).strftime('%Y/%m/%d %H:%M:%S.%f -0700')
    if form == 'short':
        return t.astimezone(timezone(timedelta(hours=-7))).strftime('%Y/%m/%d %H:%M:%S.%f -7:00')
    if form == 'dt':
        return t
    if form == 'dtz':
        return t.astimezone(ZoneInfo('America/New_York'))
    return AstroTime(t.replace(tzinfo=None), scale='utc')


def length(ms, us, form):
    s = (ms*1000 + us)/1e6
    if form == 'str':
        m, r = divmod(ms*1000 + us, 60000000)
        h, m = divmod(m, 60)
        return '%i:%02i:%09.6f' % (h, m, r/1e6)
    if form == 'td':
        return timedelta(milliseconds=ms, microseconds=us)
    if form == 'quantity':
        return s*u.s
    if form == 'sec':
        return (s/60)*u.min
    return s


def angle(v, form, hours):
    x = v/1e6
    if form == 'str':
        return Angle(x, u.hourangle if hours else u.deg).to_string(unit=u.hourangle if hours else u.deg, precision=8)
    if form == 'ephem':
        return ephem.hours(x*math.pi/12) if hours else ephem.degrees(x*math.pi/180)
    if form == 'astropy':
        return Angle(x, u.hourangle if hours else u.deg)
    return x


def tuning(w, form):
    f = word_to_freq(w)
    return f*u.Hz if form == 'quantity' else f


def sky1(body, t, ms, obs):
    """Whether something is up from t (ms after T0) for ms."""
    alts = []
    n = max(2, min(400, int(ms/60000) + 2))
    for k in range(n):
        obs.date = ephem.Date((T0 + timedelta(milliseconds=t + ms*k/(n-1))).replace(tzinfo=None))
        body.compute(obs)
        alts.append(math.degrees(body.alt))
    if min(alts) > 1:
        return 'up'
    if max(alts) < -1:
        return 'down'
    # down for long enough in the middle
    low = [a < -1 for a in alts]
    run = best = 0
    for x in low:
        run = run + 1 if x else 0
        best = max(best, run)
    return 'down' if best*(ms/(n-1)) > 700000 else 'edge'


def fixed(ra, dec):
    b = ephem.FixedBody()
    b._ra, b._dec, b._epoch = ra/1e6*math.pi/12, dec/1e6*math.pi/180, ephem.J2000
    return b
