"""Builds, checks, writes and reads interferometer definition files."""
import os
import re
import math
import shutil
import logging
import tempfile
import warnings
from datetime import datetime, timedelta

import ephem

from vf.drv import main, mine
from forms import T0, MJD0, clock, length, angle, tuning, sky1, fixed
from lsl.common import idf, sdf, stations
from lsl.common.ndp import word_to_freq

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
STN = {'VL': stations.lwa1, 'SV': stations.lwasv, 'NA': stations.lwana, 'OV': stations.ovrolwa}
CLS = {'TRK_SOL': idf.Solar, 'TRK_JOV': idf.Jovian}
BODY = {'TRK_SOL': ephem.Sun, 'TRK_JOV': ephem.Jupiter}


def observer(s):
    o = ephem.Observer()
    o.lat, o.long, o.elev, o.pressure = s.lat, s.long, s.elev, 0
    return o


def body(o):
    return BODY[o['mode']]() if o['mode'] in BODY else fixed(o['ra'], o['dec'])


def sky(o, sts):
    t = (o['mjd'] - MJD0)*86400000 + o['mpm']
    out = set(sky1(b, t, o['dur'], observer(STN[s])) for s in set(sts) for b in [body(o)] + [fixed(a['ra'], a['dec']) for a in o['alts']])
    return 'down' if 'down' in out else 'edge' if 'edge' in out else 'up'


def seps(o, sts):
    t = (o['mjd'] - MJD0)*86400000 + o['mpm'] + o['dur']/2
    x = observer(STN[sts[0]])
    x.date = ephem.Date((T0 + timedelta(milliseconds=t)).replace(tzinfo=None))
    b = body(o)
    b.compute(x)
    out = []
    for a in o['alts']:
        c = fixed(a['ra'], a['dec'])
        c.compute(x)
        v = [[math.cos(q.a_dec)*math.cos(q.a_ra), math.cos(q.a_dec)*math.sin(q.a_ra), math.sin(q.a_dec)] for q in (b, c)]
        d = math.sqrt(sum((p - q)**2 for p, q in zip(*v)))
        out.append(int(round(math.degrees(2*math.asin(min(1, d/2)))*1e3)))
    return out


def mas(p):
    return [int(round(p[0]*10)), int(round(p[1]*10))]


def dump(o):
    return {'mode': o.mode, 'target': o.target, 'intent': o.intent, 'rem': o.comments or '', 'mjd': int(o.mjd), 'mpm': int(o.mpm), 'dur': int(o.dur),
            'f1': int(o.freq1), 'f2': int(o.freq2), 'bw': int(o.filter), 'ra': int(round(o.ra*1e6)), 'dec': int(round(o.dec*1e6)), 'pm': mas(o.pm),
            'gain': int(o.gain), 'flt': int(o.asp_filter),
            'alts': [{'id': i+1, 'target': a.target, 'intent': a.intent, 'ra': int(round(a.ra*1e6)), 'dec': int(round(a.dec*1e6)), 'pm': mas(a.pm)}
                     for i, a in enumerate(o.alt_phase_centers)]}


def dump_head(p, k):
    s = p.runs[k]
    po = p.project_office.runs
    return {'piid': int(p.observer.id), 'piname': p.observer.name, 'pid': p.id, 'ptitle': p.name, 'prem': p.comments or '', 'prempo': '',
            'rid': int(s.id), 'rtitle': s.name or '', 'stations': [x.id for x in s.stations], 'chan': int(s.correlator_channels),
            'intt': int(round(s.correlator_inttime*1000)), 'basis': s.correlator_basis, 'rrem': s.comments or '', 'drm': s.data_return_method,
            'rrempo': (po[k] if k < len(po) else None) or '', 'ucf': s.ucf_username or ''}


NUM = {'PI_ID', 'RUN_ID', 'RUN_CHANNELS', 'SCAN_ID', 'SCAN_START_MJD', 'SCAN_START_MPM', 'SCAN_DUR', 'SCAN_FREQ1', 'SCAN_FREQ2', 'SCAN_BW', 'SCAN_ALT_N',
       'SCAN_ASP_FLT', 'SCAN_DRX_GAIN'}
MICRO = {'SCAN_RA', 'SCAN_DEC', 'SCAN_ALT_RA', 'SCAN_ALT_DEC'}
TENTH = {'SCAN_PM_RA', 'SCAN_PM_DEC', 'SCAN_ALT_PM_RA', 'SCAN_ALT_PM_DEC'}
TEXT = {'PI_NAME', 'PROJECT_ID', 'PROJECT_TITLE', 'PROJECT_REMPI', 'RUN_TITLE', 'RUN_BASIS', 'SCAN_TARGET', 'SCAN_INTENT', 'SCAN_REMPI', 'SCAN_MODE',
        'SCAN_ALT_TARGET', 'SCAN_ALT_INTENT'}


def tokens(text):
    out = []
    for line in text.split('\n'):
        m = re.match(r'^(\S+)\s+(.*)$', line)
        if m is None:
            continue
        key, v = m.group(1), m.group(2)
        k = key.split('[')[0]
        if k.endswith('+'):
            continue
        i = [int(x) for x in re.findall(r'\[(\d+)\]', key)]
        if k in NUM:
            v = int(v)
        elif k in MICRO:
            v = int(round(float(v)*1e6))
        elif k in TENTH:
            v = int(round(float(v)*10))
        elif k == 'RUN_INTTIME':
            v = int(round(float(v)*1000))
        elif k == 'RUN_STATIONS':
            v = [x.strip() for x in v.split(',')]
            if 'all' in v:
                v = [x.id for x in stations.get_all_stations()]
        elif k == 'RUN_REMPI':
            m = re.match(r'^ucfuser:(.*?)(?:;;(.*))?$', v)
            v = [m.group(1), m.group(2) or ''] if m else ['', v]
        elif k == 'RUN_REMPO':
            m = re.match(r'^Requested data return method is (.*?)(?:;;(.*))?$', v)
            v = [m.group(1), m.group(2) or ''] if m else ['', v]
        elif k not in TEXT:
            continue
        out.append({'k': k, 'v': v, 'i': i})
    return out


def blocks(text):
    out = [[]]
    for line in text.split('\n'):
        if line.startswith('SCAN_ID '):
            out.append([])
        if line.strip():
            out[-1].append(line)
    return out


def rate(now, was, dec, years, hours):
    """The motion, in tenths of a mas/yr, that a displacement amounts to."""
    d = now - was
    if hours:
        d = (d + 12) % 24 - 12
        d *= 15*math.cos(math.radians(dec))
    return int(round(d*3600e3/years*10))


class World(object):
    def __init__(self, rec, rng, tmp):
        self.rec, self.rng, self.tmp = rec, rng, tmp
        self.p = None
        self.text = None
        self.nf = 0

    def run(self, e):
        h = e['h']
        err, got = '', {}
        self.po = h['rrempo']
        try:
            if self.p is None:
                self.p = idf.Project(idf.Observer(h['piname'], h['piid']), h['ptitle'], h['pid'], comments=h['prem'] or None)
                self.prem = h['prem']
            h = dict(h, prem=self.prem)
            s = idf.Run(h['rtitle'] or None, h['rid'], comments=h['rrem'] or None, correlator_channels=h['chan'], correlator_inttime=h['intt']/1000,
                        correlator_basis=h['basis'], stations=[STN[x] for x in h['stations']])
            s.data_return_method = h['drm']
            if h['ucf']:
                s.ucf_username = h['ucf']
            self.p.append(s)
            k = len(self.p.runs) - 1
            if h['rrempo']:
                while len(self.p.project_office.runs) < k:
                    self.p.project_office.runs.append(None)
                self.p.project_office.runs.append(h['rrempo'])
            got = dump_head(self.p, k)
        except Exception as x:
            err = type(x).__name__
        self.rec.ev('run', h=h, got=got, err=err)
        return err == ''

    def make(self, e):
        o = e['o']
        st, du = clock(e['st'], e['us'], e['tf']), length(e['du'], e['dus'], e['df'])
        f1, f2 = tuning(o['f1'], e['ff']), tuning(o['f2'], e['ff'])
        rem = o['rem'] or None
        intent = o['intent'].upper() if e['up'] else o['intent']
        if o['mode'] == 'TRK_RADEC':
            kw = {} if o['pm'] == [0, 0] else {'pm': [x/10 for x in o['pm']]}
            x = idf.DRX(o['target'], intent, st, du, angle(o['ra'], e['cf'], True), angle(o['dec'], e['cf'], False), f1, f2, o['bw'], gain=o['gain'],
                        comments=rem, **kw)
        else:
            x = CLS[o['mode']](o['target'], intent, st, du, f1, f2, o['bw'], gain=o['gain'], comments=rem)
        x.asp_filter = o['flt']
        for i, a in enumerate(o['alts']):
            pm = None if a['pm'] == [0, 0] else [v/10 for v in a['pm']]
            arg = a['target'], a['intent'], angle(a['ra'], e['cf'], True), angle(a['dec'], e['cf'], False)
            if i % 2:
                x.add_alt_phase_center(*arg, pm=pm)
            else:
                x.add_alt_phase_center(idf.AlternatePhaseCenter(*arg, pm=pm))
        return x

    def span(self, x):
        return [int(round((t - T0)/timedelta(milliseconds=1))) for t in idf.get_scan_start_stop(x)]

    def scan(self, e):
        s = self.p.runs[e['s']-1]
        err, got, parent, span = '', {}, False, []
        n = len(s.scans)
        try:
            x = self.make(e)
            L = s.scans
            if e['how'] == 'append':
                s.append(x)
            elif e['how'] == 'insert':
                L.insert(len(L), x)
            elif e['how'] == 'gen':
                L.extend(y for y in [x])
            elif e['how'] == 'set':
                s.append(idf.Solar('dummy', 'dummy', 'UTC 2024/06/01 19:00:00', '1:00:00', 38e6, 38e6, 7))
                L[len(L)-1] = x
            else:
                L.extend([x] if e['how'] == 'list' else (x,))
            x.update()
            n = len(s.scans)
            got = dump(x)
            parent = x._parent is not None and x._parent.stations is s.stations and all(a._parent.alt_phase_centers is x.alt_phase_centers for a in x.alt_phase_centers)
            span = self.span(x)
        except Exception as ex:
            err = type(ex).__name__
        sts = [q.id for q in s.stations]
        self.rec.ev('scan', s=e['s'], o=e['o'], got=got, err=err, n=n, parent=bool(parent), span=span, sky=sky(e['o'], sts), sep=seps(e['o'], sts),
                    form=[e['tf'], e['df'], e['cf'], e['ff'], e['how']])
        return err == ''

    def change(self, e):
        s = self.p.runs[e['s']-1]
        if e['i'] > len(s.scans):
            return True
        x = s.scans[e['i']-1]
        if e['f'] == 'pm' and x.mode != 'TRK_RADEC':
            return True
        err, got, span = '', dump(x), []
        try:
            if e['f'] == 'start':
                x.start = clock(e['st'], 0, 'utc')
            elif e['f'] == 'dur':
                x.duration = length(e['du'], 0, 'str')
            elif e['f'] == 'f1':
                x.frequency1 = word_to_freq(e['w'])
            elif e['f'] == 'pm':
                x.pm = tuple(v/10 for v in e['pm'])
            else:
                while len(x.alt_phase_centers):
                    x.alt_phase_centers.pop()
            got = dump(x)
            span = self.span(x)
        except Exception as ex:
            err = type(ex).__name__
        sts = [q.id for q in s.stations]
        self.rec.ev('change', s=e['s'], i=e['i'], f=e['f'], st=e['st'], du=e['du'], w=e['w'], pm=e['pm'], got=got, err=err, n=len(s.scans),
                    parent=True, span=span, sky=sky(got, sts), sep=seps(got, sts))
        return err == ''

    def path(self):
        self.nf += 1
        return os.path.join(self.tmp, 'f%i.idf' % self.nf)

    def read(self, fn):
        p = idf.parse_idf(fn)
        return p, {'h': dump_head(p, 0), 'obs': [dump(o) for o in p.runs[0].scans]}

    def render(self, e):
        k = e['s'] - 1
        fn = self.path()
        err, ok, lines, again, file = '', False, [], True, True
        try:
            text = self.p.render(run=k)
            ok = True
            lines = tokens(text)
            again = self.p.render(run=k) == text
        except Exception as ex:
            err = type(ex).__name__
        if not ok:
            try:
                self.p.writeto(fn, run=k)
                file = False
            except Exception:
                file = not os.path.exists(fn)
            self.rec.ev('render', s=e['s'], ok=False, err=err, lines=[], again=True, file=file)
            return
        with open(fn, 'w') as fh:
            fh.write('precious')
        try:
            self.p.writeto(fn, run=k)
            file = False
        except RuntimeError:
            file = open(fn).read() == 'precious'
        try:
            self.p.writeto(fn, run=k, overwrite=True)
            file = file and open(fn).read() == text
        except Exception:
            file = False
        self.rec.ev('render', s=e['s'], ok=True, err=err, lines=lines, again=again, file=file)
        self.text = text
        err, got, same, parents, valid = '', {}, False, False, False
        try:
            p, got = self.read(fn)
            s = p.runs[0]
            parents = all(o._parent is not None and o._parent.stations is s.stations for o in s.scans)
            valid = idf.is_valid(fn)
            same = p.render() == text
        except Exception as ex:
            err = type(ex).__name__
        self.rec.ev('parse', s=e['s'], got=got, err=err, same=same, parents=bool(parents), valid=bool(valid))

    def sdfs(self, e):
        k = e['s'] - 1
        s = self.p.runs[k]
        err, ok, got, takes = '', False, [], True
        try:
            out = self.p.generate_sdfs(starting_session_id=e['first'], run=k)
            ok = True
            for i, q in enumerate(out):
                got.append(self.session(q, s))
                try:
                    fn = self.path()
                    q.writeto(fn)
                    back = sdf.parse_sdf(fn)
                    takes = takes and self.session(back, s) == dict(got[-1], station=self.session(back, s)['station'])
                except Exception:
                    takes = False
        except Exception as ex:
            err = type(ex).__name__
        self.rec.ev('sdfs', s=e['s'], first=e['first'], ok=ok, err=err, got=got, takes=takes)

    def session(self, q, run):
        """What a session definition file made from a run says."""
        if len(q.sessions) != 1:
            return {}
        x = q.sessions[0]
        po = q.project_office.sessions[0] or ''
        word = lambda k, t: (re.search(r'(?:^|;;)%s:(.*?)(?:;;|$)' % k, t) or [None, '?'])[1]
        user = word('origuser', po)
        obs = []
        for j, o in enumerate(x.observations):
            scan = sorted(run.scans)[j] if j < len(run.scans) else run.scans[0]
            years = (scan.mjd + scan.mpm/86400e3 - 51544.5)/365.25
            trk = o.mode == 'TRK_RADEC'
            ra, dec = scan.ra, scan.dec
            try:
                t = q.project_office.observations[0][j] or ''
            except IndexError:
                t = ''
            alts = []
            for n in range(1, 20):
                if word('alttarget%i' % n, t) == '?':
                    break
                a = scan.alt_phase_centers[n-1]
                r, d = float(word('altra%i' % n, t)), float(word('altdec%i' % n, t))
                alts.append({'target': word('alttarget%i' % n, t), 'intent': word('altintent%i' % n, t), 'ra': int(round(a.ra*1e6)), 'dec': int(round(a.dec*1e6)),
                             'moved': [rate(r, a.ra, a.dec, years, True), rate(d, a.dec, a.dec, years, False)]})
                if not 0 <= r < 24:
                    alts[-1]['ra'] = -1
                p = [int(round(v*10)) for v in a.pm]
                if max(abs(v - w) for v, w in zip(p, alts[-1]['moved'])) <= 3:       # written to nine digits
                    alts[-1]['moved'] = p
            moved = [rate(o.ra, ra, dec, years, True), rate(o.dec, dec, dec, years, False)] if trk else [0, 0]
            p = [int(round(v*10)) for v in scan.pm]
            if max(abs(v - w) for v, w in zip(p, moved)) <= 3:
                moved = p
            obs.append({'mode': o.mode, 'title': o.name, 'target': o.target, 'mjd': int(o.mjd), 'mpm': int(o.mpm), 'dur': int(o.dur), 'f1': int(o.freq1), 'f2': int(o.freq2),
                        'bw': int(o.filter), 'ra': int(round(ra*1e6)) if trk else 0, 'dec': int(round(dec*1e6)) if trk else 0, 'moved': moved, 'gain': int(o.gain), 'alts': alts})
        stn = getattr(x, 'station', None)
        return {'station': stn.id if stn is not None else '', 'sid': int(x.id), 'drm': x.data_return_method, 'smib': bool(x.include_station_smib), 'beam': int(x.drx_beam),
                'pid': q.id, 'piid': int(q.observer.id), 'piname': q.observer.name, 'chan': int(word('corrchannels', po)), 'intt': int(round(float(word('corrinttime', po))*1000)),
                'basis': word('corrbasis', po), 'user': '' if user == 'None' else user, 'back': {'drsu': 'DRSU', 'ucf': 'UCF'}.get(word('origreturn', po), 'USB Harddrives'), 'obs': obs}

    def edit(self, e):
        if self.text is None:
            return
        b = blocks(self.text)
        n = e['n'] % (len(b) - 1) + 1 if len(b) > 1 else 0
        if e['e'] == 'all':
            b[0] = [x if not x.startswith('RUN_STATIONS') else 'RUN_STATIONS     all' for x in b[0]]
        elif e['e'] == 'drop':
            f = e['f']
            n = 0 if f.startswith('RUN') else n
            b[n] = [x for x in b[n] if not (x.startswith(f) and (f == 'SCAN_ALT' or x[len(f)] in ' ['))]
        elif n and not any(x.startswith('SCAN_ALT') for x in b[n]):
            r = b[n][1:]
            b[n] = b[n][:1] + (r[::-1] if e['e'] == 'reverse' else r[len(r)//2:] + r[:len(r)//2])
        text = '\n'.join('\n'.join(x) for x in b) + '\n'
        fn = self.path()
        with open(fn, 'w') as fh:
            fh.write(text)
        err, got = '', {}
        try:
            got = self.read(fn)[1]
        except Exception as ex:
            err = type(ex).__name__
        tk = tokens(text)
        if not any(x['k'] == 'RUN_TITLE' for x in tk):
            tk.insert(0, {'k': 'RUN_TITLE', 'v': 'run_name', 'i': []})
        self.rec.ev('edit', s=e['s'], e=e['e'], f=e['f'], lines=tk, got=got, err=err)

    def reject(self, e):
        t = 'UTC 2024/06/19 20:00:00'
        o = idf.DRX('t', 'target', t, '0:10:00', 1.0, 80.0, 38e6, 74e6, 7)
        o.add_alt_phase_center('a', 'target', 1.0, 80.1)
        a = o.alt_phase_centers[0]
        s = idf.Run('n', 1, scans=[o])
        me = lambda: [dump(x) for x in s.scans] + [dump_head(idf.Project(idf.Observer('a', 1), 'n', 'p', [s]), 0)]
        was = me()
        err = ''
        acts = {'ra24': lambda: setattr(o, 'ra', 24.0), 'ra-': lambda: setattr(o, 'ra', -0.1), 'dec91': lambda: setattr(o, 'dec', 90.5), 'dec-91': lambda: setattr(o, 'dec', -90.5),
                'naive': lambda: setattr(o, 'start', datetime(2024, 6, 19)), 'notime': lambda: setattr(o, 'start', 'tomorrow'), 'intent': lambda: setattr(o, 'intent', 'cats'),
                'pm3': lambda: setattr(o, 'pm', [1, 2, 3]), 'pm1': lambda: setattr(o, 'pm', 4.0), 'chan8': lambda: setattr(s, 'correlator_channels', 8),
                'chan17': lambda: setattr(s, 'correlator_channels', 17), 'chan65536': lambda: setattr(s, 'correlator_channels', 65536),
                'int0': lambda: setattr(s, 'correlator_inttime', 0.05), 'int11': lambda: setattr(s, 'correlator_inttime', 11), 'basis': lambda: setattr(s, 'correlator_basis', 'square'),
                'drm': lambda: setattr(s, 'data_return_method', 'mail'), 'one': lambda: setattr(s, 'stations', [stations.lwa1]), 'append': lambda: s.append('x'),
                'extend': lambda: s.scans.extend([idf.Solar('t', 'target', t, '0:10:00', 38e6, 74e6, 7), 'x']), 'insert': lambda: s.scans.insert(0, a),
                'setitem': lambda: s.scans.__setitem__(0, 'x'), 'ctor': lambda: idf.Run('n', 1, scans=[o, 'x']), 'observer': lambda: idf.Project('me', 'n', 'p'),
                'altra': lambda: setattr(a, 'ra', 24.5), 'altdec': lambda: setattr(a, 'dec', -91), 'altintent': lambda: o.add_alt_phase_center('b', 'cats', 1.0, 80.0),
                'alt': lambda: o.alt_phase_centers.append(o), 'station': lambda: setattr(s, 'stations', [stations.lwa1, 'SV'])}
        try:
            acts[e['f']]()
        except Exception as ex:
            err = type(ex).__name__
        self.rec.ev('reject', f=e['f'], err=err, kept=me() == was)


def run(job, rec, rng):
    for beh in mine(job, job['behaviours']):
        tmp = tempfile.mkdtemp(dir=job.get('tmp'))
        w = World(rec, rng, tmp)
        rec.begin()
        for e in beh:
            if e['op'] in ('run', 'scan', 'change'):
                if not getattr(w, e['op'])(e):
                    break
            elif e['op'] == 'validate':
                err = ''
                try:
                    ok = bool(w.p.validate())
                except Exception as ex:
                    ok, err = False, type(ex).__name__
                rec.ev('validate', ok=ok, err=err)
            else:
                getattr(w, e['op'])(e)
        shutil.rmtree(tmp, ignore_errors=True)


main(run)
