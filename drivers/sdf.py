"""Builds, checks, writes and reads session definition files."""
import os
import re
import shutil
import logging
import tempfile
import warnings
from collections import Counter
from datetime import datetime, timedelta

import ephem

from vf.drv import main, mine
from forms import T0, MJD0, clock, length, angle, tuning, sky1, fixed
from lsl.common import sdf, stations
from lsl.common.ndp import word_to_freq

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
NST = 256
ARR = {'flt': 'asp_filter', 'at1': 'asp_atten_1', 'at2': 'asp_atten_2', 'at3': 'asp_atten_3'}
SUBS = ('ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS')
CLS = {'TRK_SOL': sdf.Solar, 'TRK_JOV': sdf.Jovian, 'TRK_LUN': sdf.Lunar}


def observer():
    o = ephem.Observer()
    o.lat, o.long, o.elev, o.pressure = stations.lwa1.lat, stations.lwa1.long, stations.lwa1.elev, 0
    return o


def sky(o):
    t = (o['mjd'] - MJD0)*86400000 + o['mpm']
    obs = observer()
    if o['mode'] in ('TBT', 'TBS'):
        return 'up'
    if o['mode'] == 'STEPPED':
        out = 'up'
        for s in o['steps']:
            x = 'up' if not o['radec'] else sky1(fixed(s['c1'], s['c2']), t, s['dur'], obs)
            t += s['dur']
            if x != 'up':
                out = x if out != 'down' else out
        return out
    b = {'TRK_SOL': ephem.Sun, 'TRK_JOV': ephem.Jupiter, 'TRK_LUN': ephem.Moon}.get(o['mode'])
    return sky1(b() if b else fixed(o['ra'], o['dec']), t, o['dur'], obs)


def squash(vals):
    b, n = Counter(vals).most_common(1)[0]
    return {'b': int(b), 'ov': [[i+1, int(v)] for i, v in enumerate(vals) if v != b]}


def dump_step(s, i):
    b = s.beam
    dl, gn = [], []
    if s.delays is not None and s.gains is not None:
        if len(s.delays) != 2*NST or len(s.gains) != NST:
            b = 'BADLEN'
        dl = [[k+1, int(v)] for k, v in enumerate(s.delays) if v]
        gn = [[k+1, a+1, c+1, int(v[a][c])] for k, v in enumerate(s.gains) for a in (0, 1) for c in (0, 1) if v[a][c]]
    elif s.delays is not None or s.gains is not None:
        b = 'HALF'
    return {'id': i, 'c1': int(round(s.c1*1e6)), 'c2': int(round(s.c2*1e6)), 'dur': int(s.dur), 'f1': int(s.freq1), 'f2': int(s.freq2),
            'b': b, 'dl': dl, 'gn': gn}


def dump(o):
    d = {'mode': o.mode, 'title': o.name or '', 'target': o.target or '', 'rem': o.comments or '', 'mjd': int(o.mjd), 'mpm': int(o.mpm), 'dur': int(o.dur),
         'f1': int(o.freq1), 'f2': int(o.freq2), 'bw': int(o.filter), 'ra': int(round(o.ra*1e6)), 'dec': int(round(o.dec*1e6)),
         'hdr': bool(o.high_dr), 'gain': int(o.gain), 'samples': int(getattr(o, 'samples', 0)), 'radec': bool(getattr(o, 'is_radec', True)),
         'bdm': [] if o.beamDipole is None else [int(o.beamDipole[0]), int(round(o.beamDipole[1]*1e4)), int(round(o.beamDipole[2]*1e4)), o.beamDipole[3]],
         'steps': [dump_step(s, i+1) for i, s in enumerate(getattr(o, 'steps', []))]}
    d['arr'] = {k: squash(getattr(o, v)) for k, v in ARR.items()}
    d['arr']['fee1'] = squash([x[0] for x in o.fee_power])
    d['arr']['fee2'] = squash([x[1] for x in o.fee_power])
    return d


def dump_head(p, k):
    s = p.sessions[k]
    po = p.project_office.sessions
    return {'piid': int(p.observer.id), 'piname': p.observer.name, 'pid': p.id, 'ptitle': p.name, 'prem': p.comments or '', 'prempo': '',
            'sid': int(s.id), 'stitle': s.name or '', 'srem': s.comments or '', 'drm': s.data_return_method, 'srempo': (po[k] if k < len(po) else None) or '',
            'cra': int(s.configuration_authority), 'beam': int(s.drx_beam), 'spc': [int(s.spectrometer_channels), int(s.spectrometer_integration), s.spectrometer_metatag or ''],
            'mrp': {x: int(s.record_mib[x]) for x in SUBS}, 'mup': {x: int(s.update_mib[x]) for x in SUBS},
            'sch': bool(s.include_mcssch_log), 'exe': bool(s.include_mcsexe_log), 'smib': bool(s.include_station_smib), 'des': bool(s.include_station_design)}


NUM = {'PI_ID', 'SESSION_ID', 'SESSION_CRA', 'SESSION_DRX_BEAM', 'SESSION_LOG_SCH', 'SESSION_LOG_EXE', 'SESSION_INC_SMIB', 'SESSION_INC_DES', 'OBS_ID',
       'OBS_START_MJD', 'OBS_START_MPM', 'OBS_DUR', 'OBS_FREQ1', 'OBS_FREQ2', 'OBS_BW', 'OBS_STP_RADEC', 'OBS_STP_T', 'OBS_STP_FREQ1', 'OBS_STP_FREQ2',
       'OBS_BEAM_DELAY', 'OBS_BEAM_GAIN', 'OBS_FEE', 'OBS_ASP_FLT', 'OBS_ASP_AT1', 'OBS_ASP_AT2', 'OBS_ASP_AT3', 'OBS_TBT_SAMPLES', 'OBS_DRX_GAIN'}
MICRO = {'OBS_RA', 'OBS_DEC', 'OBS_STP_C1', 'OBS_STP_C2'}
TEXT = {'PI_NAME', 'PROJECT_ID', 'PROJECT_TITLE', 'PROJECT_REMPI', 'SESSION_TITLE', 'SESSION_REMPI', 'OBS_TITLE', 'OBS_TARGET', 'OBS_REMPI', 'OBS_MODE', 'OBS_B', 'OBS_STP_B'}


def tokens(text):
    out = []
    for line in text.split('\n'):
        m = re.match(r'^(\S+)\s+(.*)$', line)
        if m is None:
            continue
        key, v = m.group(1), m.group(2)
        k = key.split('[')[0]
        if k.endswith('+'):
            continue
        i = [int(x) for x in re.findall(r'\[(\d+)\]', key)]
        s = ''
        if k in NUM:
            v = int(v)
            if k in ('OBS_BEAM_DELAY', 'OBS_BEAM_GAIN') and v == 0:
                continue
        elif k in MICRO:
            v = int(round(float(v)*1e6))
        elif k[:12] in ('SESSION_MRP_', 'SESSION_MUP_'):
            k, s, v = k[:11], k[12:], int(v)
        elif k == 'SESSION_SPC':
            m = re.match(r'^(\d+) (\d+)(\{.*\})?$', v)
            v = [int(m.group(1)), int(m.group(2)), m.group(3) or '']
        elif k == 'SESSION_REMPO':
            m = re.match(r'^Requested data return method is (.*?)(?:;;(.*))?$', v)
            v = [m.group(1), m.group(2) or ''] if m else ['', v]
        elif k == 'OBS_BDM':
            f = v.split()
            v = [int(f[0]), int(round(float(f[1])*1e4)), int(round(float(f[2])*1e4)), f[3]]
        elif k not in TEXT:
            continue
        out.append({'k': k, 'v': v, 'i': i, 's': s})
    return out


def blocks(text):
    """The header lines and the lines of every observation."""
    out = [[]]
    for line in text.split('\n'):
        if line.startswith('OBS_ID '):
            out.append([])
        if line.strip():
            out[-1].append(line)
    return out


class World(object):
    def __init__(self, rec, rng, tmp):
        self.rec, self.rng, self.tmp = rec, rng, tmp
        self.p = None
        self.text = None
        self.nf = 0

    def session(self, e):
        h = e['h']
        err = ''
        got = {}
        try:
            if self.p is None:
                who = sdf.Observer(h['piname'], h['piid'])
                self.p = sdf.Project(who, h['ptitle'], h['pid'], comments=h['prem'] or None)
                self.prem = h['prem']
            h = dict(h, prem=self.prem)
            s = sdf.Session(h['stitle'] or None, h['sid'], comments=h['srem'] or None)
            s.data_return_method = h['drm']
            if e['ucf']:
                s.ucf_username = e['ucf']
            s.configuration_authority = h['cra']
            s.drx_beam = h['beam']
            if self.rng.random() < 0.5 and h['spc'][0] and h['spc'][1] != 100:
                s.spectrometer_channels, s.spectrometer_integration = h['spc'][:2]
                s.spectrometer_metatag = h['spc'][2].strip('{}')
            else:
                s.spc_setup, s.spc_metatag = list(h['spc'][:2]), h['spc'][2] or None
            for x in SUBS:
                s.set_mib_record_interval(x, h['mrp'][x])
                s.set_mib_update_interval(x, h['mup'][x])
            s.include_mcssch_log, s.include_mcsexe_log = h['sch'], h['exe']
            s.include_station_smib, s.include_station_design = h['smib'], h['des']
            self.p.append(s)
            self.p.project_office.sessions.append(h['srempo'] or None)
            got = dump_head(self.p, len(self.p.sessions) - 1)
        except Exception as x:
            err = type(x).__name__
        self.rec.ev('session', h=h, ucf=e['ucf'], got=got, err=err)
        return err == ''

    def make(self, e):
        o = e['o']
        st = clock(e['st'], e['us'], e['tf'])
        du = length(e['du'], e['dus'], e['df'])
        m = o['mode']
        rem = o['rem'] or None
        f1, f2 = tuning(o['f1'], e['ff']), tuning(o['f2'], e['ff'])
        if m == 'TBT':
            x = sdf.TBT(o['title'], o['target'], st, o['samples'], comments=rem)
        elif m == 'TBS':
            x = sdf.TBS(o['title'], o['target'], st, du, f1, o['bw'], comments=rem)
        elif m == 'TRK_RADEC':
            x = sdf.DRX(o['title'], o['target'], st, du, angle(o['ra'], e['cf'], True), angle(o['dec'], e['cf'], False), f1, f2, o['bw'],
                        gain=o['gain'], high_dr=o['hdr'], comments=rem)
        elif m == 'STEPPED':
            steps = []
            for s in o['steps']:
                dl = gn = None
                if s['b'] in ('SPEC_DELAYS_GAINS', 'BADLEN', 'HALF'):
                    dl = [0]*(2*NST if s['b'] != 'BADLEN' else 10)
                    gn = [[[0, 0], [0, 0]] for i in range(NST)] if s['b'] != 'HALF' else None
                    for k, v in s['dl']:
                        dl[k-1] = v
                    for k, a, b, v in s['gn']:
                        gn[k-1][a-1][b-1] = v
                steps.append(sdf.BeamStep(angle(s['c1'], e['cf'], o['radec']), angle(s['c2'], e['cf'], False), length(s['dur'], 0, e['df']),
                                          tuning(s['f1'], e['ff']), tuning(s['f2'], e['ff']), is_radec=o['radec'], high_dr=s['b'] == 'HIGH_DR',
                                          spec_delays=dl, spec_gains=gn))
            if e['how'] in ('append', 'insert', 'set') and len(steps) < 50:
                x = sdf.Stepped(o['title'], o['target'], st, o['bw'], is_radec=o['radec'], gain=o['gain'], comments=rem)
                for s in steps:
                    x.append(s)
            else:
                x = sdf.Stepped(o['title'], o['target'], st, o['bw'], steps=steps, is_radec=o['radec'], gain=o['gain'], comments=rem)
        else:
            x = CLS[m](o['title'], o['target'], st, du, f1, f2, o['bw'], gain=o['gain'], high_dr=o['hdr'], comments=rem)
        for k, a in o['arr'].items():
            vals = [a['b']]*NST
            for i, v in a['ov']:
                vals[i-1] = v
            if k in ARR:
                setattr(x, ARR[k], vals)
            else:
                for i in range(NST):
                    x.fee_power[i][0 if k == 'fee1' else 1] = vals[i]
        return x

    def span(self, x):
        a, b = sdf.get_observation_start_stop(x)
        return [int(round((t - T0)/timedelta(milliseconds=1))) for t in (a, b)]

    def add(self, e):
        s = self.p.sessions[e['s']-1]
        o = dict(e['o'])
        err, got, parent, span = '', {}, False, []
        bdm = []
        if e['stand']:
            dp = [(a.digitizer+1)//2 for a in stations.lwa1.antennas if a.stand.id == e['stand'] and a.pol == 0][0]
            bdm = [dp, 2500, 7500, 'Y']
        o['bdm'] = bdm
        o2 = dict(o)
        n = len(s.observations)
        try:
            x = self.make(e)
            L = s.observations
            if e['how'] == 'append':
                s.append(x)
            elif e['how'] == 'insert':
                L.insert(len(L), x)
            elif e['how'] == 'gen':
                L.extend(y for y in [x])
            elif e['how'] == 'set':
                s.append(sdf.Solar('dummy', 'Sun', 'UTC 2024/06/01 19:00:00', '1:00:00', 38e6, 38e6, 7))
                L[len(L)-1] = x
            else:
                L.extend([x] if e['how'] == 'list' else (x,))
            if e['stand']:
                x.set_beamdipole_mode(e['stand'], beam_gain=0.25, dipole_gain=0.75, pol='y')
            x.update()
            n = len(s.observations)
            got = dump(x)
            parent = x._parent is not None and x._parent.spc_setup is s.spc_setup and all(y._parent.steps is x.steps for y in getattr(x, 'steps', []))
            span = self.span(x)
            o2 = got
        except Exception as ex:
            err = type(ex).__name__
            self.rec.fh.flush()
        self.rec.ev('obs', s=e['s'], o=o, got=got, err=err, n=n, parent=bool(parent), span=span, sky=sky(o2) if not err else 'up',
                    form=[e['tf'], e['df'], e['cf'], e['ff'], e['how']])
        return err == ''

    def change(self, e):
        s = self.p.sessions[e['s']-1]
        if e['i'] > len(s.observations):
            return True
        x = s.observations[e['i']-1]
        if (e['f'] in ('dur', 'f1') and x.mode in ('TBT', 'STEPPED')) or (e['f'] == 'bw' and x.mode in ('TBT', 'TBS')):
            return True
        err, got, span = '', {}, []
        try:
            if e['f'] == 'start':
                x.start = clock(e['st'], 0, 'utc')
            elif e['f'] == 'dur':
                x.duration = length(e['du'], 0, 'str')
            elif e['f'] == 'f1':
                x.frequency1 = word_to_freq(e['w'])
            else:
                x.filter = e['bw']
            got = dump(x)
            span = self.span(x)
        except Exception as ex:
            err = type(ex).__name__
        self.rec.ev('change', s=e['s'], i=e['i'], f=e['f'], st=e['st'], du=e['du'], w=e['w'], bw=e['bw'], got=got, err=err, n=len(s.observations),
                    parent=True, span=span, sky=sky(got) if not err else 'up')
        return err == ''

    def path(self):
        self.nf += 1
        return os.path.join(self.tmp, 'f%i.sdf' % self.nf)

    def read(self, fn):
        p = sdf.parse_sdf(fn)
        return p, {'h': dump_head(p, 0), 'obs': [dump(o) for o in p.sessions[0].observations]}

    def render(self, e):
        k = e['s'] - 1
        fn = self.path()
        err, ok, lines, again, file = '', False, [], True, True
        try:
            text = self.p.render(session=k)
            ok = True
            lines = tokens(text)
            again = self.p.render(session=k) == text
        except Exception as ex:
            err = type(ex).__name__
        if not ok:
            try:
                self.p.writeto(fn, session=k)
                file = False
            except Exception:
                file = not os.path.exists(fn)
            self.rec.ev('render', s=e['s'], ok=False, err=err, lines=[], again=True, file=file)
            return
        # a file that is there is only replaced on request
        with open(fn, 'w') as fh:
            fh.write('precious')
        try:
            self.p.writeto(fn, session=k)
            file = False
        except RuntimeError:
            file = open(fn).read() == 'precious'
        try:
            self.p.writeto(fn, session=k, overwrite=True)
            file = file and open(fn).read() == text
        except Exception:
            file = False
        self.rec.ev('render', s=e['s'], ok=True, err=err, lines=lines, again=again, file=file)
        self.text = text
        err, got, same, ucf, parents, valid = '', {}, False, '', False, False
        try:
            p, got = self.read(fn)
            s = p.sessions[0]
            ucf = s.ucf_username or ''
            parents = all(o._parent is not None and o._parent.spc_setup is s.spc_setup for o in s.observations)
            valid = sdf.is_valid(fn)
            same = p.render() == text
        except Exception as ex:
            err = type(ex).__name__
        self.rec.ev('parse', s=e['s'], got=got, err=err, same=same, ucf=ucf, parents=bool(parents), valid=bool(valid))

    def edit(self, e):
        if self.text is None:
            return
        b = blocks(self.text)
        n = e['n'] % (len(b) - 1) + 1 if len(b) > 1 else 0
        if e['e'] == 'zero':
            b[0] = [x for x in b[0] if not x.startswith('SESSION_LOG_') and not x.startswith('SESSION_INC_')]
            b[0] += ['SESSION_LOG_SCH  0', 'SESSION_LOG_EXE  0', 'SESSION_INC_SMIB 0', 'SESSION_INC_DES  0']
        elif e['e'] == 'drop':
            f = e['f'] + ('_' if e['f'] in ('SESSION_MRP', 'SESSION_MUP') else '')
            n = 0 if f.startswith('SESSION') else n
            b[n] = [x for x in b[n] if not (x.startswith(f) and (f[-1] == '_' or x[len(f)] in ' ['))]
        elif not any('OBS_STP' in x for x in b[n]) and n:
            r = b[n][1:]
            b[n] = b[n][:1] + (r[::-1] if e['e'] == 'reverse' else r[len(r)//2:] + r[:len(r)//2])
        text = '\n'.join('\n'.join(x) for x in b) + '\n'
        fn = self.path()
        with open(fn, 'w') as fh:
            fh.write(text)
        err, got = '', {}
        try:
            got = self.read(fn)[1]
        except Exception as ex:
            err = type(ex).__name__
        self.rec.ev('edit', s=e['s'], e=e['e'], f=e['f'], lines=tokens(text), got=got, err=err)

    def reject(self, e):
        f = e['f']
        t = 'UTC 2024/06/19 20:00:00'
        o = sdf.DRX('n', 't', t, '0:10:00', 1.0, 80.0, 38e6, 74e6, 7)
        st = sdf.BeamStep(10.0, 50.0, 10, 38e6, 74e6, is_radec=False)
        s = sdf.Session('n', 1, observations=[o])
        sp = sdf.Stepped('n', 't', t, 7, steps=[st], is_radec=False)
        me = lambda: [dump(x) for x in s.observations] + [dump(sp), dump_head(sdf.Project(sdf.Observer('a', 1), 'n', 'p', [s]), 0)]
        was = me()
        err = ''

        def put(x, a, v):
            setattr(x, a, v)
        acts = {'ra24': lambda: put(o, 'ra', 24.0), 'ra-': lambda: put(o, 'ra', -0.1), 'dec91': lambda: put(o, 'dec', 90.5), 'dec-91': lambda: put(o, 'dec', -90.5),
                'az360': lambda: put(st, 'c1', 360.0), 'alt-': lambda: put(st, 'c2', -1.0), 'naive': lambda: put(o, 'start', datetime(2024, 6, 19)),
                'notime': lambda: put(o, 'start', 'tomorrow'), 'spcchan': lambda: put(s, 'spectrometer_channels', 3),
                'spcwin': lambda: put(s, 'spectrometer_integration', 100), 'spctag': lambda: put(s, 'spectrometer_metatag', 'Stokes=Z'),
                'mib': lambda: s.set_mib_record_interval('XYZ', 1), 'drm': lambda: put(s, 'data_return_method', 'mail'),
                'append': lambda: s.append('x'), 'extend': lambda: s.observations.extend([sdf.Solar('n', 't', t, '0:10:00', 38e6, 74e6, 7), 'x']),
                'insert': lambda: s.observations.insert(0, st), 'setitem': lambda: s.observations.__setitem__(0, 'x'),
                'ctor': lambda: sdf.Session('n', 1, observations=[o, 'x']), 'steplist': lambda: sp.append(o),
                'bdmstand': lambda: o.set_beamdipole_mode(1000), 'bdmgain': lambda: o.set_beamdipole_mode(1, beam_gain=1.5),
                'bdmpol': lambda: o.set_beamdipole_mode(1, pol='Z'), 'observer': lambda: sdf.Project('me', 'n', 'p')}
        try:
            acts[f]()
        except Exception as ex:
            err = type(ex).__name__
        self.rec.ev('reject', f=f, err=err, kept=me() == was)


def run(job, rec, rng):
    for beh in mine(job, job['behaviours']):
        tmp = tempfile.mkdtemp(dir=job.get('tmp'))
        w = World(rec, rng, tmp)
        rec.begin()
        for e in beh:
            if e['op'] == 'session':
                if not w.session(e):
                    break
            elif e['op'] == 'obs':
                if not w.add(e):
                    break
            elif e['op'] == 'change':
                if not w.change(e):
                    break
            elif e['op'] == 'validate':
                err = ''
                try:
                    ok = bool(w.p.validate())
                except Exception as ex:
                    ok, err = False, type(ex).__name__
                rec.ev('validate', ok=ok, err=err)
            elif e['op'] == 'reject':
                w.reject(e)
            elif e['op'] == 'edit':
                w.edit(e)
            else:
                w.render(e)
        shutil.rmtree(tmp, ignore_errors=True)


main(run)
