"""Writes metadata bundles into a scratch directory and asks lsl.common.metabundle about them."""
import os
import io
import math
import shutil
import struct
import hashlib
import logging
import tarfile
import tempfile
import warnings
import dbm.gnu

from vf.drv import main, mine
from vf import ssmif
from lsl.common import metabundle, mcs, sdm, stations

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
SIZE = {'char': 1, 'schar': 1, 'uchar': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'float': 4}
DECL = {'char': ['char'], 'schar': ['signed char'], 'uchar': ['unsigned char'], 'short': ['short int', 'signed short int', 'short', 'signed short'],
        'ushort': ['unsigned short int', 'unsigned short'], 'int': ['int', 'signed int'], 'uint': ['unsigned int'], 'long': ['long int', 'long', 'signed long int', 'signed long'],
        'ulong': ['unsigned long int', 'unsigned long'], 'llong': ['long long', 'signed long long'], 'ullong': ['unsigned long long'], 'float': ['float'], 'double': ['double']}
SIGNED = ('schar', 'short', 'int', 'long', 'llong')
FS = 196000000


def sz(t):
    return SIZE.get(t, 8)


def flat(x):
    out = []
    for y in x:
        if isinstance(y, (list, tuple)) or hasattr(y, '_length_'):
            out.extend(flat(y))
        else:
            out.append(y)
    return out


def enc(v, t):
    """The bytes of a value (or a nest of them) that was read as a type."""
    if isinstance(v, (list, tuple)) or hasattr(v, '_length_'):
        return sum((enc(x, t) for x in flat(list(v))), [])
    try:
        if t in ('float', 'double'):
            return list(struct.pack('<f' if t == 'float' else '<d', v))
        return list(int(v).to_bytes(sz(t), 'little', signed=t in SIGNED))
    except (OverflowError, ValueError, struct.error):
        return [-1]


def text(v):
    return list(v) if isinstance(v, (bytes, bytearray)) else list(str(v).encode())


def word(f):
    w = f*2.0**32/FS
    return enc(int(round(w)), 'uint') if abs(w - round(w)) < 1e-3 else [-1]


class Maker(object):
    """Random files with the layouts of the specification."""

    def __init__(self, lay, rng):
        self.lay, self.rng = lay, rng

    def chars(self, n):
        r = self.rng
        s = bytes(r.choice(b'  ABCxyz01239\t_-') for i in range(r.randint(0, n)))
        k = r.randint(0, 2)
        pad = b'\0' if k else b' '
        s = s + pad*(n - len(s))
        if k == 2 and len(s) > 3:
            s = s[:-1] + b'Q'           # something after the NUL
        return s

    def fill(self, name, **fix):
        l, r = self.lay[name], self.rng
        b = bytearray(r.randbytes(l['n']))
        for (nm, t, n), o in zip(l['f'], l['o']):
            if t == 'char':
                b[o:o+n] = self.chars(n)
            elif t in ('float', 'double'):
                b[o:o+sz(t)*n] = struct.pack('<%i%s' % (n, t[0]), *[r.choice([0.0, -0.0, 1.5, r.uniform(-400, 400), r.uniform(-1e-30, 1e30)]) for i in range(n)])
            elif n > 1 and r.random() < 0.3:
                b[o:o+sz(t)*n] = bytes(sz(t)*n)
            if nm in fix:
                v = fix[nm]
                b[o:o+sz(t)*n] = v if isinstance(v, bytes) else b''.join(int(x).to_bytes(sz(t), 'little', signed=x < 0) for x in (v if isinstance(v, list) else [v]))
        return bytes(b)

    def make(self, c):
        """The content of a member, and what to say about it in the trace."""
        r, t = self.rng, c['t']
        if t == 'ses':
            b = self.fill('ses')
            return b, {'data': list(b)}
        if t == 'obs':
            bad = c['bad']
            steps = c['steps']
            if bad == 'step' and not steps:
                bad = 'end'
            b = self.fill('osf', obs=c['oid'], mode=r.choice([0, 12, 99]) if bad == 'mode' else r.randint(1, 11), nsteps=1025 if bad == 'many' else len(steps))
            for i, k in enumerate(steps):
                b += self.fill('osfs', b=k)
                if k == 3:
                    b += self.fill('beam')
                b += struct.pack('<I', 2**32 - (1 if bad == 'step' and i == len(steps) - 1 else 2))
            b += self.fill('osf2', alignment=b'\xfe\xff\xff\xff' if bad == 'end' else b'\xff\xff\xff\xff')
            if bad == 'short':
                b = b[:-r.randint(8, len(b) - 1)]
            return b, {'data': list(b)}
        if t == 'cs':
            b = b''
            for x in c['cmds']:
                b += self.fill('cmd', tv=[r.randint(1, 2**31 - 1), r.randint(0, 999999)], asap=x['asap'], sid=x['sid'], cid=x['cid'], len=x['len'])
                b += bytes(r.randint(1, 255) for i in range(x['len']))
            if c['stop'] != 'eof':
                b += bytes(32)
            if c['stop'] == 'more':
                b += self.fill('cmd', tv=[1, 2], asap=0, sid=10, cid=2, len=0)
            return b, {'data': list(b)}
        if t == 'sdm':
            b = b''.join(self.fill('stat', tv=[r.randint(0, 2**31 - 1), r.randint(0, 999999)]) for i in range(9))
            b += self.fill('parts') + self.fill('ants') + self.fill('sets')
            return b, {'data': list(b)}
        if t == 'meta':
            out = []
            for x in c['lines']:
                bc = x['barcode'] + (': no DRSU' if x['barcode'] == 'Err' else '')
                if x['form'] == 'new':
                    out.append("%s%i [%s] [%s] %i [%s]" % (r.choice(['', '  ']), x['id'], x['tag'], r.choice([bc, "'%s'" % bc]), x['outcome'], x['msg']))
                elif x['form'] == 'five':
                    out.append("%i [%s] ['%s'] %s %s" % (x['id'], x['tag'], bc, x['outcome'], x['msg']))
                else:
                    out.append("%i %s %s %i" % (x['id'], x['tag'], bc, x['outcome']))
                if r.random() < 0.2:
                    out.append('')
            return ('\n'.join(out) + '\n').encode(), {'lines': c['lines']}
        if t == 'sdf':
            s = SDF % {'pid': c['pid'], 'sid': c['sid']}
            return s.encode(), {'sdf': [c['pid'], c['sid']]}
        if t == 'mindelay':
            return (r.choice(['%i', '%i\n', ' %i \n']) % c['v']).encode() if c['v'] >= 0 else b'not a number\n', {'v': c['v']}
        if t == 'host':
            return (' '*(c['pad'] // 2) + c['v'] + '\n'*(c['pad'] % 2)).encode(), {'host': c['v']}
        if t == 'ssmif':
            return ssmif.binary(self.ssmif, c['tab'], 'zero', r), {}
        if t == 'mib':
            fn = tempfile.mktemp(dir=self.scratch, suffix='.db')
            mib_file(fn, c['entries'], r)
            with open(fn, 'rb') as fh:
                b = fh.read()
            os.unlink(fn)
            return b, {'entries': c['entries']}
        return r.randbytes(50), {}


SDF = """PI_ID            7
PI_NAME          Doe, Jane

PROJECT_ID       %(pid)s
PROJECT_TITLE    Project
PROJECT_REMPI    None
PROJECT_REMPO    None

SESSION_ID       %(sid)i
SESSION_TITLE    Session
SESSION_REMPI    None
SESSION_REMPO    None

OBS_ID           1
OBS_TITLE        n
OBS_TARGET       t
OBS_REMPI        None
OBS_REMPO        None
OBS_START_MJD    60480
OBS_START_MPM    72000000
OBS_START        UTC 2024/06/19 20:00:00
OBS_DUR          10000
OBS_DUR+         00:00:10
OBS_MODE         TRK_SOL
OBS_B            SIMPLE
OBS_FREQ1        832697741
OBS_FREQ1+       38.000000000 MHz
OBS_FREQ2        1621569285
OBS_FREQ2+       74.000000000 MHz
OBS_BW           7
OBS_BW+          19.600 MHz

"""


def index(e, i):
    return '.'.join(str(x) for x in e['idx']) if e['idx'] else 'X%i.1' % i


def mib_file(fn, entries, r):
    with dbm.gnu.open(fn, 'n') as db:
        for i, e in enumerate(entries):
            v, t = e['v'], e['typ']
            val = {'a3': lambda: str(v).encode(), 'a1': lambda: str(v).encode(), 'i1u': lambda: struct.pack('<B', v), 'i2u': lambda: struct.pack('<H', v),
                   'i4u': lambda: struct.pack('<I', v), 'i4s': lambda: struct.pack('<i', v), 'i8u': lambda: struct.pack('<Q', v), 'f4': lambda: struct.pack('<f', v),
                   'f8': lambda: struct.pack('<d', v), 'f4r': lambda: struct.pack('>f', v), 'f8r': lambda: struct.pack('>d', v)}[t]()
            ix = index(e, i).encode()
            rec = struct.pack('<i12s8192s6s6s4xqq', 0 if e['branch'] else 1, ix, val, t.encode(), t.encode(), r.randint(0, 2**31 - 1), r.randint(0, 999999999))
            db[ix] = rec


def tree(*roots):
    out = {}
    for root in roots:
        for d, ds, fs in os.walk(root):
            for f in fs + ds:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    out[p] = 'link ' + os.readlink(p)
                elif os.path.isfile(p):
                    with open(p, 'rb') as fh:
                        out[p] = hashlib.md5(fh.read()).hexdigest()
                else:
                    out[p] = 'dir'
    return out


class World(object):
    def __init__(self, rec, rng, lay, root):
        self.rec, self.rng, self.root = rec, rng, root
        self.mk = Maker(lay, rng)
        self.tmp, self.abs = os.path.join(root, 'deep', 'tmp'), os.path.join(root, 'abs')
        self.mk.scratch = os.path.join(root, 'work')
        for d in (self.tmp, self.abs, self.mk.scratch, os.path.join(root, 'd1'), os.path.join(root, 'd2')):
            os.makedirs(d)
        tempfile.tempdir = self.tmp
        self.stamp = 1500000000*10**9

    def decoy(self, where, c):
        """A file outside of the bundle that must not be read, changed or removed."""
        os.makedirs(os.path.dirname(where), exist_ok=True)
        if not os.path.isdir(where):
            with open(where, 'wb') as fh:
                fh.write(self.mk.make(c)[0])

    def put(self, e):
        r = self.rng
        fn = os.path.join(self.root, e['d'], e['p'] + '.tgz')
        new = fn + '.new'
        out = []
        with tarfile.open(new, {'gz': 'w:gz', 'bz2': 'w:bz2', 'tar': 'w:'}[e['z']]) as tf:
            for m in e['b']:
                nm = m['pre'].replace('ABS/', self.abs + '/') + m['stem'] + m['ext']
                ti = tarfile.TarInfo(nm)
                ti.mtime = 1500000000
                b, say = self.mk.make(m['c'])
                if m['kind'] == 'dir':
                    ti.type = tarfile.DIRTYPE
                    ti.mode = 0o755
                    tf.addfile(ti)
                elif m['kind'] == 'file':
                    ti.size = len(b)
                    tf.addfile(ti, io.BytesIO(b))
                    if m['pre'] in ('../', '../../', 'sub/../../', 'ABS/'):
                        where = nm if m['pre'] == 'ABS/' else os.path.normpath(os.path.join(self.tmp, 'x', nm))
                        self.decoy(where, m['c'])
                elif m['kind'] == 'hard':
                    where = 'decoy-hard-%i%s' % (r.randint(0, 10**9), m['ext'])
                    self.decoy(os.path.join(self.tmp, where), m['c'])
                    ti.type, ti.linkname = tarfile.LNKTYPE, '../' + where
                    tf.addfile(ti)
                elif m['kind'] == 'symin':
                    ti.type, ti.linkname = tarfile.SYMTYPE, 'elsewhere' + m['ext']
                    tf.addfile(ti)
                else:
                    where = os.path.join(self.abs, 'decoy-%i%s' % (r.randint(0, 10**9), m['ext']))
                    self.decoy(where, m['c'])
                    ti.type, ti.linkname = tarfile.SYMTYPE, where
                    tf.addfile(ti)
                d = {k: m[k] for k in ('pre', 'stem', 'ext', 'kind', 'ord')}
                d.update(say)
                out.append(d)
            if e['trap']:
                ti = tarfile.TarInfo('s.obs')
                ti.type, ti.linkname = tarfile.SYMTYPE, self.abs
                tf.addfile(ti)
                b = self.mk.make({'t': 'obs', 'oid': 9, 'steps': [], 'bad': ''})[0]
                ti = tarfile.TarInfo('s.obs/x.obs')
                ti.size = len(b)
                tf.addfile(ti, io.BytesIO(b))
                out.append({'pre': '', 'stem': 's', 'ext': '.obs', 'kind': 'sym', 'ord': 8})
                out.append({'pre': 's.obs/', 'stem': 'x', 'ext': '.obs', 'kind': 'file', 'ord': 9})
        if e['how'] == 'write' and os.path.exists(fn):
            with open(new, 'rb') as a, open(fn, 'wb') as b:
                b.write(a.read())
            os.unlink(new)
        else:
            os.rename(new, fn)
        self.stamp += r.choice([1, 10**9])*1000
        os.utime(fn, ns=(self.stamp, self.stamp))
        self.rec.ev('put', d=e['d'], p=e['p'], b=out)

    def ask(self, e):
        fn = e['p'] + '.tgz'
        os.chdir(os.path.join(self.root, e['d']))
        if not e['rel']:
            fn = os.path.join(self.root, e['d'], fn)
        ns = (os.path.join(self.root, 'deep'), self.abs)
        before = tree(*ns)
        bund = tree(os.path.join(self.root, 'd1'), os.path.join(self.root, 'd2'))
        err, got, none, more = '', [], False, {}
        try:
            v = self.call(e, fn)
            if v is None:
                none = True
            else:
                got, more = getattr(self, 'see_' + e['fn'])(v, e)
                self.poke(v)
        except Exception as ex:
            err = type(ex).__name__
        os.chdir(self.root)
        after = tree(*ns)
        left = [p for p in after if p not in before]
        self.rec.ev('ask', fn=e['fn'], d=e['d'], p=e['p'], arg=e['arg'], sdm=e['sdm'], err=err, none=none, got=got, left=len(left), outside=all(after.get(p) == before[p] for p in before),
                    kept=bund == tree(os.path.join(self.root, 'd1'), os.path.join(self.root, 'd2')), **more)
        for p in sorted(left, reverse=True):
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            elif os.path.lexists(p):
                os.unlink(p)

    def call(self, e, fn):
        f = e['fn']
        if f == 'obs':
            if e['arg'] == []:
                return metabundle.get_observation_spec(fn)
            a = e['arg']
            if len(a) == 1:
                a = self.rng.choice([a[0], a, tuple(a)])
            return metabundle.get_observation_spec(fn, obs_id=a)
        if f == 'station':
            return metabundle.get_station(fn, apply_sdm=e['sdm'])
        if f in ('begin', 'end', 'mode'):
            w = {'begin': ['beginning', 'begin', 'Begin'], 'end': ['end', 'END'], 'mode': ['beginning', 'begin']}[f]
            return (metabundle.get_asp_configuration_summary if f == 'mode' else metabundle.get_asp_configuration)(fn, which=self.rng.choice(w))
        return {'ses': metabundle.get_session_spec, 'cs': metabundle.get_command_script, 'meta': metabundle.get_session_metadata, 'sdf': metabundle.get_sdf,
                'sdm': metabundle.get_sdm, 'mindelay': metabundle.get_beamformer_min_delay, 'host': metabundle.get_mcs_hostname, 'valid': metabundle.is_valid}[f](fn)

    def poke(self, v):
        """What is done to an answer must not show in later ones."""
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, dict):
                for k in list(x):
                    x[k] = None

    def see_ses(self, v, e):
        T = {n: t for n, t, c in self.mk.lay['ses']['f']}
        g = {'version': v['version'], 'session': v['session_id'], 'cra': v['configuration_authority'], 'beam': v['drx_beam'], 'mjd': v['mjd'], 'mpm': v['mpm'], 'dur': v['dur'], 'nobs': v['nobs'],
             'sch': v['include_mcssch_log'], 'exe': v['include_mcsexe_log'], 'smib': v['include_station_smib'], 'des': v['include_station_design']}
        for k in ('ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS'):
            g['mrp_' + k.lower()] = v['record_mib'][k]
            g['mup_' + k.lower()] = v['update_mib'][k]
        out = {k: enc(x, T[k]) for k, x in g.items()}
        out['project'], out['spc'] = text(v['project_id']), text(v['spc_setup'])
        return out, {}

    def see_obs(self, v, e):
        bare = isinstance(v, dict)
        out = []
        for o in ([v] if bare else v):
            T = {n: t for n, t, c in self.mk.lay['osf']['f']}
            h = {'version': o['version'], 'session': o['session_id'], 'beam': o['drx_beam'], 'obs': o['obs_id'], 'mjd': o['mjd'], 'mpm': o['mpm'], 'dur': o['dur'], 'mode': o['mode'].value,
                 'ra': o['ra'], 'dec': o['dec'], 'b': o['beam'], 'bw': o['bw'], 'nsteps': o['nsteps'], 'radec': o['is_radec']}
            h = {k: enc(x, T[k]) for k, x in h.items()}
            h.update(project=text(o['project_id']), spc=text(o['spc_setup']), bdm=text(o['beamdipole_mode']), freq1=word(o['freq1']), freq2=word(o['freq2']))
            shapes = len(o['fee_power']) == 256 and all(len(x) == 2 for x in o['fee_power'])
            f = {'fee': enc(o['fee_power'], 'short'), 'flt': enc(o['asp_filter'], 'short'), 'at1': enc(o['asp_atten_1'], 'short'), 'at2': enc(o['asp_atten_2'], 'short'), 'at3': enc(o['asp_atten_3'], 'short'),
                 'samples': enc(o['tbt_samples'], 'uint'), 'drxgain': enc(o['drx_gain'], 'short')}
            st = []
            for s in o['steps']:
                g = list(s.gain)
                shapes = shapes and (len(g) == 0 or (len(g) == 256 and all(len(x) == 2 and all(len(y) == 2 for y in x) for x in g)))
                st.append({'st': {'c1': enc(s.OBS_STP_C1, 'float'), 'c2': enc(s.OBS_STP_C2, 'float'), 't': enc(s.OBS_STP_T, 'uint'), 'freq1': enc(s.OBS_STP_FREQ1, 'uint'), 'freq2': enc(s.OBS_STP_FREQ2, 'uint'),
                                  'b': enc(s.OBS_STP_B, 'ushort')}, 'delay': enc(list(s.delay), 'ushort'), 'gain': enc(g, 'short')})
            out.append({'h': h, 'steps': st, 'f': f, 'shapes': shapes})
        return out, {'bare': bare}

    def see_cs(self, v, e):
        out = []
        for c in v:
            t = c['time']
            s = int(math.floor(t))
            u = int(round((t - s)*1e6))
            out.append({'tv': enc([s, u], 'long'), 'asap': bool(c['ignore_time']), 'sid': c['subsystem_id'].value, 'cid': c['command_id'].value, 'len': c['command_length'],
                        'data': [] if c['data'] is None else text(c['data'])})
        return out, {}

    def see_sdm(self, v, e):
        out = []
        for s in [v.station, v.shl, v.asp, v.ndp] + list(v.dr):
            sec = int(math.floor(s.time))
            out.append({'summary': enc(getattr(s.summary, 'value', s.summary), 'int'), 'info': text(s.info), 'tv': enc([sec, int(round((s.time - sec)*1e6))], 'long')})
        p = {'s_' + k: enc(getattr(v.status, k), 'int') for k in ('fee', 'rpd', 'sep', 'arb', 'snap', 'server', 'dr')}
        a = {'ant': enc(v.ant_status, 'int'), 'ndpo': enc(v.ndpo_status, 'int')}
        x = v.settings
        g = {'fee': x.fee_power, 'flt': x.asp_filter, 'at1': x.asp_atten_1, 'at2': x.asp_atten_2, 'at3': x.asp_atten_3, 'drxgain': x.drx_gain}
        for k in ('ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS'):
            g['mrp_' + k.lower()] = x.report[k]
            g['mup_' + k.lower()] = x.update[k]
        shapes = len(v.ant_status) == 256 and all(len(y) == 2 for y in v.ant_status) and len(v.status.arb) == 32 and len(v.status.snap) == 16 and all(len(y) == 64 for y in v.status.snap)
        return {'sys': out, 'parts': p, 'ants': a, 'sets': {k: enc(y, 'short') for k, y in g.items()}}, {'shapes': shapes}

    def see_meta(self, v, e):
        return [{'id': int(k), 'tag': x['tag'], 'barcode': x['barcode'], 'outcome': x['outcome'], 'msg': x['msg']} for k, x in v.items()], {}

    def see_sdf(self, v, e):
        return [v.id, int(v.sessions[0].id)], {}

    def see_mindelay(self, v, e):
        return int(v), {}

    def see_host(self, v, e):
        return v, {}

    def see_valid(self, v, e):
        return bool(v), {}

    def see_begin(self, v, e):
        return {'flt': list(v['asp_filter']), 'at1': list(v['asp_atten_1']), 'at2': list(v['asp_atten_2']), 'at3': list(v['asp_atten_3'])}, {}
    see_end = see_begin

    def see_mode(self, v, e):
        return {'flt': v['asp_filter'], 'at1': v['asp_atten_1'], 'at2': v['asp_atten_2'], 'at3': v['asp_atten_3']}, {}

    def see_station(self, v, e):
        for k in ('lwa1', 'lwasv', 'lwana'):
            if v is getattr(stations, k):
                return {'whole': k}, {}
        fn = os.path.join(self.mk.scratch, 'ref.dat')
        try:
            with tarfile.open(os.path.join(self.root, e['d'], e['p'] + '.tgz')) as tf, open(fn, 'wb') as fh:
                fh.write(tf.extractfile('ssmif.dat').read())
            ref = stations.parse_ssmif(fn)
        except (KeyError, AttributeError, OSError):
            return {'whole': '?'}, {}
        ants = lambda s: [[a.stand.id, a.pol, enc(int(a.status), 'int')] for a in s.antennas]
        md = getattr(v, 'beamformer_min_delay_samples', None)
        return {'whole': '', 'name': v.name, 'ants': ants(v), 'ref': ants(ref), 'rname': ref.name, 'md': -1 if md is None else int(md),
                'mds': md is None or abs(v.beamformer_min_delay*FS - md) < 1e-6, 'rmd': -1 if ref.beamformer_min_delay_samples is None else int(ref.beamformer_min_delay_samples)}, {}

    def struct(self, e):
        r = self.rng
        lines, over = [], {}
        for i, (t, sh) in enumerate(e['f']):
            dims = ''
            if sh != [1]:
                for n in sh:
                    w = str(n)
                    if e['form'] == 3 and n == 2:
                        w, over = 'NTWO', {'NTWO': 2}
                    elif e['form'] == 3 and n == 3:
                        w = '2+1'
                    dims += '[%s]' % w
            lines.append('%s%s  f%i%s;%s' % (r.choice(['', '    ', '\t']), r.choice(DECL[t]), i + 1, dims, r.choice(['', ' // more; x', ' /* short y; */']) if e['form'] > 1 else ''))
        if e['form'] == 2:
            lines = ['// a structure', 'struct {'] + lines + ['};', '']
        err, size, vals, back = '', 0, [], True
        data = bytearray(r.randbytes(4096))
        try:
            s = mcs.parse_c_struct('\n'.join(lines), char_mode=e['cm'], endianness=e['en'], overrides=over or None)
            size = s.sizeof()
            # numbers that are not numbers do not compare
            base = 0
            for i, (t, sh) in enumerate(e['f']):
                n = 1
                for k in sh:
                    n *= k
                base = -(-base // sz(t))*sz(t)
                if t in ('float', 'double'):
                    data[base:base+sz(t)*n] = struct.pack(('<' if e['en'] == 'little' else '>') + '%i%s' % (n, t[0]), *[r.choice([0.0, 1.5, r.uniform(-400, 400)]) for k in range(n)])
                base += sz(t)*n
            data = bytes(data[:size])
            io.BytesIO(data).readinto(s)
            d = s.as_dict()
            for i, (t, sh) in enumerate(e['f']):
                v = getattr(s, 'f%i' % (i + 1))
                if t == 'char':
                    vals.append(text(v) if e['cm'] == 'str' else enc(v, 'schar'))
                else:
                    vals.append(enc(v, t))
                    if sh != [1]:
                        m = mcs.flat_to_multi(v, *sh)
                        q = m
                        for n in sh:
                            back = back and len(q) == n
                            q = q[0]
                        back = back and flat(m) == list(v)
                back = back and s.dims['f%i' % (i + 1)] == ([] if sh == [1] else sh)
                w = d['f%i' % (i + 1)]
                back = back and (list(w) == list(v) if hasattr(v, '__len__') else w == v)
            back = back and bytes(s) == data
        except Exception as ex:
            err = type(ex).__name__
        self.rec.ev('struct', f=e['f'], en=e['en'], cm=e['cm'], err=err, size=size, data=list(data), vals=vals, back=back)

    def mib(self, e):
        r = self.rng
        fn = os.path.join(self.mk.scratch, 'm' + e['ext'])
        mib_file(fn, e['entries'], r)
        names = {}
        init = None
        if e['init']:
            init = os.path.join(self.mk.scratch, 'init.dat')
            with open(init, 'w') as fh:
                fh.write('B 9.9\t\tTOP \tNUL\tNUL NUL\n')
                for i, x in enumerate(e['entries']):
                    names[index(x, i)] = 'NAME-%i' % i
                    fh.write('%s %s \t\tNAME-%i \tUNK\t%s %s\n' % ('V', index(x, i), i, x['typ'], x['typ']))
        err, got, named = '', [], True
        try:
            m = mcs.MIB.from_file(fn[:-4] + '.dir' if e['dir'] and e['ext'] == '.pag' else fn, init_filename=init)
            for k in m.keys():
                x = m[k]
                v = int(float(x.value))
                got.append([[int(y) for y in k.split('.')], v, x.dbmType])
                named = named and x.index == k and x.icdType == x.dbmType
                if init:
                    named = named and m[names[k]] is x
            if init:
                named = named and sorted(m.keys(name=True)) == sorted(names[k] for k in m.keys())
        except Exception as ex:
            err = type(ex).__name__
        os.unlink(fn)
        self.rec.ev('mib', entries=e['entries'], err=err, got=got, named=named)


def run(job, rec, rng):
    for beh in mine(job, job['behaviours']):
        root = tempfile.mkdtemp(dir=job.get('tmp'))
        w = World(rec, rng, beh['lay'], root)
        w.mk.ssmif = beh['ssmif']
        rec.begin()
        for e in beh['ops']:
            getattr(w, e['op'])(e)
        os.chdir('/')
        tempfile.tempdir = None
        shutil.rmtree(root, ignore_errors=True)


main(run)
