"""Binary station files (SSMIF)."""
import struct

MILLI = {'GEO_N', 'GEO_E', 'GEO_EL', 'STD_LX', 'STD_LY', 'STD_LZ', 'ANT_THETA', 'ANT_PHI', 'FEE_GAI1', 'FEE_GAI2', 'RPD_LENG', 'RPD_VF', 'RPD_DD', 'RPD_STR', 'SEP_LENG', 'PC_ROT'}
FINE = {'RPD_A0', 'RPD_A1'}
FMT = {'int': 'i', 'float': 'f', 'double': 'd', 'short': 'h'}


def binary(lay, t, fill, r):
    """The bytes of a binary station file, from the tables of the specification and its layout."""
    b = bytearray(lay['n'])
    at = {f[0]: (f[1], f[2], o) for f, o in zip(lay['f'], lay['o'])}

    def put(k, idx, v):
        ty, dims, off = at[k]
        n = 0
        d = dims if ty != 'char' else (dims[:-1] or [1])
        for i, m in zip(idx, d):
            assert i < m, (k, idx)
            n = n*m + i
        if ty == 'char':
            w = dims[-1]
            s = v.encode()
            if fill == 'junk' and len(s) + 2 < w:
                s += b'\0' + b'z'*(w - len(s) - 2)
            s = s[:w].ljust(w, b'\0')
            b[off + n*w:off + (n + 1)*w] = s
        else:
            z = struct.pack('<' + FMT[ty], v/1000 if k in MILLI else v/1e5 if k in FINE else v)
            b[off + n*len(z):off + (n + 1)*len(z)] = z
    if fill == 'def':
        for i in range(512):
            put('ANT_STD', [i], i//2 + 1)
            put('ANT_ORIE', [i], i % 2)
            put('ANT_STAT', [i], 3)
            put('RPD_ANT', [i], i + 1)
            put('RPD_ID', [i], 'UNK')
        for i in range(256):
            put('FEE_ANT1', [i], 2*i + 1)
            put('FEE_ANT2', [i], 2*i + 2)
            put('FEE_ID', [i], 'UNK')
            put('FEE_STAT', [i], 3)
        for i in range(32):
            for j in range(16):
                put('ARB_ANT', [i, j], i*16 + j + 1)
        for i in range(16):
            for j in range(64):
                put('SNAP_ANT', [i, j], i*64 + j + 1)
    put('FORMAT_VERSION', [0], 10 if t['ok'] else r.choice([9, 11, 0]))
    put('STATION_ID', [0], t['id'])
    for k, f in (('GEO_N', 'lat'), ('GEO_E', 'lon'), ('GEO_EL', 'el')):
        put(k, [0], t[f])
    for k, n in (('N_STD', len(t['pos'])), ('N_FEE', len(t['fee'])), ('N_RPD', len(t['rpd'])), ('N_ARB', len(t['arb'])), ('N_ARBCH', t['arbch']), ('N_SNAP', len(t['snap'])), ('N_SNAPCH', t['snapch'])):
        put(k, [0], n)
    for i, p in enumerate(t['pos']):
        for k, v in zip(('STD_LX', 'STD_LY', 'STD_LZ'), p):
            put(k, [i], v)
    for tab, cols in (('ant', {'ANT_STD': 'std', 'ANT_ORIE': 'orie', 'ANT_STAT': 'stat', 'ANT_THETA': 'th', 'ANT_PHI': 'ph'}),
                      ('fee', {'FEE_ID': 'id', 'FEE_STAT': 'stat', 'FEE_GAI1': 'g1', 'FEE_GAI2': 'g2', 'FEE_ANT1': 'a1', 'FEE_ANT2': 'a2'}),
                      ('rpd', {'RPD_ID': 'id', 'RPD_LENG': 'leng', 'RPD_VF': 'vf', 'RPD_DD': 'dd', 'RPD_A0': 'k0', 'RPD_A1': 'k1', 'RPD_FREF': 'fref', 'RPD_STR': 'str', 'RPD_ANT': 'ant'})):
        for i, row in enumerate(t[tab]):
            for k, c in cols.items():
                put(k, [i], row[c])
    for i, x in enumerate(t['arb']):
        put('ARB_ID', [i], x['id'])
        for j, c in enumerate(x['ch']):
            put('ARB_ANT', [i, j], c['ant'])
            put('ARB_IN', [i, j], c['in'])
            put('ARB_OUT', [i, j], c['out'])
    for i, x in enumerate(t['snap']):
        for j, c in enumerate(x):
            put('SNAP_ANT', [i, j], c['ant'])
            put('SNAP_INR', [i, j], c['inr'])
    b2 = bytearray(lay['sn'])
    for f, o in zip(lay['sf'], lay['so']):
        if f[0] in ('at1', 'at2', 'at3'):
            for i, x in enumerate(t['asp']):
                b2[o + 2*i:o + 2*i + 2] = struct.pack('<h', x[f[0]])
        elif f[0] == 'drxgain':
            b2[o:o + 2] = struct.pack('<h', t['gain'])
    return bytes(b + b2)
