"""What the values given on a command line are taken to mean."""
import math
import warnings
warnings.simplefilter('ignore')

from lsl.misc import parser
from vf import drv


def attempt(fn, text):
    try:
        return fn(text), ''
    except Exception as e:
        return None, type(e).__name__


def as_list(fn, text):
    v, exc = attempt(fn, text)
    out = {'exc': exc, 'word': '', 'v': []}
    if not exc:
        if isinstance(v, str):
            out['word'] = v
        else:
            out['v'] = [int(x) if not isinstance(x, tuple) else [int(y) for y in x] for x in v]
    return out


def do_num(p, rng):
    n, form = p['n'], p['form']
    text = {'plain': '%i' % n, 'blank': ' %i ' % n, 'zeros': ('-' if n < 0 else '') + '00%i' % abs(n), 'exp': '%ie0' % n, 'word': 'x%i' % n, 'empty': '', 'half': ('-' if n < 0 else '') + '%i.5' % abs(n), 'nan': 'nan',
            'hex': '0x%x' % abs(n)}[form]
    v, exc = attempt(getattr(parser, p['fn']), text)
    return {'p': p, 'exc': exc, 'got': 0 if exc or v != v else int(round(v*1000)), 't': text}


SCALE = {'Hz': 1e-3, 'kHz': 1.0, 'MHz': 1e3, 'GHz': 1e6, 'mm': 1.0, 'cm': 10.0, 'm': 1000.0}


def do_freq(p, rng):
    u, sp = p['unit'], (' ' if p['space'] and p['unit'] else '')
    unit = u or ('MHz' if p['fn'] == 'frequency' else 'm')
    def num(x):
        return '%.9g' % (x/SCALE[unit])
    if not p['range']:
        text = num(p['a']) + sp + u
    else:
        f = p['form']
        if f == 'second':
            text = num(p['a']) + '~' + num(p['b']) + sp + u
        elif f == 'first':
            text = num(p['a']) + sp + u + '~' + num(p['b'])
        else:
            text = num(p['a']) + sp + u + '~' + num(p['b']) + sp + u
    if p['form'] == 'word':
        text = rng.choice(['x', text + 'q', text + '~x', '~' + text, text + '~', '', text + ' furlong'])
    fn = getattr(parser, p['fn'] + ('_range' if p['asked'] else ''))
    v, exc = attempt(fn, text)
    got = []
    if not exc:
        try:
            vals = list(v)
        except TypeError:
            vals = [v]
        for x in vals:
            x = float(x)/1000.0 if p['fn'] == 'frequency' else float(x)*1000.0
            got.append(int(math.floor(x + 1e-6)) if abs(x) < 2e9 else -1)
    return {'p': p, 'exc': exc, 'got': got, 't': text}


def days(y, m, d):
    from datetime import date
    return (date(y, m, d) - date(1858, 11, 17)).days


def do_day(p, rng):
    y, m, d = p['y'], p['m'], p['d']
    if p['form'] == 'mjd':
        try:
            text = '%i' % days(y, m, d)
        except ValueError:
            p = dict(p, form='-')
    if p['form'] in ('-', '/'):
        text = ('%04i' + p['form'] + '%02i' + p['form'] + '%02i') % (y, m, d) if rng.random() < 0.5 else '%i%s%i%s%i' % (y, p['form'], m, p['form'], d)
    elif p['form'] == 'short':
        text = '%i/%i' % (y, m)
    elif p['form'] == 'word':
        text = rng.choice(['', 'today', '%i.5' % y, '%i/%i/%i/1' % (y, m, d)])
    v, exc = attempt(getattr(parser, p['fn']), text)
    got = []
    if not exc:
        got = [int(v)] if p['fn'] == 'mjd' else [int(x) for x in v.split('/')]
    return {'p': p, 'exc': exc, 'got': got, 't': text}


def do_clock(p, rng):
    h, m, s, ms, us, f = p['h'], p['m'], p['s'], p['ms'], p['us'], p['form']
    if f == 'mpm' and not (h < 24 and m < 60 and s < 60):
        f = 'hms'
        p = dict(p, form=f)
    if f == 'mpm':
        text = '%i' % ((h*3600 + m*60 + s)*1000 + ms)
    elif f == 'hms':
        text = '%02i:%02i:%02i' % (h, m, s)
    elif f == 'hms.f':
        text = '%02i:%02i:%02i.%03i%03i' % (h, m, s, ms, us)
    else:
        text = {'short': '%02i:%02i' % (h, m), 'word': 'noon', 'late': '%i' % (86401000 + ms), 'neg': '-1'}[f]
    v, exc = attempt(getattr(parser, p['fn']), text)
    got = []
    if not exc:
        if p['fn'] == 'mpm':
            got = [int(v)]
        else:
            a, b, c = v.split(':')
            c, e = c.split('.')
            got = [int(a), int(b), int(c), int(e.ljust(6, '0'))]
    return {'p': p, 'exc': exc, 'got': got, 't': text}


def do_angle(p, rng):
    out = []
    for a in p['list']:
        t = '%i' % a['deg']
        if p['form'] != 'd':
            t += ':%02i' % a['min']
        if p['form'] == 'dms':
            t += ':%02i' % a['sec']
        out.append(('-' if a['neg'] else '') + t)
    text = p['sep'].join(out) + p['tail']
    if p['bad']:
        text = rng.choice(['x', 'x,' + text, ','.join(out + ['1:x'])])
    fn = p['fn']
    v, exc = attempt(getattr(parser, 'csv_%s_list' % fn), text)
    got = []
    if not exc:
        got = [int(round(float(x)*180/math.pi*3600/(15 if fn == 'hours' else 1))) for x in v]
        # one by one they are the same
        for t, g in zip(out, got):
            w, e = attempt(getattr(parser, fn), t)
            if e or int(round(float(w)*180/math.pi*3600/(15 if fn == 'hours' else 1))) != g:
                got = []
    return {'p': p, 'exc': exc, 'got': got, 't': text}


def do_host(p, rng):
    out = []
    for h in p['items']:
        if h['ip']:
            out.append('.'.join(('%i' % a) if a == b else '%i~%i' % (a, b) for a, b in h['r']))
        elif h['kind'] == 'bare':
            out.append(h['base'])
        elif h['kind'] == 'one':
            out.append('%s%i' % (h['base'], h['r'][0][0]))
        else:
            out.append('%s%i~%i' % (h['base'], h['r'][0][0], h['r'][0][1]))
    if p['bad'] == 'dot':
        out.insert(rng.randrange(len(out) + 1), 'a.b')
    elif p['bad'] == 'tilde':
        out.insert(rng.randrange(len(out) + 1), 'a~b')
    text = p['sep'].join(out)
    v, exc = attempt(parser.csv_hostname_list, text)
    got = []
    for x in v or []:
        if '.' in x:
            got.append({'base': '', 'n': [int(y) for y in x.split('.')]})
        else:
            b = x.rstrip('0123456789')
            got.append({'base': b, 'n': [int(x[len(b):])] if x != b else []})
    return {'p': p, 'exc': exc, 'got': got, 't': text}


def run(job, rec, rng):
    dos = {'num': do_num, 'freq': do_freq, 'day': do_day, 'clock': do_clock, 'angle': do_angle, 'host': do_host}
    texts = drv.mine(job, job['texts'])
    if job.get('shard', 0) == 0:
        texts += [list('all'), list('none'), list('ALL'), list('1,all')]
    for k, t in enumerate(texts):
        if k % 200 == 0:
            rec.begin(texts=k)
        s = ''.join(t)
        rec.ev('text', text=t, ints=as_list(parser.csv_int_list, s), bls=as_list(parser.csv_baseline_list, s))
    for beh in drv.mine(job, job['behaviours']):
        rec.begin(beh=1)
        for o in beh['ops']:
            rec.ev(o['op'], **dos[o['op']]({k: v for k, v in o.items() if k != 'op'}, rng))


drv.main(run)
