"""What the log holds, in every place it is written to."""
import io
import os
import re
import sys
import tempfile
import threading
import warnings
import logging

ERR, REAL = io.StringIO(), sys.stderr
sys.stderr = ERR
from lsl import logger
from lsl.common.color import colorfy
sys.stderr = REAL
from vf import drv

LINE = re.compile(r'^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \[(\w+) *\] (.*)$')
NUM = {'DEBUG': 10, 'INFO': 20, 'NOTE': 25, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
NAME = {v: k for k, v in NUM.items()}


def one(lvl, text):
    if '\x1b' in text:
        return [lvl, -1]
    m = re.search(r'(?:^|: )m(\d+) (\d+) end', text)
    if m and m.group(1) == m.group(2):
        return [lvl, int(m.group(1))]
    return [lvl, 0 if 'switching to' in text else -1]


def parse(text):
    out = []
    for l in text.split('\n'):
        m = LINE.match(l)
        if m:
            out.append(one(NUM.get(m.group(1), -1), m.group(2)))
        elif 'm' in l and re.match(r'^\S*m\d+ \d+ end', l):
            out.append([-1, -1])
    return out


class World(object):
    def __init__(self, d):
        self.d = d
        self.streams = {'A': io.StringIO(), 'B': io.StringIO()}
        self.hs = {'h1': logger.ThreadedHandler(), 'h2': logger.ThreadedHandler()}
        self.q = []
        ERR.seek(0)
        ERR.truncate()

    def path(self, f):
        return os.path.join(self.d, f + '.log')

    def got(self):
        while not logger.LSL_LOG_QUEUE.empty():
            r = logger.LSL_LOG_QUEUE.get_nowait()
            self.q.append(one(r.levelno, r.getMessage()))
        out = {'err': parse(ERR.getvalue()), 'q': list(self.q)}
        for k, s in self.streams.items():
            out[k] = parse(s.getvalue())
        for f in ('f1', 'f2'):
            out[f] = parse(open(self.path(f)).read()) if os.path.exists(self.path(f)) else []
        return out

    def reset(self):
        logger.disable_console_logging()
        logger.disable_file_logging()
        logger.clear_filters()
        logger.capture_warnings(False)
        logger.set_log_level(logging.INFO)
        for h in self.hs.values():
            logger.remove_handler(h)


def do(w, o, n, rng):
    op = o['op']
    def lv(x):
        return NAME[x] if x in NAME and rng.random() < 0.3 else x
    if op == 'level':
        logger.set_log_level(lv(o['level']))
    elif op == 'log':
        if o['level'] in (10, 20, 30, 40, 50) and rng.random() < 0.5:
            getattr(logger.LSL_LOGGER, NAME[o['level']].lower())('m%i %i end', n, n)
        else:
            logger.LSL_LOGGER.log(o['level'], 'm%i %i end' % (n, n))
    elif op == 'note':
        if rng.random() < 0.5:
            logger.make_note('m%i %i end', n, n)
        else:
            logger.make_note('m%i %i end' % (n, n))
    elif op == 'warn':
        text = rng.choice(['m%i %i end', '{{%%red m%i %i}} end', '{{%%bold {{%%bkg-yellow m%i}} %i end}}', 'm%i {{%%underline %i}} end']) % (n, n)
        warnings.warn(colorfy(text), rng.choice([RuntimeWarning, UserWarning]))
    elif op == 'console':
        kw = {} if o['level'] == 0 and rng.random() < 0.5 else {'level': lv(o['level'])}
        if o['bad']:
            kw = {'level': 'LOUD'}
        logger.enable_console_logging(stream=w.streams[o['to']], **kw)
    elif op == 'noconsole':
        logger.disable_console_logging()
    elif op == 'file':
        kw = {} if o['level'] == 0 and rng.random() < 0.5 else {'level': lv(o['level'])}
        if o['bad'] == 'level':
            kw = {'level': 'LOUD'}
        if o['mode'] == 'w' or rng.random() < 0.5:
            kw['mode'] = o['mode']
            if o['bad'] == 'level':
                kw['mode'] = 'a'
        logger.enable_file_logging(os.path.join(w.d, 'no', 'where.log') if o['bad'] == 'path' else w.path(o['to']), **kw)
    elif op == 'nofile':
        logger.disable_file_logging()
    elif op == 'add':
        h = w.hs[o['h']]
        h.setLevel(o['level'])
        logger.add_handler(h)
    elif op == 'remove':
        logger.remove_handler(w.hs[o['h']])
    elif op == 'filter':
        logger.add_filter(o['p'])
    elif op == 'unfilter':
        logger.remove_filter(o['p'])
    elif op == 'clear':
        logger.clear_filters()
    elif op == 'capture':
        logger.capture_warnings(o['on'])
    elif op == 'burst':
        def say(i):
            for j in range(1, o['n'] + 1):
                k = n*1000 + i*100 + j
                logger.LSL_LOGGER.log(o['level'], 'm%i %i end', k, k)
        ts = [threading.Thread(target=say, args=(i,)) for i in range(1, o['threads'] + 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def run(job, rec, rng):
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    for c in (RuntimeWarning, UserWarning):
        warnings.simplefilter('always', c)
    sys.setswitchinterval(1e-5)
    for beh in drv.mine(job, job['behaviours']):
        rec.begin(beh=1)
        with tempfile.TemporaryDirectory() as d:
            w = World(d)
            try:
                for n, o in enumerate(beh['ops'], 1):
                    exc = ''
                    sys.stderr = io.StringIO()
                    try:
                        do(w, o, n, rng)
                    except Exception as e:
                        exc = type(e).__name__
                    finally:
                        sys.stderr = REAL
                    rec.ev('do', o=o, id=n, exc=exc, level=int(logger.get_log_level()), got=w.got())
            finally:
                w.reset()


drv.main(run)
