"""Drives lsl.reader.utils.SplitFileWrapper and FilePositionSaver."""
import os
import tempfile
import shutil

from vf.drv import main, mine
from lsl.reader.utils import SplitFileWrapper, FilePositionSaver


class Boom(Exception):
    pass


def play(rec, sizes, ops, buffering, rng, src, shuffle):
    d = tempfile.mkdtemp()
    fh = None
    try:
        names, parts, k = [], [], 0
        salt = rng.randrange(256)
        for i, n in enumerate(sizes):
            p = [(salt + 7*(k+j)) % 256 for j in range(n)]
            k += n
            parts.append(p)
            name = os.path.join(d, 'part_%03d' % i)
            with open(name, 'wb') as f:
                f.write(bytes(p))
            names.append(name)
        # with sort=True (the default) the parts are taken in order of their names
        given = list(names)
        if shuffle:
            rng.shuffle(given)
        rec.begin(parts=parts, buffering=buffering, src=src, shuffled=shuffle)
        fh = SplitFileWrapper(given, buffering=buffering) if shuffle else \
            SplitFileWrapper(given, sort=False, buffering=buffering)
        rec.ev('size', size=int(fh.size))
        savers = []

        def tell():
            exc, p = '', 0
            try:
                p = int(fh.tell())
            except Exception as e:
                exc = type(e).__name__
            rec.ev('tell', pos=p, exc=exc)

        for op in ops:
            exc = ''
            if op['op'] == 'read':
                data = b''
                try:
                    data = fh.read(op['n'])
                except Exception as e:
                    exc = type(e).__name__
                rec.ev('read', n=op['n'], data=list(data), exc=exc)
            elif op['op'] == 'seek':
                try:
                    fh.seek(op['o'], op['w'])
                except Exception as e:
                    exc = type(e).__name__
                rec.ev('seek', o=op['o'], w=op['w'], exc=exc)
            elif op['op'] == 'enter':
                try:
                    s = FilePositionSaver(fh)
                    s.__enter__()
                    savers.append(s)
                except Exception as e:
                    exc = type(e).__name__
                rec.ev('enter', exc=exc)
            elif op['op'] == 'leave':
                if not savers:
                    continue
                s = savers.pop()
                try:
                    if op.get('exc'):
                        s.__exit__(Boom, Boom(), None)
                    else:
                        s.__exit__(None, None, None)
                except Exception as e:
                    exc = type(e).__name__
                rec.ev('leave', exc=exc)
            elif op['op'] == 'close':
                try:
                    fh.close()
                except Exception as e:
                    exc = type(e).__name__
                rec.ev('close', exc=exc)
            tell()
    finally:
        try:
            fh.close()
        except Exception:
            pass
        shutil.rmtree(d, ignore_errors=True)


def random_ops(rng, total, n):
    ops = []
    depth = 0
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            ops.append({'op': 'read', 'n': rng.choice([-1, 0, 1, 2, 3, 5, 8, 13, 40, total, total+5])})
        elif r < 0.85:
            w = rng.randrange(3)
            o = rng.randrange(0, total+4) if w == 0 else rng.randrange(-total//2-2, total//2+3) if w == 1 else -rng.randrange(-3, total+3)
            if rng.random() < 0.05:
                o = -o
            ops.append({'op': 'seek', 'o': o, 'w': w})
        elif r < 0.92:
            ops.append({'op': 'enter'})
            depth += 1
        elif depth > 0:
            ops.append({'op': 'leave', 'exc': rng.random() < 0.5})
            depth -= 1
    if rng.random() < 0.1 and depth == 0:
        ops += [{'op': 'close'}, {'op': 'read', 'n': 3}, {'op': 'seek', 'o': 0, 'w': 0}]
    return ops


def run(job, rec, rng):
    for i, b in enumerate(mine(job, job['behaviours'])):
        play(rec, b['sizes'], b['ops'], [-1, 0][i % 2], rng, 'tlc', False)
    for i in range(job['random'] // job['shards']):
        # a part may be empty but the recording is not
        n = rng.randrange(1, 8)
        sizes = [rng.choice([0, 1, 2, 3, 5, 8, 13]) for _ in range(n)]
        if sum(sizes) == 0:
            sizes[rng.randrange(n)] = 4
        play(rec, sizes, random_ops(rng, sum(sizes), rng.randrange(4, 25)), rng.choice([-1, 0, 2, 16]), rng,
             'random', rng.random() < 0.5)


main(run)
