"""Drives lsl.misc.file_lock from threads and processes, on command and freely."""
import os
import sys
import json
import queue
import shutil
import signal
import tempfile
import threading
import time

from vf.drv import main, mine
from lsl.misc.file_lock import FileLock, MemoryLock


def call(fn):
    """(result, exception name)"""
    try:
        return fn(), ''
    except Exception as e:
        return None, type(e).__name__


class Worker(object):
    """A thread that does what it is told, one thing at a time."""

    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            fn = self.q.get()
            if fn is None:
                return
            self.r.put(call(fn))

    def do(self, fn):
        self.q.put(fn)
        return self.r.get()


class Here(object):
    def do(self, fn):
        return call(fn)


def op_of(lock, what):
    if what == 'try':
        return lambda: bool(lock.acquire(blocking=False))
    if what == 'timed':
        return lambda: bool(lock.acquire(blocking=True, timeout=0.02))
    if what == 'enter':
        return lambda: bool(lock.__enter__()) and bool(lock.locked())
    if what == 'exit':
        return lambda: lock.__exit__(None, None, None)
    if what == 'locked':
        return lambda: bool(lock.locked())
    return lambda: lock.release()


class Child(object):
    """A forked process with two threads (agents 4 and 5) that share an instance."""

    def __init__(self):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(a[1])
                os.close(b[0])
                rd, wr = os.fdopen(a[0], 'r'), os.fdopen(b[1], 'w')
                who = {4: Here(), 5: Worker()}
                lock = None
                for line in rd:
                    c = json.loads(line)
                    if c['do'] == 'new':
                        lock = FileLock(c['path'])
                        res = [None, '']
                    else:
                        res = who[c['a']].do(op_of(lock, c['do']))
                    wr.write(json.dumps([res[0] if isinstance(res[0], bool) else None, res[1]]) + '\n')
                    wr.flush()
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.wr, self.rd = os.fdopen(a[1], 'w'), os.fdopen(b[0], 'r')

    def ask(self, **kw):
        self.wr.write(json.dumps(kw) + '\n')
        self.wr.flush()
        return json.loads(self.rd.readline())

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        self.wr.close()
        self.rd.close()


def commanded(job, rec, rng, d):
    child = Child()
    who = {1: Here(), 2: Worker(), 3: Worker()}
    n = 0

    def episode(kind, ops, src):
        nonlocal child, n
        n += 1
        path = os.path.join(d, 'f%d' % n)
        if kind == 'file':
            shared = FileLock(path)
            locks = {1: shared, 2: shared, 3: FileLock(path)}
            child.ask(do='new', path=path)
            rec.begin(kind=kind, proc=[1, 1, 1, 2, 2], src=src)
        else:
            shared = MemoryLock(path)
            locks = {1: shared, 2: shared, 3: shared}
            rec.begin(kind=kind, proc=[1, 1, 1], src=src)
        depth = {a: 0 for a in range(1, 6)}

        def do(a, what):
            if a > 3:
                return child.ask(do=what, a=a)
            return who[a].do(op_of(locks[a], what))

        for o in ops:
            a = o['a']
            if kind == 'memory' and (a > 3 or o['op'] == 'crash'):
                continue
            if o['op'] == 'crash':
                # the new process is made when this one has nothing of the lock
                child.kill()
                held = [x for x in (1, 2, 3) if depth[x] > 0]
                rec.ev('crash', a=0)
                for x in (4, 5):
                    depth[x] = 0
                if held:
                    # forking with the lock held would hand it down: let go first
                    for x in held:
                        while depth[x] > 0:
                            r, e = do(x, 'release')
                            rec.ev('release', a=x, exc=e)
                            depth[x] -= 1
                child = Child()
                child.ask(do='new', path=path)
                continue
            if o['op'] == 'try':
                free = all(depth[x] == 0 for x in depth if x != a)
                what = rng.choice(['try', 'try', 'timed', 'enter'] if free else ['try', 'try', 'timed'])
                r, e = do(a, what)
                rec.ev('try', a=a, got=bool(r), exc=e, how=what)
                if r:
                    depth[a] += 1
            else:
                what = rng.choice(['release', 'exit'])
                r, e = do(a, what)
                rec.ev('release', a=a, exc=e)
                if depth[a] > 0:
                    depth[a] -= 1
            holder = [x for x in depth if depth[x] > 0]
            for x in holder:
                r, e = do(x, 'locked')
                rec.ev('locked', a=x, val=bool(r))
        # leave nothing behind
        for x in list(depth):
            while depth[x] > 0:
                r, e = do(x, 'release')
                rec.ev('release', a=x, exc=e)
                depth[x] -= 1
        # and it is free
        for x in ([1, 3, 4] if kind == 'file' else [1, 2]):
            r, e = do(x, 'try')
            rec.ev('try', a=x, got=bool(r), exc=e, how='try')
            if r:
                r, e = do(x, 'release')
                rec.ev('release', a=x, exc=e)

    for i, b in enumerate(mine(job, job['behaviours'])):
        episode('memory' if i % 5 == 4 else 'file', b, 'tlc')
    for i in range(job['random'] // job['shards']):
        ops, depth = [], {a: 0 for a in range(1, 6)}
        for _ in range(rng.randrange(6, 30)):
            r = rng.random()
            held = [a for a in depth if depth[a] > 0]
            if held and r < 0.45:
                a = rng.choice(held)
                ops.append({'op': 'release', 'a': a})
                depth[a] -= 1
            elif r < 0.97:
                a = rng.choice(held) if held and rng.random() < 0.3 else rng.randrange(1, 6)
                ops.append({'op': 'try', 'a': a})
                if not [x for x in held if x != a]:
                    depth[a] += 1
            else:
                ops.append({'op': 'crash', 'a': 0})
                depth[4] = depth[5] = 0
        episode(rng.choice(['file', 'file', 'memory']), ops, 'random')
    child.kill()


def free_running(job, rec, rng, d):
    """
    Threads and processes that take the lock whenever they can.  Each writes to one log (appending,
    so in one order) after the lock was acquired and before it is released.
    """
    for rnd in range(job['free'] // job['shards']):
        path = os.path.join(d, 'g%d-%d' % (os.getpid(), rnd))
        log = path + '.log'
        nproc, nthr, reps = rng.choice([(1, 4, 25), (2, 2, 20), (3, 2, 12), (4, 1, 12)])
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        seeds = [[rng.random() for _ in range(nthr)] for _ in range(nproc)]
        share = rng.random() < 0.7
        rec.begin(kind='free', proc=[p+1 for p in range(nproc) for t in range(nthr)], src='free')
        pids = []
        for p in range(nproc):
            pid = os.fork()
            if pid == 0:
                try:
                    inst = FileLock(path)

                    def work(a, lock):
                        import random
                        r = random.Random(seeds[(a-1)//nthr][(a-1) % nthr])
                        for _ in range(reps):
                            got, e = call(lambda: bool(lock.acquire(timeout=60)))
                            if got:
                                os.write(fd, b'acq %d 1 -\n' % a)
                                if r.random() < 0.3:
                                    g2, e2 = call(lambda: bool(lock.acquire(timeout=60)))
                                    os.write(fd, b'acq %d %d %s\n' % (a, bool(g2), e2.encode() or b'-'))
                                    if g2:
                                        os.write(fd, b'rel %d 1 -\n' % a)
                                        lock.release()
                                if r.random() < 0.3:
                                    time.sleep(r.random()*0.002)
                                os.write(fd, b'rel %d 1 -\n' % a)
                                lock.release()
                            else:
                                os.write(fd, b'acq %d 0 %s\n' % (a, e.encode() or b'-'))
                                return
                            if r.random() < 0.5:
                                time.sleep(r.random()*0.002)

                    ts = [threading.Thread(target=work, args=(p*nthr + t + 1, inst if share else FileLock(path))) for t in range(nthr)]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                finally:
                    os._exit(0)
            pids.append(pid)
        for pid in pids:
            os.waitpid(pid, 0)
        os.close(fd)
        with open(log) as fh:
            for line in fh:
                w, a, g, e = line.split()
                if w == 'acq':
                    rec.ev('acq', a=int(a), got=g == '1', exc='' if e == '-' else e)
                else:
                    rec.ev('release', a=int(a), exc='')


def run(job, rec, rng):
    d = tempfile.mkdtemp()
    try:
        free_running(job, rec, rng, d)
        commanded(job, rec, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main(run)
