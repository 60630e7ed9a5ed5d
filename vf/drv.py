"""
Helpers for the drivers (run under the Python that has lsl's dependencies).
"""

import os
import sys
import json
import time
import random
import signal
import traceback


class Recorder(object):
    def __init__(self, path, limit=150):
        self.fh = open(path, 'w')
        self.cur = path + '.current'
        self.limit = limit
        self.n = 0

    def begin(self, **kw):
        """Start an episode.  Arms a watchdog: a call that never returns kills the process."""
        self.n += 1
        ev = {'op': 'begin', 'ep': self.n}
        ev.update(kw)
        with open(self.cur, 'w') as fh:
            json.dump(ev, fh, default=str)
        self._w(ev)
        self.fh.flush()
        signal.alarm(self.limit)

    def ev(self, op, **kw):
        d = {'op': op}
        d.update(kw)
        self._w(d)

    def _w(self, d):
        self.fh.write(json.dumps(d) + '\n')

    def close(self):
        signal.alarm(0)
        self.fh.close()
        try:
            os.unlink(self.cur)
        except OSError:
            pass


def main(fn):
    with open(sys.argv[1]) as fh:
        job = json.load(fh)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    rec = Recorder(sys.argv[2])
    rng = random.Random('%s/%s' % (job.get('seed', 1), job.get('shard', 0)))
    # never try to phone home
    try:
        from lsl.misc import telemetry
        telemetry.telemetry_client = getattr(telemetry, 'telemetry_client', None)
    except ImportError:
        pass
    try:
        fn(job, rec, rng)
    except Exception as e:
        traceback.print_exc()
        sys.stderr.flush()
        rec.fh.flush()
        tb = traceback.extract_tb(e.__traceback__)
        # an internal name that the driver uses and that is gone says nothing about behaviour
        ours = os.sep + 'drivers' + os.sep in tb[-1].filename or os.sep + 'vf' + os.sep in tb[-1].filename
        gone = isinstance(e, (AttributeError, ImportError, NameError)) and ours
        os._exit(6 if gone or rec.n == 0 else 5)
    rec.close()
    sys.stdout.flush()
    os._exit(0)


def mine(job, items):
    """This shard's part of a list."""
    n = job.get('shards', 1)
    return [x for i, x in enumerate(items) if i % n == job.get('shard', 0)]
