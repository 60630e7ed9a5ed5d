"""
Common machinery of the checks: building the extensions of /repo, running TLC,
running the drivers against the real code, judging the recorded traces with
the trace specifications, and reporting.

Standard library only; runs under the system python3.
"""

import os
import re
import sys
import json
import time
import fcntl
import hashlib
import shutil
import signal
import subprocess
import tempfile
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
SPEC = os.path.join(VERIF, 'spec')
DRIVERS = os.path.join(VERIF, 'drivers')
EVIDENCE = os.environ.get('VF_EVIDENCE') or os.path.join(VERIF, 'evidence')
CACHE = os.path.join(VERIF, '.cache')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')


class MachineryError(Exception):
    """The check itself could not do its work (exit 2, never a verdict)."""


def episode(path):
    """What the driver was about to do when it ended."""
    try:
        with open(path) as fh:
            return json.load(fh)
    except ValueError:
        return {}                           # it was ended while it wrote


class TLCResult(object):
    def __init__(self, rc, out, generated, distinct, depth, wall):
        self.rc, self.out = rc, out
        self.generated, self.distinct, self.depth = generated, distinct, depth
        self.wall = wall


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []      # list of dicts
        self.known = []
        self.notes = []
        self.assumptions = []
        self.models = []
        self.gen_counts = {}
        self.clauses = {}
        self.thorough = (tier == 'thorough')

    # ------------------------------------------------------------------
    def log(self, *args):
        print('[%s %6.1fs]' % (self.prop, time.time()-self.t0), *args, flush=True)

    def path(self, *p):
        return os.path.join(self.work, *p)

    # ------------------------------------------------------------------
    def tlc(self, module, cfg=None, workers=4, env=None, timeout=600, heap='3g',
            extra=(), constants=None, tag=None, dfs=False):
        """Run TLC on spec/<module>.tla with spec/<cfg>.cfg (or generated text)."""

        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cfgname = cfg or module
        cfgpath = os.path.join(SPEC, cfgname + '.cfg')
        if constants:
            with open(cfgpath) as fh:
                text = fh.read()
            for k, v in constants.items():
                text, n = re.subn(r'(?m)^(\s*%s\s*=\s*).*$' % re.escape(k),
                                  lambda m: m.group(1) + str(v), text)
                if n != 1:
                    raise MachineryError("constant %s not in %s" % (k, cfgpath))
            cfgpath = os.path.join(meta, cfgname + '.cfg')
            with open(cfgpath, 'w') as fh:
                fh.write(text)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
               '-DTLA-Library=' + SPEC,
               '-cp', '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA)]
        if dfs:
            cmd.insert(1, '-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd += ['tlc2.TLC', '-config', cfgpath, '-workers', str(workers), '-metadir', meta,
                '-noGenerateSpecTE', '-lncheck', 'final']
        cmd += list(extra)
        cmd += [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e['LC_ALL'] = 'C.UTF-8'
        e.update({k: str(v) for k, v in (env or {}).items()})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                               timeout=timeout, cwd=meta)
            out, rc = p.stdout.decode('utf-8', 'replace'), p.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b'').decode('utf-8', 'replace'), 124
        wall = time.time() - t0
        g = d = dep = 0
        for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct states', out):
            g, d = (int(x.replace(',', '')) for x in m.groups())
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        if m:
            dep = int(m.group(1))
        shutil.rmtree(meta, ignore_errors=True)
        return TLCResult(rc, out, g, d, dep, wall)

    def model_check(self, module, cfg=None, must_cover=True, **kw):
        """Exhaustive check of a design; a failure here is a failure of the specification."""

        r = self.tlc(module, cfg, **kw)
        if r.rc != 0:
            sys.stdout.write(r.out[-6000:])
            raise MachineryError('TLC rejects the specification %s/%s (rc=%d)' % (module, cfg, r.rc))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'model': cfg or module, 'constants': kw.get('constants') or {}, 'distinct': r.distinct,
                            'generated': r.generated, 'depth': r.depth, 'wall_s': round(r.wall, 1)})
        self.log('model %s: %d distinct / %d generated states, depth %d, %.1f s'
                 % (cfg or module, r.distinct, r.generated, r.depth, r.wall))
        return r

    def generate(self, module, cfg=None, simulate=None, depth=None, outname=None, limit=None, **kw):
        """Have TLC write behaviours of the specification, one JSON document a line, to a file."""

        out = self.path(outname or ((cfg or module) + '.gen'))
        if os.path.exists(out):
            os.unlink(out)
        extra = list(kw.pop('extra', ()))
        if simulate:
            extra += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 20), '-seed', str(1000 + self.seed)]
        env = dict(kw.pop('env', None) or {})
        env['GEN_OUT'] = out
        if simulate:
            kw['workers'] = 1               # the same behaviours on every run
        kw.setdefault('workers', 1)
        r = self.tlc(module, cfg, env=env, extra=extra, **kw)
        if r.rc != 0:
            sys.stdout.write(r.out[-6000:])
            raise MachineryError('TLC could not generate behaviours from %s (rc=%d)' % (module, r.rc))
        lines, seen = [], set()
        with open(out) as fh:
            for line in fh:
                line = line.strip()
                if line and line not in seen:
                    seen.add(line)
                    if line.startswith('"'):     # CSVWrite of a string
                        line = line[1:-1].replace('\\"', '"')
                    lines.append(json.loads(line))
        if not lines:
            sys.stdout.write(r.out[-3000:])
            raise MachineryError('no behaviours generated from %s' % module)
        if not simulate:
            lines.sort(key=json.dumps)      # the workers of TLC write in any order
        if limit and len(lines) > limit:
            # spread evenly: neighbours share most of their prefix
            step = len(lines) / float(limit)
            lines = [lines[int(i*step)] for i in range(limit)]
        self.states += r.distinct
        self.transitions += r.generated
        self.gen_counts[cfg or module] = len(lines)
        self.log('generated %d behaviours from %s (%.1f s)' % (len(lines), cfg or module, r.wall))
        return lines

    # ------------------------------------------------------------------
    def scratch_env(self):
        d = tempfile.mkdtemp(prefix='home-', dir=self.work)
        os.makedirs(os.path.join(d, 'xdg'))
        if os.path.isdir('/opt/vp/etc/astropy'):
            shutil.copytree('/opt/vp/etc/astropy', os.path.join(d, 'xdg', 'astropy'))
        os.makedirs(os.path.join(d, 'lsl'))
        tmp = os.path.join(d, 'tmp')
        os.makedirs(tmp)
        e = {k: v for k, v in os.environ.items()
             if k not in ('PYTHONPATH', 'GITHUB_ACTIONS', 'PYTHONSTARTUP', 'PYTHONHOME')}
        e.update(HOME=d, LSLCONFIGDIR=os.path.join(d, 'lsl'), XDG_CONFIG_HOME=os.path.join(d, 'xdg'),
                 XDG_CACHE_HOME=os.path.join(d, 'cache'), TMPDIR=tmp,
                 LANG='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                 MPLBACKEND='Agg', OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2',
                 PYTHONPATH='%s:%s' % (REPO, VERIF),
                 PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        return e

    def drive(self, driver, job, timeout=300, shards=1):
        """
        Run drivers/<driver>.py on a job (a dict, JSON).  The driver exercises the real code and
        writes one ndjson trace per shard.  Returns the list of trace files.

        A hang of the code under test (the watchdog inside the driver, or the limit here) is a
        verdict: it is recorded in the trace by the driver as an event, or handled here.
        """

        if not self.thorough:
            timeout = min(timeout, 420)
        stopped = {}
        jobs = []
        for i in range(shards):
            j = dict(job)
            j.update(shard=i, shards=shards, seed=self.seed, tier=self.tier)
            jf = self.path('%s-%d.job' % (driver, i))
            with open(jf, 'w') as fh:
                json.dump(j, fh)
            jobs.append((jf, self.path('%s-%d.ndjson' % (driver, i))))

        def one(a):
            jf, tf = a
            e = self.scratch_env()
            p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(DRIVERS, driver + '.py'), jf, tf], env=e,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=e['TMPDIR'],
                                 start_new_session=True)
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                out = b''
                stopped[tf] = time.time()
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                return (124, out, tf)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            return (p.returncode, out, tf)

        t0 = time.time()
        with ThreadPoolExecutor(max_workers=shards) as ex:
            res = list(ex.map(one, jobs))
        files = []
        for rc, out, tf in res:
            if rc == 0:
                files.append(tf)
                txt = out.decode('utf-8', 'replace').strip()
                if txt:
                    self.log('driver says: ' + txt[-800:])
            else:
                txt = out.decode('utf-8', 'replace')
                cur = tf + '.current'
                if rc == 124 and os.path.exists(cur) and stopped[tf] - os.path.getmtime(cur) < 90:
                    # it was getting on, but not fast enough for all there was to do: judge what there is
                    self.log('driver %s ran out of time; what it did is judged' % driver)
                    files.append(tf)
                elif rc in (124, 3) and os.path.exists(cur):
                    # 3: the driver's watchdog; 124: our limit.  The code under test did not return.
                    ep = episode(cur)
                    self.violations.append({'clause': 'call-does-not-return', 'episode': ep, 'trace': tf})
                    # what was recorded before is still judged
                    if os.path.exists(tf):
                        files.append(tf)
                elif rc < 0 and os.path.exists(cur):
                    ep = episode(cur)
                    self.violations.append({'clause': 'process-killed-by-signal-%d' % -rc, 'episode': ep, 'trace': tf})
                    if os.path.exists(tf):
                        files.append(tf)
                elif rc == 5 and os.path.exists(cur):
                    # an exception that the driver does not expect: of the code under test, or because
                    # of what it answered
                    ep = episode(cur)
                    sys.stdout.write(txt[-1500:] + '\n')
                    self.violations.append({'clause': 'unexpected-exception', 'episode': ep, 'trace': tf,
                                            'event': txt[-1500:]})
                    if os.path.exists(tf):
                        files.append(tf)
                else:
                    sys.stdout.write(txt[-4000:] + '\n')
                    raise MachineryError('driver %s failed (rc=%d)' % (driver, rc))
        self.log('driver %s: %d shard(s), %.1f s' % (driver, shards, time.time()-t0))
        return files

    # ------------------------------------------------------------------
    def judge(self, module, files, cfg=None, timeout=600, heap='3g', chunk=20000, parallel=6):
        """
        Validate recorded traces against the trace specification.  The verdict of TLC is total: the
        specification consumes every line and writes one line  <line>#<clause>  per rejected event.
        """

        parts = []
        for f in files:
            with open(f) as fh:
                lines = [l for l in fh if l.strip()]
            if lines:
                try:
                    json.loads(lines[-1])
                except ValueError:
                    lines.pop()             # the driver was stopped while it wrote
            # cut at episode borders ("op":"begin")
            cur = []
            for l in lines:
                if len(cur) >= chunk and '"op": "begin"' in l:
                    parts.append(cur)
                    cur = []
                cur.append(l)
            if cur:
                parts.append(cur)
        if not parts:
            raise MachineryError('nothing was recorded')

        def one(a):
            i, lines = a
            tf = self.path('judge-%s-%d.ndjson' % (cfg or module, i))
            with open(tf, 'w') as fh:
                fh.writelines(lines)
            of = tf + '.verdict'
            open(of, 'w').close()
            r = self.tlc(module, cfg, workers=1, env={'TRACE': tf, 'VERDICT': of}, timeout=timeout, heap=heap,
                         extra=['-deadlock'])
            return r, tf, of, lines

        t0 = time.time()
        with ThreadPoolExecutor(max_workers=parallel) as ex:
            res = list(ex.map(one, enumerate(parts)))
        nviol, trouble = 0, None
        for r, tf, of, lines in res:
            if r.rc != 0:
                sys.stdout.write(r.out[-3000:])
                if r.rc in (12, 75, 76, 77):
                    # the specification cannot take a step for what was recorded
                    m = re.findall(r'/\\ l = (\d+)', r.out)
                    k = int(m[-1]) - 1 if m else 0
                    self.violations.append({'clause': 'not-a-behaviour', 'event': lines[min(k, len(lines)-1)][:1500],
                                            'episode': {}, 'trace': tf})
                    nviol += 1
                else:
                    trouble = 'trace validation with %s did not complete (rc=%d)' % (module, r.rc)
            self.states += r.distinct
            self.transitions += r.generated
            recs = None
            with open(of) as fh:
                verdicts = [l.strip().replace('"', '') for l in fh if l.strip()]
            self.events += len(lines)
            neps = sum(1 for l in lines if '"op": "begin"' in l)
            self.traces += neps
            if len(self.samples) < 3:
                ep = []
                for l in lines[:12]:
                    if ep and '"op": "begin"' in l:
                        break
                    ep.append(json.loads(l) if len(l) < 1500 else l[:1500])
                self.samples.append(ep)
            if verdicts:
                recs = [json.loads(l) for l in lines]
                starts = [k for k, x in enumerate(recs) if x.get('op') == 'begin']
                seen = set()
                for v in verdicts:
                    ln, clause = v.split('#', 1)
                    k = int(ln) - 1
                    s = max([x for x in starts if x <= k])
                    if (s, clause) in seen:
                        continue
                    seen.add((s, clause))
                    e = min([x for x in starts if x > k] + [len(recs)])
                    nviol += 1
                    self.violations.append({'clause': clause, 'event_index': k - s, 'event': recs[k],
                                            'episode': recs[s], 'events': recs[s:e]})
        if trouble and not self.violations:
            raise MachineryError(trouble)
        self.log('judged %d events in %d episodes with %s: %d rejected (%.1f s)'
                 % (sum(len(p) for p in parts), self.traces, cfg or module, nviol, time.time()-t0))
        return nviol

    # ------------------------------------------------------------------
    def build(self):
        """Build the C++ extensions of /repo in place, from its current tree."""

        os.makedirs(CACHE, exist_ok=True)
        with open(os.path.join(CACHE, 'build-%s.lock' % hashlib.md5(REPO.encode()).hexdigest()[:8]), 'w') as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)

            def digest():
                h = hashlib.sha256()
                for root, dirs, fls in sorted(os.walk(os.path.join(REPO, 'lsl'))):
                    dirs.sort()
                    for f in sorted(fls):
                        if f.endswith(('.cpp', '.hpp', '.h', '.c', '.so')):
                            p = os.path.join(root, f)
                            h.update(p.encode())
                            with open(p, 'rb') as fh:
                                h.update(fh.read())
                with open(os.path.join(REPO, 'setup.py'), 'rb') as fh:
                    h.update(fh.read())
                return h.hexdigest()

            stamp = os.path.join(CACHE, 'build-%s.stamp' % hashlib.md5(REPO.encode()).hexdigest()[:8])
            try:
                with open(stamp) as fh:
                    if fh.read().strip() == digest():
                        return
            except OSError:
                pass
            t0 = time.time()
            tmp = tempfile.mkdtemp(prefix='vf-build-')
            e = dict(os.environ)
            e.update(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LANG='C.UTF-8',
                     PYTHONDONTWRITEBYTECODE='1', HOME=tmp, TMPDIR=tmp)
            e.pop('PYTHONPATH', None)
            p = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force', '-j8',
                                '--build-temp', os.path.join(tmp, 'b')],
                               cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            shutil.rmtree(tmp, ignore_errors=True)
            if p.returncode != 0:
                sys.stdout.write(p.stdout.decode('utf-8', 'replace')[-4000:])
                raise MachineryError('the extensions of /repo do not build')
            with open(stamp, 'w') as fh:
                fh.write(digest())
            self.log('built the extensions (%.1f s)' % (time.time()-t0))

    # ------------------------------------------------------------------
    def finish(self, level, assumptions):
        """Known findings, replay files, evidence, exit status."""

        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as fh:
                for line in fh:
                    line = line.strip()
                    if line and not line.startswith('#'):
                        k = json.loads(line)
                        if k.get('property') == self.prop and k.get('status') == 'open':
                            known.append(k)
        fresh, hit = [], {}
        for v in self.violations:
            for k in known:
                if matches(k['match'], v):
                    hit.setdefault(k['id'], k)
                    break
            else:
                fresh.append(v)
        for k in hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + '-'):
                os.unlink(os.path.join(rdir, f))
        fresh.sort(key=lambda v: len(v.get('events', ())))
        tally = {}
        for v in fresh:
            ep = v.get('episode') or {}
            k = '%s [%s]' % (v['clause'], ep.get('fmt') or ep.get('kind') or '')
            tally[k] = tally.get(k, 0) + 1
        for k in sorted(tally):
            self.log('    %4d x %s' % (tally[k], k))
        for i, v in enumerate(fresh[:5]):
            p = os.path.join(rdir, '%s-%d.json' % (self.prop, i))
            with open(p, 'w') as fh:
                json.dump(v, fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            print('    clause: %s   event: %s' % (v['clause'], json.dumps(v.get('event', v.get('episode')))[:600]))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'samples': self.samples,
                           'events_judged': self.events,
                           'models': self.models,
                           'behaviours_generated_by_tlc': self.gen_counts,
                           'known_findings_seen': len(hit)},
              'assumptions': assumptions + self.notes,
              'wall_s': round(time.time()-self.t0, 1),
              'violations': len(fresh)}
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        self.log('%d violation(s), %d known finding(s)' % (len(fresh), len(hit)))
        return 1 if fresh else 0


def matches(pat, v):
    """Every leaf of the pattern is found at the same place in the violation."""

    if isinstance(pat, dict):
        return isinstance(v, dict) and all(k in v and matches(p, v[k]) for k, p in pat.items())
    return pat == v


def main(registry):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    ctx = Ctx(args.prop, tier, args.seed)
    try:
        mod = registry(args.prop)
        mod.run(ctx)
        rc = ctx.finish(mod.LEVEL, list(mod.ASSUMPTIONS))
    except MachineryError as e:
        if ctx.violations:
            # a verdict was already reached
            rc = ctx.finish(mod.LEVEL, list(mod.ASSUMPTIONS))
        else:
            rc = 0
        if rc == 0:
            print('ERROR: %s' % e)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(rc)
