"""Search engine: parallel Hypothesis workers, shrinking, replay files, evidence.

A check module (kdv/checks/cNN.py) provides

    PROPERTY   the property id
    RULE       text: how cases are made, what makes one non-trivial
    QUICK, THOROUGH   total numbers of generated cases
    strategy(tier)    Hypothesis strategy producing plain JSON data (the case)
    check(case, ctx)  raises an exception / AssertionError when the property fails
    ASSUMPTIONS  optional list of strings

check() calls ctx.label(...) to classify, ctx.nontrivial() when the case is non-trivial,
and does everything which prepares inputs inside `with ctx.building():` so that errors of the
harness are not mistaken for violations.
"""
import argparse
import contextlib
import errno
import hashlib
import importlib
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORKERS = 8
HISTORY = 60           # cases kept, for failures which need what earlier cases did in the process
SHRINK_S = 40          # time workers get for shrinking after the first failure
CASE_DIRS = ['case', 'case', 'case [a-c]*', 'c \u00e4?b', 'case#{0}+&']
CASE_TIMEOUT_S = 100   # cases normally take well below 1 s: taking this long twice is a failure


class HarnessError(Exception):
    """Something went wrong in our own machinery"""


class CaseTimeout(BaseException):
    pass


class Hangs(Exception):
    """The case did not finish"""


class Ctx:
    def __init__(self, scratch, case_no=0):
        self.scratch = scratch
        self.labels = {}
        self._nontrivial = False
        self.case_no = case_no
        self.dir = None

    def begin(self, case=None, plain=False):
        self.case_no += 1
        self._nontrivial = False
        self.case_labels = set()
        # The name is part of the case: paths may have characters which mean something in patterns
        n = 0 if plain else zlib.crc32(case_json(case).encode())
        self.dir = os.path.join(self.scratch, CASE_DIRS[n % len(CASE_DIRS)])
        os.makedirs(self.dir)

    def end(self):
        for lb in self.case_labels:
            self.labels[lb] = self.labels.get(lb, 0) + 1
        if self.dir and os.path.isdir(self.dir):
            for root, dirs, files in os.walk(self.dir):
                for d in dirs:
                    with contextlib.suppress(OSError):
                        os.chmod(os.path.join(root, d), 0o755)
            shutil.rmtree(self.dir, ignore_errors=True)
            if os.path.isdir(self.dir):
                # e.g. a thread is still writing there
                self.scratch = self.scratch + 'x'
                os.makedirs(self.scratch, exist_ok=True)
        self.dir = None

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def label(self, *lbs):
        self.case_labels.update(lbs)

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    @contextlib.contextmanager
    def building(self):
        try:
            yield
        except HarnessError:
            raise
        except Exception as e:
            raise HarnessError(traceback.format_exc()) from e


def load_check(pid):
    return importlib.import_module('kdv.checks.' + pid.lower())


def case_json(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


@contextlib.contextmanager
def case_alarm(seconds):
    def onalarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_case(mod, case, ctx):
    """Run one case. Raises what the check raises; environment errors -> HarnessError"""
    timeout = int(os.environ.get('KDV_CASE_S', CASE_TIMEOUT_S))
    ctx.begin(case, getattr(mod, 'PLAIN_DIR', False))
    try:
        with case_alarm(timeout):
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()):
                mod.check(case, ctx)
    except CaseTimeout:
        # Without the traceback: the place is different each time
        raise Hangs('the case did not finish within %d s' % timeout) from None
    except MemoryError as e:
        raise HarnessError('out of memory') from e
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE):
            raise HarnessError(traceback.format_exc()) from e
        raise
    finally:
        ctx.end()


# ---------------------------------------------------------------------- worker

def worker(pid, k, n, seed, tier, workdir):
    from . import boot
    scratch = os.path.join(workdir, 'w%d' % k)
    os.makedirs(scratch)
    if 'KDV_COV' in os.environ:
        boot.record_coverage(os.environ['KDV_COV'])
    boot.add_repo()
    hyp = boot.add_hypothesis(workdir)
    if k % 4 != 3:
        # Hypothesis makes most cases by changing earlier ones, so features which are rare
        # together come in clusters or not at all. In most workers each case is drawn afresh.
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        if hasattr(ConjectureRunner, 'generate_mutations_from'):
            ConjectureRunner.generate_mutations_from = lambda self, data: None
    mod = load_check(pid)
    ctx = Ctx(scratch)
    state = dict(evaluations=0, fails=0)
    seen = set()
    samples = []
    t_start = time.monotonic()
    last_flush = [t_start]
    recent = []

    def flush(status, **extra):
        last_flush[0] = time.monotonic()
        res = dict(state, worker=k, status=status, labels=ctx.labels, hashes=sorted(seen),
                   samples=samples, wall=time.monotonic() - t_start, **extra)
        tmp = os.path.join(workdir, 'tmpres-%d' % k)
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.replace(tmp, os.path.join(workdir, 'res-%d.json' % k))

    def record_fail(case, exc):
        state['fails'] += 1
        text = case_json(case)
        out = {'property': pid, 'error': traceback.format_exception_only(type(exc), exc)[-1][:4000],
               'trace': ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:],
               'case': case}
        if state['fails'] == 1:
            out['before'] = [json.loads(c) for c in recent]
        tmp = os.path.join(workdir, 'tmp-%d' % k)
        with open(tmp, 'w') as f:
            json.dump(out, f, sort_keys=True)
        os.replace(tmp, os.path.join(workdir, 'fail-%d-%08d-%d.json' % (k, len(text), state['fails'])))

    @hyp.seed(seed * 1000003 + k * 7919 + sum(map(ord, pid)))
    @hyp.settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  phases=[hyp.Phase.generate] + ([] if 'KDV_NOSHRINK' in os.environ
                                                 else [hyp.Phase.shrink]),
                  suppress_health_check=list(hyp.HealthCheck), report_multiple_bugs=False)
    @hyp.given(mod.strategy(tier))
    def prop(case):
        state['evaluations'] += 1
        text = case_json(case)
        try:
            run_case(mod, case, ctx)
        except (HarnessError, hyp.errors.HypothesisException):
            raise
        except Exception as e:
            record_fail(case, e)
            raise
        recent.append(text)
        del recent[:-HISTORY]
        if ctx._nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if h not in seen:
                seen.add(h)
                if len(samples) < 3 and len(text) < 6000:
                    samples.append(case)
        if time.monotonic() - last_flush[0] > 3:
            flush('partial')

    try:
        prop()
        flush('ok')
    except HarnessError:
        flush('harness', trace=traceback.format_exc())
    except Exception:
        # Hypothesis' own errors (flaky, health) without a recorded failure are ours
        flush('fail' if state['fails'] else 'harness', trace=traceback.format_exc())
    shutil.rmtree(scratch, ignore_errors=True)
    if 'KDV_COV' in os.environ:
        boot.write_coverage(os.environ['KDV_COV'])
    # Do not wait for stray threads of the code under test
    sys.stdout.flush()
    os._exit(0)


# ---------------------------------------------------------------------- parent

def scratch_root():
    return os.environ.get('KDV_SCRATCH', '/tmp')


def make_workdir(pid):
    root = scratch_root()
    for i in range(10000):
        d = os.path.join(root, 'kdv-%s-%d-%d' % (pid.lower(), os.getpid(), i))
        try:
            os.mkdir(d)
            os.chmod(d, 0o755)
            return d
        except FileExistsError:
            continue
    raise HarnessError('no scratch dir')


def search(pid, tier, seed):
    t0 = time.monotonic()
    mod_meta = read_meta(pid)
    total = mod_meta['THOROUGH'] if tier == 'thorough' else mod_meta['QUICK']
    total = int(os.environ.get('KDV_EXAMPLES', total))
    nw = min(int(os.environ.get('KDV_WORKERS', mod_meta.get('WORKERS', NWORKERS))), max(1, total))
    budget = 780 if tier == 'quick' else float(os.environ.get('KDV_BUDGET', 3000))
    workdir = make_workdir(pid)
    procs = []
    try:
        for k in range(nw):
            n = total // nw + (1 if k < total % nw else 0)
            log = open(os.path.join(workdir, 'log-%d' % k), 'wb')
            procs.append(subprocess.Popen(
                [sys.executable, os.path.join(HERE, 'run_check.py'), pid, '--worker', str(k),
                 '--n', str(n), '--seed', str(seed), '--tier', tier, '--workdir', workdir],
                stdout=log, stderr=log, start_new_session=True))
            log.close()
        deadline = t0 + budget
        fail_seen = None
        timed_out = False
        while True:
            alive = [p for p in procs if p.poll() is None]
            fails = [f for f in os.listdir(workdir) if f.startswith('fail-')]
            now = time.monotonic()
            if fails and fail_seen is None:
                fail_seen = now
            if not alive:
                break
            if fail_seen is not None and now - fail_seen > SHRINK_S:
                break
            if now > deadline:
                timed_out = True
                break
            time.sleep(0.1)
        killed = []
        for k, p in enumerate(procs):
            if p.poll() is None:
                killed.append(k)
            with contextlib.suppress(ProcessLookupError, PermissionError):
                os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        results = {}
        for k in range(nw):
            f = os.path.join(workdir, 'res-%d.json' % k)
            if os.path.exists(f):
                results[k] = json.load(open(f))
        fails = sorted((f for f in os.listdir(workdir) if f.startswith('fail-')),
                       key=lambda f: (f.split('-')[2], f))

        violation = None
        if fails:
            violation = confirm(pid, workdir, fails)
        harness = []
        for k in range(nw):
            r = results.get(k)
            if r is None:
                if k not in killed:
                    tail = open(os.path.join(workdir, 'log-%d' % k), errors='replace').read()[-3000:]
                    harness.append('worker %d died (exit %s): %s' % (k, procs[k].returncode, tail))
            elif r['status'] == 'harness':
                harness.append(r['trace'])
        write_evidence(pid, mod_meta, tier, seed, results, 1 if violation else 0,
                       time.monotonic() - t0, timed_out, nw)
        if violation:
            path, err = violation
            print('property %s violated: %s' % (pid, err.strip()[:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if harness:
            print('ERROR in the check %s:\n%s' % (pid, '\n'.join(harness)[:6000]), file=sys.stderr)
            return 2
        if fails:
            f = json.load(open(os.path.join(workdir, fails[0])))
            print('ERROR: failure of %s did not reproduce: %s' % (pid, f['trace']), file=sys.stderr)
            return 2
        ev = sum(r['evaluations'] for r in results.values())
        if timed_out and ev == 0:
            print('ERROR: time budget used up without finishing (%s)' % pid, file=sys.stderr)
            return 2
        for line in known_findings(pid):
            print(line)
        print('%s held on %d generated cases (%.1f s)%s' % (
            pid, ev, time.monotonic() - t0, ' [time budget reached]' if timed_out else ''))
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                with contextlib.suppress(ProcessLookupError, PermissionError):
                    os.killpg(p.pid, signal.SIGKILL)
        shutil.rmtree(workdir, ignore_errors=True)


def confirm(pid, workdir, fails):
    """Re-run failing cases in fresh processes, smallest first; keep the first that reproduces."""
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    for f in fails[:6]:
        info = json.load(open(os.path.join(workdir, f)))
        info.pop('before', None)
        if fails_again(pid, workdir, info):
            return keep_replay(pid, info)
    # Or does the failure need what earlier cases did in the same process?
    end = time.monotonic() + 90
    for f in fails:
        info = json.load(open(os.path.join(workdir, f)))
        if not info.get('before') or time.monotonic() > end:
            continue
        if not fails_again(pid, workdir, info):
            continue
        before = info['before']
        n = 1
        while n < len(before):
            if fails_again(pid, workdir, dict(info, before=before[-n:])):
                before = before[-n:]
                break
            n *= 2
        i = 0
        while i < len(before) and time.monotonic() < end:
            shorter = before[:i] + before[i + 1:]
            if fails_again(pid, workdir, dict(info, before=shorter)):
                before = shorter
            else:
                i += 1
        return keep_replay(pid, dict(info, before=before))
    return None


def fails_again(pid, workdir, info):
    """Does the failure occur in a fresh process?"""
    src = os.path.join(workdir, 'again.json')
    with open(src, 'w') as f:
        json.dump(info, f)
    p = subprocess.run([sys.executable, os.path.join(HERE, 'run_check.py'), pid, '--replay', src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    return p.returncode == 1


def keep_replay(pid, info):
    h = hashlib.blake2b(case_json(info['case']).encode(), digest_size=6).hexdigest()
    dst = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, h))
    with open(dst, 'w') as fh:
        json.dump(info, fh, indent=1, sort_keys=True)
    return os.path.relpath(dst, HERE), info['error']


def replay(pid, path):
    from . import boot
    boot.add_repo()
    mod = load_check_for_replay(pid)
    info = json.load(open(path))
    case = info['case']
    workdir = make_workdir(pid)
    rc = None
    try:
        scratch = os.path.join(workdir, 'w0')
        os.makedirs(scratch)
        ctx = Ctx(scratch)
        try:
            for earlier in info.get('before') or ():
                with contextlib.suppress(Exception):
                    run_case(mod, earlier, ctx)
            run_case(mod, case, ctx)
            print('replay of %s: property %s holds on this case' % (path, pid))
            rc = 0
        except HarnessError as e:
            print('ERROR', e, file=sys.stderr)
            rc = 2
        except Exception as e:
            traceback.print_exc()
            print('property %s violated: %s' % (pid, str(e)[:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
        sys.stdout.flush()
        sys.stderr.flush()
    os._exit(rc)


def load_check_for_replay(pid):
    # Check modules import hypothesis only inside strategy(); nothing special to do
    return load_check(pid)


def read_meta(pid):
    mod = load_check(pid)
    return {k: getattr(mod, k) for k in ('QUICK', 'THOROUGH', 'RULE', 'ASSUMPTIONS', 'WORKERS')
            if hasattr(mod, k)}


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    out = []
    if os.path.exists(path):
        for e in json.load(open(path)).get('findings', []):
            if e['property'] == pid:
                out.append('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    return out


def write_evidence(pid, meta, tier, seed, results, violations, wall, timed_out, nw):
    hashes, labels, samples = set(), {}, []
    ev = 0
    for k in sorted(results):
        r = results[k]
        hashes.update(r['hashes'])
        ev += r['evaluations']
        for lb, n in r['labels'].items():
            labels[lb] = labels.get(lb, 0) + n
        samples.extend(r['samples'])
    samples.sort(key=lambda c: len(case_json(c)))
    n = len(samples)
    pick = [samples[i] for i in sorted({n // 4, n // 2, (3 * n) // 4})] if n else []
    cov = {
        'evaluations': ev,
        'distinct_nontrivial': len(hashes),
        'rule': meta['RULE'],
        'samples': pick,
        'classes': dict(sorted(labels.items())),
        'workers': nw,
    }
    if timed_out:
        cov['time_budget_reached'] = True
    doc = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': cov,
        'assumptions': meta.get('ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + '.json'))


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--n', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--tier')
    ap.add_argument('--workdir')
    ap.add_argument('--thorough', action='store_true')
    a = ap.parse_args(argv)
    pid = a.property.upper()
    if a.replay:
        return replay(pid, a.replay)
    if a.worker is not None:
        return worker(pid, a.worker, a.n, a.seed, a.tier, a.workdir)
    tier = 'thorough' if (a.thorough or os.environ.get('VERIF_TIER') == 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        return search(pid, tier, seed)
    except HarnessError as e:
        print('ERROR', e, file=sys.stderr)
        return 2
