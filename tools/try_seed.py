"""Try planted bugs in scratch copies: python3 tools/try_seed.py [-n] [-c] ID...

Checks that the patch applies, builds, passes the stable tests (-n: not), the demo passes without
and fails with it, and runs the check of its property (KDV_REPO). Results in seeded_results.json
under /tmp.
"""
import json, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
TESTS = threading.Lock()  # The streamer tests use fixed ports
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', MPLBACKEND='agg')
ENV.pop('PYTHONPATH', None)


def run(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors='replace')
    return p.returncode, p.stdout


def try_one(sid, tests, check):
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed-%s-' % sid, dir='/tmp')
    res = {'id': sid, 'property': meta['property']}
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        demo = os.path.join(tmp, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        rc, out = run(['bash', os.path.join(demo, 'demo.sh')], repo)
        res['demo_clean'] = rc
        if rc:
            res['demo_clean_out'] = out[-800:]
        rc, out = run(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
        res['apply'] = rc
        if rc:
            res['apply_out'] = out
            return res
        rc, out = run(['bash', os.path.join(demo, 'demo.sh')], repo)
        res['demo_patched'] = rc
        res['demo_out'] = out[-300:]
        if tests:
            env = dict(ENV, PYTHONPATH=repo)
            with TESTS:
              rc, out = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                           '--timeout=300', '--nbval-lax', '--disable-warnings', '--tb=short',
                           '--basetemp=' + os.path.join(tmp, 'pt')], repo, env)
            last = out.strip().splitlines()[-1]
            res['tests'] = last
            failed = [l for l in out.splitlines() if l.startswith('FAILED') and 'test_permission' not in l]
            res['tests_failed'] = failed[:5]
        if check:
            env = dict(os.environ, KDV_REPO=repo, VERIF_SEED='1')
            rc, out = run([sys.executable, 'run_check.py', meta['property']], HERE, env)
            res['check'] = rc
            res['check_out'] = out[-400:]
    except subprocess.TimeoutExpired as e:
        res['timeout'] = str(e)[:200]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def main():
    args = sys.argv[1:]
    tests = '-n' not in args
    check = '-c' not in args
    ids = [a for a in args if not a.startswith('-')]
    if ids == ['all']:
        ids = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    par = 4 if not check else 2
    results = {}
    rf = '/tmp/seeded_results.json'
    if os.path.exists(rf):
        results = json.load(open(rf))
    with ThreadPoolExecutor(par) as ex:
        for r in ex.map(lambda i: try_one(i, tests, check), ids):
            old = results.get(r['id'], {})
            old.update(r)
            results[r['id']] = old
            ok = (r.get('demo_clean') == 0 and r.get('demo_patched') not in (0, None)
                  and not r.get('tests_failed'))
            print(r['id'], 'OK' if ok else 'BAD', 'check=%s' % r.get('check'), r.get('tests', ''))
            if not ok or r.get('check') not in (1, None):
                print(json.dumps(r, indent=1))
            json.dump(results, open(rf, 'w'), indent=1)
            sys.stdout.flush()


main()
