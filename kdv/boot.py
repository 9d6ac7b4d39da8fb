"""Set up import paths: the code under test from /repo, Hypothesis from the tooling venv."""
import os
import sys
import warnings

REPO = os.environ.get('KDV_REPO', '/repo')
HYP_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def add_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import karabo_data
    got = os.path.realpath(os.path.dirname(karabo_data.__file__))
    want = os.path.realpath(os.path.join(REPO, 'karabo_data'))
    if got != want:
        raise RuntimeError('karabo_data imported from %s, not %s' % (got, want))
    warnings.simplefilter('ignore')


def add_hypothesis(scratch):
    """Make only hypothesis (and what it needs) importable, not the rest of that venv."""
    d = os.path.join(scratch, 'hyp-site')
    os.makedirs(d, exist_ok=True)
    for name in ('hypothesis', 'sortedcontainers', 'attr', 'attrs',
                 '_hypothesis_globals.py', '_hypothesis_ftz_detector.py'):
        src = os.path.join(HYP_SITE, name)
        dst = os.path.join(d, name)
        if os.path.exists(src) and not os.path.lexists(dst):
            try:
                os.symlink(src, dst)
            except FileExistsError:
                pass
    if d not in sys.path:
        sys.path.append(d)
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp-home')
    import hypothesis
    hypothesis.configuration.set_hypothesis_home_dir(os.path.join(scratch, 'hyp-home'))
    return hypothesis


# Line coverage, for choosing the checks to run on a mutant (tools/mutate.py)

_lines = set()


def record_coverage(path):
    mon = sys.monitoring
    mon.use_tool_id(3, 'kdv')
    prefix = os.path.join(REPO, 'karabo_data') + os.sep

    def line(code, lineno):
        if code.co_filename.startswith(prefix):
            _lines.add((code.co_filename[len(prefix):], lineno))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def write_coverage(path):
    import json
    with open(path, 'w') as f:
        json.dump(sorted(_lines), f)
