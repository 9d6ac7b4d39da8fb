"""Summaries: info, train_info, detector_info, lsxfel, h5index"""
import contextlib
import csv
import hashlib
import io
import os
import re
import sys
import warnings

import numpy as np

from ..common import apply_narrow, close_all, covered, narrow_strategy
from ..detspec import det_runs, det_source
from ..runspec import INST_NAMES, Model, build_run, label_spec, run_specs, some_long, spec_files

PROPERTY = 'C24'
QUICK, THOROUGH = 6000, 60000
RULE = ('Generated runs without or with a detector (1-4 modules, missing trains, empty files, frames '
        'varying by train), narrowed or not: everything info(), detector_info() and train_info() '
        'say is compared with the model. lsxfel on generated proposal, run folders and files (one '
        'or several paths, trailing slash, no path, other file names), h5index on generated trees '
        'of groups and datasets. Files must stay as they were. Non-trivial: at least 2 trains and '
        '2 sources, or 2 datasets.')
ASSUMPTIONS = ['frames per train are an estimate from one file (as documented): the largest number '
               'in a file which has some', 'detector files are named after their detector',
               'every run folder has a data file; a run summary counts the trains of one of the '
               'shortest groups of files (as documented)']
NAMES = ['notes.h5', 'RAW-R0001-XYZ01-S00000.h5', 'a-b-c-d-e.h5', 'CORR-R0023-AGIPD15-S00002.h5',
         'RAW-R0023-LPD00-S00002.h5', 'PROC-R0001-DSSC07-S00000.h5', 'RAW-R0001-DA04-S00000.h5',
         'x.h5', 'RAW-R0001-DATA-S00000.h5']


def strategy(tier):
    from hypothesis import strategies as st
    thorough = tier == 'thorough'
    names = [n for n in INST_NAMES if '/DET/' not in n]
    generic = some_long(run_specs(max_trains=12 if thorough else 8, inst_names=names), 60,
                        sizes=(40, 130, 600), inst_names=names, big=False)

    @st.composite
    def detector(draw):
        run = draw(det_runs(max_trains=10 if thorough else 6, max_modules=4))
        if draw(st.sampled_from([False, False, True])):
            # Different numbers of frames in the trains
            for a in run['aggs']:
                for s in a['sources']:
                    for g in s.get('groups', []):
                        if g['name'] == 'image':
                            ns = draw(st.lists(st.integers(1, 5), min_size=1, max_size=6))
                            k = len(g['counts'])
                            at = draw(st.sampled_from([0, k // 3, k // 2, k - 1, k]))
                            # the same number up to one train, different ones after it
                            g['counts'] = {t: ns[max(i - at, 0) % len(ns)]
                                           for i, t in enumerate(g['counts'])}
            run['varying'] = True
        extra = draw(st.one_of(st.none(), generic))
        if extra:
            own = {s['name'] for a in run['aggs'] for s in a['sources']}
            for i, a in enumerate(extra['aggs']):
                a['sources'] = [s for s in a['sources'] if s['name'] not in own]
                if a['sources']:
                    files = [{k: v for k, v in f.items() if k != 'name'} for f in a['files']]
                    run['aggs'].append(dict(a, name='DA%02d' % (i + 2), files=files))
        return run

    run = st.one_of(generic, detector(), detector())
    info = st.fixed_dictionaries({'kind': st.just('info'), 'run': run, 'narrow': narrow_strategy(),
                                  'none': st.sampled_from([False] * 5 + [True]),
                                  'tids': st.lists(st.integers(-3, 30), max_size=3)})
    ls = st.fixed_dictionaries({
        'kind': st.just('lsxfel'), 'runs': st.lists(run, min_size=1, max_size=3),
        'raw': st.booleans(), 'junk': st.booleans(),
        'targets': st.lists(st.tuples(st.sampled_from(['run', 'run', 'file', 'file', 'prop', 'none']),
                                      st.integers(0, 8), st.booleans()).map(list),
                            min_size=1, max_size=3)})
    name = st.sampled_from(['a', 'b', 'data', 'A', 'x,y', 'q"t', 'ü', 'value', 'a b', '0', "it's"])
    node = st.recursive(
        st.tuples(st.just('ds'), st.sampled_from(['f4', '>f8', 'i1', 'u8', 'S5', 'vlen', '?', 'c8']),
                  st.one_of(st.none(), st.lists(st.integers(0, 3), max_size=3))).map(list),
        lambda c: st.dictionaries(name, c, max_size=4), max_leaves=10)
    tree = st.fixed_dictionaries({'kind': st.just('h5index'),
                                  'tree': st.dictionaries(name, node, max_size=5)})
    fnames = st.fixed_dictionaries({
        'kind': st.just('name'), 'prefix': st.sampled_from(['RAW', 'CORR', 'PROC', 'X']),
        'run': st.integers(0, 99999), 'mod': st.integers(0, 99), 'seq': st.integers(0, 99999),
        'det': st.sampled_from(['AGIPD', 'LPD', 'DSSC', 'DA', 'DAQ', 'JF', 'LPDX']),
        'dir': st.booleans()})
    return st.one_of(info, info, info, ls, ls, tree, fnames)


def printed(func, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = func(*args)
    return out.getvalue(), res


def hashes(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            if f.endswith('.h5'):
                with open(os.path.join(d, f), 'rb') as fh:
                    out[os.path.join(d, f)] = hashlib.sha1(fh.read()).hexdigest()
    return out


def check(case, ctx):
    before_dir = ctx.dir
    {'info': check_info, 'lsxfel': check_lsxfel, 'h5index': check_h5index,
     'name': check_name}[case['kind']](case, ctx)
    assert os.path.isdir(before_dir)


# ---------------------------------------------------------------- the facts

def det_modules(spec):
    """{source: module number}"""
    if 'det' not in spec:
        return {}
    return {det_source(spec['name'], m): m for m in spec['modules']}


def frame_estimates(spec, source, trains=None):
    """Allowed numbers of frames per train of a module, from files overlapping the trains"""
    out = set()
    for _, agg, f in spec_files(spec):
        for s in agg['sources']:
            if s['name'] == source:
                if trains is not None and not set(trains) & set(f['trains']):
                    continue
                counts = [g['counts'].get(str(t), 0) for g in s['groups'] if g['name'] == 'image'
                          for t in f['trains']]
                out.add(max(counts, default=0))
    return (out - {0}) or {0}


def section(lines, head):
    """Names listed below a heading line '<number> <head>...'"""
    for i, ln in enumerate(lines):
        m = re.match(r'(\d+) %s' % head, ln.strip())
        if m:
            names = []
            for ln2 in lines[i + 1:]:
                m2 = re.match(r'\s*-\s+(.+)$', ln2)
                if not m2:
                    break
                names.append(m2.group(1))
            assert int(m.group(1)) == len(names), 'heading %r has %d names' % (ln, len(names))
            return names
    raise AssertionError('no %r in %r' % (head, lines))


def field(lines, head):
    for ln in lines:
        if ln.startswith(head):
            return ln[len(head):].strip()
    raise AssertionError('no %r in %r' % (head, lines))


def seconds(text):
    m = re.match(r'(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)$', text)
    assert m, text
    d, h, mi, s = m.groups()
    return int(d or 0) * 86400 + int(h) * 3600 + int(mi) * 60 + float(s)


def check_info_text(text, spec, trains, control, inst):
    """What info() prints for data with the given trains and sources"""
    lines = text.splitlines()
    assert int(field(lines, '# of trains:')) == len(trains), text
    if trains:
        assert int(field(lines, 'First train ID:')) == trains[0], text
        assert int(field(lines, 'Last train ID:')) == trains[-1], text
        span = seconds(field(lines, 'Duration:'))
        assert abs(span - (trains[-1] - trains[0]) / 10) < 1e-3, (span, trains)
    mods = {s: m for s, m in det_modules(spec).items() if s in inst}
    m = re.search(r'^(\d+) detector modules \((.*)\)$', text, re.M)
    assert m, text
    assert int(m.group(1)) == len(mods), text
    if mods:
        assert m.group(2) == spec['name'], text
        m = re.search(r'e\.g\. module (\S+) (\d+) : (\d+) x (\d+) pixels\n\s+(\S+)\n'
                      r'\s+(\d+) frames per train, up to (\d+) frames total', text)
        assert m, text
        name, modno, d0, d1, source, fpt, total = m.groups()
        assert name == spec['name'] and source in mods and mods[source] == int(modno), text
        assert [int(d0), int(d1)] == spec['pix'], text
        assert int(fpt) in frame_estimates(spec, source, trains), text
        assert int(total) == int(fpt) * len(trains), text
    assert section(lines, 'instrument sources') == sorted(inst - set(mods)), text
    assert section(lines, 'control sources') == sorted(control), text


def check_info(case, ctx):
    from karabo_data import RunDirectory, by_index
    spec = case['run']
    with ctx.building():
        d = ctx.path('run')
        paths = build_run(spec, d)
        model = label_spec(spec, ctx)
        old = hashes(d)
    if not paths:
        return
    run = RunDirectory(d)
    dc, sel, trains = apply_narrow(run, model, case['narrow']) if model.trains else (
        run, {s: model.keys(s) for s in model.sources}, [])
    if case['none'] and trains:
        dc = dc.select_trains(by_index[:0])
        trains = []
        ctx.label('no trains')
    if 'det' in spec:
        ctx.label('detector', spec['layout'])
    srcs = set(dc.all_sources)
    control, inst = srcs & model.control(), srcs & model.instrument()
    for s in sel:
        assert s in srcs or not covered(model, s, trains)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        text, _ = printed(dc.info)
    check_info_text(text, spec, trains, control, inst)

    for source, modno in det_modules(spec).items():
        if source not in srcs:
            continue
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            info = dc.detector_info(source)
        want = frame_estimates(spec, source, trains or None)
        if trains:
            assert info['frames_per_train'] in want, (info, want)
        assert info['total_frames'] == info['frames_per_train'] * len(trains), info
        assert list(info['dims']) == spec['pix'], info
        if not spec.get('varying'):
            assert not any('frames per train' in str(x.message) for x in w)
        else:
            ctx.label('varying frames')

    for i in case['tids']:
        if 0 <= i and trains:
            tid = trains[i % len(trains)]
            text, _ = printed(dc.train_info, tid)
            # Sources in the files with this train
            here = {s['name'] for _, a, f in spec_files(spec) if tid in f['trains']
                    for s in a['sources']}
            lines = text.splitlines()
            assert re.findall(r'\d+', lines[0]) == [str(tid)], text
            inst_at = [x.strip() for x in lines].index('Instruments')
            ctrl_at = [x.strip() for x in lines].index('Controls')
            got_i = [x.strip()[1:].strip() for x in lines[inst_at + 1:ctrl_at]]
            got_c = [x.strip()[1:].strip() for x in lines[ctrl_at + 1:]]
            assert got_i == (sorted(here & inst) or ['']), (text, here & inst)
            assert got_c == (sorted(here & control) or ['']), (text, here & control)
        else:
            tid = (trains[-1] if trains else 5) - i
            if tid in trains:
                continue
            try:
                dc.train_info(tid)
            except ValueError:
                pass
            else:
                raise AssertionError('train_info(%d) for a train which is not there' % tid)
    close_all(run, dc)
    assert hashes(d) == old, 'files were changed'
    ctx.nontrivial(len(trains) > 1 and len(srcs) > 1)


# ---------------------------------------------------------------- lsxfel

def check_name(case, ctx):
    from karabo_data.read_machinery import FilenameInfo
    name = '%s-R%04d-%s%02d-S%05d.h5' % (case['prefix'], case['run'], case['det'], case['mod'],
                                         case['seq'])
    info = FilenameInfo('/some/where/' + name if case['dir'] else name)
    is_det = case['det'] in ('AGIPD', 'LPD', 'DSSC')
    assert info.basename == name
    assert info.is_detector == is_det
    assert isinstance(info.description, str)
    if is_det:
        assert info.detector_name == case['det'] and int(info.detector_moduleno) == case['mod']
        assert case['det'] in info.description and '%02d' % case['mod'] in info.description
    word = {'RAW': 'Raw', 'CORR': 'Corrected'}.get(case['prefix'])
    if is_det and word:
        assert info.description.startswith(word)
    if case['det'] == 'DA':
        assert info.description == 'Aggregated data'
    ctx.nontrivial()
    ctx.label('file name')


def check_lsxfel(case, ctx):
    from karabo_data import lsxfel
    with ctx.building():
        prop = ctx.path('p000123')
        os.makedirs(prop)
        runs_dir = os.path.join(prop, 'raw') if case['raw'] else prop
        runs = []       # (name, path, spec, model, [(path, agg, file)])
        for i, spec in enumerate(case['runs']):
            name = 'r%04d' % (i * 7 + 1)
            d = os.path.join(runs_dir, name)
            if spec['aggs']:
                ps = build_run(spec, d)
                fs = [(p, a, f) for p, (_, a, f) in zip(ps, spec_files(spec))]
                runs.append((name, d, spec, Model(spec), fs))
        if not runs:
            return
        if case['junk']:
            open(os.path.join(runs_dir, 'r0500.txt'), 'w').close()
            open(os.path.join(runs[0][1], 'readme.txt'), 'w').close()
            os.makedirs(os.path.join(runs_dir, 'scratch'))
        old = hashes(prop)
    targets = []
    for what, i, slash in case['targets']:
        run = runs[i % len(runs)]
        if what == 'run':
            targets.append((what, run, run[1] + ('/' if slash else '')))
        elif what == 'file':
            f = run[4][i % len(run[4])]
            targets.append((what, (run, f), f[0]))
        elif what == 'prop':
            targets.append((what, None, (prop if slash or len(case['targets']) == 1 else runs_dir)
                            + ('/' if slash else '')))
        else:
            bad = ctx.path('p000123', 'nothing' if slash else 'nothing.h5')
            if i > 4:
                bad = ctx.path('p000123', 'other.dat' if slash else 'otherdir')
                with ctx.building():
                    if slash:
                        open(bad, 'w').close()
                    else:
                        os.makedirs(bad, exist_ok=True)
            targets.append((what, i, bad))
    ctx.label('lsxfel %s' % ('1 path' if len(targets) == 1 else 'paths'))
    cwd = os.getcwd()
    argv = [t[2] for t in targets]
    try:
        if len(targets) == 1 and targets[0][0] == 'run' and case['junk']:
            os.chdir(argv[0])
            argv = []
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            text, rc = printed(lsxfel.main, argv)
    finally:
        os.chdir(cwd)
    if len(targets) == 1:
        (what, obj, path), = targets
        if what == 'run':
            name, d, spec, model, fs = obj
            first, rest = text.split('\n', 1)
            assert re.match(r'%s\s*:\s*Run directory' % name, first), text
            check_info_text(rest, spec, model.trains, model.control(), model.instrument())
        elif what == 'file':
            check_file_text(text, obj, one=True)
        elif what == 'prop':
            assert text.startswith('p000123'), text
            check_proposal(text, runs)
        else:
            assert os.path.basename(path) in text
            assert rc == 2 or (rc in (None, 0) and path.endswith('otherdir')), (rc, path)
        if what != 'none':
            assert not rc, rc
    else:
        pos = 0
        for what, obj, path in targets:
            if what == 'run':
                m = re.compile(r'%s\s*:\s*Run of.*' % obj[0]).search(text, pos)
                assert m, (text, obj[0])
                check_run_line(m.group(), obj)
            elif what == 'file':
                m = re.compile(r'%s\s*:.*\n.*\n' % re.escape(os.path.basename(path))).search(text, pos)
                assert m, (text, path)
                check_file_text(m.group(), obj, one=False)
            elif what == 'prop':
                base = os.path.basename(path.rstrip('/'))
                m = re.compile(r'%s\s*:.*' % base).search(text, pos)
                assert m, (text, path)
                if not (case['raw'] and base == 'p000123'):
                    check_proposal(text[m.end():], runs)
            else:
                m = re.search(re.escape(os.path.basename(path)), text)
                assert m
                continue
            pos = m.end()
        bad = any(t[0] == 'none' for t in targets)
        unrec = any(t[0] == 'prop' and case['raw'] and t[2].rstrip('/').endswith('p000123')
                    for t in targets)
        if bad:
            assert rc == 2, rc
        elif not unrec:
            assert not rc, rc
    assert hashes(prop) == old, 'files were changed'
    ctx.nontrivial(len(runs) > 1 or len(runs[0][4]) > 1)


def check_run_line(line, run):
    name, d, spec, model, fs = run
    m = re.search(r'Run of\s+(\d+) trains, with\s+(\d+) detector files and\s+(\d+) others', line)
    assert m, line
    n, nd, no = map(int, m.groups())
    dets = sum(1 for p, a, f in fs if not a['name'].startswith('DA'))
    assert (nd, no) == (dets, len(fs) - dets), (line, dets, len(fs))
    groups = {}
    for p, a, f in fs:
        groups.setdefault(a['name'], []).append(f)
    shortest = min(map(len, groups.values()))
    allowed = {len({t for f in g for t in f['trains']})
               for g in groups.values() if len(g) == shortest}
    assert n in allowed, (line, allowed)


def check_proposal(text, runs):
    pos = 0
    for run in runs:
        m = re.compile(r'%s\s*:\s*Run of.*' % run[0]).search(text, pos)
        assert m, (text, run[0])
        check_run_line(m.group(), run)
        pos = 0     # runs may be listed in any order
    assert text.count('Run of') >= len(runs)


def check_file_text(text, obj, one):
    (_, _, spec, _, _), (path, agg, f) = obj
    first, rest = text.split('\n', 1)
    base = os.path.basename(path)
    assert first.startswith(base), text
    n = len(f['trains'])
    m = re.search(r'(\d+) trains', rest)
    assert m and int(m.group(1)) == n, (text, n)
    one_spec = dict(spec, aggs=[dict(agg, files=[f])])
    if not agg['name'].startswith('DA'):
        assert agg['name'][:-2] in first and agg['name'][-2:] in first, text
        assert ('Raw' if spec['layout'] == 'raw' else 'Corrected') in first, text
        src = [s['name'] for s in agg['sources']][0]
        m = re.search(r'(\d+) frames(?:/train| per train), (\d+) total', rest)
        assert m, text
        assert int(m.group(1)) in frame_estimates(one_spec, src), text
        assert int(m.group(2)) == int(m.group(1)) * n, text
        if one:
            m = re.search(r'(\d+) × (\d+) pixels', rest)
            assert m and [int(x) for x in m.groups()] == spec['pix'], text
    elif one:
        lines = rest.splitlines()
        m = Model(one_spec)
        assert section(lines, 'instrument sources') == sorted(m.instrument()), text
        assert section(lines, 'control sources') == sorted(m.control()), text
    else:
        m = re.search(r'(\d+) sources', rest)
        assert m and int(m.group(1)) == len(agg['sources']), text


# ---------------------------------------------------------------- h5index

def check_h5index(case, ctx):
    import h5py
    from karabo_data import h5index
    want = {}
    with ctx.building():
        path = ctx.path('f.h5')

        def build(grp, tree, prefix):
            for name, node in tree.items():
                p = prefix + name
                if isinstance(node, dict):
                    build(grp.create_group(name), node, p + '/')
                    continue
                _, dt, shape = node
                if dt == 'vlen':
                    dtype = h5py.special_dtype(vlen=str)
                else:
                    dtype = np.dtype(dt)
                if shape is None:
                    ds = grp.create_dataset(name, (2, 0) if dt == 'vlen' else (0, 3), dtype=dtype,
                                            maxshape=(None, None), chunks=(1, 1))
                else:
                    ds = grp.create_dataset(name, tuple(shape), dtype=dtype)
                want[p] = (ds.shape, np.dtype(ds.dtype).str)
        with h5py.File(path, 'w') as f:
            build(f, case['tree'], '')
        old = hashes(ctx.dir)
    argv = sys.argv
    try:
        sys.argv = ['h5index', path]
        text, _ = printed(h5index.main)
    finally:
        sys.argv = argv
    rows = list(csv.reader(io.StringIO(text)))
    assert rows[0] == ['path', 'shape', 'dtype'], rows[0]
    assert [r[0] for r in rows[1:]] == sorted(want), (rows, sorted(want))
    for p, shape, dt in rows[1:]:
        assert (shape, dt) == (str(want[p][0]), want[p][1]), (p, shape, dt, want[p])
    import gc
    gc.collect()
    assert hashes(ctx.dir) == old
    ctx.nontrivial(len(want) > 1)
    ctx.label('h5index')
