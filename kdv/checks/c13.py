"""Validation accepts well-formed data and reports every documented defect"""
import contextlib
import io
import json
import os
import shutil

import h5py
import numpy as np

from ..runspec import build_run, label_spec, run_specs
from .c11 import hashes

PROPERTY = 'C13'
QUICK, THOROUGH = 2600, 24000
RULE = ('Generated well-formed run directories (with no, an up to date or an outdated cached files '
        'map), into which 0-4 defects of the documented classes are put at generated places: zero '
        'train ID before the end, train IDs repeated or swapped, index shorter than the train IDs '
        '(both parts or one), index not starting at 0, gaps, overlaps, counts too big, data shorter '
        'than the index, index or data of a source missing, file unreadable in several ways, wrong '
        'entry in the files map. RunValidator, FileValidator and the command must report exactly '
        'the affected files and places (none if there is no defect), set the exit status, and leave '
        'all files as they were. Non-trivial: at least one defect in a file.')
ASSUMPTIONS = ['an index with more entries than train IDs is neither required to be reported nor to '
               'be accepted, and is not generated']

KINDS = ['gap', 'overlap', 'count down', 'zero train', 'equal trains', 'swapped trains', 'short index', 'uneven index', 'start',
         'gap', 'overlap', 'count up', 'count down', 'huge', 'short data', 'short data',
         'no index', 'no data', 'unopenable', 'cache trains', 'cache sources']


def strategy(tier):
    from hypothesis import strategies as st
    fault = st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS), 'file': st.integers(0, 20), 'source': st.integers(0, 20),
        'pos': st.integers(0, 20), 'n': st.integers(1, 5)})
    return st.fixed_dictionaries({
        'run': run_specs(min_trains=3, max_trains=8, max_files=2, max_count=4, max_keys=2, shapes=[[], [2]]),
        'faults': st.one_of(st.just([]), *[
            st.lists(fault, min_size=n, max_size=6 if tier == 'thorough' else 4)
            for n in (1, 1, 2, 3)]),
        'cache': st.sampled_from(['none', 'good', 'good', 'outdated', 'partial']),
        'single': st.integers(0, 20),
        'extra': st.sampled_from(['', '', 'empty dir', 'other file']),
    })


class Place:
    def __init__(self, path, agg, f):
        self.path, self.agg, self.f = path, agg, f
        self.nt = len(f['trains'])
        self.used = set()     # sources with a defect; '*' for the whole file
        self.expect = []      # (kind, [prefixes of which one must be reported], [allowed prefixes])
        self.unopenable = False
        self.cache = False


def index_paths(src):
    """[(section, index path, group, keys)] of a source"""
    if src['kind'] == 'control':
        return [('CONTROL', 'INDEX/' + src['name'], '', src['keys'], src.get('index', 'count'))]
    return [('INSTRUMENT', 'INDEX/%s/%s' % (src['name'], g['name']), g['name'], g['keys'],
             g.get('index', 'count')) for g in src['groups']]


def replace(f, path, arr):
    del f[path]
    f[path] = arr


def read_index(f, ix, fmt):
    first = f[ix + '/first'][:]
    if fmt == 'count':
        return first, f[ix + '/count'][:]
    last, status = f[ix + '/last'][:], f[ix + '/status'][:]
    return first, (last - first + np.uint64(1)) * status.astype(np.uint64)


def write_index(f, ix, fmt, first, count):
    first, count = first.astype(np.uint64), count.astype(np.uint64)
    replace(f, ix + '/first', first)
    if fmt == 'count':
        replace(f, ix + '/count', count)
    else:
        replace(f, ix + '/status', (count > 0).astype(np.int32))
        replace(f, ix + '/last', np.where(count > 0, first + count - np.uint64(1), first))


def apply_fault(places, fault, ctx):
    kind = fault['kind']
    pl = places[fault['file'] % len(places)]
    n, nt, path = fault['n'], pl.nt, pl.path
    if '*' in pl.used:
        return False
    if kind == 'unopenable':
        if pl.used:
            return False
        pl.used.add('*')
        how = fault['pos'] % 6
        size = os.path.getsize(path)
        if how == 0:
            with open(path, 'r+b') as fh:
                fh.truncate(size * 2 // 3)
        elif how == 1:
            with open(path, 'wb') as fh:
                fh.write(b'garbage' * n)
        elif how == 2:
            open(path, 'wb').close()
        elif how == 3:
            with h5py.File(path, 'r+') as f:
                del f['INDEX/trainId']
        elif how == 4:
            with h5py.File(path, 'r+') as f:
                del f['METADATA']
        else:
            os.unlink(path)
            os.mkdir(path)
        pl.unopenable = True
        return True
    if kind.startswith('cache'):
        if pl.cache:
            return False
        pl.cache = kind
        return True
    if kind.endswith(('train', 'trains')):
        if pl.used or nt < 2:
            return False
        with h5py.File(path, 'r+') as f:
            tids = f['INDEX/trainId'][:]
            i = fault['pos'] % (nt - 1)
            if kind == 'zero train':
                tids[i] = 0
            elif kind == 'equal trains':
                tids[i + 1] = tids[i]
            else:
                tids[i], tids[i + 1] = tids[i + 1], tids[i]
            f['INDEX/trainId'][:] = tids
        pl.used.add('*')
        pl.expect.append((kind, ['INDEX/trainId'], ['INDEX/trainId']))
        return True

    srcs = pl.agg['sources']
    src = srcs[fault['source'] % len(srcs)]
    if src['name'] in pl.used:
        return False
    ixs = index_paths(src)
    section, ix, group, keys, fmt = ixs[fault['pos'] % len(ixs)]
    data = '%s/%s' % (section, src['name'])
    grp = data + ('/' + group if group else '')
    need = [ix]
    with h5py.File(path, 'r+') as f:
        if kind == 'no data':
            del f[data]
            need, allow = [data], [data]
        elif kind == 'no index':
            how = n % 3
            if how == 0:
                del f[ix]
            elif how == 1:
                del f[ix + '/first']
            else:
                del f[ix + ('/count' if fmt == 'count' else '/last')]
            allow = [ix]
        elif kind in ('short index', 'uneven index'):
            if nt < 1:
                return False
            m = fault['pos'] % nt
            names = ['first', 'count'] if fmt == 'count' else ['first', 'last', 'status']
            if kind == 'uneven index':
                names = [names[n % len(names)]]
                if m == 1 and fmt == 'last':
                    m = 0      # NumPy would broadcast a length of 1
            for nm in names:
                replace(f, ix + '/' + nm, f[ix + '/' + nm][:m])
            allow = [ix]
        elif kind == 'short data':
            first, count = read_index(f, ix, fmt)
            total = int(count[:nt].sum())
            if total < 1:
                return False
            key = keys[fault['pos'] % len(keys)]
            p = grp + '/' + key['key'].replace('.', '/')
            replace(f, p, f[p][:max(0, total - n)])
            need = allow = [p]
        else:
            first, count = read_index(f, ix, fmt)
            i = fault['pos'] % max(nt, 1)
            if kind == 'start':
                if nt < 1:
                    return False
                if n % 2:
                    first[:nt] += n
                else:
                    first[0] += n
            elif kind == 'gap':
                if nt < 2 or i == 0:
                    return False
                first[i:nt] += n
            elif kind == 'overlap':
                if nt < 2 or i == 0 or first[i] < 1:
                    return False
                first[i:nt] -= 1 + (n - 1) % int(first[i])
            elif kind == 'count up':
                if nt < 2 or i == nt - 1:
                    return False
                count[i] += n
            elif kind == 'count down':
                cands = np.nonzero(count[:max(nt - 1, 0)])[0]
                if not len(cands):
                    return False
                i = cands[fault['pos'] % len(cands)]
                count[i] -= 1 + (n - 1) % int(count[i])
            elif kind == 'huge':
                if nt < 1:
                    return False
                count[nt - 1] = [1000, 10 ** 12, 2 ** 62][n % 3]
                if n == 5 and fmt == 'count':
                    count[nt - 1] = 2 ** 64 - 1
                need = [grp + '/' + k['key'].replace('.', '/') for k in keys]
            write_index(f, ix, fmt, first, count)
            allow = [ix, grp]
    pl.used.add(src['name'])
    for p in (need if kind == 'huge' else [None]):
        pl.expect.append((kind, need if p is None else [p], allow))
    return True


def under(dataset, prefix):
    return dataset == prefix or dataset.startswith(prefix + '/')


def check_problems(problems, places, cache_used, ctx, run_dir=None):
    by_file = {pl.path: pl for pl in places}
    for pr in problems:
        assert set(pr) >= {'msg'}
        if 'data_file' in pr:
            pl = by_file[pr['data_file']]
            assert cache_used and pl.cache and not pl.unopenable, pr
            continue
        if 'directory' in pr:
            assert all(pl.unopenable for pl in places) and pr['directory'] == run_dir, pr
            continue
        pl = by_file.get(pr['file'])
        assert pl is not None, 'problem in an unknown file: %r' % (pr,)
        if 'dataset' not in pr:
            assert pl.unopenable, 'good file reported: %r' % (pr,)
            continue
        assert any(under(pr['dataset'], p) for _, _, allow in pl.expect for p in allow), \
            'nothing is wrong there: %r' % (pr,)
    for pl in places:
        mine = [pr for pr in problems if pr.get('file') == pl.path]
        if pl.unopenable:
            assert mine, 'unusable file not reported: %s' % pl.path
        for kind, need, _ in pl.expect:
            assert any(pr.get('dataset') in need for pr in mine), \
                '%s at %s in %s not reported; problems: %s' % (kind, need, pl.path, problems)
        if cache_used and pl.cache and not pl.unopenable:
            assert any(pr.get('data_file') == pl.path for pr in problems), \
                'wrong cache entry for %s not reported' % pl.path
    if run_dir is not None and all(pl.unopenable for pl in places):
        assert any(pr.get('directory') == run_dir for pr in problems), \
            'no usable files, but not reported'


def run_main(args):
    from karabo_data.validation import main
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            code = main(args)
        except SystemExit as e:
            code = e.code
    return code or 0, out.getvalue()


def write_cache(kind, d, places):
    entries = []
    for i, pl in enumerate(places):
        if not os.path.isfile(pl.path):
            continue
        st = os.stat(pl.path)
        info = {'filename': os.path.basename(pl.path), 'mtime': st.st_mtime, 'size': st.st_size,
                'train_ids': [], 'control_sources': [], 'instrument_sources': []}
        if not pl.unopenable:
            with h5py.File(pl.path, 'r') as f:
                t = f['INDEX/trainId'][:]
                info['train_ids'] = [int(x) for x in t[t != 0]]
        for key, k in (('control_sources', 'control'), ('instrument_sources', 'inst')):
            info[key] = sorted(s['name'] for s in pl.agg['sources'] if s['kind'] == k)
        if pl.cache == 'cache trains':
            if info['train_ids'] and i % 2:
                info['train_ids'] = info['train_ids'][:-1]
            else:
                info['train_ids'] = info['train_ids'] + [2 ** 40]
        elif pl.cache == 'cache sources':
            key = ['control_sources', 'instrument_sources'][i % 2]
            info[key] = info[key][1:] or ['X/Y/Z']
        elif kind == 'outdated' or (kind == 'partial' and i % 2 == 0):
            if kind == 'partial':
                continue
            info['mtime'] -= 10
            info['train_ids'] = [5]
            info['instrument_sources'] = ['N/N/N:n']
        entries.append(info)
    with open(os.path.join(d, 'karabo_data_map.json'), 'w') as f:
        json.dump(entries, f)


def check(case, ctx):
    from karabo_data.validation import FileValidator, RunValidator, ValidationError
    from karabo_data.reader import FileAccess
    d = ctx.path('run')
    with ctx.building():
        paths = build_run(case['run'], d)
        label_spec(case['run'], ctx)
        from ..runspec import spec_files
        places = [Place(p, agg, f) for p, (_, agg, f) in zip(paths, spec_files(case['run']))]
        if case['extra'] == 'other file':
            with open(os.path.join(d, 'notes.txt'), 'w') as f:
                f.write('not HDF5')
        if not places:
            return
        for fault in case['faults']:
            if apply_fault(places, fault, ctx):
                ctx.label(fault['kind'])
        if any(pl.cache for pl in places) and case['cache'] == 'none':
            case = dict(case, cache='good')
        if case['cache'] != 'none':
            write_cache(case['cache'], d, places)
        ctx.label('cache ' + case['cache'])
        tree = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)
        before = hashes(tree)
    bad = [pl for pl in places if pl.unopenable or pl.expect or pl.cache]
    ctx.nontrivial(any(pl.unopenable or pl.expect for pl in places))
    if len(bad) > 1:
        ctx.label('several files with defects')
    cache_used = case['cache'] != 'none'

    rv = RunValidator(d)
    problems = rv.run_checks()
    check_problems(problems, places, cache_used, ctx, d)
    try:
        rv.validate()
        raised = None
    except ValidationError as e:
        raised = e
    assert (raised is not None) == bool(problems) == bool([pl for pl in bad if not (
        pl.cache and not pl.unopenable and not pl.expect and not cache_used)])
    if raised is not None:
        check_problems(raised.problems, places, cache_used, ctx, d)
    code, text = run_main([d])
    check_output(code, text, problems)

    for i in {case['single'] % len(places), 0}:
        pl = places[i]
        if pl.unopenable:
            code, text = run_main([pl.path])
            assert code != 0 and pl.path in text, (code, text)
            continue
        fa = FileAccess(pl.path)
        fp = FileValidator(fa).run_checks()
        check_problems(fp, [pl], False, ctx)
        fa.close()
        code, text = run_main([pl.path])
        check_output(code, text, fp)
    for f in rv.files if hasattr(rv, 'files') else ():
        f.close()
    tree2 = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)
    assert tree2 == tree and hashes(tree) == before, 'validation changed files'

    if case['extra'] == 'empty dir':
        with ctx.building():
            e = ctx.path('empty')
            os.makedirs(e)
        problems = RunValidator(e).run_checks()
        assert problems and problems[0].get('directory') == e, problems
        code, text = run_main([e])
        assert code != 0 and e in text


def check_output(code, text, problems):
    assert (code != 0) == bool(problems), 'exit status %s, problems %s' % (code, problems)
    for pr in problems:
        for k in ('file', 'dataset', 'data_file', 'directory'):
            if k in pr:
                assert str(pr[k]) in text, '%s not in the output: %s' % (pr[k], text)
