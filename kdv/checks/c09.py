"""Opening files, run directories and runs of proposals"""
import contextlib
import io
import os
from unittest import mock

import h5py
import numpy as np

from ..common import check_train_dict
from ..globs import matches
from ..runspec import (Model, build_file, build_run, file_name, label_spec, run_specs, same,
                       spec_files, write_metadata)

PROPERTY = 'C09'
PLAIN_DIR = True     # the root of all proposals has an ordinary name
QUICK, THOROUGH = 1600, 24000
RULE = ('A generated run directory (old / new metadata, fixed / variable length names, RUN groups) '
        'plus generated other files (text, empty, truncated, other HDF5, unknown source category, '
        'other extensions, a directory named *.h5) and an include pattern, inside a generated '
        'proposal tree with decoys; opened by H5File, RunDirectory and open_run in all spellings, '
        'compared with the model of the matching files. Non-trivial: at least one unusable file, or '
        'an include pattern that leaves out some file, together with at least one usable file.')
ASSUMPTIONS = ['files are well-formed as the validator defines it or one of the generated unusable kinds',
               'the proposal root is redirected with karabo_data.read_machinery.DATA_ROOT_DIR']

BAD = ['text', 'empty', 'truncated', 'other-hdf5', 'no-metadata', 'bad-category', 'directory',
       'ext-hdf5', 'ext-txt', 'ext-none']
INCLUDES = ['*', '*', '*', '*DA01*', '*-S00000*', 'RAW-*', '*DA0[12]*', '*DA0[!1]*', '*S0000?.h5',
            'no-such-file*', '*.h5', '*DA02*', '*bad*', 'R?W*', '*da01*', 'raw-*',
            '*.H5', '*[a-z]*', '*-DA0[1]-*', 'RAW-R0001-DA01-S00000.h5']


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def runs(draw):
        r = draw(run_specs(max_trains=4, max_keys=2, dtypes=('f4', 'u8', 'i4')))
        r['vlen'] = draw(st.booleans())
        r['meta_gaps'] = draw(st.sampled_from([False, False, False, True]))
        r['run_group'] = draw(st.booleans())
        return r
    return st.fixed_dictionaries({
        'run': runs(),
        'bad': st.lists(st.sampled_from(BAD), max_size=3),
        'include': st.sampled_from(INCLUDES),
        'trunc': st.integers(1, 98),
        # Directory to be in when opening
        'cwd': st.sampled_from([None, 'in', 'above', 'prop']),
        'link': st.booleans(),
        'proposal': st.integers(1, 999999), 'runno': st.integers(1, 9999),
        'where': st.sampled_from(['SPB/201701', 'FXE/201830', 'SCS/201901']),
        'data': st.sampled_from(['raw', 'proc', None]),
        'decoys': st.lists(st.sampled_from(['other proposal', 'other run', 'other kind', 'other prefix']),
                           max_size=3, unique=True),
    })


def make_bad(kind, d, i, spec, trunc):
    """Returns file name"""
    if kind.startswith('ext-'):
        name = 'RAW-R0001-bad%02d-S00000%s' % (i, {'ext-hdf5': '.hdf5', 'ext-txt': '.h5.txt',
                                                   'ext-none': 'h5'}[kind])
        build_file(os.path.join(d, name), spec['version'], [
            {'kind': 'control', 'name': 'MUST/NOT/APPEAR', 'keys': [
                {'key': 'x.value', 'dtype': 'f4', 'shape': []}]}], [5], 0)
        return name
    name = 'RAW-R0001-bad%02d-S00000.h5' % i
    p = os.path.join(d, name)
    if kind == 'text':
        with open(p, 'w') as f:
            f.write('this is not HDF5\n' * 5)
    elif kind == 'empty':
        open(p, 'wb').close()
    elif kind == 'directory':
        os.mkdir(p)
    elif kind == 'other-hdf5':
        with h5py.File(p, 'w') as f:
            f['data'] = np.arange(4)
    else:
        with h5py.File(p, 'w') as f:
            f['INDEX/trainId'] = np.array([1, 2], dtype='u8')
            f['CONTROL/MUST/NOT/APPEAR/x/value'] = np.zeros(2)
            f['INDEX/MUST/NOT/APPEAR/first'] = np.arange(2, dtype='u8')
            f['INDEX/MUST/NOT/APPEAR/count'] = np.ones(2, dtype='u8')
            if kind == 'bad-category':
                write_metadata(f, spec['version'], ['CONTROL/MUST/NOT/APPEAR', 'SOMETHING/ELSE/X'])
            elif kind == 'truncated':
                write_metadata(f, spec['version'], ['CONTROL/MUST/NOT/APPEAR'])
        if kind == 'truncated':
            size = os.path.getsize(p)
            with open(p, 'r+b') as f:
                f.truncate(max(size * trunc // 100, 1))
    return name


def check_open(dc, model, what):
    assert [int(t) for t in dc.train_ids] == model.trains, (what, list(dc.train_ids), model.trains)
    assert set(dc.control_sources) == model.control(), (what, set(dc.control_sources))
    assert set(dc.instrument_sources) == model.instrument(), (what, set(dc.instrument_sources))
    assert set(dc.all_sources) == set(model.sources), what
    for s in model.sources:
        got = set(dc.keys_for_source(s))
        assert got == model.keys(s), '%s: keys of %s: %s, expected %s' % (what, s, got, model.keys(s))
    for s, k in model.fields():
        want, tids = model.array(s, k, model.trains)
        same(dc.get_array(s, k).values, want, what)


def sub_spec(spec, names):
    """The part of a run which lies in the named files"""
    aggs = []
    for a in spec['aggs']:
        files = []
        for i, f in enumerate(a['files']):
            name = f.get('name') or file_name(a, i)
            if name in names:
                files.append(dict(f, name=name))
        if files:
            aggs.append(dict(a, files=files))
    return dict(spec, aggs=aggs)


def spellings(proposal, prop_dir):
    return [proposal, str(proposal), '%06d' % proposal, 'p%06d' % proposal, prop_dir]


def check(case, ctx):
    from karabo_data import H5File, RunDirectory, open_run
    spec = case['run']
    with ctx.building():
        label_spec(spec, ctx)
        root = ctx.path('exfel')
        prop_dir = os.path.join(root, case['where'], 'p%06d' % case['proposal'])
        kind = case['data'] or 'raw'
        d = os.path.join(prop_dir, kind, 'r%04d' % case['runno'])
        build_run(spec, d)
        good = [n for n, _, _ in spec_files(spec)]
        unusable = [make_bad(k, d, i, spec, case['trunc']) for i, k in enumerate(case['bad'])]
        unusable = [n for n in unusable if n.endswith('.h5')]
        decoy_src = [{'kind': 'control', 'name': 'DE/CO/Y', 'keys': [
            {'key': 'x.value', 'dtype': 'f4', 'shape': []}]}]
        for dec in case['decoys']:
            pn, rn, kd = 'p%06d' % case['proposal'], 'r%04d' % case['runno'], kind
            if dec == 'other proposal':
                pn = 'p%06d' % (case['proposal'] + 1)
            elif dec == 'other run':
                rn = 'r%04d' % (case['runno'] + 1)
            elif dec == 'other kind':
                kd = 'proc' if kind == 'raw' else 'raw'
            else:
                pn = 'p9%06d' % case['proposal']
            dd = os.path.join(root, case['where'], pn, kd, rn)
            os.makedirs(dd, exist_ok=True)
            build_file(os.path.join(dd, 'RAW-R0001-DA99-S00000.h5'), '0.5', decoy_src, [7], 0)
        for k in case['bad']:
            ctx.label('file: ' + k)

    inc = case['include']
    matching = [n for n in good if matches(inc, n)]
    bad_matching = [n for n in unusable if matches(inc, n)]
    model = Model(sub_spec(spec, matching))
    ctx.nontrivial(bool(matching) and (bool(bad_matching) or len(matching) < len(good)))
    if len(matching) < len(good):
        ctx.label('include leaves files out')

    def opener(what, f):
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
                dc = f()
        except Exception as e:
            assert not matching, '%s failed: %r' % (what, e)
            ctx.label('nothing to open')
            return None
        assert matching, '%s opened, although there is no usable file' % what
        for n in bad_matching:
            assert n in err.getvalue(), '%s: no message about %s' % (what, n)
        check_open(dc, model, what)
        for fa in dc.files:
            fa.close()
        return dc

    opener('RunDirectory', lambda: RunDirectory(d, include=inc))
    with ctx.building():
        home = os.getcwd()
        if case['link']:
            os.symlink(d, ctx.path('Link *[a-c] to a run'))
    try:
        if case['link']:
            ctx.label('symbolic link')
            opener('RunDirectory of a link', lambda: RunDirectory(ctx.path('Link *[a-c] to a run'), include=inc))
        if case['cwd']:
            ctx.label('relative path')
            cwd = {'in': d, 'above': os.path.dirname(d), 'prop': prop_dir}[case['cwd']]

            def f(n):
                os.chdir(cwd)
                try:
                    rel = os.path.relpath(d, cwd)
                    return RunDirectory(rel, include=inc) if n is None else H5File(os.path.join(rel, n))
                finally:
                    # Reading is done from another place
                    os.chdir(home)
            opener('RunDirectory, relative', lambda: f(None))
            for n in matching[:2]:
                dc = f(n)
                check_open(dc, Model(sub_spec(spec, [n])), 'H5File, relative')
                dc.files[0].close()
                check_open(dc, Model(sub_spec(spec, [n])), 'H5File, relative, reopened')
                dc.files[0].close()
    finally:
        os.chdir(home)
    opener('RunDirectory again', lambda: RunDirectory(d + '/', include=inc))
    if inc == '*':
        opener('RunDirectory default include', lambda: RunDirectory(d))
    kw = {} if case['data'] is None else {'data': kind}
    with mock.patch('karabo_data.read_machinery.DATA_ROOT_DIR', root):
        for i, p in enumerate(spellings(case['proposal'], prop_dir)):
            runs = [case['runno'], str(case['runno']), 'r%04d' % case['runno']]
            opener('open_run(%r, %r)' % (p, runs[i % 3]),
                   lambda: open_run(p, runs[i % 3], include=inc, **kw))
        for p, r in ((case['proposal'], runs[0]), ('p%06d' % case['proposal'], runs[1])):
            opener('open_run', lambda: open_run(p, r, include=inc, **kw))
        for p, r in ((case['proposal'] + 2, case['runno']), (case['proposal'], case['runno'] + 2)):
            try:
                open_run(p, r)
            except Exception:
                pass
            else:
                raise AssertionError('open_run(%r, %r) found something' % (p, r))

    # single files
    for n in good:
        dc = H5File(os.path.join(d, n))
        check_open(dc, Model(sub_spec(spec, [n])), 'H5File')
        with dc:
            pass
    for n in unusable:
        try:
            H5File(os.path.join(d, n))
        except Exception:
            pass
        else:
            raise AssertionError('H5File opened %s' % n)
