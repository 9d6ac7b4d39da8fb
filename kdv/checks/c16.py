"""Virtual CXI files"""
import contextlib
import io
import logging
import os

import h5py
import numpy as np

from ..common import close_all
from ..detspec import det_class, det_runs
from .c11 import hashes
from .c14 import open_detector

PROPERTY = 'C16'
QUICK, THOROUGH = 2000, 16000
RULE = ('Generated detector runs as in C14, mostly with the same pulse IDs in all modules and full size modules for corrected data; modules and min_modules options; '
        'the API or the command (with -o or the default place, run directory or proposal and run '
        'number, the default of 9 modules or another). Every frame of data, gain, mask and cellId in the file is compared with the frame '
        'of the train and pulse which its index stands for, at each of the 16 module positions; '
        'missing ones must hold the fill value. Modules with different pulse IDs must be refused. Sources keep their hash. Non-trivial: at least 2 '
        'trains and 2 modules, or frames missing from a module.')
ASSUMPTIONS = ['all trains which have frames have the same number, with the same pulse IDs in all modules']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'run': st.sampled_from([True] * 8 + [False] * 2 + ['many']).flatmap(
            lambda same_ids: det_runs(
                max_trains=6 if tier == 'thorough' else 4, max_modules=3, max_files=2,
                full_size=True, max_frames=2, single_ids=bool(same_ids), many=same_ids == 'many')),
        'modules': st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=1, max_size=2).map(
            lambda v: ['nth'] + v)),
        'min_modules': st.sampled_from([1, 1, 2, None]),     # None: 9, the default of the command
        'trains': st.one_of(st.none(), st.tuples(st.just('skip'), st.integers(0, 5),
                                                 st.integers(0, 5)).map(list)),
        'name': st.booleans(),
        'via': st.sampled_from(['api', 'api', 'cli', 'cli default', 'cli run number']),
        'style': st.integers(0, 2),
        'over': st.booleans(),
    })


def run_cli(args):
    from karabo_data.cli.make_virtual_cxi import main
    root = logging.getLogger()
    level, handlers = root.level, list(root.handlers)
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            main(args)
        return None
    except SystemExit as e:
        return e.code or None
    finally:
        root.setLevel(level)
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)


def check(case, ctx):
    spec = case['run']
    via = case['via']
    if via != 'api':
        # The command has no options to choose modules or trains, and knows AGIPD and LPD
        case = dict(case, modules=None, trains=None)
        if spec['det'] == 'DSSC':
            via = 'api'
    ctx.label('via ' + via)
    mm = ['--min-modules', str(case['min_modules'])]
    if case['min_modules'] is None:
        mm = []
        case = dict(case, min_modules=9)
        ctx.label('default number of modules')
    run, det, dm = open_detector(case, ctx)
    if det is None:
        if via != 'api':
            ctx.label('nothing for the command')
            try:
                err = run_cli([ctx.path('run'), '-o', ctx.path('out.cxi')] + mm)
            except ValueError:
                err = True
            assert err, 'the command did not fail'
            assert not os.path.exists(ctx.path('out.cxi'))
        return
    if any(len({tuple(dm.frames(m, 'image.pulseId', t)) for m in dm.modules
                if dm.model.count(dm.src[m], 'image.pulseId', t)}) > 1 for t in dm.trains):
        ctx.label('inconsistent pulse IDs')
        try:
            det.write_virtual_cxi(ctx.path('bad.cxi'))
        except Exception:
            return close_all(run, det.data)
        raise AssertionError('modules with different pulse IDs were accepted')
    paths = sorted(f.filename for f in run.files)
    before = hashes(paths)
    out = ctx.path('out.cxi')
    if case['over']:
        with h5py.File(out, 'w') as f:
            f['entry_1/old'] = 1
    if via == 'api':
        det.write_virtual_cxi(out)
    else:
        run_dir = ctx.path('run')
        prop = ctx.path('prop')
        sub = 'raw' if spec['layout'] == 'raw' else 'proc'
        with ctx.building():
            os.makedirs(os.path.join(prop, sub))
            os.makedirs(os.path.join(prop, 'scratch'))
            os.symlink(run_dir, os.path.join(prop, sub, 'r0001'))
            if sub == 'raw':
                os.makedirs(os.path.join(prop, 'proc'))
                os.symlink(run_dir, os.path.join(prop, 'proc', 'r0001'))
        style = case['style']
        if via == 'cli':
            if style == 1:
                cwd = os.getcwd()
                os.chdir(os.path.dirname(out))
                try:
                    err = run_cli(mm + ['--output=' + os.path.basename(out),
                                        os.path.relpath(run_dir)])
                finally:
                    os.chdir(cwd)
            else:
                err = run_cli([run_dir, '-o', out] + mm)
        elif via == 'cli default':
            given = os.path.join(prop, sub, 'r0001') + ('/' if style == 1 else '')
            if style == 2:
                err = run_cli([given, '-o', out] + mm)
            else:
                err = run_cli([given] + mm)
                out = os.path.join(prop, 'scratch', 'r0001_%s_detectors_virt.cxi' % sub)
        elif style == 2:
            err = run_cli([prop, '1', '-o', out] + mm)
        else:
            err = run_cli([prop, '1' if style else '0001'] + mm)
            out = os.path.join(prop, 'scratch', 'r0001_detectors_virt.cxi')
        assert not err, err
    assert os.path.isfile(out), 'no file at %s' % out
    with h5py.File(out, 'r') as f:
        check_file(f, spec, dm, ctx)
    assert hashes(paths) == before
    close_all(run, det.data)


def check_file(f, spec, dm, ctx):
    n = spec['frames']
    assert list(f['cxi_version'][:]) == [150]
    assert 'entry_1/old' not in f
    e = f['entry_1']
    index = []     # (train, position in the train, pulse ID)
    for t in dm.trains:
        m = next(m for m in dm.modules if dm.model.count(dm.src[m], 'image.pulseId', t))
        index += [(t, i, int(p)) for i, p in enumerate(dm.frames(m, 'image.pulseId', t))]
    nf = len(index)
    assert nf == n * len(dm.trains)
    assert [int(x) for x in e['trainId'][:]] == [t for t, _, _ in index], 'trainId'
    assert [int(x) for x in e['pulseId'][:]] == [p for _, _, p in index], (
        'pulseId', e['pulseId'][:], index)
    ids = [x.decode() if isinstance(x, bytes) else x for x in e['experiment_identifier'][:]]
    assert ids == ['%d:%d' % (t, p) for t, _, p in index], ids
    grp = f['entry_1/instrument_1/detector_1']
    assert f['entry_1/data_1'] == grp
    assert f['entry_1/data_1/experiment_identifier'] == e['experiment_identifier']
    assert [int(x) for x in grp['module_identifier'][:]] == dm.modules
    raw = spec['layout'] == 'raw'
    axes = 'experiment_identifier:module_identifier'
    keys = {'data': grp['data'], 'cellId': e['cellId']}
    if raw:
        assert 'gain' not in grp and 'mask' not in grp
        daxes = axes + ':data_gain:y:x'
        labels = [x.decode() if isinstance(x, bytes) else x for x in grp['data_gain'][:]]
        assert labels == (['data', 'gain'] if spec['det'] == 'AGIPD' else ['data'])
    else:
        keys['gain'], keys['mask'] = grp['gain'], grp['mask']
        daxes = axes + ':y:x'
    missing = 0
    for name, ds in keys.items():
        key = 'image.' + name
        k = dm.model.sources[dm.src[dm.modules[0]]]['keys'][key]
        tail = () if name == 'cellId' else k['shape']
        assert ds.shape == (nf, 16) + tail, (name, ds.shape)
        assert ds.dtype == k['dtype'], (name, ds.dtype)
        assert ds.is_virtual
        a = ds.attrs['axes']
        assert (a.decode() if isinstance(a, bytes) else a) == (axes if name == 'cellId' else daxes)
        arr = ds[:]
        fill = None
        cache = {}
        for i, (t, pos, p) in enumerate(index):
            for m in range(16):
                got = arr[i, m]
                if m in dm.modules and dm.model.count(dm.src[m], key, t):
                    if (m, t) not in cache:
                        ent = dm.model.entries(dm.src[m], key, t)
                        cache[m, t] = ent[:, 0] if name == 'cellId' and ent.ndim > 1 else ent
                    want = cache[m, t][pos]
                    assert np.array_equal(got, want, equal_nan=arr.dtype.kind == 'f'), \
                        '%s: frame %d (train %d, pulse %d) of module %d: %s, expected %s' % (
                            name, i, t, p, m, np.asarray(got).ravel()[:6], np.asarray(want).ravel()[:6])
                else:
                    missing += m in dm.modules
                    if arr.dtype.kind == 'f':
                        assert np.isnan(got).all(), '%s: module %d frame %d not filled' % (name, m, i)
                    else:
                        if fill is None:
                            fill = np.asarray(got).ravel()[0]
                        assert (got == fill).all(), '%s: module %d frame %d not filled' % (name, m, i)
        ctx.label('%s fill %s' % (name, fill))
    ctx.nontrivial((len(dm.trains) > 1 and len(dm.modules) > 1) or bool(missing))
    if missing:
        ctx.label('frames missing from a module')
