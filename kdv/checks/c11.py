"""write(): the copy reads back identically, validates, and replaces what was there"""
import hashlib
import os

import h5py
import numpy as np

from ..common import apply_narrow, check_train_dict, close_all, covered, narrow_strategy, \
    open_run_dir
from ..runspec import run_specs, some_long, same

PROPERTY = 'C11'
QUICK, THOROUGH = 1500, 24000
RULE = ('Generated runs narrowed to some fields and trains (and optionally joined with a second '
        'narrowed collection of the same run) are written to a new path or over an existing file; '
        'the file is opened and its trains, sources, keys, per-train data, arrays, counts and raw '
        'index are compared with the model and with the collection; it must pass FileValidator; '
        'a copy of the copy must be the same; source files keep their hash. Non-trivial: at least '
        '2 trains and 2 entries written, in more than one file, or with gaps or missing entries.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'the target is not one of the files the data comes from']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=12 if tier == 'thorough' else 8), 50),
        'narrow': narrow_strategy(),
        'other': st.one_of(st.none(), st.none(), narrow_strategy()),
        'target': st.sampled_from(['new', 'new', 'stale', 'garbage', 'long', 'twice']),
        'again': st.booleans(),
    })


def hashes(paths):
    return [hashlib.sha256(open(p, 'rb').read()).hexdigest() for p in paths]


def snapshot(dc):
    """Everything dc gives, as plain data: {(source, key): (values, trains)}"""
    out = {}
    for s in sorted(dc.all_sources):
        for k in sorted(dc.keys_for_source(s)):
            a = dc.get_array(s, k)
            out[s, k] = (a.values, a.coords['trainId'].values)
    return out


def prepare_target(kind, path, dc):
    if kind == 'stale':
        with h5py.File(path, 'w') as f:
            f['INDEX/trainId'] = np.array([77, 78], dtype=np.uint64)
            f['INDEX/STALE/A/B/first'] = np.arange(2, dtype=np.uint64)
            f['INDEX/STALE/A/B/count'] = np.ones(2, dtype=np.uint64)
            f['CONTROL/STALE/A/B/x/value'] = np.arange(2)
            f['METADATA/dataSourceId'] = np.array([b'CONTROL/STALE/A/B'])
    elif kind == 'garbage':
        with open(path, 'wb') as f:
            f.write(b'not HDF5\n' * 10)
    elif kind == 'long':
        with open(path, 'wb') as f:
            f.write(b'\x89HDF\r\n\x1a\n' + bytes(200000))
    elif kind == 'twice':
        dc.write(path)


def compare_collections(got, want, need, may, trains, what):
    """got gives the same data as want.

    need / may: sources which must / may be there
    """
    assert [int(t) for t in got.train_ids] == [int(t) for t in trains], (what, got.train_ids, trains)
    srcs = set(got.all_sources)
    assert set(need) <= srcs <= set(may), '%s: sources %s, expected %s' % (
        what, sorted(srcs), sorted(may))
    assert got.control_sources == frozenset(srcs & want.control_sources), what
    assert got.instrument_sources == frozenset(srcs & want.instrument_sources), what


def check_copy(path, dc, model, sel, trains, ctx, what):
    from karabo_data import H5File
    from karabo_data.validation import FileValidator
    copy = H5File(path)
    want_srcs = {s for s in dc.all_sources if sel.get(s)}
    compare_collections(copy, dc, want_srcs, want_srcs, trains, what)
    for s in want_srcs:
        assert set(copy.keys_for_source(s)) == sel[s] == set(dc.keys_for_source(s)), (what, s)
    for s in want_srcs:
        for k in sel[s]:
            w = '%s: %s %s' % (what, s, k)
            orig = dc.get_array(s, k)
            arr = copy.get_array(s, k)
            same(arr.values, orig.values, w)
            same(arr.coords['trainId'].values, orig.coords['trainId'].values, w + ' train IDs')
            if model is not None:
                values, tids = model.array(s, k, trains)
                same(arr.values, values, w)
                same(arr.coords['trainId'].values, tids, w + ' train IDs')
            counts = copy.get_data_counts(s, k)
            got = {int(t): int(n) for t, n in zip(counts.index.values, counts.values) if n}
            t0, n0 = np.unique(orig.coords['trainId'].values, return_counts=True)
            assert got == {int(t): int(n) for t, n in zip(t0, n0)}, (w, got)
            if arr.ndim == 1 and s in dc.control_sources:
                ser = copy.get_series(s, k)
                same(ser.values, orig.values, w + ' series')
                same(np.asarray(ser.index), orig.coords['trainId'].values.astype(ser.index.dtype),
                     w + ' series index')
    n_required = 0
    req = [int(t) for t, _ in copy.trains(require_all=True)]
    for (tid, d1), t in zip(copy.trains(), trains):
        assert tid == int(t)
        tid2, d2 = copy.train_from_id(int(t))
        _, d0 = dc.train_from_id(int(t))
        has_all = True
        for s in want_srcs:
            for d, where in ((d1, 'trains()'), (d2, 'train_from_id()')):
                assert set(d[s]) == set(d0[s]), '%s: %s train %s %s: %s, expected %s' % (
                    what, where, t, s, sorted(d[s]), sorted(d0[s]))
                for k in d0[s]:
                    if k != 'metadata':
                        same(d[s][k], d0[s][k], '%s: %s train %s %s %s' % (what, where, t, s, k))
            if set(d0[s]) != sel[s] | {'metadata'}:
                has_all = False
        assert set(d1) == set(d2) == want_srcs, what
        if model is not None:
            sub = {s: sel[s] for s in want_srcs}
            check_train_dict(d2, model, sub, int(t), what)
        assert (int(t) in req) == has_all, '%s: require_all, train %s: %s' % (what, t, has_all)
        n_required += has_all
    assert len(req) == n_required
    fv = FileValidator(copy.files[0])
    if trains:
        problems = fv.run_checks()
        assert not problems, '%s: does not validate: %s' % (what, problems)
    close_all(copy)


def check_raw(path, dc, sel, trains, what):
    """The file itself, read with h5py only"""
    with h5py.File(path, 'r') as f:
        same(f['INDEX/trainId'][:], np.array(trains, dtype=np.uint64), what + ' INDEX/trainId')
        listed = sorted(x.decode() for x in f['METADATA/dataSourceId'][:] if x)
        roots = [x.decode() for x in f['METADATA/root'][:] if x]
        devices = [x.decode() for x in f['METADATA/deviceId'][:] if x]
        assert sorted(r + '/' + d for r, d in zip(roots, devices)) == listed, what
        want = set()
        for s in dc.all_sources:
            for k in sel.get(s, ()):
                if s in dc.control_sources:
                    ix, p = s, 'CONTROL/%s/%s' % (s, k.replace('.', '/'))
                    want.add('CONTROL/' + s)
                else:
                    ix = '%s/%s' % (s, k.partition('.')[0])
                    want.add('INSTRUMENT/' + ix)
                    p = 'INSTRUMENT/%s/%s' % (s, k.replace('.', '/'))
                arr = dc.get_array(s, k)
                tids = arr.coords['trainId'].values
                first, count = f['INDEX/%s/first' % ix][:], f['INDEX/%s/count' % ix][:]
                assert len(first) == len(count) == len(trains), (what, ix)
                at = 0
                data = f[p][()]
                for t, a, n in zip(trains, first, count):
                    assert n == np.count_nonzero(tids == t), (what, ix, t)
                    if n:
                        assert a == at, (what, ix, t)
                    at += int(n)
                same(data, arr.values, '%s: %s' % (what, p))
        assert set(listed) == want and len(listed) == len(want), (what, listed, want)


def check(case, ctx):
    run, model, paths = open_run_dir(case['run'], ctx)
    if not model.trains:
        return
    dc, sel, trains = apply_narrow(run, model, case['narrow'])
    exact = True
    if case['other'] is not None:
        other, sel2, trains2 = apply_narrow(run, model, case['other'])
        dc = dc.union(other)
        sel = {s: sel.get(s, set()) | sel2.get(s, set()) for s in set(sel) | set(sel2)}
        trains = sorted(set(trains) | set(trains2))
        exact = False
        ctx.label('union')
    target = ctx.path('copy.h5')
    prepare_target(case['target'], target, run)
    before = hashes(paths)
    snap = snapshot(dc)
    trains_before = [int(t) for t in dc.train_ids]
    assert trains_before == trains
    ctx.label('target ' + case['target'])
    dc.write(target)
    check_copy(target, dc, model if exact else None, sel, trains, ctx, 'copy')
    check_raw(target, dc, sel, trains, 'copy')
    if case['again']:
        from karabo_data import H5File
        first = H5File(target)
        again = ctx.path('again.h5')
        first.write(again)
        check_copy(again, first, None, {s: set(first.keys_for_source(s)) for s in first.all_sources},
                   trains, ctx, 'copy of the copy')
        close_all(first)
        ctx.label('copied twice')
    assert hashes(paths) == before, 'the source files changed'
    assert [int(t) for t in dc.train_ids] == trains_before
    after = snapshot(dc)
    assert set(after) == set(snap)
    for f in snap:
        same(after[f][0], snap[f][0], 'the collection after writing: %s' % (f,))
    n = sum(len(v[1]) for v in snap.values())
    ctx.nontrivial(len(trains) > 1 and n > 1 and (
        len(paths) > 1 or not ctx.case_labels.isdisjoint({'train ID gap', 'train without entries'})))
    if any(len(covered(model, s, trains)) < len(trains) for s in sel if s in model.control()):
        ctx.label('control source lacks some trains')
    close_all(run, dc)
