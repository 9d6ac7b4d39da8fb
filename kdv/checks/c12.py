"""Virtual files and virtual datasets"""
import os
import tempfile

import h5py
import numpy as np

from ..common import apply_narrow, close_all, narrow_strategy
from ..runspec import build_run, label_spec, run_specs, some_long, same
from .c11 import check_copy, check_raw, hashes, prepare_target, snapshot

PROPERTY = 'C12'
QUICK, THOROUGH = 1600, 20000
RULE = ('Generated runs (opened by absolute or relative path) narrowed to some fields and trains: '
        'write_virtual() makes a file which is read back and compared as in C11 (also after the '
        'collection is closed and the working directory changed); get_virtual_dataset() for '
        'generated fields, into a new temporary file, a given path or over an existing file, must '
        'be an open dataset with the values of get_array, in a file whose train IDs and index '
        'describe it and which opens as a collection. Source files keep their hash. Non-trivial: a '
        'virtual dataset built of at least 2 pieces.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'the original files stay where they are']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=12 if tier == 'thorough' else 8), 50),
        'narrow': narrow_strategy(),
        'open': st.sampled_from(['absolute', 'absolute', 'relative', 'files']),
        'target': st.sampled_from(['new', 'stale', 'garbage']),
        'fields': st.lists(st.tuples(st.integers(0, 30), st.sampled_from(['temp', 'path', 'over'])),
                           min_size=1, max_size=3).map(lambda v: [list(x) for x in v]),
        'moved': st.booleans(),
    })


def pieces(dc, s, k):
    """Number of contiguous pieces of source data (only used to classify cases)"""
    n = 0
    tids = set(map(int, dc.train_ids))
    for f in dc.files:
        if s in f.all_sources:
            prev = False
            for t in f.train_ids:
                cur = int(t) in tids
                n += cur and not prev
                prev = cur
    return n


def check(case, ctx):
    cwd = os.getcwd()
    tmpdir = ctx.path('tmp')
    old_tmp = tempfile.tempdir
    os.makedirs(tmpdir)
    tempfile.tempdir = tmpdir
    try:
        _check(case, ctx)
    finally:
        tempfile.tempdir = old_tmp
        os.chdir(cwd)


def _check(case, ctx):
    from karabo_data import H5File, RunDirectory
    with ctx.building():
        paths = build_run(case['run'], ctx.path('run'))
        model = label_spec(case['run'], ctx)
        os.makedirs(ctx.path('elsewhere'))
    if not model.trains:
        return
    ctx.label('opened ' + case['open'])
    os.chdir(ctx.dir)
    if case['open'] == 'relative':
        run = RunDirectory('run')
    elif case['open'] == 'files':
        run = H5File(os.path.relpath(paths[0]))
        if len(paths) > 1:
            run = run.union(*[H5File(p) for p in paths[1:]])
    else:
        run = RunDirectory(ctx.path('run'))
    dc, sel, trains = apply_narrow(run, model, case['narrow'])
    before = hashes(paths)
    snap = snapshot(dc)
    target = ctx.path('elsewhere', 'virtual.h5')
    with ctx.building():
        prepare_target(case['target'], target, None)
    dc.write_virtual(target)
    assert os.path.isfile(target)
    with h5py.File(target, 'r') as f:
        datasets = []
        f.visititems(lambda n, o: datasets.append((n, o.is_virtual))
                     if isinstance(o, h5py.Dataset) and n.startswith(('CONTROL/', 'INSTRUMENT/'))
                     else None)
        for (s, k), (values, tids) in snap.items():
            p = '%s/%s/%s' % ('CONTROL' if s in dc.control_sources else 'INSTRUMENT', s,
                              k.replace('.', '/'))
            assert (p, True) in datasets or len(tids) == 0, '%s is not virtual' % p
    if case['moved']:
        os.chdir(ctx.path('elsewhere'))
        close_all(run, dc)
        ctx.label('closed and other directory')
    # Fields without any data may be left out
    check_virtual(target, dc, model, sel, trains, ctx, snap)

    fields = [(s, k) for s in sorted(dc.all_sources) for k in sorted(sel.get(s, ()))]
    for i, where in case['fields']:
        if not fields:
            break
        s, k = fields[i % len(fields)]
        values, tids = snap[s, k]
        mval, mtids = model.array(s, k, trains)
        what = 'get_virtual_dataset(%s, %s)' % (s, k)
        if where == 'temp':
            ds = dc.get_virtual_dataset(s, k)
        else:
            p = ctx.path('elsewhere', 'one-%d.h5' % i)
            if where == 'over':
                with ctx.building():
                    prepare_target('stale', p, None)
            ds = dc.get_virtual_dataset(s, k, filename=p)
            assert os.path.samefile(ds.file.filename, p), what
        assert isinstance(ds, h5py.Dataset) and ds.file.mode == 'r', what
        same(ds[()], values, what)
        same(ds[()], mval, what)
        section, ix = ('CONTROL', s) if s in dc.control_sources else \
            ('INSTRUMENT', s + '/' + k.partition('.')[0])
        assert ds.name == '/%s/%s/%s' % (section, s, k.replace('.', '/')), (what, ds.name)
        f = ds.file
        same(f['INDEX/trainId'][:], np.array(trains, dtype=np.uint64), what + ' trainId')
        first, count = f['INDEX/%s/first' % ix][:], f['INDEX/%s/count' % ix][:]
        assert len(first) == len(count) == len(trains)
        for t, a, n in zip(trains, first, count):
            at = np.nonzero(mtids == t)[0]
            assert n == len(at), (what, t, n)
            if n:
                assert a == at[0], (what, t, a)
        filename = f.filename
        f.close()
        one = H5File(filename)
        assert set(one.all_sources) == {s} and set(one.keys_for_source(s)) == {k}, what
        assert [int(t) for t in one.train_ids] == trains
        arr = one.get_array(s, k)
        same(arr.values, mval, what)
        same(arr.coords['trainId'].values, mtids, what)
        for t, d in one.trains():
            want = model.train_data(s, [k], t)
            assert set(d[s]) - {'metadata'} == set(want), (what, t)
            for kk in want:
                same(d[s][kk], want[kk], '%s train %d' % (what, t))
        close_all(one)
        if pieces(dc, s, k) > 1 and len(mtids):
            ctx.nontrivial()
            ctx.label('several pieces')
        if not len(mtids):
            ctx.label('no data')
        ctx.label('dataset in ' + where)
    assert hashes(paths) == before, 'the source files changed'
    close_all(run, dc)


class _WithData:
    """A collection as seen without the fields which have no data"""
    def __init__(self, dc, sel):
        self._dc, self._sel = dc, sel
        self.all_sources = frozenset(s for s in dc.all_sources if sel.get(s))
        self.control_sources = dc.control_sources & self.all_sources
        self.instrument_sources = dc.instrument_sources & self.all_sources

    def keys_for_source(self, s):
        return self._sel[s]

    def train_from_id(self, t):
        t, d = self._dc.train_from_id(t)
        return t, {s: v for s, v in d.items() if s in self.all_sources}

    def __getattr__(self, name):
        return getattr(self._dc, name)


def check_virtual(target, dc, model, sel, trains, ctx, snap):
    from karabo_data import H5File
    got = H5File(target)
    listed = {(s, k) for s in got.all_sources for k in got.keys_for_source(s)}
    close_all(got)
    assert listed <= set(snap), listed - set(snap)
    sub = {}
    for (s, k), (values, tids) in snap.items():
        if len(tids) or (s, k) in listed:
            assert (s, k) in listed, 'virtual file: %s %s missing' % (s, k)
            sub.setdefault(s, set()).add(k)
    view = _WithData(dc, sub)
    check_copy(target, view, model, sub, trains, ctx, 'virtual file')
    check_raw(target, view, sub, trains, 'virtual file')
