"""get_dask_array"""
import numpy as np

from ..common import apply_narrow, close_all, narrow_strategy, open_run_dir
from ..runspec import run_specs, some_long, same

PROPERTY = 'C03'
QUICK, THOROUGH = 2600, 30000
RULE = ('Generated runs narrowed to some fields and trains; for every selected field, '
        'get_dask_array is computed whole and for generated slices, and compared with the values '
        'which were written. Some runs have entries of up to 2.3 GB (sparse in the file), of which '
        'single elements and small blocks are computed. Non-trivial: at least 2 entries in the '
        'result of some field and more than one file or an uneven entry count, or over 2 GB.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'sequence files of one aggregator do not interleave in train ID']


def strategy(tier):
    from hypothesis import strategies as st
    lim = st.one_of(st.none(), st.integers(-6, 8))
    large = st.fixed_dictionaries({
        'large': st.lists(st.lists(st.integers(0, 7), max_size=4), min_size=1, max_size=3),
        'shape': st.sampled_from([[16384, 16384], [8192, 16384], [3, 9000, 9000], [40000, 7000],
                                  [1 << 28], [1, 512, 4096]]),
        'dtype': st.sampled_from(['f8', 'f4', 'u1', 'u2']),
        'first': st.integers(0, 3), 'n': st.integers(1, 12),
        'points': st.lists(st.tuples(st.integers(-30, 30), st.integers(0, 10)).map(list),
                           min_size=1, max_size=4),
    })
    small = st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=14 if tier == 'thorough' else 10), 50),
        'narrow': narrow_strategy(),
        'slices': st.lists(st.tuples(lim, lim, st.sampled_from([None, 1, 2, 3])).map(list),
                           min_size=1, max_size=2),
    })
    return st.sampled_from([small] * 9 + [large]).flatmap(lambda x: x)


SOURCE = 'SPB_DET_CAM/CAM/1:daqOutput'


def mark(row, shape):
    """Where the value of an entry which differs from 0 is"""
    return tuple((row * 7919 + 13 * i) % n for i, n in enumerate(shape))


def check_large(case, ctx):
    import dask
    import h5py
    from karabo_data import RunDirectory, by_index
    from ..runspec import build_run
    shape, dtype = tuple(case['shape']), np.dtype(case['dtype'])
    trains, entries, aggs = [], [], []
    with ctx.building():
        tid = 1000
        files, counts = [], {}
        for c in case['large']:
            files.append({'trains': list(range(tid, tid + len(c))), 'pad': 0})
            counts.update({str(tid + i): n for i, n in enumerate(c)})
            trains += files[-1]['trains']
            tid += len(c)
        if not trains:
            return
        spec = {'version': '1.0', 'aggs': [{'name': 'DA01', 'files': files, 'sources': [
            {'kind': 'inst', 'name': SOURCE, 'groups': [
                {'name': 'data', 'index': 'count', 'counts': counts, 'junk': 1, 'keys': [
                    {'key': 'x', 'dtype': 'f4', 'shape': []}]}]}]}]}
        d = ctx.path('run')
        block = tuple(min(n, 16) for n in shape)
        number = 0
        for path, fl in zip(build_run(spec, d), files):
            n = sum(counts[str(t)] for t in fl['trains']) + 1
            with h5py.File(path, 'r+') as f:
                ds = f.create_dataset('INSTRUMENT/%s/data/large' % SOURCE, (n,) + shape, dtype,
                                      chunks=(1,) + block)
                for row, t in enumerate([t for t in fl['trains'] for _ in range(counts[str(t)])]):
                    number += 1
                    ds[(row,) + mark(number, shape)] = number
                    entries.append((t, number))
    ctx.label('large entries')
    first = case['first'] % len(trains)
    some = trains[first:first + case['n']]
    dc = RunDirectory(d)
    sel = dc.select_trains(by_index[first:first + case['n']])
    want = [(t, i) for t, i in entries if t in some]
    arr = sel.get_dask_array(SOURCE, 'data.large')
    assert arr.shape == (len(want),) + shape, (arr.shape, len(want))
    assert arr.dtype == dtype
    size = int(np.prod(shape)) * dtype.itemsize
    if len(want) * size > 2 * 1024 ** 3:
        ctx.label('several chunks')
        ctx.nontrivial()
    with dask.config.set(scheduler='synchronous'):
        for i, near in case['points']:
            if not want:
                continue
            i %= len(want)
            number = want[i][1]
            at = mark(number, shape)
            assert arr[(i,) + at].compute() == number, (i, at)
            # A block which has it, in this entry and some others
            sl = tuple(slice(max(a - near, 0), a + 2) for a in at)
            rows = slice(max(i - 2, 0), i + 3)
            got = arr[(rows,) + sl].compute()
            exp = np.zeros(got.shape, dtype)
            for j, (_, other) in enumerate(want[rows]):
                o = tuple(a - s.start for a, s in zip(mark(other, shape), sl))
                if all(0 <= a < n for a, n in zip(o, exp.shape[1:])):
                    exp[(j,) + o] = other
            same(got, exp, 'large entries %s' % (rows,))
    close_all(dc, sel)


def check(case, ctx):
    import dask
    if 'large' in case:
        return check_large(case, ctx)
    run, model, paths = open_run_dir(case['run'], ctx)
    if not model.trains:
        return
    dc, sel, trains = apply_narrow(run, model, case['narrow'])
    with dask.config.set(scheduler='synchronous'):
        for s, k in model.fields():
            if s not in dc.all_sources or k not in sel.get(s, ()):
                continue
            want, tids = model.array(s, k, trains)
            what = 'get_dask_array(%s, %s)' % (s, k)
            arr = dc.get_dask_array(s, k)
            assert arr.shape == want.shape, (what, arr.shape, want.shape)
            assert arr.dtype == want.dtype, (what, arr.dtype, want.dtype)
            same(arr.compute(), want, what)
            for sl in case['slices']:
                sl = slice(*sl)
                same(arr[sl].compute(), want[sl], '%s[%s]' % (what, sl))
            if want.ndim > 1 and want.shape[1] > 0:
                same(arr[:, -1].compute(), want[:, -1], what + '[:, -1]')
            counts = {model.count(s, k, t) for t in trains}
            ctx.nontrivial(len(want) >= 2 and (len(counts) > 1
                                               or 'several files' in ctx.case_labels))
            if len(want) == 0:
                ctx.label('empty result')
    close_all(run, dc)
