"""get_array"""
import shutil

import numpy as np

from ..common import apply_narrow, check_shape_of, close_all, narrow_strategy, open_run_dir
from ..runspec import build_run, run_specs, some_long, same

PROPERTY = 'C02'
QUICK, THOROUGH = 3200, 40000
RULE = ('Generated runs narrowed to some fields and trains; every selected field is read with '
        'get_array and compared (values, dtype, shape, dims, trainId labels) with the values which '
        'were written, then again with a generated ROI against NumPy indexing. In some runs another file has a field with another shape or dtype, which must be refused. Non-trivial: the '
        'result of some field has at least 2 entries and the field has an uneven entry count, or '
        'lies in several files, or the trains are a non-contiguous selection.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'sequence files of one aggregator do not interleave in train ID',
               'ROIs are what HDF5 selections support: integers in range, slices with positive step, '
               'at most one ellipsis']


def roi_strategy():
    """ROI as data: list of ['i', n] / ['s', a, b, c] / ['e']; resolved modulo the real shape"""
    from hypothesis import strategies as st
    lim = st.one_of(st.none(), st.integers(-4, 5))
    item = st.one_of(
        st.tuples(st.just('i'), st.integers(-4, 4)),
        st.tuples(st.just('s'), lim, lim, st.sampled_from([None, 1, 2, 3])),
        st.tuples(st.just('e')),
    ).map(list)
    return st.tuples(st.booleans(), st.lists(item, max_size=4)).map(list)


def resolve_roi(spec, shape):
    """A ROI valid for entries of this shape: (object to index with)"""
    as_scalar, items = spec
    out, n_used, seen_e = [], 0, False
    for it in items:
        if it[0] == 'e':
            if not seen_e:
                out.append(Ellipsis)
                seen_e = True
            continue
        if n_used >= len(shape):
            continue
        # which dimension this applies to only matters for the range of integers: use the smallest
        if it[0] == 'i':
            n = min(shape) if shape else 0
            if n == 0:
                continue
            out.append(it[1] % n)
        else:
            out.append(slice(it[1], it[2], it[3]))
        n_used += 1
    if as_scalar and len(out) == 1:
        return out[0]
    return tuple(out) if out else Ellipsis


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=14 if tier == 'thorough' else 10), 50),
        'narrow': narrow_strategy(),
        'rois': st.lists(roi_strategy(), min_size=1, max_size=3),
        'dims': st.booleans(),
        # Add a file in which one field has another shape or dtype
        'mixed': st.one_of(st.none(), st.none(), st.none(), st.tuples(
            st.integers(0, 50), st.sampled_from(['shape', 'shape', 'dtype']), st.booleans()).map(list)),
    })


def check(case, ctx):
    from karabo_data import by_index
    run, model, paths = open_run_dir(case['run'], ctx)
    if not model.trains:
        assert list(run.train_ids) == []
        return
    dc, sel, trains = apply_narrow(run, model, case['narrow'])
    check_shape_of(dc, model, sel, trains)
    contiguous = trains == [t for t in model.trains if trains and trains[0] <= t <= trains[-1]]
    for s, k in model.fields():
        if s not in dc.all_sources or k not in sel.get(s, ()):
            continue
        want, tids = model.array(s, k, trains)
        what = 'get_array(%s, %s)' % (s, k)
        arr = dc.get_array(s, k)
        same(arr.values, want, what)
        assert arr.dims[0] == 'trainId', arr.dims
        assert arr.dims[1:] == tuple('dim_%d' % i for i in range(want.ndim - 1)), arr.dims
        assert 'trainId' in arr.coords, what + ': no trainId labels'
        same(arr.coords['trainId'].values, tids, what + ' trainId')
        counts = {model.count(s, k, t) for t in trains}
        ctx.nontrivial(len(want) >= 2 and (len(counts) > 1 or not contiguous
                                           or 'several files' in ctx.case_labels))
        if len(want) == 0:
            ctx.label('empty result')
        if want.ndim > 1:
            for r in case['rois']:
                roi = resolve_roi(r, want.shape[1:])
                idx = (slice(None),) + (roi if isinstance(roi, tuple) else (roi,))
                want_r = want[idx]
                kw = {}
                names = ['d%d' % i for i in range(want_r.ndim - 1)]
                if case['dims']:
                    kw['extra_dims'] = names
                arr = dc.get_array(s, k, roi=by_index[roi], **kw)
                same(arr.values, want_r, '%s roi %r' % (what, roi))
                same(arr.coords['trainId'].values, tids, what + ' roi trainId')
                if case['dims']:
                    assert list(arr.dims) == ['trainId'] + names, arr.dims
                ctx.label('roi')
    for bad in (slice(0, 1), 0, Ellipsis):
        s, k = sorted((s, k) for s in dc.all_sources for k in sel[s])[0] if dc.all_sources else (None, None)
        if s is None:
            break
        try:
            dc.get_array(s, k, roi=bad)
        except TypeError:
            pass
        else:
            raise AssertionError('roi=%r accepted' % (bad,))
    if case['mixed']:
        check_mixed(case, model, paths, ctx)
    close_all(run, dc)


def check_mixed(case, model, paths, ctx):
    """Files in which a field has different shapes or dtypes are not joined into one array"""
    from karabo_data import RunDirectory
    n, what, before = case['mixed']
    with ctx.building():
        fields = [(s, k) for s, k in model.fields()
                  if any(model.count(s, k, t) for t in model.trains)
                  and model.sources[s]['keys'][k]['dtype'].kind != 'O']
        if not fields:
            return
        s, k = fields[n % len(fields)]
        key = model.sources[s]['keys'][k]
        first = model.trains[0]
        new = [first - 2, first - 1] if before and first > 2 else [model.trains[-1] + 1]
        shape, dtype = list(key['shape']), key['dtype'].str
        if what == 'dtype':
            dtype = '<f8' if key['dtype'] != np.dtype('f8') else '<i4'
        elif shape:
            shape[-1] += 1
        else:
            shape = [2]
        if s in model.control():
            src = {'kind': 'control', 'name': s, 'keys': [
                {'key': k, 'dtype': dtype, 'shape': shape}]}
        else:
            group, sub = k.split('.', 1)
            src = {'kind': 'inst', 'name': s, 'groups': [
                {'name': group, 'counts': {str(t): 1 for t in new},
                 'keys': [{'key': sub, 'dtype': dtype, 'shape': shape}]}]}
        d = ctx.path('mixed')
        build_run({'version': '1.0', 'aggs': [
            {'name': 'DA99', 'sources': [src], 'files': [{'trains': new, 'pad': 0}]}]}, d)
        for p in paths:
            shutil.copy(p, d)
    run = RunDirectory(d)
    ctx.label('mixed ' + what)
    try:
        arr = run.get_array(s, k)
    except Exception:
        pass
    else:
        raise AssertionError('get_array(%s, %s) of files with different %s gave %s %s' % (
            s, k, what, arr.dtype, arr.shape))
    # but the trains from one file can be read
    from karabo_data import by_id
    sub = run.select_trains(by_id[new])
    arr = sub.get_array(s, k)
    assert arr.dtype == np.dtype(dtype) and list(arr.shape) == [len(new)] + shape, (
        s, k, arr.dtype, arr.shape)
    close_all(run, sub)
