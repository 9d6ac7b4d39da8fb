"""Stacking data from several sources or detector modules"""
import re

import numpy as np

PROPERTY = 'C17'
QUICK, THOROUGH = 30000, 200000
RULE = ('Trains as dictionaries of generated sources and arrays (any dtype, 0-4 dimensions). stack_data: '
        'names with several groups of digits, xcept, any axis, against np.stack in the documented '
        'order. stack_detector_data: any modules present, some without the key, some with no '
        'frames, number of modules, axis, fill value; the real array against a reference, then '
        'sequences of indexing operations (integers, slices, ellipsis) on the view against the '
        'same on the array. Faulty trains (dtype, shape, module number, other sources, nothing '
        'selected) must raise. Non-trivial: at least 2 sources and a missing or empty module, '
        'another axis than the default, or names whose order is not that of the strings.')
DTYPES = ['f4', 'f8', 'u1', 'u2', 'i4', 'u8', 'i2', 'c8', '?']


def strategy(tier):
    from hypothesis import strategies as st
    dim = st.integers(1, 4)
    shape = st.lists(dim, max_size=4)
    ix = st.lists(st.one_of(
        st.tuples(st.just('int'), st.integers(-6, 5)).map(list),
        st.just(['all']), st.just(['all']),
        st.tuples(st.just('slice'), st.one_of(st.none(), st.integers(-5, 5)),
                  st.one_of(st.none(), st.integers(-5, 5)),
                  st.sampled_from([None, 1, 2, -1])).map(list)), max_size=5)
    index = st.fixed_dictionaries({
        'items': ix, 'ellipsis': st.one_of(st.none(), st.integers(0, 5)),
        'mod': st.one_of(st.none(), st.none(), st.integers(-20, 19)),
        'numpy int': st.booleans(), 'bare': st.booleans()})
    det = st.fixed_dictionaries({
        'kind': st.just('det'),
        'modules': st.one_of(st.none(), st.integers(1, 17)),
        'present': st.lists(st.integers(0, 16), min_size=1, max_size=6, unique=True),
        'nokey': st.lists(st.integers(0, 5), max_size=2),
        'empty': st.lists(st.integers(0, 5), max_size=2),
        'shape': shape, 'dtype': st.sampled_from(DTYPES),
        'axis': st.one_of(st.none(), st.integers(-5, 4)),
        'fill': st.one_of(st.none(), st.integers(0, 100)),
        'index': st.lists(index, max_size=4),
        'prefix': st.sampled_from(['SPB_DET_AGIPD1M-1', 'FXE_DET_LPD1M-1', 'A1/B2', 'X']),
        'fault': st.sampled_from([None] * 6 + ['dtype', 'shape', 'range', 'source', 'nothing']),
        'key': st.sampled_from(['image.data', 'image.gain'])})
    name = st.lists(st.one_of(st.integers(0, 120).map(str), st.sampled_from(
        ['A', 'b', '_', '/', ':', 'DET/', 'Z0', '00'])), min_size=1, max_size=6).map(''.join)
    plain = st.fixed_dictionaries({
        'kind': st.just('plain'),
        'names': st.lists(name, min_size=1, max_size=6, unique_by=lambda n: tuple(
            map(int, re.findall(r'\d+', n)))),
        'xcept': st.lists(st.integers(0, 8), max_size=3),
        'xtype': st.sampled_from(['list', 'tuple', 'set']),
        'shape': shape, 'dtype': st.sampled_from(DTYPES),
        'axis': st.one_of(st.none(), st.integers(-5, 4)),
        'fault': st.sampled_from([None] * 6 + ['dtype', 'shape', 'nothing'])})
    return st.one_of(det, det, plain)


def values(shape, dtype, n):
    size = int(np.prod(shape))
    a = (np.arange(size) * 3 + 17 * n + 1).reshape(shape)
    if np.dtype(dtype).kind == 'c':
        return (a + 1j * n).astype(dtype)
    return (a % 251).astype(dtype)


def same(a, b):
    return (type(a) is type(b) or (np.ndim(a) == np.ndim(b))) and np.shape(a) == np.shape(b) \
        and np.asarray(a).dtype == np.asarray(b).dtype \
        and np.array_equal(a, b, equal_nan=np.asarray(b).dtype.kind in 'fc')


def raises(exc, f, *args, **kw):
    try:
        res = f(*args, **kw)
    except exc:
        return
    raise AssertionError('%s(%s): no error, but %r' % (f.__name__, kw, res))


def check(case, ctx):
    if case['kind'] == 'plain':
        check_plain(case, ctx)
    else:
        check_det(case, ctx)


def pick_axis(axis, ndim):
    """Axis in range for a stack with ndim dimensions; None for the default"""
    if axis is None and ndim >= 3:
        return None
    return (axis or 0) % (2 * ndim) - ndim


def check_plain(case, ctx):
    from karabo_data import stack_data
    ctx.label('stack_data')
    shape, names, fault = tuple(case['shape']), list(case['names']), case['fault']
    axis = pick_axis(case['axis'], len(shape) + 1)
    train = {}
    for i, n in enumerate(names):
        train[n] = {'metadata': {'source': n}, 'a.b': values(shape, case['dtype'], i),
                    'other': values((2,), 'f4', i)}
    drop = {names[i] for i in case['xcept'] if i < len(names)}
    if fault != 'nothing' and len(drop) == len(names):
        drop.discard(names[0])
    for d in drop:
        # The ones left out need not have this data at all
        train[d] = {'metadata': {}, 'x': 1}
    keep = [n for n in names if n not in drop]
    kw = {'xcept': {'list': list, 'tuple': tuple, 'set': set}[case['xtype']](drop)}
    if not drop:
        kw.pop('xcept')
    if axis is not None:
        kw['axis'] = axis
    if fault == 'nothing':
        ctx.label('fault nothing')
        return raises(ValueError, stack_data, train, 'a.b', xcept=names)
    if fault and len(keep) > 1:
        n = keep[-1]
        a = train[n]['a.b']
        train[n]['a.b'] = (a.astype('i8' if a.dtype.kind != 'i' else 'f8') if fault == 'dtype' else
                           a[None])
        ctx.label('fault ' + fault)
        return raises(ValueError, stack_data, train, 'a.b', **kw)
    order = sorted(keep, key=lambda n: [int(x) for x in re.findall('[0-9]+', n)])
    want = np.stack([train[n]['a.b'].copy() for n in order], axis=-3 if axis is None else axis)
    got = stack_data(train, 'a.b', **kw)
    assert same(got, want), 'order %s axis %s: %s, expected %s' % (order, axis, got, want)
    assert list(train) == names
    ctx.nontrivial(len(keep) > 1 and (axis is not None or order != sorted(keep)))
    if order != sorted(keep):
        ctx.label('not in string order')


def reference(mods, nmod, shape, dtype, fill, axis):
    """The stacked array, element by element of the stacking axis"""
    ax = axis if axis >= 0 else axis + len(shape) + 1
    out = np.empty(shape[:ax] + (nmod,) + shape[ax:], dtype)
    for m in range(nmod):
        out[(slice(None),) * ax + (m,)] = mods.get(m, fill)
    return out


def check_det(case, ctx):
    from karabo_data import stack_detector_data
    ctx.label('stack_detector_data')
    nmod = 16 if case['modules'] is None else case['modules']
    present = [m for m in case['present'] if m < nmod] or [0]
    shape, dtype, key, fault = tuple(case['shape']), np.dtype(case['dtype']), case['key'], case['fault']
    axis = pick_axis(case['axis'], len(shape) + 1)
    nokey = {present[i] for i in case['nokey'] if i < len(present)}
    empty = {present[i] for i in case['empty'] if i < len(present)} if shape else set()
    full = [m for m in present if m not in nokey | empty]
    if not full:
        m = present[0]
        nokey.discard(m)
        empty.discard(m)
        full = [m]
    empty -= nokey
    train, mods = {}, {}
    for m in present:
        d = {'metadata': {}, 'image.other': values((m + 1,), 'f4', m)}
        if m in empty:
            d[key] = np.zeros((0,) + shape[1:], dtype)
        elif m not in nokey:
            d[key] = values(shape, dtype, m)
            mods[m] = d[key].copy()
        train['%s/DET/%dCH0:xtdf' % (case['prefix'], m)] = d
    kw = {}
    if case['modules'] is not None:
        kw['modules'] = nmod
    if axis is not None:
        kw['axis'] = axis
    if case['fill'] is None:
        fill = np.nan if dtype.kind in 'fc' else 0
    else:
        kw['fillvalue'] = fill = case['fill']
    if fault is not None:
        return check_fault(case, ctx, train, full, key, nmod, kw)
    n_in = {s: d[key].copy() for s, d in train.items() if key in d}
    want = reference(mods, nmod, shape, dtype, fill, -3 if axis is None else axis)
    arr = stack_detector_data(train, key, **kw)
    assert isinstance(arr, np.ndarray)
    assert same(arr, want), 'modules %s, axis %s: array is %s, expected %s' % (
        sorted(mods), axis, arr, want)
    arr2 = stack_detector_data(train, key, real_array=True, **kw)
    assert same(arr2, want)
    view = stack_detector_data(train, key, real_array=False, **kw)
    check_view(view, want, 'new view')
    ax = (-3 if axis is None else axis) % want.ndim
    for ixs in case['index']:
        v, w, a = view, want, ax
        # The same indexing twice, the second time on its own result
        for step in range(2):
            ix = make_index(ixs, w.ndim, a, w.shape[a])
            desc = 'shape %s, modules on axis %d, [%s]' % (w.shape, a, ix)
            try:
                w2 = w[ix]
            except IndexError:
                ctx.label('index out of range')
                try:
                    got = v[ix]
                except IndexError:
                    break
                except Exception:
                    break
                # A view of all modules has nothing to check the others' size with
                raise AssertionError('%s: no error, but %r' % (desc, got))
            got = v[ix]
            full_ix = expand(ix, w.ndim)
            if isinstance(full_ix[a], slice):
                ctx.label('index all modules')
                check_view(got, w2, desc)
                a -= sum(not isinstance(i, slice) for i in full_ix[:a])
                v, w = got, w2
            else:
                ctx.label('index one module')
                assert same(got, w2), '%s: %s, expected %s' % (desc, got, w2)
                break
    check_view(view, want, 'view after indexing')
    for s, a in n_in.items():
        assert same(train[s][key], a), 'input changed'
    # The array is a copy
    ctx.nontrivial(len(present) > 1 and (bool(nokey | empty) or axis is not None))
    if empty:
        ctx.label('module without frames')
    ctx.label('dtype ' + dtype.kind)


def check_view(view, want, desc):
    assert tuple(view.shape) == want.shape, '%s: shape %s, expected %s' % (
        desc, view.shape, want.shape)
    assert view.ndim == want.ndim and view.dtype == want.dtype, desc
    repr(view)
    arr = view.asarray()
    assert same(arr, want), '%s: asarray() gives %s, expected %s' % (desc, arr, want)


def expand(ix, ndim):
    if not isinstance(ix, tuple):
        ix = (ix,)
    if Ellipsis in ix:
        i = ix.index(Ellipsis)
        return ix[:i] + (slice(None),) * (ndim + 1 - len(ix)) + ix[i + 1:]
    return ix + (slice(None),) * (ndim - len(ix))


def make_index(spec, ndim, ax, nmod):
    full = []
    for k in range(ndim):
        if k == ax:
            full.append(slice(None) if spec['mod'] is None else
                        spec['mod'] if abs(spec['mod']) > 16 else
                        spec['mod'] % (2 * nmod) - nmod)
        elif k < len(spec['items']):
            it = spec['items'][k]
            full.append(it[1] if it[0] == 'int' else slice(None) if it[0] == 'all'
                        else slice(*it[1:]))
        else:
            full.append(slice(None))
    if spec['numpy int']:
        full = [np.int64(i) if isinstance(i, int) else i for i in full]
    e = spec['ellipsis']
    if e is not None:
        # Replace a run of ':' with ...
        i = e % (ndim + 1)
        j = i
        while j < ndim and isinstance(full[j], slice) and full[j] == slice(None):
            j += 1
        full[i:j] = [Ellipsis]
    else:
        while full and isinstance(full[-1], slice) and full[-1] == slice(None):
            full.pop()
    if spec['bare'] and len(full) == 1:
        return full[0]
    return tuple(full)


def check_fault(case, ctx, train, full, key, nmod, kw):
    from karabo_data import stack_detector_data
    fault = case['fault']
    name = '%s/DET/%dCH0:xtdf'
    first = train[name % (case['prefix'], full[0])]
    exc = ValueError
    a = first[key]
    if fault == 'dtype':
        if len(full) < 2:
            return
        first[key] = a.astype('i8' if a.dtype.kind != 'i' else 'f8')
    elif fault == 'shape':
        if len(full) < 2:
            return
        ax = sum(case['present']) % max(a.ndim, 1)
        if not a.ndim:
            first[key] = a[None]
        elif ax and len(case['present']) % 2:
            # no entries, and otherwise another shape
            first[key] = np.zeros((0,) + a.shape[1:ax] + (a.shape[ax] + 1,) + a.shape[ax + 1:], a.dtype)
        else:
            first[key] = np.concatenate([a, a], axis=ax)
    elif fault == 'range':
        train[name % (case['prefix'], nmod + case['present'][0])] = {key: a}
        exc = (IndexError, ValueError)
    elif fault == 'source':
        train['A/B/C'] = {key: a}
    else:
        train.clear()
    ctx.label('fault ' + fault)
    for real in (True, False):
        raises(exc, stack_detector_data, train, key, real_array=real, **kw)
