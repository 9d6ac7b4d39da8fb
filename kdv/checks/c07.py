"""select_trains, by_id, by_index"""
import numpy as np

from ..common import close_all, covered, open_run_dir
from ..runspec import run_specs, same, some_long

PROPERTY = 'C07'
QUICK, THOROUGH = 5000, 50000
RULE = ('Generated runs with gaps in the train IDs and sequences of up to 4 train selections '
        '(by_id / by_index, slices with bounds at, between and outside the train IDs, lists and '
        'arrays, invalid requests), each compared with Python list semantics / interval arithmetic '
        'on the current trains; the result is then read. Also repr() of generated by_id / by_index '
        'objects. Non-trivial: some selection kept a proper non-empty subset of at least 3 trains.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'slice steps are positive (the order of a reversed selection is not specified)']


def strategy(tier):
    from hypothesis import strategies as st
    lim = st.one_of(st.none(), st.integers(-14, 14))
    # a bound given as (train index, offset to that train ID)
    tid = st.one_of(st.none(), st.tuples(st.integers(-1, 14), st.integers(-2, 3)).map(list))
    step = st.sampled_from([None, None, 1, 2, 3, 5])
    kinds = st.sampled_from(['list', 'array', 'nplist'])
    op = st.one_of(
        st.tuples(st.just('id slice'), tid, tid, step),
        st.tuples(st.just('id slice'), tid, tid, step),
        st.tuples(st.just('index slice'), lim, lim, step),
        st.tuples(st.just('id list'), st.lists(st.tuples(st.integers(0, 14), st.sampled_from(
            [0, 0, 0, 1, -1])).map(list), min_size=1, max_size=6), kinds),
        st.tuples(st.just('index list'), st.lists(st.integers(-12, 14), min_size=1, max_size=6), kinds),
        st.tuples(st.just('bad'), st.integers(0, 9)),
    ).map(list)
    item = st.one_of(
        st.integers(-5, 50).map(lambda i: ['i', i]),
        st.tuples(st.just('s'), lim, lim, st.sampled_from([None, 1, 2, -1])).map(list),
        st.just(['e']),
        st.lists(st.integers(0, 10), max_size=3).map(lambda v: ['l', v]))
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=12, max_sources=2, max_keys=2, dtypes=('f8', 'i4'),
                                   shapes=[[], [2]], min_trains=1), 30, big=False),
        'ops': st.lists(op, min_size=1, max_size=4),
        'repr': st.tuples(st.booleans(), st.booleans(), st.lists(item, min_size=1, max_size=3)).map(list),
    })


def spread(i, trains):
    """Positions all over a long run"""
    if i is None or len(trains) <= 14:
        return i
    return i * len(trains) // 13


def as_kind(ids, kind):
    if kind == 'array':
        return np.array(ids, dtype=np.int64 if min(ids) < 0 else np.uint64)
    if kind == 'nplist':
        return [np.int64(i) if i < 0 else np.uint64(i) for i in ids]
    return list(ids)


def bound(b, trains):
    if b is None:
        return None
    i, off = b
    i = spread(i, trains)
    return max(trains[max(0, min(i, len(trains) - 1))] + off, 0)


def check(case, ctx):
    from karabo_data import by_id, by_index
    check_repr(case['repr'])
    run, model, paths = open_run_dir(case['run'], ctx)
    dc, trains = run, list(model.trains)
    for op in case['ops']:
        if not trains:
            break
        kind = op[0]
        must_fail = may_fail = None
        if kind == 'id slice':
            a, b = bound(op[1], trains), bound(op[2], trains)
            req = by_id[slice(a, b, op[3])]
            want = [t for t in trains if (a is None or t >= a) and (b is None or t < b)][::op[3] or 1]
            if (a is not None and a > trains[-1]) or (b is not None and b < trains[0]):
                must_fail = ValueError
            elif not want:
                may_fail = ValueError
            if a not in trains and a is not None:
                ctx.label('slice bound not in the data')
        elif kind == 'index slice':
            sl = slice(spread(op[1], trains), spread(op[2], trains), op[3])
            req, want = by_index[sl], trains[sl]
        elif kind == 'id list':
            ids = [max(trains[spread(i, trains) % len(trains)] + off, 0) for i, off in op[1]]
            req = by_id[as_kind(ids, op[2])]
            want = [t for t in trains if t in ids]
            if not want:
                must_fail = ValueError
        elif kind == 'index list':
            ixs = [spread(i, trains) for i in op[1]]
            req = by_index[as_kind(ixs, op[2])]
            if any(not -len(trains) <= i < len(trains) for i in ixs):
                must_fail, want = IndexError, None
            else:
                want = [t for i, t in enumerate(trains) if i in ixs or i - len(trains) in ixs]
        else:
            args = [5, slice(0, 2), [trains[0]], None, by_id[trains[0]], by_index[0],
                    by_id[trains[0], trains[0]], (0, 1), 'abc', by_id[None]]
            req, must_fail, want = args[op[1]], TypeError, None
        ctx.label(kind)
        before = list(trains)
        try:
            dc2 = dc.select_trains(req)
        except (ValueError, IndexError, TypeError) as e:
            exp = must_fail or may_fail
            assert exp is not None and isinstance(e, exp), '%r raised %r' % (req, e)
            ctx.label('refused')
            assert list(dc.train_ids) == before
            continue
        assert must_fail is None, '%r on trains %s was accepted' % (req, trains)
        assert [int(t) for t in dc2.train_ids] == want, '%r on %s: got %s, expected %s' % (
            req, trains, list(dc2.train_ids), want)
        assert list(dc.train_ids) == before, 'select_trains changed its collection'
        ctx.nontrivial(0 < len(want) < len(trains) and len(trains) >= 3)
        dc, trains = dc2, want

        for s, k in model.fields():
            if s not in dc.all_sources:
                assert not covered(model, s, trains), 'source %s is gone' % s
                continue
            vals, tids = model.array(s, k, trains)
            arr = dc.get_array(s, k)
            same(arr.values, vals, 'get_array(%s, %s) after %r' % (s, k, req))
            same(arr.coords['trainId'].values, tids, 'trainId')
    assert [int(t) for t, _ in dc.trains()] == trains
    if not trains:
        check_empty(dc, ctx)
    close_all(run)


def check_empty(dc, ctx):
    """Selecting from no trains"""
    from karabo_data import by_id, by_index
    ctx.label('selecting from nothing')
    for req, exc in [(by_id[:], None), (by_index[:], None), (by_index[1:3], None),
                     (by_id[5:], ValueError), (by_id[:5], ValueError), (by_id[1:9:2], ValueError),
                     (by_id[[5]], ValueError), (by_index[[0]], IndexError), (3, TypeError)]:
        try:
            res = dc.select_trains(req)
        except (ValueError, IndexError, TypeError) as e:
            assert exc is not None and isinstance(e, exc), '%r of no trains raised %r' % (req, e)
        else:
            assert exc is None, '%r of no trains was accepted' % (req,)
            assert len(res.train_ids) == 0


def check_repr(spec):
    from karabo_data import by_id, by_index
    as_id, single, items = spec
    vals = []
    for it in items:
        if it[0] == 's':
            vals.append(slice(*it[1:]))
        elif it[0] == 'e':
            vals.append(Ellipsis)
        else:
            vals.append(it[1])
    cls = by_id if as_id else by_index
    val = vals[0] if (single or len(vals) == 1) else tuple(vals)
    obj = cls[val]
    again = eval(repr(obj), {'by_id': by_id, 'by_index': by_index})
    assert type(again) is cls and type(again.value) is type(val) and again.value == val, \
        '%r -> %s -> %r' % (val, repr(obj), again.value)
