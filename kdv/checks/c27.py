"""Errors for data which does not exist"""
import os

import numpy as np

from ..common import apply_narrow, close_all, narrow_strategy, open_run_dir
from ..runspec import INST_NAMES, CTRL_NAMES, run_specs

PROPERTY = 'C27'
QUICK, THOROUGH = 9000, 80000
RULE = ('Generated runs narrowed to some fields and trains (perhaps twice, or joined again), and '
        'requests for sources, keys and trains which are not there: removed by the selection, of '
        'another source, or a changed name (shorter, longer, other case, slashes, wildcards). Every '
        'reading method must raise the documented error which names it, and requests for what is '
        'there must still work. Non-trivial: the name was in the run before it was narrowed, or is '
        'one of another source.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'a source which no file of the selected trains has may or may not be in the data']


def strategy(tier):
    from hypothesis import strategies as st
    mangle = st.tuples(st.integers(0, 40), st.integers(0, 9), st.integers(0, 40)).map(list)
    req = st.one_of(
        st.tuples(st.just('source'), st.integers(0, 40), mangle),
        st.tuples(st.just('source'), st.integers(0, 40), mangle),
        st.tuples(st.just('key'), st.integers(0, 40), mangle),
        st.tuples(st.just('key'), st.integers(0, 40), mangle),
        st.tuples(st.just('train'), st.integers(0, 40), st.integers(-3, 3)),
    ).map(list)
    return st.fixed_dictionaries({
        'run': run_specs(max_trains=6, max_files=2,
                         inst_names=[n for n in INST_NAMES if '/DET/' not in n]),
        'narrow': narrow_strategy(),
        'union': st.booleans(),
        'read_first': st.booleans(),
        'reqs': st.lists(req, min_size=1, max_size=5),
    })


def mangled(names, others, m):
    """A name like one of these, or one of the others"""
    i, how, pos = m
    if how < 4 and others:
        return others[i % len(others)]
    if not names:
        return 'x'
    n = names[i % len(names)]
    p = pos % len(n)
    return [n[:-1], n + 'x', n.upper() if n.upper() != n else n.lower(), n[:p] + '*',
            n[:p] + n[p + 1:], n.replace('/', '.') if '/' in n else n.replace('.', '/'),
            n.rpartition('.')[0] or n.rpartition('/')[0], '', n + '.value', n[:p] + '?' + n[p + 1:]
            ][(how + pos) % 10]


def raises(what, types, func, *args, names=(), exact=None, **kw):
    try:
        res = func(*args, **kw)
        if hasattr(res, '__next__'):
            res = list(res)
    except types as e:
        if exact is not None:
            assert isinstance(e, exact), '%s raised %r' % (what, e)
        for n in names:
            assert repr(n) in str(e) or str(n) in str(e), '%s: message %s' % (what, e)
    except Exception as e:
        raise AssertionError('%s raised %r, expected %s' % (what, e, types))
    else:
        raise AssertionError('%s returned %.300r' % (what, res))


def check(case, ctx):
    from karabo_data import PropertyNameError, SourceNameError
    from karabo_data.exceptions import TrainIDError
    run, model, paths = open_run_dir(case['run'], ctx)
    if not model.trains:
        return
    dc, sel, trains = apply_narrow(run, model, case['narrow'])
    if not trains:
        return
    if case['union'] and len(trains) > 1:
        from karabo_data import by_id
        joined = dc.select_trains(by_id[trains[1:]]).union(dc.select_trains(by_id[trains[:1]]))
        if joined.all_sources == dc.all_sources:
            dc = joined
            ctx.label('union')
    if case['read_first']:
        # Nothing found in caches
        run.train_from_index(0)
        for s in run.all_sources:
            run.keys_for_source(s)
    srcs = sorted(dc.all_sources)
    if not srcs:
        return
    control = dc.control_sources
    for kind, i, arg in case['reqs']:
        if kind == 'train':
            check_train(ctx, dc, model, trains, i, arg, sel, TrainIDError)
            continue
        if kind == 'source':
            gone = sorted(set(model.sources) - set(srcs))
            bad = mangled(srcs, gone, arg)
            if bad in srcs or (bad in sel and bad not in gone):
                continue
            s0 = srcs[i % len(srcs)]
            keys = sorted(sel[s0])
            key = keys[i % len(keys)]
            if bad in model.sources:
                key = sorted(model.keys(bad))[i % len(model.keys(bad))]
            error, names = SourceNameError, [bad]
            source = bad
            ctx.nontrivial(bad in model.sources)
            ctx.label('source removed' if bad in model.sources else 'source name')
        else:
            source = srcs[i % len(srcs)]
            mine = sorted(sel[source])
            others = sorted(model.keys(source) - sel[source])
            if arg[1] % 2 or not others:
                others += sorted({k for s in model.sources for k in model.keys(s)} - set(mine))
            key = mangled(mine, others, arg)
            if key in mine:
                continue
            if key == '':
                ctx.label('empty key')
            error, names = PropertyNameError, [key, source]
            ctx.nontrivial(any(key in model.keys(s) for s in model.sources))
            ctx.label('key removed' if key in model.keys(source) else 'key name')

        for meth in ('get_array', 'get_series', 'get_data_counts', 'get_dask_array'):
            raises('%s(%r, %r)' % (meth, source, key), KeyError, getattr(dc, meth), source, key,
                   names=names, exact=error)
        target = ctx.path('virt-%s.h5' % i)
        raises('get_virtual_dataset', KeyError, dc.get_virtual_dataset, source, key,
               filename=target, names=names, exact=error)
        assert not os.path.exists(target)
        for meth in ('select', 'deselect'):
            raises('%s({%r: {%r}})' % (meth, source, key), KeyError, getattr(dc, meth),
                   {source: {key}}, names=names, exact=error)
        tid = trains[i % len(trains)]
        dv = {source: {key}}
        raises('trains(%s)' % dv, KeyError, dc.trains, dv, names=names, exact=error)
        raises('train_from_id(%s)' % dv, KeyError, dc.train_from_id, tid, dv, names=names,
               exact=error)
        raises('train_from_index(%s)' % dv, KeyError, dc.train_from_index, i % len(trains), dv,
               names=names, exact=error)
        raises('get_dataframe(%s)' % dv, KeyError, dc.get_dataframe, dv, names=names, exact=error)
        if error is SourceNameError:
            raises('keys_for_source(%r)' % source, KeyError, dc.keys_for_source, source,
                   names=names, exact=error)
            raises('detector_info(%r)' % source, KeyError, dc.detector_info, source,
                   names=names, exact=error)
            raises('select({%r: {}})' % source, KeyError, dc.select, {source: set()}, names=names,
                   exact=error)
    # Nothing was changed by that: what is there can be read
    s = srcs[0]
    assert set(dc.keys_for_source(s)) == sel[s]
    k = sorted(sel[s])[0]
    want, tids = model.array(s, k, trains)
    got = dc.get_array(s, k)
    assert got.shape == want.shape and [int(t) for t in got.coords['trainId'].values] == tids.tolist()
    assert sorted(dc.all_sources) == srcs
    close_all(run, dc)


def check_train(ctx, dc, model, trains, i, off, sel, TrainIDError):
    gone = [t for t in model.trains if t not in trains]
    if off == 0 and gone:
        bad = gone[i % len(gone)]
        ctx.nontrivial()
        ctx.label('train removed')
    else:
        bad = trains[i % len(trains)] + off
        ctx.label('train ID')
    if bad in trains or bad < 0:
        return
    for t in (bad, np.uint64(bad)):
        raises('train_from_id(%d)' % bad, KeyError, dc.train_from_id, t, names=[bad],
               exact=TrainIDError)
        raises('train_info(%d)' % bad, ValueError, dc.train_info, t, names=[bad])
    dv = {s: set(k) for s, k in sel.items() if s in dc.all_sources}
    raises('train_from_id(%d, devices)' % bad, KeyError, dc.train_from_id, bad, dv, names=[bad],
           exact=TrainIDError)
    n = len(trains)
    for ix in (n + i, -n - 1 - i):
        raises('train_from_index(%d)' % ix, IndexError, dc.train_from_index, ix)
    from karabo_data import by_id
    raises('select_trains(by_id[[%d]])' % bad, ValueError, dc.select_trains, by_id[[bad]])
