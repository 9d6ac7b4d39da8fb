"""Independence of the file layout; union; conflicts"""
import os
import shutil
from unittest import mock

import numpy as np

from ..common import (apply_narrow, check_train_dict, close_all, covered, narrow_strategy)
from ..runspec import (Model, agg_trains, build_run, label_spec, run_specs, same, some_long)

PROPERTY = 'C08'
QUICK, THOROUGH = 1600, 20000
RULE = ('A generated run is written twice: as generated, and with each aggregator\'s trains cut into '
        'other sequence files and its sources spread over other files. Both are opened whole (with '
        'a generated order of the directory listing) and the second also file by file, joined by '
        'union() in a generated order and grouping; all reading is compared with the model. Also '
        'unions of two narrowed collections, and a second copy of some trains of a source, which '
        'must be refused. Non-trivial: the second layout has more than 2 files, or the '
        'conflict / union part applied to at least 2 files.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'when sequence files of one aggregator interleave in train ID, the order of entries '
               'in arrays and series is not checked, only which there are for each train']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=12 if tier == 'thorough' else 8, max_keys=2), 60,
                         sizes=(40, 64, 128)),
        'cuts': st.lists(st.integers(0, 12), max_size=4),
        # Files with every nth train; 0: files with successive trains
        'interleave': st.sampled_from([0, 0, 0, 2, 3]),
        # Which sequence number, and run number, each file has in its name
        'names': st.tuples(st.booleans(), st.integers(0, 10 ** 6), st.integers(1, 3)).map(list),
        # Files with the same name in different directories
        'apart': st.sampled_from([False, True]),
        'spread': st.lists(st.integers(0, 2), min_size=6, max_size=6),
        'perm': st.integers(0, 10 ** 6),
        'group': st.lists(st.booleans(), min_size=8, max_size=8),
        'a': narrow_strategy(), 'b': narrow_strategy(),
        'conflict': st.fixed_dictionaries({
            'on': st.booleans(), 'source': st.integers(0, 30), 'train': st.integers(0, 30),
            'extra': st.integers(0, 3)}),
    })


def relayout(spec, cuts, spread, interleave=0, names=(False, 0, 1)):
    """The same data in other files"""
    aggs = []
    n = 0
    for a in spec['aggs']:
        mine = agg_trains(a)
        bounds = sorted({0, len(mine)} | {c % (len(mine) + 1) for c in cuts})
        if len(bounds) == 1:
            bounds = [0, 0]
        files = [{'trains': mine[lo:hi], 'pad': 1} for lo, hi in zip(bounds[:-1], bounds[1:])]
        if interleave:
            files = [{'trains': mine[i::interleave], 'pad': 1} for i in range(interleave)]
        parts = {}
        for i, s in enumerate(a['sources']):
            parts.setdefault(spread[i % len(spread)], []).append(s)
        for srcs in parts.values():
            n += 1
            files = [dict(f) for f in files]
            if names[0]:
                seqs = permute(range(len(files)), names[1] + n)
                for f, i in zip(files, seqs):
                    f['name'] = 'RAW-R%04d-DA%02d-S%05d.h5' % ((names[1] + i) % names[2], n, i)
            aggs.append({'name': 'DA%02d' % n, 'sources': srcs, 'files': files})
    return {'version': '1.0' if spec['version'] == '0.5' else '0.5', 'aggs': aggs}


def permute(items, seed):
    items = list(items)
    out = []
    while items:
        seed, r = divmod(seed * 48271 + 11, len(items))
        out.append(items.pop(r))
        seed = seed % 2147483647
    return out


def is_1d(model, s, k):
    f = model.sources[s]['keys'][k]
    return f['shape'] == () and max(f['counts'].values(), default=0) <= 1


def equal_lists(a, b):
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def check_all(dc, model, what, interleaved=False):
    """Everything reads as the model says

    interleaved: if the files of a source interleave in train ID, the order of the entries is not
    specified: only which there are for each train.
    """
    assert [int(t) for t in dc.train_ids] == model.trains, (what, dc.train_ids)
    assert set(dc.control_sources) == model.control(), what
    assert set(dc.instrument_sources) == model.instrument(), what
    sel = {s: model.keys(s) for s in model.sources}
    some_1d = []
    for s in sel:
        assert set(dc.keys_for_source(s)) == sel[s], (what, s)
    for s, k in model.fields():
        want, tids = model.array(s, k, model.trains)
        arr = dc.get_array(s, k)
        dask = dc.get_dask_array(s, k)
        values, got_tids, dvals = arr.values, arr.coords['trainId'].values, dask.compute()
        if interleaved:
            order = np.argsort(got_tids, kind='stable')
            values, got_tids, dvals = values[order], got_tids[order], dvals[order]
        same(values, want, '%s: get_array(%s, %s)' % (what, s, k))
        same(got_tids, tids, what + ' trainId')
        same(dvals, want, '%s: get_dask_array(%s, %s)' % (what, s, k))
        if is_1d(model, s, k):
            ser = dc.get_series(s, k)
            if interleaved:
                ser = ser.sort_index()
            # (the dtype of an empty series, and of strings, is not compared)
            assert [int(t) for t in ser.index] == tids.tolist(), \
                ('%s: get_series(%s, %s)' % (what, s, k), ser.index, tids)
            assert equal_lists(ser.tolist(), want.tolist()), \
                ('%s: get_series(%s, %s)' % (what, s, k), ser, want)
            some_1d.append((s, k))
        counts = dc.get_data_counts(s, k)
        assert {int(t): int(c) for t, c in counts.items()} == {
            t: model.count(s, k, t) for t in covered(model, s, model.trains)}, (what, s, k)
    for tid, data in dc.trains():
        check_train_dict(data, model, sel, tid, what)
    if some_1d:
        df = dc.get_dataframe([(s, k) for s, k in some_1d], timestamps=True)
        cols = {s + '/' + (k[:-6] if k.endswith('.value') else k) for s, k in some_1d}
        assert set(df.columns) == cols, (what, df.columns, cols)
        for s, k in some_1d:
            col = df[s + '/' + (k[:-6] if k.endswith('.value') else k)]
            want, tids = model.array(s, k, model.trains)
            got = {int(t): v for t, v in zip(col.index, col.tolist())}
            if want.dtype.kind in 'iu' and col.dtype.kind == 'f':
                want = want.astype(col.dtype)   # pandas does this if there are gaps
            for t, v in zip(tids.tolist(), want.tolist()):
                assert t in got and equal_lists([got[t]], [v]), (what, 'get_dataframe', s, k, t, got.get(t), v)


def check(case, ctx):
    from karabo_data import H5File, RunDirectory
    spec = case['run']
    with ctx.building():
        model = label_spec(spec, ctx)
        spec2 = relayout(spec, case['cuts'], case['spread'], case['interleave'], case['names'])
        d1, d2 = ctx.path('one'), ctx.path('two')
        build_run(spec, d1)
        paths2 = build_run(spec2, d2)
    if not model.trains:
        return
    orig_listdir = os.listdir
    with mock.patch('os.listdir', lambda p='.': permute(sorted(orig_listdir(p)), case['perm'])):
        one = RunDirectory(d1)
        two = RunDirectory(d2)
    check_all(one, model, 'as generated')
    inter = case['interleave'] > 0
    if inter:
        ctx.label('interleaved files')
    check_all(two, model, 'other layout', inter)

    # Open each file alone, and join them
    if case['apart']:
        ctx.label('files with the same name')
        with ctx.building():
            for i, p in enumerate(paths2):
                os.mkdir(ctx.path('apart%d' % i))
                paths2[i] = ctx.path('apart%d' % i, 'RAW-R0001-DA01-S00000.h5')
                os.link(p, paths2[i])
    singles = [H5File(p) for p in permute(paths2, case['perm'])]
    if len(singles) > 1:
        ctx.nontrivial(len(singles) > 2)
        joined = singles[0].union(*singles[1:])
        check_all(joined, model, 'joined at once', inter)
        g = [[], []]
        for i, f in enumerate(singles):
            g[case['group'][i % len(case['group'])]].append(f)
        parts = []
        for fs in g:
            acc = None
            for f in fs:
                acc = f if acc is None else acc.union(f)
            if acc is not None:
                parts.append(acc)
        if len(parts) == 2:
            check_all(parts[0].union(parts[1]), model, 'joined in groups', inter)
            check_all(parts[1].union(parts[0]), model, 'joined in groups, other way', inter)
            ctx.label('grouped union')
        # joining with itself, or with parts of itself, changes nothing
        check_all(joined.union(*singles), model, 'joined again', inter)

    # Unions of selections
    a, sel_a, tr_a = apply_narrow(two, model, case['a'])
    b, sel_b, tr_b = apply_narrow(two, model, case['b'])
    before = (list(a.train_ids), set(a.all_sources), list(b.train_ids), set(b.all_sources))
    u = a.union(b)
    assert before == (list(a.train_ids), set(a.all_sources), list(b.train_ids), set(b.all_sources))
    assert [int(t) for t in u.train_ids] == sorted(set(tr_a) | set(tr_b))
    # A selected source without a file for the selected trains may or may not be listed
    srcs = set(u.all_sources)
    assert set(a.all_sources) | set(b.all_sources) <= srcs <= set(sel_a) | set(sel_b)
    assert set(u.control_sources) == srcs & model.control()
    assert set(u.instrument_sources) == srcs & model.instrument()
    for s in u.all_sources:
        want = set()
        for dc, sel in ((a, sel_a), (b, sel_b)):
            if s in dc.all_sources:
                want |= sel[s]
        allowed = want | sel_a.get(s, set()) | sel_b.get(s, set())
        got = set(u.keys_for_source(s))
        assert want <= got <= allowed, (s, got, want)
    for tid, data in u.trains():
        for s, d in data.items():
            for k, v in d.items():
                if k != 'metadata':
                    e = model.entries(s, k, tid)
                    same(v, e[0] if len(e) == 1 else e, 'union train %d %s %s' % (tid, s, k))
        for dc, sel, tr in ((a, sel_a, tr_a), (b, sel_b, tr_b)):
            if tid in tr:
                for s in sel:
                    for k in sel[s]:
                        if model.count(s, k, tid):
                            assert k in data.get(s, {}), ('union lost data', s, k, tid)
    for s in u.all_sources:
        for k in u.keys_for_source(s):
            need = [t for t in u.train_ids
                    if any(t in tr and k in sel.get(s, ()) for sel, tr in
                           ((sel_a, tr_a), (sel_b, tr_b)))]
            arr = u.get_array(s, k)
            got_t = [int(t) for t in arr.coords['trainId'].values]
            want_t = sorted(set(got_t) | {t for t in need if model.count(s, k, t)})
            want, tids = model.array(s, k, want_t)
            vals = arr.values
            if inter:
                order = np.argsort(arr.coords['trainId'].values, kind='stable')
                vals, got_t = vals[order], [got_t[i] for i in order]
            same(vals, want, 'union get_array')
            assert got_t == tids.tolist()

    # Two files with the same source for the same train
    c = case['conflict']
    srcs = sorted(s for s in model.sources if model.sources[s]['trains'])
    if c['on'] and srcs:
        with ctx.building():
            name = srcs[c['source'] % len(srcs)]
            agg = [a for a in spec['aggs'] if any(s['name'] == name for s in a['sources'])][0]
            src = [s for s in agg['sources'] if s['name'] == name][0]
            mine = agg_trains(agg)
            dup = mine[c['train'] % len(mine)]
            trains = sorted({dup} | {model.trains[-1] + 1 + i for i in range(c['extra'])})
            spec3 = {'version': spec['version'], 'aggs': [
                {'name': 'DA77', 'sources': [src], 'files': [{'trains': trains, 'pad': 0}]}]}
            d3 = ctx.path('three')
            extra = build_run(spec3, d3)[0]
            shutil.copy(extra, d1)
            # and one with the same source, but only other trains
            ok_trains = [model.trains[-1] + 100, model.trains[-1] + 101]
            spec4 = {'version': spec['version'], 'aggs': [
                {'name': 'DA78', 'sources': [src], 'files': [{'trains': ok_trains, 'pad': 0}]}]}
            extra_ok = build_run(spec4, ctx.path('four'))[0]
        ctx.label('conflict')
        ctx.nontrivial()
        for what, f in (('RunDirectory', lambda: RunDirectory(d1)),
                        ('union', lambda: one.union(H5File(extra))),
                        ('union, other way', lambda: H5File(extra).union(two))):
            try:
                f()
            except ValueError:
                pass
            else:
                raise AssertionError('%s accepted two files with %s for train %d' % (what, name, dup))
        u = two.union(H5File(extra_ok))
        assert [int(t) for t in u.train_ids] == model.trains + ok_trains
        assert set(u.all_sources) == set(two.all_sources)
    close_all(one, two, *singles)
