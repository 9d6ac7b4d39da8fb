"""Helpers shared by the checks which read generated runs."""
import os

import numpy as np

from .globs import key_matches
from .runspec import Model, build_run, label_spec, same


def narrow_strategy():
    """Plain data describing how to narrow a collection (fields and trains)"""
    from hypothesis import strategies as st
    small = st.integers(-12, 12)
    return st.fixed_dictionaries({
        'fields': st.one_of(st.none(), st.lists(st.integers(0, 40), min_size=1, max_size=6)),
        'trains': st.one_of(
            st.none(),
            st.tuples(st.just('slice'), st.one_of(st.none(), small), st.one_of(st.none(), small),
                      st.sampled_from([None, 1, 2, 3])),
            st.tuples(st.just('ids'), st.lists(st.integers(0, 40), min_size=1, max_size=8)),
            st.tuples(st.just('skip'), st.integers(0, 10), st.integers(0, 10)),
            st.tuples(st.just('idslice'), st.integers(0, 12), st.integers(0, 12),
                      st.sampled_from([0, 0, 1, 2, 3])),
            st.tuples(st.just('index'), st.lists(st.integers(0, 40), min_size=1, max_size=6)),
        ).map(lambda t: t and list(t)),
    })


def narrow_fields(model, choice):
    """{source: set(keys)} for a 'fields' choice"""
    fields = model.fields()
    if choice is None:
        return {s: model.keys(s) for s in model.sources}
    sel = {}
    for i in choice:
        s, k = fields[i % len(fields)]
        sel.setdefault(s, set()).add(k)
    return sel


def narrow_trains(trains, choice):
    """(list of trains, request) for a 'trains' choice. Request None = no call"""
    if choice is None or not trains:
        return list(trains), None
    if choice[0] == 'slice':
        sl = slice(*choice[1:])
        return trains[sl], ('index', sl)
    if choice[0] == 'ids':
        ids = sorted({trains[i % len(trains)] for i in choice[1]})
        return ids, ('id', ids)
    if choice[0] == 'index':
        ix = [i % len(trains) - len(trains) * (i % 2) for i in choice[1]]
        return sorted({trains[i] for i in ix}), ('index', ix)
    if choice[0] == 'idslice':
        a, b = sorted(i % len(trains) for i in choice[1:3])
        open_lo, open_hi = choice[3] & 1, choice[3] & 2
        if not open_hi and a == b:
            open_hi = True
        got = trains[0 if open_lo else a:None if open_hi else b]
        if not got:
            return list(trains), None
        return got, ('id', slice(None if open_lo else trains[a], None if open_hi else trains[b]))
    # 'skip': everything except a run of trains in the middle
    a, b = sorted(i % (len(trains) + 1) for i in choice[1:])
    ids = trains[:a] + trains[b:]
    if not ids:
        return list(trains), None
    return ids, ('id', ids)


def selection_arg(model, sel, choice, have=None):
    """Sources & keys in one of the forms select() takes, with the same meaning

    have: {source: keys} of the collection it is for
    """
    form = choice % 4
    have = have or {s: model.keys(s) for s in model.sources}
    if form == 0:
        return {s: set(k) for s, k in sel.items()}
    if form == 1:
        return {s: (set() if set(k) == set(have[s]) else set(k)) for s, k in sel.items()}
    pairs = []
    for s, keys in sorted(sel.items()):
        if form == 3 and set(keys) == set(have[s]):
            pairs.append((s, '*') if choice % 8 > 3 else [s, '*'])
            continue
        for k in sorted(keys):
            short = k[:-len('.value')] if k.endswith('.value') and choice % 16 > 7 else k
            for pat in (short, k):
                # (the pattern of one key may match another: 'a' and 'a.value')
                if all(k2 in keys for k2 in have[s]
                       if key_matches(pat, k2, s in model.control())) and \
                        key_matches(pat, k, s in model.control()):
                    break
            else:
                return {s: set(k) for s, k in sel.items()}
            pairs.append((s, pat))
    return pairs


def apply_narrow(dc, model, choice):
    """Narrow a collection. Returns (collection, {source: keys}, trains)"""
    from karabo_data import by_id, by_index
    sel = narrow_fields(model, choice['fields'])
    if choice['fields'] is not None:
        dc = dc.select(selection_arg(model, sel, sum(choice['fields'])))
    trains, req = narrow_trains(model.trains, choice['trains'])
    if req is not None:
        dc = dc.select_trains(by_index[req[1]] if req[0] == 'index' else by_id[req[1]])
    return dc, sel, trains


def covered(model, source, trains):
    """Trains for which some file has this source"""
    return [t for t in trains if t in model.sources[source]['trains']]


def check_shape_of(dc, model, sel, trains):
    """Sources, keys and trains of a collection are those expected.

    A source none of whose files overlap the selected trains may or may not be listed.
    """
    assert list(dc.train_ids) == list(trains), (list(dc.train_ids), trains)
    srcs = set(dc.all_sources)
    assert srcs <= set(sel), 'unexpected sources %s' % (srcs - set(sel))
    for s in sel:
        if covered(model, s, trains):
            assert s in srcs, 'source %s missing' % s
    assert set(dc.control_sources) == srcs & model.control()
    assert set(dc.instrument_sources) == srcs & model.instrument()
    for s in srcs:
        assert set(dc.keys_for_source(s)) == set(sel[s]), s


def open_run_dir(spec, ctx, name='run'):
    """Build the files, return (RunDirectory collection, model, paths)"""
    from karabo_data import RunDirectory
    with ctx.building():
        d = ctx.path(name)
        paths = build_run(spec, d)
        model = label_spec(spec, ctx)
    return RunDirectory(d), model, paths


def check_train_dict(data, model, sel, tid, what):
    """A {source: {key: value}} dict is exactly what is recorded for the train"""
    assert set(data) <= set(sel), '%s: unexpected sources %s' % (what, set(data) - set(sel))
    for s, keys in sel.items():
        want = model.train_data(s, keys, tid)
        if s not in data:
            assert not want, '%s: source %s missing' % (what, s)
            continue
        got = dict(data[s])
        md = got.pop('metadata')
        assert md['source'] == s and md['timestamp.tid'] == tid, (what, md)
        assert set(got) == set(want), '%s: %s: keys %s, expected %s' % (
            what, s, sorted(got), sorted(want))
        for k, v in want.items():
            same(got[k], v, '%s: %s %s train %d' % (what, s, k, tid))


def close_all(*dcs):
    for dc in dcs:
        for f in dc.files:
            f.close()
