"""Per-train reading"""
from ..common import (apply_narrow, check_shape_of, check_train_dict, close_all, narrow_fields,
                      narrow_strategy, narrow_trains, open_run_dir, selection_arg)
from ..runspec import run_specs, some_long

PROPERTY = 'C01'
QUICK, THOROUGH = 4000, 40000
RULE = ('Generated runs (1-3 aggregators x 1-3 sequence files, gaps in train IDs, 0-4 entries per '
        'train, both index and metadata formats, padding) narrowed to some fields and trains; every '
        'selected train is read by ID, by index and by iteration, and compared with the values '
        'which were written. Non-trivial: at least 2 trains selected and some field whose entry '
        'count differs from 1 in some train, or more than one file.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'sequence files of one aggregator do not interleave in train ID']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=14 if tier == 'thorough' else 10), 50),
        'narrow': narrow_strategy(),
        'devices': st.one_of(st.none(), narrow_strategy()),
        'range': st.one_of(st.none(), narrow_strategy()),
        'bad': st.integers(0, 50),
    })


def check(case, ctx):
    from karabo_data import by_id, by_index
    run, model, paths = open_run_dir(case['run'], ctx)
    if not model.trains:
        assert list(run.train_ids) == []
        assert list(run.trains()) == []
        return
    dc, sel, trains = apply_narrow(run, model, case['narrow'])
    check_shape_of(dc, model, sel, trains)
    ctx.nontrivial(len(trains) > 1 and ('train without entries' in ctx.case_labels
                                        or 'several entries per train' in ctx.case_labels
                                        or 'several files' in ctx.case_labels))

    for t in trains:
        tid, data = dc.train_from_id(t)
        assert tid == t
        check_train_dict(data, model, sel, t, 'train_from_id')
    for i in range(-len(trains), len(trains)):
        tid, data = dc.train_from_index(i)
        assert tid == trains[i]
        check_train_dict(data, model, sel, trains[i], 'train_from_index')
    got = []
    for tid, data in dc.trains():
        got.append(tid)
        check_train_dict(data, model, sel, tid, 'trains()')
    assert got == trains, ('trains()', got, trains)

    # Train IDs which are not in the data
    existing = set(trains)
    cands = [t for t in model.trains if t not in existing]
    cands += [model.trains[0] - 1, model.trains[-1] + 1] + [t + 1 for t in trains]
    cands = [t for t in cands if t not in existing]
    bad = cands[case['bad'] % len(cands)]
    try:
        dc.train_from_id(bad)
    except KeyError:
        pass
    else:
        raise AssertionError('train_from_id(%d) did not raise' % bad)
    for i in (len(trains), -len(trains) - 1):
        try:
            dc.train_from_index(i)
        except IndexError:
            pass
        else:
            raise AssertionError('train_from_index(%d) did not raise' % i)

    # devices= and train_range= are the same as selecting first
    dv, rg = case['devices'], case['range']
    if trains and (dv is not None or rg is not None):
        devices, sel2, trains2, range_arg = None, sel, trains, None
        if dv is not None:
            pick = narrow_fields(model, dv['fields'])
            sel2 = {s: k & sel[s] for s, k in pick.items()
                    if s in dc.all_sources and k & sel[s]}
            if not sel2:
                sel2 = sel
            sel2 = {s: k for s, k in sel2.items() if s in dc.all_sources}
            devices = selection_arg(model, sel2, case['bad'],
                                    {s: sel[s] & model.keys(s) for s in sel})
            ctx.label('devices as %s' % type(devices).__name__)
        if rg is not None:
            trains2, req = narrow_trains(trains, rg['trains'])
            if req is not None:
                range_arg = by_index[req[1]] if req[0] == 'index' else by_id[req[1]]
        got = []
        for tid, data in dc.trains(devices=devices, train_range=range_arg):
            got.append(tid)
            check_train_dict(data, model, sel2, tid, 'trains(devices, train_range)')
        assert got == trains2
        if devices is not None:
            ctx.label('devices argument')
            for i, t in enumerate(trains):
                check_train_dict(dc.train_from_id(t, devices=devices)[1], model, sel2, t,
                                 'train_from_id(devices)')
                tid, data = dc.train_from_index(i, devices=devices)
                assert tid == t
                check_train_dict(data, model, sel2, t, 'train_from_index(devices)')
    close_all(run, dc)
