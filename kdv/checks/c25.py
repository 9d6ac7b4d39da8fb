"""trains(require_all=...)"""
from ..common import (apply_narrow, check_train_dict, close_all, narrow_fields, narrow_strategy,
                      narrow_trains, open_run_dir, selection_arg)
from ..runspec import run_specs, some_long

PROPERTY = 'C25'
QUICK, THOROUGH = 8000, 80000
RULE = ('Generated runs with sources, groups, files and entries missing for some trains, narrowed by '
        'selections before or in the call of trains(), or joined from two parts. The trains with '
        'require_all=True must be exactly those with an entry of every selected field, in order, '
        'with the same data as without. Non-trivial: some trains are left out and some are not.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'a source which no file of the selected trains has does not count as selected']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=16 if tier == 'thorough' else 10), 40),
        'narrow': narrow_strategy(),
        'devices': st.one_of(st.none(), narrow_strategy()),
        'range': st.one_of(st.none(), narrow_strategy()),
        'union': st.one_of(st.none(), st.none(), st.integers(0, 10)),
        'form': st.integers(0, 15),
        'order': st.permutations([True, False, None]),
    })


def check(case, ctx):
    from karabo_data import by_id, by_index
    run, model, paths = open_run_dir(case['run'], ctx)
    if not model.trains:
        assert list(run.trains(require_all=True)) == []
        return
    dc, sel, trains = apply_narrow(run, model, case['narrow'])
    if case['union'] is not None and len(trains) > 1:
        # The same selection, put together from two parts
        k = 1 + case['union'] % (len(trains) - 1)
        parts = [dc.select_trains(by_id[trains[:k]]), dc.select_trains(by_id[trains[k:]])]
        joined = parts[case['union'] % 2].union(parts[1 - case['union'] % 2])
        if joined.all_sources == dc.all_sources:
            dc = joined
            ctx.label('union')
    kw, sel2, trains2 = {}, sel, trains
    dv, rg = case['devices'], case['range']
    if dv is not None:
        pick = narrow_fields(model, dv['fields'])
        pick = {s: k & sel[s] for s, k in pick.items()
                if s in sel and s in dc.all_sources and k & sel[s]}
        if pick:
            sel2 = pick
            kw['devices'] = selection_arg(model, pick, case['form'], sel)
    if rg is not None:
        trains2, req = narrow_trains(trains, rg['trains'])
        if req is not None:
            kw['train_range'] = (by_index if req[0] == 'index' else by_id)[req[1]]
    # Which sources does the selection have?
    ref = dc
    if 'devices' in kw:
        ref = ref.select(kw['devices'])
    if 'train_range' in kw:
        ref = ref.select_trains(kw['train_range'])
    sel2 = {s: k for s, k in sel2.items() if s in ref.all_sources}
    complete = [t for t in trains2 if model.has_all(sel2, t)]

    for flag in case['order']:
        args = dict(kw)
        if flag is not None:
            args['require_all'] = flag
        got = []
        for tid, data in dc.trains(**args):
            got.append(tid)
            check_train_dict(data, model, sel2, tid, 'trains(require_all=%s)' % flag)
            if flag:
                for s, keys in sel2.items():
                    assert keys <= set(data[s]), (tid, s, keys - set(data[s]))
        want = complete if flag else trains2
        assert got == want, 'trains(require_all=%s): %s, expected %s' % (flag, got, want)
    ctx.nontrivial(0 < len(complete) < len(trains2))
    if not complete:
        ctx.label('no complete train')
    if len(complete) == len(trains2):
        ctx.label('all complete')
    close_all(run, dc)
