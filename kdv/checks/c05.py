"""get_data_counts"""
import numpy as np

from ..common import apply_narrow, close_all, covered, narrow_strategy, open_run_dir
from ..runspec import run_specs, some_long

PROPERTY = 'C05'
QUICK, THOROUGH = 4000, 40000
RULE = ('Generated runs narrowed to some fields and trains; the series from get_data_counts is '
        'compared with the entry count of every selected train. Non-trivial: at least 2 trains in '
        'the result, with different counts or from several files.')
ASSUMPTIONS = ['files are well-formed as the validator defines it']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=14 if tier == 'thorough' else 10), 40),
        'narrow': narrow_strategy(),
    })


def check(case, ctx):
    run, model, paths = open_run_dir(case['run'], ctx)
    if not model.trains:
        return
    dc, sel, trains = apply_narrow(run, model, case['narrow'])
    for s, k in model.fields():
        if s not in dc.all_sources or k not in sel.get(s, ()):
            continue
        ser = dc.get_data_counts(s, k)
        got = [(int(t), int(n)) for t, n in zip(ser.index.values, ser.values)]
        want = [(t, model.count(s, k, t)) for t in covered(model, s, trains)]
        assert got == want, ('get_data_counts', s, k, got, want)
        for (t, n), v in zip(got, ser.values):
            assert n == v      # counts are whole numbers
        ctx.nontrivial(len(want) > 1 and (len({n for _, n in want}) > 1
                                          or 'several files' in ctx.case_labels))
        assert sum(n for _, n in got) == dc.get_array(s, k).shape[0]
    close_all(run, dc)
