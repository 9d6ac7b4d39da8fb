"""get_series and get_dataframe"""

import numpy as np

from ..common import apply_narrow, close_all, narrow_strategy, open_run_dir
from ..runspec import (CTRL_NAMES, INST_NAMES, run_specs, same, some_long)

PROPERTY = 'C04'
QUICK, THOROUGH = 3000, 24000
RULE = ('Generated runs of one-dimensional fields (control, instrument with 0 or 1 entries per '
        'train, and per-pulse groups with a pulseId field) narrowed to some fields and trains; each '
        'series and a data frame of all of them are compared with the recorded entries. '
        'Non-trivial: at least 2 rows and either a train without an entry, several files, or '
        'several pulses in a train.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'instrument fields with several entries per train lie in a group with a pulseId '
               'field, in the layout of raw (an extra dimension of length 1) or corrected data']


def pulse_sources():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw, name, tids):
        k = min(len(tids), 12)
        cs = draw(st.lists(st.sampled_from([0, 1, 2, 3, 4]), min_size=k, max_size=k))
        cs = [cs[i % k] for i in range(len(tids))]
        at = draw(st.sampled_from([0, 0, 0, len(tids) // 2, len(tids) - 1]))
        # several pulses only in the trains after this
        cs = [c if i >= at else min(c, 1) for i, c in enumerate(cs)]
        shape = draw(st.sampled_from([[1], [1], []]))   # raw, raw, corrected
        return {'kind': 'inst', 'name': name, 'pulses': True, 'groups': [
            {'name': 'image', 'index': draw(st.sampled_from(['count', 'last'])),
             'counts': {str(t): c for t, c in zip(tids, cs) if c},
             'junk': draw(st.integers(0, 2)),
             'keys': [{'key': 'pulseId', 'dtype': 'u8', 'shape': shape},
                      {'key': 'cellId', 'dtype': 'u2', 'shape': shape},
                      {'key': 'length', 'dtype': 'f4', 'shape': shape}]}]}
    return strat


def strategy(tier):
    from hypothesis import strategies as st
    names = [n for n in INST_NAMES if '/DET/' not in n]
    runs = some_long(run_specs(max_trains=14 if tier == 'thorough' else 10, max_files=5, only_scalar=True,
                               max_count=1, inst_names=names),
                     40, only_scalar=True, max_count=1, big=False, inst_names=names)

    @st.composite
    def with_pulses(draw):
        run = draw(runs)
        # 'sparse' counts may be 2: cut down
        for a in run['aggs']:
            for s in a['sources']:
                for g in s.get('groups', []):
                    g['counts'] = {t: 1 for t in g['counts']}
        if run['aggs'] and draw(st.sampled_from([True, False, False])):
            a = run['aggs'][draw(st.integers(0, len(run['aggs']) - 1))]
            tids = [t for f in a['files'] for t in f['trains']]
            a['sources'].append(draw(pulse_sources()('SPB_DET_AGIPD1M-1/DET/0CH0:xtdf', tids)))
        return run
    return st.fixed_dictionaries({
        'run': with_pulses(),
        'narrow': narrow_strategy(),
        'timestamps': st.booleans(),
        'via': st.sampled_from(['none', 'dict', 'list']),
    })


def colname(s, k):
    name = s + '/' + k
    return name[:-len('.value')] if name.endswith('.value') else name


def check(case, ctx):
    spec = case['run']
    run, model, paths = open_run_dir(spec, ctx)
    if not model.trains:
        return
    dc, sel, trains = apply_narrow(run, model, case['narrow'])
    multi = set()
    for a in spec['aggs']:
        for s in a['sources']:
            if s.get('pulses'):
                multi.add(s['name'])
                ctx.label('per-pulse source')

    fields = [(s, k) for s, k in model.fields() if s in dc.all_sources and k in sel.get(s, ())]
    for s, k in fields:
        ser = dc.get_series(s, k)
        want, tids = model.array(s, k, trains)
        what = 'get_series(%s, %s)' % (s, k)
        assert ser.name == colname(s, k), (ser.name, s, k)
        if s in multi:
            want = want.reshape(len(want))
            pulses, _ = model.array(s, 'image.pulseId', trains)
            if ser.index.nlevels == 2:
                got_t = [int(t) for t in ser.index.get_level_values(0)]
                got_p = [int(t) for t in ser.index.get_level_values(1)]
                assert got_p == pulses.ravel().tolist(), (what, got_p, pulses.ravel().tolist())
            else:
                assert all(model.count(s, k, t) <= 1 for t in trains), \
                    what + ': pulses not labelled'
                got_t = [int(t) for t in ser.index]
        else:
            assert ser.index.nlevels == 1
            got_t = [int(t) for t in ser.index]
        names = ['trainId', 'pulseId'][:ser.index.nlevels]
        assert list(ser.index.names) == names, (what, ser.index.names)
        assert got_t == tids.tolist(), (what, got_t, tids.tolist())
        values = ser.values
        if want.dtype.kind == 'S':      # pandas has only Python strings
            want, values = want.astype('O'), values.astype('O')
        same(values, want, what)
        ctx.nontrivial(len(want) > 1 and (len(want) != len(trains) or s in multi
                                          or 'several files' in ctx.case_labels))

    # Data frame of everything with one entry per train
    fields = [(s, k) for s, k in fields if s not in multi]
    cols = [(s, k) for s, k in fields if case['timestamps'] or not k.endswith('.timestamp')]
    if not cols:
        return
    dct = {}
    for s, k in fields:
        dct.setdefault(s, set()).add(k)
    if case['via'] == 'none':
        df = dc.select(dct).get_dataframe(timestamps=case['timestamps'])
    elif case['via'] == 'dict':
        df = dc.get_dataframe(dct, timestamps=case['timestamps'])
    else:
        df = dc.get_dataframe([(s, k) for s, k in fields if not _implied(dct, s, k)],
                              timestamps=case['timestamps'])
    names = sorted(colname(s, k) for s, k in cols)
    assert sorted(df.columns) == names, (sorted(df.columns), names)
    rows = sorted(t for t in trains if any(model.count(s, k, t) for s, k in cols))
    assert sorted(int(t) for t in df.index) == rows, (list(df.index), rows)
    for s, k in cols:
        col = df[colname(s, k)]
        missing = False
        for t in rows:
            v = col.loc[t]
            e = model.entries(s, k, t)
            if len(e) == 0:
                missing = True
                assert isinstance(v, (float, complex, np.inexact)) and np.isnan(v), (s, k, t, v)
            elif e.dtype.kind == 'f' and np.isnan(e[0]):
                assert np.isnan(v), (s, k, t, v)
            else:
                # pandas turns integer columns with missing values into floats
                assert v == e[0] or (v == float(e[0]) and e.dtype.kind in 'iu'), (s, k, t, v, e[0])
        if not missing:
            dt = model.sources[s]['keys'][k]['dtype']
            assert col.dtype == dt or dt.kind == 'S', (s, k, col.dtype)
        else:
            ctx.label('column with missing values')
    if len(cols) > 1:
        ctx.label('several columns')
    close_all(run, dc)


def _implied(dct, s, k):
    # ('src', 'a') also matches 'a.value' of a control source
    return k.endswith('.value') and k[:-len('.value')] in dct[s]
