"""AGIPD1M / DSSC1M / LPD1M.get_array"""
import numpy as np

from ..common import close_all, narrow_trains, open_run_dir
from ..detspec import (DetModel, det_class, det_runs, det_source, image_groups, make_selection,
                       pulse_selection, shift_ids)

PROPERTY = 'C14'
QUICK, THOROUGH = 1800, 20000
RULE = ('Generated runs with 1-4 modules of a detector (different trains, gaps, empty trains and '
        'sequence files for each module, pulse IDs differing by module and train, raw and corrected '
        'layouts), perhaps another detector in the same run, modules and min_modules '
        'options, pulse selections (IDs or indexes; slices with step, lists, arrays, numbers). Each element of get_array is looked up in the model by its '
        'module, train and pulse labels, and every recorded frame selected must be there once. '
        'Also slow data keys. Non-trivial: at least 2 modules and 2 trains in the array.')
ASSUMPTIONS = ['all trains which have frames have the same number (the library refuses others)',
               'pulse IDs are below 2700 and not repeated in a train']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'run': det_runs(max_trains=10 if tier == 'thorough' else 7),
        'modules': st.one_of(st.none(), st.lists(st.integers(0, 15), max_size=6, unique=True),
                             st.lists(st.integers(0, 3), min_size=1, max_size=3).map(
                                 lambda v: ['nth'] + v)),
        'min_modules': st.sampled_from([1, 1, 1, 2, 2, 3, 4]),
        'trains': st.one_of(st.none(), st.tuples(st.just('skip'), st.integers(0, 7),
                                                 st.integers(0, 7)).map(list)),
        'pulses': st.lists(pulse_selection(), min_size=1, max_size=3),
        'name': st.booleans(),
        'other': st.sampled_from([None] * 5 + ['longer', 'before', 'type']),
    })


def add_other(spec, how):
    """Another detector in the same run"""
    name = {'longer': spec['name'] + '0', 'before': 'X' + spec['name'],
            'type': 'SPB_DET_AGIPD1M-1' if spec['det'] != 'AGIPD' else 'FXE_DET_LPD1M-1'}[how]
    trains = sorted({t for a in spec['aggs'] for f in a['files'] for t in f['trains']})
    raw_dim = [2] if 'AGIPD' in name else [1]
    aggs = []
    for m in (0, 3):
        counts = [spec['frames'] + 1] * len(trains)
        aggs.append({'name': 'OTHER%02d' % m, 'files': [
            {'trains': trains, 'pad': 0, 'name': 'RAW-R0001-OTHER%02d-S00000.h5' % m}],
            'sources': [{'kind': 'inst', 'name': det_source(name, m), 'groups': image_groups(
                spec['layout'], raw_dim, spec['pix'], trains, counts, [1] * len(trains),
                'count', 0)}]})
    return dict(spec, aggs=spec['aggs'] + aggs)


def open_detector(case, ctx):
    """(run, detector or None, DetModel)"""
    from karabo_data import by_id
    spec = case['run']
    other = case.get('other')
    if other:
        spec = add_other(spec, other)
        ctx.label('two detectors')
    run, model, paths = open_run_dir(spec, ctx)
    mods = case['modules']
    if mods and mods[0] == 'nth':
        mods = sorted({spec['modules'][i % len(spec['modules'])] for i in mods[1:]})
    trains, req = narrow_trains(model.trains, case['trains'])
    dc = run
    if req is not None:
        # Trains left out before the detector interface is made
        dc = run.select_trains(by_id[req[1]])
        model.trains = trains
    dm = DetModel(model, spec, mods, case['min_modules'])
    cls = det_class(spec['det'])
    kw = {'min_modules': case['min_modules']}
    if mods is not None:
        kw['modules'] = set(mods)
    if case['name']:
        kw['detector_name'] = spec['name']
    ctx.label(spec['det'], spec['layout'])
    avail = [m for m in dm.all_modules
             if model.sources[dm.src[m]]['trains'] & set(trains)]
    if other and not case['name'] and other != 'type':
        if dc.train_ids and any(model.sources[det_source(spec['name'], m)]['trains'] & set(trains)
                                for m in spec['modules']):
            try:
                cls(dc, **kw)
            except ValueError as e:
                assert repr(spec['name']) in str(e), e
            else:
                raise AssertionError('one of two detectors was chosen')
        kw['detector_name'] = spec['name']
    try:
        det = cls(dc, **kw)
    except Exception as e:
        from karabo_data import SourceNameError
        if not avail:
            assert isinstance(e, (SourceNameError, ValueError)), repr(e)
        elif not dm.trains:
            assert isinstance(e, ValueError), repr(e)
        else:
            raise
        ctx.label('nothing to select')
        close_all(run)
        return run, None, dm
    assert avail and dm.trains, 'no data, but a detector interface was made'
    assert [int(t) for t in det.train_ids] == dm.trains, (list(det.train_ids), dm.trains)
    assert int(det.frames_per_train) == spec['frames']
    return run, det, dm


def check_labels(arr, what, modules, trains, pulses=None):
    assert list(arr.coords['module'].values) == modules, (what, arr.coords['module'].values, modules)
    if pulses is not None:
        assert [int(t) for t in arr.coords['train'].values] == trains, (
            what, arr.coords['train'].values, trains)
        assert [int(p) for p in arr.coords['pulse'].values] == pulses, (
            what, arr.coords['pulse'].values, pulses)


def check_pulse_array(arr, dm, key, sel, trains, modules, what, dims_tail):
    """arr has exactly the selected frames of the given trains and modules"""
    want = {}
    for mi, m in enumerate(modules):
        for t in trains:
            frames = None
            for i, p in dm.pulses(m, t, sel):
                if frames is None:
                    frames = dm.frames(m, key, t)
                want[mi, t, p] = frames[i]
    wt = sorted({t for _, t, _ in want})
    wp = sorted({p for _, _, p in want})
    assert arr.dims == ('module', 'train', 'pulse') + dims_tail, (what, arr.dims)
    check_labels(arr, what, modules, wt, wp)
    values = arr.values
    k = dm.model.sources[dm.src[modules[0]]]['keys'][key]
    tail = k['shape'][1:] if k['shape'][:1] == (1,) else k['shape']
    assert values.shape == (len(modules), len(wt), len(wp)) + tail, (what, values.shape)
    holes = False
    for mi in range(len(modules)):
        for ti, t in enumerate(wt):
            for pi, p in enumerate(wp):
                got = values[mi, ti, pi]
                w = want.get((mi, t, p))
                if w is None:
                    holes = True
                    assert np.isnan(np.asarray(got, dtype='f8')).all(), \
                        '%s: module %d train %d pulse %d was not recorded, but has %s' % (
                            what, modules[mi], t, p, got)
                else:
                    assert np.array_equal(np.asarray(got, 'f8'), np.asarray(w, 'f8'),
                                          equal_nan=True), \
                        '%s: module %d train %d pulse %d: %s, expected %s' % (
                            what, modules[mi], t, p, got, w)
    if holes:
        assert values.dtype.kind == 'f', what
    elif want:
        assert values.dtype == k['dtype'], (what, values.dtype)
    return len(want)


def image_keys(spec):
    g = spec['aggs'][0]['sources'][0]['groups'][0]
    return ['image.' + k['key'] for k in g['keys']]


def dims_for(key, spec):
    if key == 'image.data' and spec['layout'] == 'raw' and spec['det'] == 'AGIPD':
        return ('data_gain', 'slow_scan', 'fast_scan')
    if key in ('image.data', 'image.gain', 'image.mask'):
        return ('slow_scan', 'fast_scan')
    return ()


def check(case, ctx):
    run, det, dm = open_detector(case, ctx)
    if det is None:
        return
    spec = case['run']
    assert det.detector_name == spec['name']
    # Do the sequence files of a module interleave in train ID?
    inter = any(a['files'][i]['trains'][-1:] > a['files'][i + 1]['trains'][:1] != []
                for a in spec['aggs'] for i in range(len(a['files']) - 1))
    if inter:
        ctx.label('interleaved files')
    for sel in case['pulses']:
        sel = shift_ids(sel, spec)
        for key in image_keys(spec):
            what = 'get_array(%r, %s)' % (key, sel)
            if sel is None:
                arr = det.get_array(key)
            else:
                arr = det.get_array(key, pulses=make_selection(sel))
            if inter:
                # Their order is not specified then
                arr = arr.sortby(['train', 'pulse'])
            n = check_pulse_array(arr, dm, key, sel, dm.trains, dm.modules, what,
                                  dims_for(key, spec))
            ctx.nontrivial(len(dm.modules) > 1 and arr.sizes['train'] > 1)
            if n and np.isnan(arr.values.astype('f8')).any():
                ctx.label('holes')
            if not n:
                ctx.label('no frames match')
            if key in ('image.data', 'image.pulseId') and arr.size and arr.values.flags.writeable:
                # What the caller does with one result doesn't affect the next
                kept = arr.copy(deep=True)
                arr.values[...] = 7
                again = det.get_array(key) if sel is None else \
                    det.get_array(key, pulses=make_selection(sel))
                if inter:
                    again = again.sortby(['train', 'pulse'])
                assert again.identical(kept), what + ': differs the second time'
        ctx.label('pulses %s' % (sel and '%s %s' % (sel[0], sel[1][0])))
    for key in ('header.pulseCount', 'detector.data'):
        arr = det.get_array(key)
        check_slow(arr.sortby('trainId') if inter else arr, dm, key)
    if len(dm.modules) < len(dm.all_modules):
        ctx.label('module without selected trains')
    neg = (ValueError, NotImplementedError)
    for bad, exc in (([-1], neg), ([2, -1, 3], neg), (-1, neg), (np.array([0, -2]), neg),
                     (slice(-3, None), NotImplementedError), (slice(0, -1), NotImplementedError),
                     (slice(0, 4, 0), ValueError), (slice(0, 4, -1), ValueError),
                     (slice(0.5, 4), TypeError), (slice(0, 4.5), TypeError),
                     (slice('0', None), TypeError)):
        from karabo_data import by_id, by_index
        for cls in (by_id, by_index):
            try:
                det.get_array('image.data', pulses=cls[bad])
            except exc:
                pass
            else:
                raise AssertionError('pulses %s[%s] was accepted' % (cls.__name__, bad))
    try:
        det.get_array('image.data', pulses=[1])
    except TypeError:
        pass
    else:
        raise AssertionError('pulses=[1] was accepted')
    close_all(run, det.data)


def check_slow(arr, dm, key):
    what = 'get_array(%r)' % key
    want = {(mi, t): dm.model.entries(dm.src[m], key, t)[0]
            for mi, m in enumerate(dm.modules) for t in dm.trains
            if dm.model.count(dm.src[m], key, t)}
    wt = sorted({t for _, t in want})
    assert list(arr.coords['module'].values) == dm.modules, what
    assert [int(t) for t in arr.coords['trainId'].values] == wt, (what, arr.coords['trainId'], wt)
    assert arr.dims[:2] == ('module', 'trainId'), (what, arr.dims)
    for mi in range(len(dm.modules)):
        for ti, t in enumerate(wt):
            got, w = arr.values[mi, ti], want.get((mi, t))
            if w is None:
                assert np.isnan(np.asarray(got, 'f8')).all(), (what, dm.modules[mi], t)
            else:
                assert np.array_equal(np.asarray(got, 'f8'), np.asarray(w, 'f8')), (
                    what, dm.modules[mi], t, got, w)
