"""Iterating over detector trains"""
import numpy as np

from ..common import close_all
from ..detspec import make_selection, shift_ids
from .c14 import check_pulse_array, dims_for, image_keys, open_detector, strategy as c14_strategy

PROPERTY = 'C15'
QUICK, THOROUGH = 1200, 20000
RULE = ('The detector runs and options of C14; trains() with generated pulse selections must yield '
        'exactly the trains in which every module has image and slow data, in order, and each '
        'array must hold exactly the selected frames at their module, train and pulse labels '
        '(compared with the model, and with get_array). Non-trivial: at least 2 trains yielded '
        'with at least 2 modules, or trains left out.')
ASSUMPTIONS = ['all trains which have frames have the same number (the library refuses others)',
               'a train is complete if every module found in the files of the selected trains has '
               'an entry in each group']


def strategy(tier):
    return c14_strategy(tier)


def check(case, ctx):
    run, det, dm = open_detector(case, ctx)
    if det is None:
        return
    spec = case['run']
    model = dm.model
    groups = ['image.data', 'header.pulseCount', 'detector.data']
    complete = [t for t in dm.trains
                if all(model.count(dm.src[m], k, t) for m in dm.modules for k in groups)]
    if complete != dm.trains:
        ctx.label('incomplete trains')
    ikeys = image_keys(spec)
    results = []
    pulses = [shift_ids(sel, spec) for sel in case['pulses']]
    for sel in pulses:
        it = det.trains() if sel is None else det.trains(pulses=make_selection(sel))
        whole = {}
        got_trains = []
        results.append([])
        for tid, data in it:
            results[-1].append((tid, data))
            what = 'trains(%s): train %s' % (sel, tid)
            assert isinstance(tid, int), what
            got_trains.append(tid)
            assert set(data) == set(ikeys) | {'header.pulseCount', 'detector.data'}, (what, set(data))
            for key in ikeys:
                n = check_pulse_array(data[key], dm, key, sel, [tid], dm.modules,
                                      what + ' ' + key, dims_for(key, spec))
                if n == 0:
                    ctx.label('no frames match in a train')
                    continue
                if key not in whole:
                    whole[key] = det.get_array(key) if sel is None else \
                        det.get_array(key, pulses=make_selection(sel))
                one = whole[key].sel(train=tid, pulse=data[key].coords['pulse'].values)
                assert np.array_equal(one.values.astype('f8'), data[key].values[:, 0].astype('f8'),
                                      equal_nan=True), what + ': differs from get_array'
            for key in ('header.pulseCount', 'detector.data'):
                arr = data[key]
                assert list(arr.coords['module'].values) == dm.modules, what
                want = np.stack([model.entries(dm.src[m], key, tid)[0] for m in dm.modules])
                assert arr.dims[0] == 'module' and arr.dtype == want.dtype, (what, key)
                assert np.array_equal(arr.values, want), (what, key, arr.values, want)
        assert got_trains == complete, 'trains(%s): %s, expected %s' % (sel, got_trains, complete)
    if len(results) > 1:
        # The same, when several iterators advance in turns
        its = [iter(det.trains() if sel is None else det.trains(pulses=make_selection(sel)))
               for sel in pulses]
        for i in range(len(complete)):
            for it, res in zip(its, results):
                tid, data = next(it)
                assert tid == res[i][0], 'iterators in turns: %s, expected %s' % (tid, res[i][0])
                for key, arr in data.items():
                    assert arr.identical(res[i][1][key]), \
                        'iterators in turns: train %d %s: %s, expected %s' % (
                            tid, key, arr, res[i][1][key])
        ctx.label('iterators in turns')
    ctx.nontrivial((len(complete) > 1 and len(dm.modules) > 1) or complete != dm.trains)
    close_all(run, det.data)
