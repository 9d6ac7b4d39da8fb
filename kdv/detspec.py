"""Generated runs with a multi-module detector (AGIPD, DSSC, LPD), as specs for kdv.runspec."""
import numpy as np

from .runspec import file_styles

DETECTORS = {
    'AGIPD': ('SPB_DET_AGIPD1M-1', [2], [512, 128]),
    'DSSC': ('SCS_DET_DSSC1M-1', [1], [128, 512]),
    'LPD': ('FXE_DET_LPD1M-1', [1], [256, 256]),
}


def det_source(name, modno):
    return '%s/DET/%dCH0:xtdf' % (name, modno)


def det_class(det):
    import karabo_data.components as c
    return {'AGIPD': c.AGIPD1M, 'DSSC': c.DSSC1M, 'LPD': c.LPD1M}[det]


def det_runs(max_trains=7, max_modules=4, max_files=3, full_size=False, max_frames=4,
             single_ids=False, dets=('AGIPD', 'DSSC', 'LPD'), many=False, deep=True):
    """Strategy for {'det', 'name', 'layout', 'frames', spec keys...}

    full_size: corrected data has full size modules
    single_ids: all modules have the same pulse IDs (as in real data)
    many: 8-10 modules
    deep: sometimes many frames
    """
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        det = draw(st.sampled_from(list(dets)))
        name, raw_dim, module_shape = DETECTORS[det]
        layout = draw(st.sampled_from(['raw', 'corr']))
        pix = draw(st.sampled_from([[2, 3], [3, 2], [4, 4]]))
        if full_size and layout == 'corr':
            pix = list(module_shape)
        n = draw(st.integers(1, max_trains))
        start = draw(st.sampled_from([1, 10000, 142844490, 2 ** 31 - 2, 2 ** 32 - 3, 2 ** 40]))
        long = (deep and not (full_size and layout == 'corr')
                and draw(st.sampled_from([False] * 15 + [True])))
        if long:
            n = draw(st.sampled_from([40, 64, 130, 300]))
            pix = [2, 2]

        def items(values, k):
            # for long runs: a pattern, repeated
            some = draw(st.lists(st.sampled_from(values), min_size=min(k, 5 if long else k),
                                 max_size=min(k, 9 if long else k)))
            return [some[i % len(some)] for i in range(k)] if k else []
        trains = [start]
        for s in items([1, 1, 1, 2, 5], n - 1):
            trains.append(trains[-1] + s)
        frames = draw(st.integers(1, max_frames))
        pid = draw(st.sampled_from([[0, 0]] * 3 + [[200, 0], [0, 100], [120, 2000], [2680, 0]]))
        if deep and not long and not (full_size and layout == 'corr') and draw(st.sampled_from([True] + [False] * 7)):
            # As many frames as in reality
            frames = draw(st.sampled_from([30, 64, 130]))
            pid = draw(st.sampled_from([[0, 0], [0, 2000], [2250, 0]]))
            pix = [2, 2]
        modnos = draw(st.one_of(
            st.lists(st.integers(0, 15), min_size=1, max_size=max_modules, unique=True),
            st.sampled_from([[0, 1], [9, 10], [2, 15, 0], [1, 11, 10], [0, 1, 2, 3][:max_modules]])))
        if many:
            modnos = draw(st.sampled_from([list(range(9)), list(range(3, 13)), list(range(8)),
                                           [15, 1, 9, 4, 0, 7, 8, 11, 5, 2]]))
        aggs = []
        for m in modnos:
            style = draw(st.sampled_from(['all', 'all', 'some', 'range', 'counts']))
            mine = list(trains)
            if style == 'some':
                mask = items([True, True, False], n)
                mine = [t for t, x in zip(trains, mask) if x]
            elif style == 'range':
                lo = draw(st.integers(0, n - 1))
                mine = trains[lo:draw(st.integers(lo + 1, n))]
            counts = [frames] * len(mine)
            if style == 'counts':
                counts = items([frames, frames, 0], len(mine))
            nf = draw(st.integers(1, max_files))
            cuts = sorted(draw(st.lists(st.integers(0, len(mine)), min_size=nf - 1, max_size=nf - 1)))
            files = [{'trains': mine[a:b], 'pad': draw(st.integers(0, 1))}
                     for a, b in zip([0] + cuts, cuts + [len(mine)])]
            if nf > 1 and draw(st.sampled_from([False, False, False, True])):
                # Each file has every nth train
                files = [{'trains': mine[i::nf], 'pad': f['pad']} for i, f in enumerate(files)]
            hdr = [1] * len(mine)
            if draw(st.sampled_from([False, False, True])):
                hdr = items([1, 1, 0], len(mine))
            aggs.append({'name': '%s%02d' % (det, m), 'files': files, 'sources': [{
                'kind': 'inst', 'name': det_source(name, m),
                'groups': image_groups(layout, raw_dim, pix, mine, counts, hdr,
                                       draw(st.sampled_from(['count', 'last'])),
                                       draw(st.integers(0, 1)), single_ids, pid)}]})
        prefix = 'RAW' if layout == 'raw' else 'CORR'
        for a in aggs:
            order = range(len(a['files']))
            if len(order) > 1 and draw(st.sampled_from([False, False, True])):
                order = draw(st.permutations(order))    # not the order of the trains
            for i, f in zip(order, a['files']):
                f['name'] = '%s-R0001-%s-S%05d.h5' % (prefix, a['name'], i)
        if draw(st.booleans()):
            aggs.append({'name': 'DA01', 'files': [{'trains': list(trains), 'pad': 0}], 'sources': [
                {'kind': 'control', 'name': 'A/B/C', 'index': 'count',
                 'keys': [{'key': 'x.value', 'dtype': 'f4', 'shape': []}]}]})
        return {'det': det, 'name': name, 'layout': layout, 'frames': frames, 'pix': pix, 'pid': pid,
                'modules': sorted(modnos),
                **draw(file_styles([f for a in aggs for f in a['files']])), 'aggs': aggs}

    return strat()


def image_groups(layout, raw_dim, pix, trains, counts, hdr, index, junk, shared=False, pid=(0, 0)):
    cs = {str(t): c for t, c in zip(trains, counts) if c}
    hs = {str(t): c for t, c in zip(trains, hdr) if c}
    one = [1] if layout == 'raw' else []
    if layout == 'raw':
        keys = [{'key': 'data', 'dtype': 'u2', 'shape': raw_dim + pix},
                {'key': 'length', 'dtype': 'u4', 'shape': one}]
    else:
        keys = [{'key': 'data', 'dtype': 'f4', 'shape': pix},
                {'key': 'gain', 'dtype': 'u1', 'shape': pix},
                {'key': 'mask', 'dtype': 'u4', 'shape': pix}]
    keys += [{'key': 'pulseId', 'dtype': 'u8', 'shape': one, 'shared': shared, 'pid': list(pid)},
             {'key': 'cellId', 'dtype': 'u2', 'shape': one}]
    return [{'name': 'image', 'index': index, 'counts': cs, 'junk': junk, 'keys': keys},
            {'name': 'header', 'index': index, 'counts': hs, 'junk': 0, 'keys': [
                {'key': 'pulseCount', 'dtype': 'u4', 'shape': []}]},
            {'name': 'detector', 'index': index, 'counts': hs, 'junk': 0, 'keys': [
                {'key': 'data', 'dtype': 'u1', 'shape': [5]}]}]


class DetModel:
    """What an interface to the detector of a run should give"""

    def __init__(self, model, spec, modules=None, min_modules=1):
        self.model = model
        self.name = spec['name']
        mods = [m for m in spec['modules'] if modules is None or m in modules]
        self.all_modules = mods
        src = {m: det_source(self.name, m) for m in mods}
        self.trains = [t for t in model.trains
                       if sum(model.count(src[m], 'image.data', t) > 0 for m in mods)
                       >= max(min_modules, 1)]
        # Modules for which some file has one of these trains
        ts = set(self.trains)
        self.modules = [m for m in mods if model.sources[src[m]]['trains'] & ts]
        self.src = src

    def frames(self, m, key, t):
        """Entries of an image key in one train, without the extra dimension of raw data"""
        a = self.model.entries(self.src[m], key, t)
        if a.ndim >= 2 and a.shape[1] == 1:
            a = a[:, 0]
        return a

    def pulses(self, m, t, sel):
        """[(index in train, pulse ID)] selected"""
        ids = self.frames(m, 'image.pulseId', t)
        return [(i, int(p)) for i, p in enumerate(ids)
                if sel is None or (i if sel[0] == 'index' else int(p)) in sel_set(sel)]


def sel_set(sel):
    kind, val = sel
    if val[0] == 'slice':
        start, stop, step = val[1:]
        return range(0 if start is None else start, 2700 if stop is None else stop,
                     1 if step is None else step)
    if val[0] == 'int':
        return {val[1]}
    return set(val[1])


def pulse_selection():
    """Strategy for pulse selections: None or [kind, value]"""
    from hypothesis import strategies as st
    n = st.one_of(st.integers(0, 14), st.integers(0, 14),
                  st.sampled_from([25, 60, 127, 128, 150, 210, 2250, 2400, 2690, 2699, 2700]))
    value = st.one_of(
        st.tuples(st.just('slice'), st.one_of(st.none(), n), st.one_of(st.none(), n),
                  st.sampled_from([None, 1, 2, 3])),
        st.tuples(st.just('list'), st.lists(n, min_size=1, max_size=4)),
        st.tuples(st.just('array'), st.lists(n, min_size=1, max_size=4)),
        st.tuples(st.just('int'), n)).map(list)
    return st.one_of(st.none(), st.tuples(st.sampled_from(['id', 'index']), value).map(list))


def shift_ids(sel, spec):
    """Small pulse IDs count from the lowest in the run"""
    if sel is None or sel[0] == 'index':
        return sel

    def f(v):
        return v + spec['pid'][0] if v is not None and v <= 14 else v
    kind, val = sel
    if val[0] == 'slice':
        return [kind, ['slice', f(val[1]), f(val[2]), val[3]]]
    if val[0] == 'int':
        return [kind, ['int', f(val[1])]]
    return [kind, [val[0], [f(v) for v in val[1]]]]


def make_selection(sel):
    from karabo_data import by_id, by_index
    kind, val = sel
    cls = by_id if kind == 'id' else by_index
    if val[0] == 'slice':
        return cls[slice(*val[1:])]
    if val[0] == 'list':
        return cls[list(val[1])]
    if val[0] == 'array':
        return cls[np.array(val[1])]
    return cls[val[1]]
