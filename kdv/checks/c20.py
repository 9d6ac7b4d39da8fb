"""Building geometries from quadrant positions and files"""
import re

import numpy as np

from .. import geospec as gs

PROPERTY = 'C20'
QUICK, THOROUGH = 600, 6000
RULE = ('Geometries built from generated quadrant positions, gaps, HDF5 files and CrystFEL files: the first '
        'corners and centres of all pixels are compared with the input positions and offsets, and '
        'with the geometry made from the same lengths in another unit; numbers of modules and '
        'tiles, pixel size, data shape. inspect() and compare() must draw the tiles and the '
        'differences; inverted LPD files negate every position; the deprecated LPDGeometry on the '
        'original file must place pixels as the current class does with the inverted file, and plot them there. '
        'Non-trivial: a unit, gap or offset other than the default.')


def strategy(tier):
    from hypothesis import strategies as st
    build = st.fixed_dictionaries({
        'kind': st.just('build'),
        'geom': gs.geoms(),
        'unit2': st.sampled_from([1e-3, 1e-2, 1.0, 2e-4, 2.5e-5, 1e-6]),
        'as': st.sampled_from(['tuples', 'lists', 'array']),
        'plot': st.sampled_from([None] * 9 + ['inspect', 'inspect m']),
    })
    compare = st.fixed_dictionaries({
        'kind': st.just('compare'),
        'geom': gs.geoms(dets=['AGIPD'], origins=['quads']),
        'move': st.lists(st.tuples(st.integers(-30, 30), st.sampled_from([0, 0, -10, 25])).map(list),
                         min_size=4, max_size=4),
        'scale': st.sampled_from([None, 1, 5, 0.5]),
        'same': st.booleans(),
        'each': st.booleans(),
    })
    old = st.fixed_dictionaries({
        'kind': st.just('old'),
        'seed': st.integers(0, 2 ** 20),
        'quads': st.lists(st.tuples(st.integers(-30, 30), st.integers(-30, 30)).map(list),
                          min_size=4, max_size=4),
        'unit': st.sampled_from([None, 1e-3, 1e-2, 1.0]),
        'lead': st.sampled_from([[], [], [2], [0]]),
        'plot': st.sampled_from([False, False, True]),
        'dtype': st.sampled_from(['f4', 'f8']),
    })
    return st.sampled_from([build] * 8 + [compare, old, old]).flatmap(lambda s: s)


def check(case, ctx):
    {'build': check_build, 'compare': check_compare, 'old': check_old}[case['kind']](case, ctx)


def close(got, want, tol, desc):
    err = np.abs(got - want)
    if not err.max() <= tol:
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape)
        raise AssertionError('%s at %s: %r, expected %r' % (desc, i, got[i], want[i]))


def convert(pos, how):
    if how == 'lists':
        return [list(p) for p in pos]
    if how == 'array':
        return np.array(pos)
    return [tuple(p) for p in pos]


def check_build(case, ctx):
    g = case['geom']
    det = g['det']
    geom, tiles = gs.make(g, ctx)
    check_facts(geom, det)
    close(geom.get_pixel_positions(centre=False), gs.pixel_positions(det, tiles, 0, 0), 2e-9,
          'first corner')
    if g['origin'] in ('quads', 'h5'):
        # The same lengths in another unit
        u2 = case['unit2']
        ctx.label('unit %g' % u2)
        cls = gs.geom_class(det)
        with ctx.building():
            unit = g['unit'] or gs.default_unit(det)
            pos2 = [(x * unit / u2, y * unit / u2) for x, y in gs.quad_positions(g, unit)]
            if g['origin'] == 'quads':
                _, _, kw = gs.quads_args(g)
                kw2 = {k: v * unit / u2 for k, v in kw.items() if k != 'unit'}
                if det == 'AGIPD':
                    kw2.setdefault('asic_gap', 2 * unit / u2)
                    kw2.setdefault('panel_gap', 29 * unit / u2)
            else:
                gs.write_h5(ctx.path('geom2.h5'), gs.h5_offsets(g), 1e-3 / u2)
        pos2 = convert(pos2, case['as'])
        if g['origin'] == 'quads':
            geom2 = cls.from_quad_positions(pos2, unit=u2, **kw2)
        else:
            geom2 = cls.from_h5_file_and_quad_positions(ctx.path('geom2.h5'), pos2, unit=u2)
        check_facts(geom2, det)
        close(geom2.get_pixel_positions(), geom.get_pixel_positions(), 2e-9, 'position in other unit')
    ctx.nontrivial(g['unit'] is not None or g['jitter'] != 0 or g['asic_gap'] is not None
                   or g['panel_gap'] is not None)
    if g['origin'] == 'h5' and det == 'LPD':
        check_invert(g, ctx)
    if case['plot']:
        check_inspect(geom, det, tiles, 'm' if case['plot'] == 'inspect m' else 'px', ctx)


def check_facts(geom, det):
    assert geom.pixel_size == gs.PX[det]
    assert geom.n_modules == len(geom.modules) == 16
    assert geom.n_tiles_per_module == gs.NTILES[det]
    assert {len(m) for m in geom.modules} == {gs.NTILES[det]}
    assert tuple(geom.expected_data_shape) == gs.SHAPE[det]
    assert geom.get_pixel_positions().shape == gs.SHAPE[det] + (3,)


def check_invert(g, ctx):
    import h5py
    from karabo_data.geometry2 import invert_xfel_lpd_geom
    dst = ctx.path('inverted.h5')
    offsets = gs.h5_offsets(g)
    invert_xfel_lpd_geom(ctx.path('geom.h5'), dst)
    k = 1e-3 / (g['unit'] or 1e-3)
    with h5py.File(dst, 'r') as f:
        attrs = f['DetectorDescription'].attrs
        assert attrs['note'] == 'generated' and list(attrs['by']) == [3, 1]
        for q in range(4):
            for m in range(4):
                mod, ts = offsets[q][m]
                grp = f['Q%d/M%d' % (q + 1, m + 1)]
                assert np.array_equal(grp['Position'][:2], -(mod * k))
                for t in range(16):
                    assert np.array_equal(grp['T%02d/Position' % (t + 1)][:2], -(ts[t] * k))
    ctx.label('inverted')


def tile_corners(det, tiles):
    """(n, 4, 2) corners of each tile in the plane"""
    ns, nf = gs.TILE[det]
    out = []
    for mod in tiles:
        for c, s, f in mod:
            out.append([c[:2], (c + nf * f)[:2], (c + nf * f + ns * s)[:2], (c + ns * s)[:2]])
    return np.array(out)


def has_polygons(coll, want, tol):
    """Does a collection of patches have these polygons (corners in any order)?"""
    got = np.array(sorted(sorted(map(tuple, np.round(np.asarray(p.vertices)[:4], 9).tolist()))
                          for p in coll.get_paths()))
    exp = np.array(sorted(sorted(map(tuple, np.round(w, 9).tolist())) for w in want))
    if got.shape != exp.shape:
        return 'shape %s, expected %s' % (got.shape, exp.shape)
    # Sorting may go wrong by rounding: so compare the sets of corners of matching centres
    gc, ec = got.mean(axis=1), exp.mean(axis=1)
    for e, c in zip(exp, ec):
        i = np.argmin(np.abs(gc - c).max(axis=1))
        for corner in e:
            if np.abs(got[i] - corner).max(axis=1).min() > tol:
                return 'no tile with corner %s' % corner
    return None


def check_inspect(geom, det, tiles, units, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.collections import LineCollection, PatchCollection
    ctx.label('inspect')
    try:
        ax = geom.inspect(axis_units=units, frontview=ctx.case_no % 2 == 0)
        k = 1 if units == 'm' else 1 / gs.PX[det]
        colls = [c for c in ax.collections if isinstance(c, PatchCollection)]
        errs = [has_polygons(c, tile_corners(det, tiles) * k, 1e-7 * max(k, 1)) for c in colls]
        assert None in errs, 'inspect(): %s' % errs
        assert ax.xaxis_inverted() == (ctx.case_no % 2 == 0)
        firsts = [np.asarray(c.get_offsets()) for c in ax.collections
                  if not isinstance(c, PatchCollection) and len(c.get_offsets()) == 16]
        # Position of the first pixel of data of each module
        want = gs.pixel_positions(det, tiles, 0, 0, shift_rows=False)[:, 0, 0, :2] * k
        assert any(f.shape == want.shape and np.allclose(f, want, atol=1e-7 * max(k, 1))
                   for f in firsts), 'first pixels: %s, expected %s' % (firsts, want)
        # A line along the first row of pixels
        t0 = [t for t in range(gs.NTILES[det])
              if all(sl.start in (0, None) for sl in gs.tile_slices(det, t))][0]
        lines = np.array([[m[t0][0][:2], (m[t0][0] + gs.TILE[det][1] * m[t0][2])[:2]]
                          for m in tiles]) * k
        segs = [np.asarray(c.get_segments()) for c in ax.collections
                if isinstance(c, LineCollection)]
        assert any(g.shape == lines.shape and np.allclose(g, lines, atol=1e-7 * max(k, 1))
                   for g in segs), 'lines of the first rows: %s, expected %s' % (segs, lines)
        modules, numbers = label_places(ax, det, tiles, k, r'Q(\d)M(\d)$', r'T(\d+)$')
        want = ['Q%dM%d' % (m // 4 + 1, m % 4 + 1) for m in range(16)]
        assert sorted(modules) == want, 'labels %s' % sorted(modules)
        for m, text in enumerate(want):
            assert m in modules[text], 'label %s is on module %s' % (text, modules[text])
        for text, places in numbers:
            assert int(text[1:]) - 1 in places, 'label %s is on tile %s' % (text, places)
        unit = 'metre' if units == 'm' else 'pixel'
        assert unit in ax.get_xlabel() and unit in ax.get_ylabel(), 'axis labels'
    finally:
        plt.close('all')


def label_places(ax, det, tiles, k, module_pat, tile_pat):
    """({text: set of modules there}, [(text, set of tile numbers there)]) for the drawn texts"""
    corners = tile_corners(det, tiles) * k
    lo, hi = corners.min(axis=1), corners.max(axis=1)
    nt = gs.NTILES[det]
    modules, numbers = {}, []
    for t in ax.texts:
        if t.get_transform() != ax.transData:
            continue
        pos = np.array(t.get_position())
        inside = np.nonzero(((pos >= lo) & (pos <= hi)).all(axis=1))[0]
        text = t.get_text()
        if re.match(module_pat, text):
            assert text not in modules, 'two labels %s' % text
            modules[text] = {int(i) // nt for i in inside}
        elif re.match(tile_pat, text):
            numbers.append((text, {int(i) % nt for i in inside}))
    return modules, numbers


def check_compare(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    g = case['geom']
    geom, tiles = gs.make(g, ctx)
    pos, unit, kw = gs.quads_args(g)
    px = gs.PX['AGIPD']
    move = [[0, 0]] * 4 if case['same'] else case['move']
    pos2 = [(x + dx * px / unit, y + dy * px / unit) for (x, y), (dx, dy) in zip(pos, move)]
    if case.get('each'):
        # Each tile has its own difference: none, moved, turned or both
        from karabo_data.geometry2 import GeometryFragment
        ctx.label('compare with tiles turned')
        rng = np.random.RandomState(g['seed'])
        mods2, diffs = [], []
        for p, mod in enumerate(geom.modules):
            mods2.append([])
            for t, frag in enumerate(mod):
                c, s, f = frag.corner_pos.copy(), frag.ss_vec.copy(), frag.fs_vec.copy()
                how = rng.randint(4)
                if how & 1:
                    c[:2] += np.array(move[p // 4]) * px
                if how & 2:
                    a = [0.01, -0.02, 0.05][rng.randint(3)]
                    rot = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
                    s, f = rot @ s, rot @ f
                mods2[-1].append(GeometryFragment(c, s, f, 64, 128))
                c0, s0, f0 = tiles[p][t]
                d = (np.array(move[p // 4], float) if how & 1 else np.zeros(2))
                turned = ((64 * (s - s0) + 128 * (f - f0))[:2] / px) if how & 2 else np.zeros(2)
                diffs.append((d, d + turned))
        other = gs.geom_class('AGIPD')(mods2)
    else:
        other = gs.geom_class('AGIPD').from_quad_positions(pos2, **kw)
        diffs = [(np.array(move[i // 32], float),) * 2 for i in range(128)]
    ctx.label('compare')
    scale = case['scale'] or 1
    try:
        ax = geom.compare(other, **({} if case['scale'] is None else {'scale': scale}))
        errs = [has_polygons(c, tile_corners('AGIPD', tiles) / px, 1e-3) for c in ax.collections]
        assert None in errs, 'compare(): %s' % errs
        rest = [c for c, e in zip(ax.collections, errs) if e is not None]
        arrows = [np.asarray(p.vertices) for c in rest for p in c.get_paths()]
        want = []
        corners = tile_corners('AGIPD', tiles) / px
        for c, ds in zip(corners, diffs):
            for start, d in zip((c[0], c[2]), ds):
                if d.any():
                    want.append((start, start + d * scale))
        assert len(arrows) == len(want), '%d arrows, expected %d' % (len(arrows), len(want))
        left = list(arrows)
        for start, tip in want:
            fits = [i for i, v in enumerate(left) if arrow_fits(v, start, tip)]
            assert fits, 'no arrow from %s to %s' % (start, tip)
            left.pop(fits[0])
        modules, numbers = label_places(ax, 'AGIPD', tiles, 1 / px, r'p(\d+)$', r'(\d+)$')
        assert sorted(modules) == sorted('p%d' % m for m in range(16)), sorted(modules)
        for text, places in modules.items():
            assert int(text[1:]) in places, 'label %s is on module %s' % (text, places)
        for text, places in numbers:
            assert int(text) in places, 'label %s is on tile %s' % (text, places)
        # All of it can be seen
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        assert x0 < corners[..., 0].min() and x1 > corners[..., 0].max()
        assert y0 < corners[..., 1].min() and y1 > corners[..., 1].max()
        for v in arrows:
            assert x0 < v[:, 0].min() and x1 > v[:, 0].max(), 'arrow outside the plot'
            assert y0 < v[:, 1].min() and y1 > v[:, 1].max(), 'arrow outside the plot'
        w, h = np.ptp(corners[..., 0]), np.ptp(corners[..., 1])
        assert x1 - x0 < w + 200 + 60 * scale and y1 - y0 < h + 200 + 60 * scale, 'axis limits'
    finally:
        plt.close('all')
    ctx.nontrivial(any(map(any, move)))


def arrow_fits(v, start, tip):
    """From the start to the tip, or as much further as the head is long"""
    d = tip - start
    length = np.hypot(*d)
    u = d / length
    along = (v - start) @ u
    across = (v - start) @ np.array([-u[1], u[0]])
    return (abs(along.min()) < 0.5 and -1e-3 <= along.max() - length < 12
            and np.abs(across).max() < 12 and abs(across.max() + across.min()) < 1e-3)


def check_old(case, ctx):
    import h5py
    import warnings
    from karabo_data.geometry import LPDGeometry
    from karabo_data.geometry2 import LPD_1MGeometry, invert_xfel_lpd_geom
    ctx.label('deprecated LPDGeometry')
    with ctx.building():
        rng = np.random.RandomState(case['seed'])
        unit = case['unit'] or 1e-3
        # Coordinates in half mm, i.e. pixels. A quarter pixel more in both directions, so
        # rounding is no question.
        quads = []
        pos = [((x + ox + 0.125) * 1e-3 / unit, (y + oy + 0.125) * 1e-3 / unit)
               for (x, y), (ox, oy) in zip([(22, -620), (60, 10), (-560, 55), (-600, -600)],
                                            case['quads'])]
        for q in range(4):
            mods = []
            for m in range(4):
                mx, my = [(1, 0), (1, 1), (0, 1), (0, 0)][m]
                mod = np.array([mx * 134.0, my * 146.0]) + rng.randint(-1, 2, size=2) * 0.5
                ts = [np.array([67.0, 18.0 * t]) if t < 8 else np.array([0.0, 18.0 * (15 - t)])
                      for t in range(16)]
                mods.append((mod, [t + rng.randint(0, 3, size=2) * 0.5 for t in ts]))
            quads.append(mods)
        path, inv = ctx.path('lpd.h5'), ctx.path('inv.h5')
        gs.write_h5(path, quads, 1e-3 / unit)
        shape = tuple(case['lead']) + (16, 256, 256)
        data = (np.arange(int(np.prod(shape))) + 1).astype(case['dtype']).reshape(shape)
        kw = {} if case['unit'] is None else {'unit': unit}
    invert_xfel_lpd_geom(path, inv)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with h5py.File(path, 'r') as f:
            old = LPDGeometry.from_h5_file_and_quad_positions(f, pos, **kw)
    new = LPD_1MGeometry.from_h5_file_and_quad_positions(inv, [(-x, -y) for x, y in pos], **kw)
    for q in range(4):
        for m in range(4):
            for t in range(16):
                off = old.find_offset(('Q%d' % (q + 1), 'M%d' % (m + 1), 'T%02d' % (t + 1)))
                want = np.array(pos[q]) * unit + (quads[q][m][0] + quads[q][m][1][t]) * 1e-3
                assert np.allclose(off, want, atol=1e-9), (q, m, t, off, want)
    img, (cx, cy) = old.position_all_modules(data)
    img2, (cy2, cx2) = new.position_modules_fast(data)
    assert img.dtype == data.dtype
    # The old axes are the other way round
    flipped = img2[..., ::-1, ::-1]
    fy, fx = flipped.shape[-2] - cy2, flipped.shape[-1] - cx2
    got = np.full(img.shape, np.nan, img.dtype)
    oy, ox = int(cy - fy), int(cx - fx)
    assert oy >= 0 and ox >= 0 and oy + flipped.shape[-2] <= img.shape[-2] \
        and ox + flipped.shape[-1] <= img.shape[-1], 'image too small'
    got[..., oy:oy + flipped.shape[-2], ox:ox + flipped.shape[-1]] = flipped
    if not np.array_equal(got, img, equal_nan=True):
        bad = np.argwhere(~((got == img) | (np.isnan(got) & np.isnan(img))))
        i = tuple(bad[0])
        raise AssertionError('LPDGeometry image at %s: %r, LPD_1MGeometry has %r there' % (
            i, img[i], got[i]))
    if case['plot']:
        ctx.label('deprecated plots')
        if data.size:
            one = data.reshape((-1, 16, 256, 256))[0]
            alone, _ = old.position_all_modules(one)
            fig = old.plot_data(one)
            drawn = np.ma.filled(np.ma.asarray(fig.axes[0].images[0].get_array()).astype('f8'), np.nan)
            assert np.array_equal(drawn, alone.astype('f8'), equal_nan=True), 'plot_data(): image'
        fig = old.inspect()
        everywhere, _ = old.position_all_modules(np.ones((16, 256, 256), 'f4'))
        bg = np.asarray(fig.axes[0].images[0].get_array())
        tiles = ~np.isclose(bg[..., :3], 1.0).all(axis=-1)
        assert np.array_equal(tiles, np.isfinite(everywhere)), 'inspect(): tiles'
        labels = {t.get_text(): np.array(t.get_position()) for t in fig.axes[0].texts}
        for q in range(4):
            for m in range(4):
                want = ((np.array(pos[q]) * unit + quads[q][m][0] * 1e-3) // 5e-4) + [cx, cy]
                got = labels['Q%dM%d' % (q + 1, m + 1)]
                assert np.abs(got - want).max() < 2, 'label of Q%dM%d: %s, expected %s' % (
                    q + 1, m + 1, got, want)
    ctx.nontrivial(case['unit'] is not None or bool(case['lead']))
