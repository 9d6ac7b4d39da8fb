"""Assembling detector images"""
import zlib

import numpy as np

from .. import geospec as gs

PROPERTY = 'C18'
QUICK, THOROUGH = 1200, 12000
RULE = ('Geometries of AGIPD, LPD and DSSC (from quadrant positions, HDF5 or CrystFEL files, or built '
        'directly from tiles: jittered, tilted, turned and mirrored tiles, any order; sometimes all to one '
        'side of the origin), data in which '
        'every pixel has its own value, with 0-3 leading dimensions, several dtypes, as arrays or '
        'as views of stacked modules. Each tile must be at its rounded corner in the rounded '
        'directions relative to the reported centre; everything else NaN or what out= held. Reuse '
        'of out=, batching and the checks of out= are compared too. Sometimes the interpolating '
        'assembly, and the plot. Non-trivial: tiles not all in the same direction, or a leading '
        'dimension, or out= given.')
ASSUMPTIONS = ['tiles do not overlap after rounding']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'geom': gs.geoms(),
        'lead': st.sampled_from([[], [], [], [1], [2], [0], [2, 1], [1, 2, 1]]),
        'dtype': st.sampled_from(['f4', 'f8', 'f8', 'i4', 'u4', 'f2', 'i8', 'u2']),
        'view': st.sampled_from(['array', 'array', 'fortran', 'readonly', 'stack']),
        'missing': st.lists(st.integers(0, 15), max_size=2),
        'out': st.sampled_from([None, None, 'made', 'own', 'wider', 'bad shape', 'bad dtype']),
        'method': st.sampled_from(['position_modules_fast'] * 3 + ['position_all_modules']),
        'extra': st.sampled_from([None] * 14 + ['interpolate', 'interpolate', 'plot', 'plot m']),
        'plot': st.fixed_dictionaries({
            'front': st.sampled_from([None, True, False]),
            'colorbar': st.sampled_from([None, True, False, {'shrink': 0.6}]),
            'ax': st.booleans(),
            'size': st.booleans(),
            'kw': st.sampled_from([{}, {}, {'cmap': 'gray'}, {'vmin': 2, 'vmax': 50}, {'alpha': 0.5}]),
        }),
    })


def check(case, ctx):
    g = case['geom']
    det = g['det']
    geom, tiles = gs.make(g, ctx)
    snapped = gs.snapped_tiles(det, tiles)
    with ctx.building():
        data = make_data(case, det)
        given = data
        if case['view'] == 'fortran':
            given = np.asfortranarray(data)
        elif case['view'] == 'readonly':
            given = data.copy()
            given.flags.writeable = False
    if case['view'] == 'stack':
        given, data = stacked(case, data)
        ctx.label('view of stacked data')
    position = getattr(geom, case['method'])
    lead = tuple(case['lead'])
    dtype = np.dtype(case['dtype'])
    ctx.label('%d leading dimensions' % len(lead), 'out ' + str(case['out']))
    template = geom.output_array_for_position_fast()
    assert template.ndim == 2 and template.dtype == np.float32 and np.isnan(template).all()
    size = template.shape

    out = None
    held = None
    if case['out'] == 'made':
        out = geom.output_array_for_position_fast(extra_shape=lead, dtype=dtype)
        assert out.shape == lead + size and out.dtype == dtype, (out.shape, out.dtype)
        held = np.nan if dtype.kind == 'f' else None
    elif case['out'] in ('own', 'wider'):
        odt = dtype if case['out'] == 'own' else {'f2': 'f4', 'f4': 'f8', 'i4': 'f8', 'u2': 'f4',
                                                   'u4': 'i8'}.get(dtype.str[1:], dtype)
        held = 77
        out = np.full(lead + size, held, odt)
    elif case['out'] == 'bad shape':
        return refused(position, given, np.zeros(lead + (size[0], size[1] + 1), dtype))
    elif case['out'] == 'bad dtype':
        bad = {'f8': 'f4', 'f4': 'i8', 'f2': 'i4', 'i4': 'u4', 'u4': 'i4', 'i8': 'i4', 'u2': 'u1'}[
            dtype.str[1:]]
        return refused(position, given, np.zeros(lead + size, bad), TypeError)
    elif dtype.kind == 'f':
        held = np.nan

    if out is None:
        img, centre = position(given)
        assert img.dtype == dtype, img.dtype
    else:
        # Something else is in the array first
        position(given if case['view'] == 'stack' else np.zeros_like(data), out=out)
        img, centre = position(given, out=out)
        assert img is out
    assert img.shape == lead + size, (img.shape, lead + size)
    check_image(det, snapped, img, centre, data, held, ctx)

    if out is None and img.size and case['view'] != 'stack':
        # Assembling other data does not change this image
        kept = img.copy()
        other, _ = position(np.zeros_like(data))
        assert np.array_equal(img, kept, equal_nan=dtype.kind == 'f'), \
            'the image changed when other data was assembled'
        check_gone(other, img, dtype)

    # The same for each image on its own
    if len(lead) and img.size and case['view'] != 'stack':
        one, c1 = position(data[(0,) * len(lead)])
        assert tuple(c1) == tuple(centre)
        covered = covered_mask(det, snapped, one.shape, centre)
        if covered is not None:
            assert np.array_equal(one[covered], img[(0,) * len(lead)][covered])
    dirs = {(tuple(ss), tuple(fs)) for mod in snapped for _, ss, fs in mod}
    ctx.nontrivial(len(dirs) > 1 or bool(lead) or out is not None)
    ctx.label('%d tile directions' % len(dirs))
    # (not drawn, so that it is not always the same kind of geometry)
    pick = zlib.crc32(repr(sorted(g.items())).encode()) % 7 == 0
    if (case['extra'] == 'interpolate' or pick) and det == 'AGIPD' and g['tilt'] < 1e-4:
        check_interpolate(geom, det, tiles, g['seed'], ctx)
    if case['extra'] in ('plot', 'plot m'):
        check_plot(geom, data, case, ctx)


def check_gone(other, img, dtype):
    assert other.shape == img.shape and other.dtype == img.dtype
    if dtype.kind == 'f':
        assert np.array_equal(np.isnan(other), np.isnan(img))
        assert not np.nan_to_num(other).any(), 'an image of zeros has other values'


def make_data(case, det):
    shape = tuple(case['lead']) + gs.SHAPE[det]
    size = int(np.prod(shape))
    dtype = np.dtype(case['dtype'])
    if dtype in ('f2', 'u2'):
        # Not enough different numbers, so the pattern repeats
        mod = 2039 if dtype == 'f2' else 65521
        return ((np.arange(size) % mod) + 1).astype(dtype).reshape(shape)
    return (np.arange(size) + 1).astype(dtype).reshape(shape)


def stacked(case, data):
    """The same as a view of a stack, perhaps with modules missing"""
    from karabo_data import stack_detector_data
    train = {}
    missing = set(case['missing'])
    for m in range(16):
        if m not in missing:
            train['D_DET_X-1/DET/%dCH0:xtdf' % m] = {'image.data': data[..., m, :, :].copy()}
    view = stack_detector_data(train, 'image.data', real_array=False)
    data = data.copy()
    for m in missing:
        data[..., m, :, :] = np.nan if data.dtype.kind == 'f' else 0
    return view, data


def refused(position, data, out, exc=Exception):
    before = out.copy()
    try:
        position(data, out=out)
    except exc:
        assert np.array_equal(out, before)
        return
    raise AssertionError('out= with shape %s, dtype %s accepted' % (out.shape, out.dtype))


def covered_mask(det, snapped, size, centre):
    mask = np.zeros(size[-2:], bool)
    for mod in snapped:
        for cands, ss, fs in mod:
            if len(cands) > 1:
                return None
            y, x = gs.tile_indices(det, ss, fs)
            mask[y + cands[0][0] + centre[0], x + cands[0][1] + centre[1]] = True
    return mask


def overlapping(det, snapped):
    boxes = []
    for mod in snapped:
        for cands, ss, fs in mod:
            y, x = gs.tile_indices(det, ss, fs)
            ys, xs = [c[0] for c in cands], [c[1] for c in cands]
            boxes.append((y.min() + min(ys), y.max() + max(ys), x.min() + min(xs),
                          x.max() + max(xs)))
    b = np.array(boxes)
    y = (b[:, None, 0] <= b[None, :, 1]) & (b[None, :, 0] <= b[:, None, 1])
    x = (b[:, None, 2] <= b[None, :, 3]) & (b[None, :, 2] <= b[:, None, 3])
    return (x & y).sum() > len(b)


def check_image(det, snapped, img, centre, data, held, ctx):
    if overlapping(det, snapped):
        ctx.label('tiles overlap')
        return
    cy, cx = (int(c) for c in centre)
    assert (cy, cx) == tuple(centre)
    h, w = img.shape[-2:]
    count = np.zeros((h, w), np.int32)
    for m, mod in enumerate(snapped):
        for t, (cands, ss, fs) in enumerate(mod):
            sl = gs.tile_slices(det, t)
            want = data[(Ellipsis, m) + sl]
            y, x = gs.tile_indices(det, ss, fs)
            for i, (oy, ox) in enumerate(cands):
                yy, xx = y + oy + cy, x + ox + cx
                last = i == len(cands) - 1
                inside = yy.min() >= 0 and xx.min() >= 0 and yy.max() < h and xx.max() < w
                assert inside or not last, 'module %d tile %d is outside the image' % (m, t)
                if not inside:
                    continue
                got = img[..., yy, xx]
                if np.array_equal(got, want, equal_nan=want.dtype.kind == 'f'):
                    break
                if last:
                    raise AssertionError(
                        'module %d tile %d (corner y, x = %s, slow %s, fast %s): expected %s..., '
                        'found %s...' % (m, t, (oy, ox), ss, fs, want.ravel()[:3], got.ravel()[:3]))
            count[yy, xx] += 1
    gaps = img[..., count == 0]
    if held is None:
        # Integers: some number or other in the gaps
        assert not gaps.size or (gaps == gaps.ravel()[0]).all()
    elif np.isnan(held):
        assert np.isnan(gaps).all(), 'pixels outside the tiles are not NaN'
    else:
        assert (gaps == held).all(), 'pixels outside the tiles were overwritten'


def check_interpolate(geom, det, tiles, seed, ctx):
    """With tiles on whole pixels, interpolation gives the pixels. Otherwise each is between its
    neighbours."""
    ctx.label('interpolated')
    ns, nf = gs.TILE[det]
    # Linear along both axes, so interpolation is exact
    s, f = np.meshgrid(np.arange(ns, dtype='f8'), np.arange(nf, dtype='f8'), indexing='ij')
    ramp = s * 2 + f * 300
    data = np.tile(np.concatenate([ramp] * 8), (16, 1, 1))
    for m in range(16):
        data[m] += 1e6 * m + np.repeat(np.arange(8), ns)[:, None] * 1e5
    base = -8.3e6 if seed % 2 else 0    # negative values, and both signs
    data += base
    img, centre = geom.position_modules_interpolate(data)
    n = 0
    for m, mod in enumerate(tiles):
        for t, (c, sv, fv) in enumerate(mod):
            mat = np.stack([sv[:2], fv[:2]], axis=1)
            # Image pixels well inside the tile
            mid = (c + sv * ns / 2 + fv * nf / 2)[:2] / gs.PX[det] + centre[::-1]
            xs, ys = np.meshgrid(np.arange(-20, 20) + int(mid[0]), np.arange(-20, 20) + int(mid[1]))
            pos = (np.stack([xs, ys]) + 0.5 - np.array(centre)[::-1, None, None]) * gs.PX[det] \
                - c[:2, None, None]
            sf = np.einsum('ij,jkl->ikl', np.linalg.inv(mat), pos) - 0.5
            want = sf[0] * 2 + sf[1] * 300 + 1e6 * m + 1e5 * t + base
            got = img[ys, xs]
            assert np.allclose(got, want, rtol=1e-9, atol=2), (
                'interpolated image: module %d tile %d: %s, expected %s' % (
                    m, t, got[0, :3], want[0, :3]))
            n += 1
    # The rest has no data
    assert np.isnan(img).sum() > 0
    assert 0.9 < (~np.isnan(img)).sum() / data.size <= 1.01, 'pixels lost or repeated'


def check_plot(geom, data, case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    ctx.label('plot')
    one = data.reshape((-1,) + data.shape[-3:])
    if not len(one) or data.dtype == 'f2':
        return
    units = 'm' if case['extra'] == 'plot m' else 'px'
    one = one[0].astype('f8')
    o = case['plot']
    kw = dict(o['kw'])
    if units == 'm' or o['front']:
        kw['axis_units'] = units
    if o['front'] is not None:
        kw['frontview'] = o['front']
    if o['colorbar'] is not None:
        kw['colorbar'] = o['colorbar']
    try:
        if o['ax']:
            fig, axs = plt.subplots(1, 2, figsize=(2, 2))
            kw['ax'] = axs[1]
        elif o['size']:
            kw['figsize'] = (3, 2)
        ax = geom.plot_data_fast(one, **kw)
        if o['ax']:
            assert ax is axs[1], 'another axes was used'
            assert not axs[0].images
        else:
            size = (3, 2) if o['size'] else (10, 10)
            assert np.allclose(ax.figure.get_size_inches(), size), ax.figure.get_size_inches()
        bars = len(ax.figure.axes) - (2 if o['ax'] else 1)
        # (whether there is one by default depends on the detector)
        assert bars in (0, 1) and (o['colorbar'] is None or bars == bool(o['colorbar'])), \
            '%d colour bars' % bars
        im = ax.images[0]
        assert im.cmap.name == o['kw'].get('cmap', 'viridis')
        if 'vmin' in o['kw']:
            assert im.get_clim() == (2, 50)
        assert im.get_alpha() == o['kw'].get('alpha')
        if 'cmap' not in o['kw']:
            # Gaps can be told from data
            grey = im.cmap(np.ma.masked_all(1))[0]
            assert grey[3] == 1 and not np.isclose(
                im.cmap(np.linspace(0, 1, 256)), grey, atol=0.02).all(axis=1).any()
        assert ax.get_xlabel() == ax.get_ylabel() == {'m': 'metres', 'px': 'pixels'}[units]
        # A cross marks the centre
        segs = np.concatenate([c.get_segments() for c in ax.collections])
        assert segs.shape == (2, 2, 2) and np.allclose(segs.sum(axis=1), 0), segs
        assert sorted(np.argmax(np.ptp(segs, axis=1), axis=1)) == [0, 1]
        img, centre = geom.position_modules_fast(one)
        shown = ax.images[0].get_array()
        assert np.array_equal(np.ma.filled(shown, np.nan), img, equal_nan=True)
        assert ax.images[0].origin == 'lower'
        # Coordinates are from the detector centre (within a pixel or so)
        k = geom.pixel_size if units == 'm' else 1
        x0, x1, y0, y1 = np.array(ax.images[0].get_extent()) / k
        h, w = img.shape
        assert np.allclose([x0, x1, y0, y1], [-centre[1], w - centre[1], -centre[0],
                                              h - centre[0]], atol=1), (x0, x1, y0, y1, centre)
        assert ax.xaxis_inverted() == (o['front'] is not False) and not ax.yaxis_inverted()
    finally:
        plt.close('all')
