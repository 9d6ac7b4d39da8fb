"""Pixel positions, distortion arrays and data coordinates"""
import numpy as np

from .. import geospec as gs

PROPERTY = 'C19'
QUICK, THOROUGH = 480, 6000
RULE = ('Geometries as for C18. Every coordinate of get_pixel_positions (centres and first corners) is '
        'compared with tile corner + steps along the generated vectors, every pixel of '
        'to_distortion_array with the corners of those pixels (with and without negative x & y), '
        'and generated coordinates in the data (any shape, on pixel edges and between) through '
        'data_coords_to_positions with the same (AGIPD, LPD). Moving a geometry from quadrant '
        'positions moves all by the same vector; nothing depends on what was computed before. '
        'Non-trivial: jittered, tilted or turned tiles, or moved quadrants.')
TOL = 2e-9       # metres
TOL_F4 = 2e-7    # for 32 bit floats up to about 1 m


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'geom': gs.geoms(),
        'ops': st.lists(st.sampled_from(['centre', 'corner', 'distortion', 'distortion neg',
                                         'coords', 'image']), min_size=1, max_size=4),
        'coords': st.lists(st.tuples(st.integers(0, 15), st.floats(0, 1, exclude_max=True, width=32),
                                     st.floats(0, 1, exclude_max=True, width=32),
                                     st.sampled_from(['any', 'edge', 'centre'])).map(list),
                           min_size=1, max_size=12),
        'cdtype': st.sampled_from(['f8', 'f4']),
        'mdtype': st.sampled_from(['i8', 'u8', 'i4', 'u4', 'i2', 'u2', 'u1', 'i1']),
        'cshape': st.sampled_from(['1d', '2d', '3d']),
        'move': st.one_of(st.none(), st.tuples(st.integers(-400, 400), st.integers(-400, 400)).map(list)),
    })


def check(case, ctx):
    g = case['geom']
    det = g['det']
    geom, tiles = gs.make(g, ctx)
    done = []
    for op in case['ops']:
        ctx.label(op)
        if op in ('centre', 'corner'):
            check_positions(geom, det, tiles, op)
        elif op.startswith('distortion'):
            check_distortion(geom, det, tiles, op == 'distortion neg')
        elif op == 'coords':
            check_coords(geom, det, tiles, case)
        else:
            # Nothing should be changed by assembling an image
            geom.position_modules_fast(np.zeros(gs.SHAPE[det], 'f4'))
        done.append(op)
    if case['move'] and g['origin'] in ('quads', 'h5'):
        ctx.label('moved')
        check_moved(geom, case, ctx)
    ctx.nontrivial(bool(g['jitter'] or g['tilt'] or g['turn'] or g['z'] or case['move']))


def close(got, want, tol, desc):
    err = np.abs(got - want)
    if not err.max() <= tol:      # also for NaN
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape)
        raise AssertionError('%s at %s: %r, expected %r' % (desc, i, got[i], want[i]))


def check_positions(geom, det, tiles, op):
    if op == 'corner':
        got = geom.get_pixel_positions(centre=False)
        want = gs.pixel_positions(det, tiles, 0, 0)
    else:
        got = geom.get_pixel_positions()
        # The centre of a hexagon is 2/3 of the way to the next row
        want = gs.pixel_positions(det, tiles, 2 / 3 if det == 'DSSC' else 0.5, 0.5)
    assert got.shape == want.shape, got.shape
    close(got, want, TOL, 'pixel ' + op)
    got[:] = np.nan      # A result of our own


CORNERS = {'DSSC': ([0, 1 / 3, 1, 4 / 3, 1, 1 / 3], [0.5, 1, 1, 0.5, 0, 0])}


def check_distortion(geom, det, tiles, neg):
    got = geom.to_distortion_array(**({'allow_negative_xy': True} if neg else {}))
    n, ns, nf = gs.SHAPE[det]
    cs, cf = CORNERS.get(det, ([0, 1, 1, 0], [0, 0, 1, 1]))
    assert got.shape == (n * ns, nf, len(cs), 3), got.shape
    assert got.dtype == np.float32
    want = np.stack([gs.pixel_positions(det, tiles, s, f).reshape(n * ns, nf, 3)
                     for s, f in zip(cs, cf)], axis=2)[..., ::-1]
    if not neg:
        want = want.copy()
        want[..., 1:] -= want[..., 1:].min(axis=(0, 1, 2))
        assert got[..., 1:].min() >= 0
    # The corners go round the pixel, from any one in either direction
    k = len(cs)
    first = got[0, 0].astype('f8')
    for d in (1, -1):
        for r in range(k):
            order = [(r + d * i) % k for i in range(k)]
            if np.abs(first - want[0, 0][order]).max() <= TOL_F4:
                close(got, want[:, :, order], TOL_F4, 'distortion array')
                got[:] = np.nan
                return
    raise AssertionError('distortion array for the first pixel: %s, expected %s' % (
        got[0, 0].tolist(), want[0, 0].tolist()))


def check_coords(geom, det, tiles, case):
    if det == 'DSSC':
        return
    n, ns, nf = gs.SHAPE[det]
    mods, ss, fs = [], [], []
    ts, tf = gs.TILE[det]
    for m, a, b, how in case['coords']:
        s, f = a * ns, b * nf
        if how == 'edge':
            s, f = s // ts * ts, f // tf * tf
        elif how == 'centre':
            s, f = int(s) + 0.5, int(f) + 0.5
        mods.append(m)
        ss.append(min(s, ns - 1e-3))
        fs.append(min(f, nf - 1e-3))
    mods = np.array(mods, case['mdtype'])
    ss, fs = np.array(ss, case['cdtype']), np.array(fs, case['cdtype'])
    want = np.zeros((len(mods), 3))
    for i in range(len(mods)):
        s, f = float(ss[i]), float(fs[i])
        for t in range(gs.NTILES[det]):
            sl = gs.tile_slices(det, t)
            if sl[0].start <= s < sl[0].stop and sl[1].start <= f < sl[1].stop:
                c, sv, fv = tiles[int(mods[i])][t]
                want[i] = c + (s - sl[0].start) * sv + (f - sl[1].start) * fv
    shape = {'1d': (-1,), '2d': (1, -1), '3d': (-1, 1, 1)}[case['cshape']]
    given = [mods.reshape(shape), ss.reshape(shape), fs.reshape(shape)]
    before = [a.copy() for a in given]
    got = geom.data_coords_to_positions(*given)
    assert got.shape == given[0].shape + (3,), got.shape
    # 32 bit floats hold up to 512 pixels to about 6e-5 pixels
    tol = TOL if case['cdtype'] == 'f8' else 5e-8
    close(got.reshape(-1, 3), want, tol, 'position of (%s, %s, %s)' % (mods, ss, fs))
    assert all(np.array_equal(a, b) for a, b in zip(given, before))


def check_moved(geom, case, ctx):
    """All quadrants moved by the same vector"""
    g = case['geom']
    det = g['det']
    cls = gs.geom_class(det)
    dx, dy = case['move']
    with ctx.building():
        unit = g['unit'] or gs.default_unit(det)
        k = gs.PX[det] / 2 / unit      # steps of half a pixel
        pos = [(x + dx * k, y + dy * k) for x, y in gs.quad_positions(g, unit)]
        if g['origin'] == 'quads':
            kw = gs.quads_args(g)[2]
        else:
            kw = {} if g['unit'] is None else {'unit': unit}
    if g['origin'] == 'quads':
        moved = cls.from_quad_positions(pos, **kw)
    else:
        moved = cls.from_h5_file_and_quad_positions(ctx.path('geom.h5'), pos, **kw)
    vec = np.array([dx, dy, 0]) * gs.PX[det] / 2
    a, b = geom.get_pixel_positions(), moved.get_pixel_positions()
    close(b - a, np.broadcast_to(vec, a.shape), TOL, 'change of position')
    # With the origin at the corner, it makes no difference
    close(moved.to_distortion_array().astype('f8'), geom.to_distortion_array().astype('f8'),
          TOL_F4 * 2, 'distortion array after moving')
