"""Generated detector geometries (AGIPD, LPD, DSSC) with an independent statement of where each
tile is: a corner and two vectors (x, y, z), in metres."""
import numpy as np

PX = {'AGIPD': 2e-4, 'LPD': 5e-4, 'DSSC': 236e-6}
TILE = {'AGIPD': (64, 128), 'LPD': (32, 128), 'DSSC': (128, 256)}
NTILES = {'AGIPD': 8, 'LPD': 16, 'DSSC': 2}
SHAPE = {'AGIPD': (16, 512, 128), 'LPD': (16, 256, 256), 'DSSC': (16, 128, 512)}
DSSC_Y = 1.5 / np.sqrt(3)     # Step to the next row of hexagons
ORIGINS = {'AGIPD': ['quads', 'direct', 'crystfel'], 'LPD': ['quads', 'h5', 'direct', 'crystfel'],
           'DSSC': ['h5', 'direct', 'crystfel']}
# In pixels (AGIPD) or mm; tiles are clear of each other for shifts outwards
QUADS = {'AGIPD': [(-525, 625), (-550, -10), (520, -160), (542, 475)],
         'LPD': [(-5.5, 320), (-30, -2), (280, -25.5), (295, 300)],
         'DSSC': [(-132, 5), (-132, -128), (5, -128), (5, 5)]}
OUT = [(-1, 1), (-1, -1), (1, -1), (1, 1)]


def geom_class(det):
    import karabo_data.geometry2 as g
    return {'AGIPD': g.AGIPD_1MGeometry, 'LPD': g.LPD_1MGeometry, 'DSSC': g.DSSC_1MGeometry}[det]


def geoms(dets=('AGIPD', 'LPD', 'DSSC'), origins=None):
    from hypothesis import strategies as st
    shift = st.one_of(st.integers(0, 20), st.integers(0, 2000).map(lambda n: n / 100))

    def for_det(det):
        return st.fixed_dictionaries({
            'det': st.just(det),
            'origin': st.sampled_from([o for o in ORIGINS[det] if not origins or o in origins]),
            'shift': st.lists(st.tuples(shift, shift).map(list), min_size=4, max_size=4),
            # Gaps in pixels
            'asic_gap': st.sampled_from([None, 2, 1.5, 2.3, 3, 0]),
            'panel_gap': st.sampled_from([None, 4, 5.25, 20, 0]),
            'unit': st.sampled_from([None, 1e-3, 1e-2, 1.0, 2e-4, 5e-4]),
            'seed': st.integers(0, 2 ** 20),
            'jitter': st.sampled_from([0, 0, 0.3, 0.8]),
            'tilt': st.sampled_from([0, 0, 1e-6, 3e-3]),
            'z': st.sampled_from([0, 0, 1e-3]),
            'turn': st.booleans(),
            # All of it to one side of the origin (metres)
            'away': st.sampled_from([[0, 0]] * 4 + [[0.8, 0.75], [-0.75, -0.8], [0.8, -0.75],
                                                   [-0.7, 0.8]]),
        })
    return st.sampled_from(list(dets)).flatmap(for_det)


def default_unit(det):
    return PX['AGIPD'] if det == 'AGIPD' else 1e-3


def quad_positions(case, unit):
    """Quadrant positions in the unit"""
    det = case['det']
    base_unit = default_unit(det)
    sh = PX[det] / base_unit
    # Keep numbers short, but the conversion to other units exact enough
    pos = [(x + ox * dx * sh, y + oy * dy * sh)
           for (x, y), (ox, oy), (dx, dy) in zip(QUADS[det], OUT, case['shift'])]
    k = base_unit / unit
    ax, ay = case.get('away', [0, 0])
    return [(x * k + ax / unit, y * k + ay / unit) for x, y in pos]


def tile_slices(det, t):
    """(slow scan, fast scan) slices of a tile in its module's data"""
    ns, nf = TILE[det]
    if det == 'AGIPD':
        return slice(t * ns, (t + 1) * ns), slice(0, nf)
    if det == 'DSSC':
        return slice(0, ns), slice(t * nf, (t + 1) * nf)
    if t < 8:      # Top to bottom in the first half, then bottom to top
        return slice((7 - t) * ns, (8 - t) * ns), slice(0, nf)
    return slice((t - 8) * ns, (t - 7) * ns), slice(nf, 2 * nf)


def make(case, ctx):
    """(geometry, tiles): tiles[module][tile] = (corner, ss_vec, fs_vec)"""
    f = {'quads': from_quads, 'h5': from_h5, 'direct': from_direct,
         'crystfel': from_crystfel}[case['origin']]
    ctx.label('%s from %s' % (case['det'], case['origin']))
    return f(case, ctx)


def quads_args(case):
    det = case['det']
    unit = case['unit'] or default_unit(det)
    kw = {}
    if case['unit'] is not None:
        kw['unit'] = unit
    for g in ('asic_gap', 'panel_gap'):
        if case[g] is not None:
            kw[g] = case[g] * PX[det] / unit
        elif det == 'AGIPD' and case['unit'] is not None:
            # The defaults, 2 and 29, are in the same unit
            kw[g] = {'asic_gap': 2, 'panel_gap': 29}[g] * PX[det] / unit
    return quad_positions(case, unit), unit, kw


def quads_tiles(case, pos, unit):
    det = case['det']
    px = PX[det]
    ag, pg = case['asic_gap'], case['panel_gap']
    ag = ({'AGIPD': 2, 'LPD': 4}[det] if ag is None else ag) * px
    pg = ({'AGIPD': 29, 'LPD': 4}[det] if pg is None else pg) * px
    tiles = []
    for p in range(16):
        q, m = divmod(p, 4)
        qx, qy = pos[q][0] * unit, pos[q][1] * unit
        mod = []
        for t in range(NTILES[det]):
            if det == 'AGIPD':
                # Position of the first pixel; modules stacked downwards, tiles along x
                xo, yo = [(1, -1), (1, -1), (-1, 1), (-1, 1)][q]
                mod.append((np.array([qx + xo * t * (64 * px + ag), qy - m * (128 * px + pg), 0]),
                            np.array([xo * px, 0, 0]), np.array([0, yo * px, 0])))
            else:
                # Position of the last corner of M4 T16. M1 M4 / M2 M3, T1..T8 down, T9..T16 up
                mx, my = [(-1, 0), (-1, -1), (0, -1), (0, 0)][m]
                w, h = 128 * px, 32 * px
                x = qx + mx * (2 * w + ag + pg)
                y = qy + my * (8 * h + 7 * ag + pg)
                if t < 8:
                    x, y = x - (w + ag), y - t * (h + ag)
                else:
                    y = y - (15 - t) * (h + ag)
                mod.append((np.array([x - w, y - h, 0]), np.array([0, px, 0]), np.array([px, 0, 0])))
        tiles.append(mod)
    return tiles


def from_quads(case, ctx):
    with ctx.building():
        pos, unit, kw = quads_args(case)
        tiles = quads_tiles(case, pos, unit)
    return geom_class(case['det']).from_quad_positions(pos, **kw), tiles


def h5_offsets(case):
    """{module 0-3: (offset, [tile offset])} for each quadrant, in mm"""
    det = case['det']
    rng = np.random.RandomState(case['seed'])
    px = PX[det] * 1e3
    jit = lambda: (rng.rand(2) * 2 - 1) * case['jitter'] * px    # noqa: E731
    quads = []
    for q in range(4):
        mods = []
        for m in range(4):
            if det == 'LPD':
                mx, my = [(-1, 0), (-1, -1), (0, -1), (0, 0)][m]
                mod = np.array([mx * 132.0, my * 144.0])
                ts = []
                for t in range(16):
                    ts.append(np.array([-66.0, -18.0 * t]) if t < 8 else
                              np.array([0.0, -18.0 * (15 - t)]))
            else:
                mod = np.array([0.0, 30.0 * (m if q < 2 else 3 - m)])
                ts = [np.array([63.0, 0.5]), np.array([0.0, 0.5])]
                if q >= 2:
                    ts.reverse()
            mods.append((mod + jit() / 2, [t + jit() / 2 for t in ts]))
        quads.append(mods)
    return quads


def write_h5(path, offsets, scale, ndim=2, description='DetectorDescribtion'):
    import h5py
    with h5py.File(path, 'w') as f:
        f[description] = np.array([b'LPD'])
        f[description].attrs['note'] = 'generated'
        f[description].attrs['by'] = np.array([3, 1])
        for q, mods in enumerate(offsets, start=1):
            for m, (mod, ts) in enumerate(mods, start=1):
                g = f.create_group('Q%d/M%d' % (q, m))
                g['Position'] = np.concatenate([mod * scale, [0.0] * (ndim - 2)])
                for t, tile in enumerate(ts, start=1):
                    g['T%02d/Position' % t] = np.concatenate([tile * scale, [0.0] * (ndim - 2)])


def h5_tiles(case, pos, unit, offsets):
    """pos: quadrant positions in unit; offsets in mm"""
    det = case['det']
    px = PX[det]
    ns, nf = TILE[det]
    tiles = []
    for p in range(16):
        q, m = divmod(p, 4)
        mod, ts = offsets[q][m]
        out = []
        for t in ts:
            x, y = np.array(pos[q]) * unit + (mod + t) * 1e-3
            if det == 'LPD':
                out.append((np.array([x - nf * px, y - ns * px, 0]), np.array([0, px, 0]),
                            np.array([px, 0, 0])))
            elif q < 2:
                out.append((np.array([x + nf * px, y, 0]), np.array([0, px * DSSC_Y, 0]),
                            np.array([-px, 0, 0])))
            else:
                out.append((np.array([x, y + ns * px * DSSC_Y, 0]), np.array([0, -px * DSSC_Y, 0]),
                            np.array([px, 0, 0])))
        tiles.append(out)
    return tiles


def from_h5(case, ctx):
    det = case['det']
    path = ctx.path('geom.h5')
    with ctx.building():
        unit = case['unit'] or 1e-3
        pos = quad_positions(dict(case, unit=unit), unit)
        offsets = h5_offsets(case)
        write_h5(path, offsets, 1e-3 / unit, ndim=2 + case['seed'] % 2)
        tiles = h5_tiles(case, pos, unit, offsets)
        kw = {} if case['unit'] is None else {'unit': unit}
    return geom_class(det).from_h5_file_and_quad_positions(path, pos, **kw), tiles


def grid_tiles(case):
    """Tiles in the cells of a grid, in any order, turned in any way"""
    det = case['det']
    px = PX[det]
    yscale = DSSC_Y if det == 'DSSC' else 1
    rng = np.random.RandomState(case['seed'])
    ns, nf = TILE[det]
    # Only square pixels can be turned by a right angle
    turn = case['turn'] and det != 'DSSC'
    w, h = nf + 6, (nf if turn else ns) + 6
    nt = NTILES[det] * 16
    ncol = 8 if not turn else 11 if det == 'AGIPD' else 16
    cells = [divmod(i, ncol) for i in range(nt)]
    nrow = cells[-1][0] + 1
    if case['turn']:
        cells = [cells[i] for i in rng.permutation(nt)]
    tiles = []
    for p in range(16):
        mod = []
        for t in range(NTILES[det]):
            row, col = cells[p * NTILES[det] + t]
            x0 = (col - ncol / 2) * w + 3 + case['shift'][p // 4][0] % 1
            y0 = (row - nrow / 2) * h + 3 + case['shift'][p // 4][1] % 1
            x0, y0 = np.array([x0, y0]) + (rng.rand(2) * 2 - 1) * case['jitter']
            orient = rng.randint(8) if turn else rng.randint(4) if case['turn'] else 0
            sx, sy = [(1, 1), (-1, 1), (1, -1), (-1, -1)][orient % 4]
            if orient < 4:
                fs, ss = np.array([sx, 0.]), np.array([0., sy])
                ex, ey = nf, ns
            else:
                fs, ss = np.array([0., sy]), np.array([sx, 0.])
                ex, ey = ns, nf
            corner = np.array([x0 + (ex if sx < 0 else 0), y0 + (ey if sy < 0 else 0)])
            a = (rng.rand() * 2 - 1) * case['tilt']
            rot = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
            fs, ss = rot @ fs, rot @ ss
            z, fz, sz = (rng.rand(3) * 2 - 1) * case['z'] * [1, 0.01, 0.01]
            scale = np.array([px, px * yscale])
            mod.append((np.append(corner * scale + case.get('away', [0, 0]), z), np.append(ss * scale, sz),
                        np.append(fs * scale, fz)))
        tiles.append(mod)
    return tiles


def from_direct(case, ctx):
    from karabo_data.geometry2 import GeometryFragment
    det = case['det']
    with ctx.building():
        tiles = grid_tiles(case)
    ns, nf = TILE[det]
    return geom_class(det)([[GeometryFragment(c.copy(), s.copy(), f.copy(), ns, nf)
                             for c, s, f in mod] for mod in tiles]), tiles


def vec_text(v):
    s = '%+.9fx %+.9fy' % (v[0], v[1])
    if v[2]:
        s += ' %+.9fz' % v[2]
    return s


def write_crystfel(path, case, tiles):
    """Write a .geom file, and return the tiles with the precision written"""
    det = case['det']
    px = PX[det]
    res = 1 / px
    lines = ['; made for a test', 'data = /entry_1/data ;', 'dim0 = %',
             'res = %r' % res, 'clen = 0.2', 'adu_per_eV = 0.0075', 'photon_energy = 9000', '']
    out = []
    blocks = []
    for p, mod in enumerate(tiles):
        row = []
        for a, (c, ss, fs) in enumerate(mod):
            n = 'p%da%d' % (p, a)
            sl_s, sl_f = tile_slices(det, a)
            c_txt = ['%.6f' % (c[0] * res), '%.6f' % (c[1] * res), '%.9f' % c[2]]
            ss_txt, fs_txt = vec_text(ss * res), vec_text(fs * res)
            blocks.append('\n'.join([
                '%s/dim1 = %d' % (n, p), n + '/dim2 = ss', n + '/dim3 = fs',
                '%s/min_fs = %d' % (n, sl_f.start), '%s/min_ss = %d' % (n, sl_s.start),
                '%s/max_fs = %d' % (n, sl_f.stop - 1), '%s/max_ss = %d' % (n, sl_s.stop - 1),
                '%s/fs = %s' % (n, fs_txt), '%s/ss = %s' % (n, ss_txt),
                '%s/corner_x = %s' % (n, c_txt[0]), '%s/corner_y = %s' % (n, c_txt[1]),
                '%s/coffset = %s' % (n, c_txt[2]), '']))
            num = [float(x) for x in c_txt]
            row.append((np.array([num[0] / res, num[1] / res, num[2]]),
                        parse_vec(ss_txt) / res, parse_vec(fs_txt) / res))
        out.append(row)
    if case['seed'] % 2:
        blocks.reverse()
    with open(path, 'w') as f:
        f.write('\n'.join(lines + blocks))
    return out


def parse_vec(txt):
    import re
    v = np.zeros(3)
    body = ''
    for num, ax in re.findall(r'([+-]?\s*[0-9.]*(?:e[+-]?\d+)?)\s*([xyz])', txt):
        num = num.replace(' ', '')
        v['xyz'.index(ax)] = {'+': 1, '-': -1, '': 1}[num] if num in '+-' else float(num)
        body += num
    return v


def from_crystfel(case, ctx):
    path = ctx.path('in.geom')
    with ctx.building():
        tiles = write_crystfel(path, case, grid_tiles(case))
    return geom_class(case['det']).from_crystfel_geom(path), tiles


def pixel_positions(det, tiles, ds, df, shift_rows=True):
    """(16, ss, fs, 3) positions at an offset (ds, df) in each pixel, in pixel steps"""
    out = np.full(SHAPE[det] + (3,), np.nan)
    ns, nf = TILE[det]
    s = np.arange(ns, dtype='f8')[:, None] + ds
    f = np.broadcast_to(np.arange(nf, dtype='f8')[None, :] + df, (ns, nf)).copy()
    if det == 'DSSC' and shift_rows:
        f[1::2] -= 0.5
    for m, mod in enumerate(tiles):
        for t, (c, sv, fv) in enumerate(mod):
            a, b = tile_slices(det, t)
            out[m, a, b] = c + s[..., None] * sv + f[..., None] * fv
    return out


def snapped_tiles(det, tiles):
    """[module][tile] = (list of possible corners (y, x), ss (y, x), fs (y, x)), whole numbers"""
    px = np.array([PX[det], PX[det] * (DSSC_Y if det == 'DSSC' else 1)])
    out = []
    for mod in tiles:
        row = []
        for c, ss, fs in mod:
            xy = c[:2] / px
            opts = []
            for v in xy:
                r = np.floor(v)
                o = [int(r)] if v - r < 0.5 else [int(r) + 1]
                if abs(v - r - 0.5) < 1e-6:
                    o = [int(r), int(r) + 1]
                opts.append(o)
            cands = [(y, x) for y in opts[1] for x in opts[0]]
            row.append((cands, np.rint(ss[:2] / px).astype(int)[::-1],
                        np.rint(fs[:2] / px).astype(int)[::-1]))
        out.append(row)
    return out


def tile_indices(det, ss, fs):
    """y, x index arrays for the pixels of a tile with its corner at (0, 0)"""
    ns, nf = TILE[det]
    s, f = np.meshgrid(np.arange(ns), np.arange(nf), indexing='ij')
    idx = []
    for ax in range(2):
        v = ss[ax] * s + fs[ax] * f
        idx.append(v - 1 if ss[ax] + fs[ax] < 0 else v)
    return idx
