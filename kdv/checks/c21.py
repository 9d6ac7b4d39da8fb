"""Writing and reading CrystFEL geometry files"""
import os
import re

import numpy as np

from .. import geospec as gs

PROPERTY = 'C21'
QUICK, THOROUGH = 600, 8000
RULE = ('Geometries as for C18 (tiles turned, tilted by angles from 1e-9 to 0.003 and moved along z), '
        'written with generated paths, dims, clen, photon energy and adu_per_eV. The file is read by '
        'a parser of our own: every panel must have the vectors and corner of its tile, and the '
        'region and indexes which address exactly its pixels in data of those dims. '
        'from_crystfel_geom (after filling in what was omitted) must give the same positions, and '
        'survive a second round. Non-trivial: vectors with small or z parts, or dims other than '
        'the default.')
ASSUMPTIONS = ['dims have ss and fs once, and modno at most once']


def strategy(tier):
    from hypothesis import strategies as st
    num = st.one_of(st.none(), st.sampled_from([0.2, 1.5, 9000, 0.0075, 1e-5, 12345.678, 0]),
                    st.integers(1, 10 ** 6).map(lambda n: n / 1000))
    return st.fixed_dictionaries({
        'geom': gs.geoms(),
        'small': st.sampled_from([0, 0, 1e-9, 1e-5, 1e-17]),
        'dims': st.sampled_from([None, None, ['frame', 'modno', 'ss', 'fs'],
                                 ['frame', 'modno', 0, 'ss', 'fs'], ['frame', 'ss', 'fs'],
                                 ['modno', 'frame', 'ss', 'fs'], ['frame', 'modno', 'fs', 'ss'],
                                 ['frame', 1, 'modno', 0, 'ss', 'fs'], ['modno', 'ss', 'fs']]),
        'data': st.sampled_from([None, '/entry_1/data_1/data', '/x']),
        'mask': st.sampled_from([None, None, '/entry_1/data_1/mask']),
        'adu': num, 'clen': num, 'energy': num,
        'over': st.booleans(),
    })


def parse(path):
    """({top-level key: value}, {panel: {key: value}}, comment lines)"""
    top, panels, comments = {}, {}, []
    with open(path) as f:
        for line in f:
            text, _, comment = line.strip().partition(';')
            if comment and not text.strip():
                comments.append(comment.strip())
            if '=' not in text:
                assert not text.strip(), line
                continue
            key, value = (s.strip() for s in text.split('=', 1))
            if '/' in key:
                panel, key = key.split('/')
                d = panels.setdefault(panel, {})
            else:
                d = top
            assert key not in d, 'repeated: ' + line
            d[key] = value
    return top, panels, comments


def check(case, ctx):
    g = case['geom']
    det = g['det']
    geom, tiles = gs.make(g, ctx)
    if case['small'] and g['origin'] == 'direct':
        # A very small angle
        from karabo_data.geometry2 import GeometryFragment
        a = case['small']
        rot = np.array([[1, -a, a], [a, 1, 0], [-a, 0, 1]])
        tiles = [[(c, rot @ s, rot @ f) for c, s, f in mod] for mod in tiles]
        geom = gs.geom_class(det)([[GeometryFragment(c, s, f, *gs.TILE[det]) for c, s, f in mod]
                                   for mod in tiles])
        ctx.label('small angle')
    path = ctx.path('out.geom')
    if case['over']:
        with open(path, 'w') as f:
            f.write('old = 1\n' * 100000)
    dims = case['dims'] or ['frame', 'modno', 'ss', 'fs']
    kw = {}
    for opt, key in [('dims', 'dims'), ('data', 'data_path'), ('mask', 'mask_path'),
                     ('adu', 'adu_per_ev'), ('clen', 'clen'), ('energy', 'photon_energy')]:
        if case[opt] is not None:
            kw[key] = tuple(case[opt]) if opt == 'dims' else case[opt]
    if 'frame' not in dims:
        ctx.label('no frame dimension')
        try:
            geom.write_crystfel_geom(path, **kw)
        except ValueError:
            return
        raise AssertionError('no error for dims without frame')
    no_file = geom.filename == 'No file'
    geom.write_crystfel_geom(path, **kw)
    if no_file:
        assert geom.filename == path
    top, panels, comments = parse(path)
    check_top(case, top, comments, dims, det)
    check_panels(det, tiles, top, panels, dims)
    ctx.label('dims ' + ' '.join(map(str, dims)))

    with ctx.building():
        need = ''
        if case['adu'] is None:
            need += 'adu_per_eV = 0.0075\n'
        if case['clen'] is None:
            need += 'clen = 0.2\n'
        with open(path) as f:
            text = f.read()
        path2 = ctx.path('complete.geom')
        with open(path2, 'w') as f:
            f.write(need + text)
    cls = gs.geom_class(det)
    loaded = cls.from_crystfel_geom(path2)
    assert loaded.filename == path2
    compare(loaded, geom, det, tiles, 'loaded')
    # Another round
    path3 = ctx.path('again.geom')
    loaded.write_crystfel_geom(path3, adu_per_ev=1, clen=2)
    assert loaded.filename == path2
    compare(cls.from_crystfel_geom(path3), geom, det, tiles, 'loaded again')
    assert os.path.isfile(path2)
    ctx.nontrivial(bool(g['tilt'] or g['z'] or case['small']) or case['dims'] is not None)


def compare(loaded, geom, det, tiles, desc):
    want = gs.pixel_positions(det, tiles, 0, 0)
    for g, d in ((loaded, desc), (geom, 'original')):
        got = g.get_pixel_positions(centre=False)
        err = np.abs(got - want)
        assert err.max() < 2e-9, '%s: position at %s is %s, expected %s' % (
            d, np.unravel_index(np.argmax(err), err.shape)[:3],
            got[np.unravel_index(np.argmax(err), err.shape)[:3]],
            want[np.unravel_index(np.argmax(err), err.shape)[:3]])


def check_top(case, top, comments, dims, det):
    assert np.isclose(float(top['res']), 1 / gs.PX[det], rtol=1e-9), top['res']
    assert top['data'] == (case['data'] or '/entry_1/instrument_1/detector_1/data'), top['data']
    assert top.get('mask') == case['mask'], top.get('mask')
    for opt, key in [('adu', 'adu_per_eV'), ('clen', 'clen'), ('energy', 'photon_energy')]:
        if case[opt] is None:
            assert key not in top
            assert any(re.match(key + r'\s*=', c) for c in comments), 'no note to set ' + key
        else:
            assert float(top[key]) == case[opt], (key, top[key])
    assert top['dim%d' % dims.index('frame')] == '%'
    # Each quadrant has 4 modules
    nt = gs.NTILES[det]
    name = lambda ms: ['p%da%d' % (m, a) for m in ms for a in range(nt)]    # noqa: E731
    for q in range(4):
        assert top['rigid_group_q%d' % q].split(',') == name(range(4 * q, 4 * q + 4))
    for p in range(16):
        assert top['rigid_group_p%d' % p].split(',') == name([p])
    assert top['rigid_group_collection_quadrants'].split(',') == ['q%d' % q for q in range(4)]
    assert top['rigid_group_collection_asics'].split(',') == ['p%d' % p for p in range(16)]


def check_panels(det, tiles, top, panels, dims):
    nt = gs.NTILES[det]
    assert set(panels) == {'p%da%d' % (p, a) for p in range(16) for a in range(nt)}
    res = float(top['res'])
    for p in range(16):
        for a in range(nt):
            n = 'p%da%d' % (p, a)
            d = dict(panels[n])
            ss, fs = gs.tile_slices(det, a)
            off = 0 if 'modno' in dims else p * gs.SHAPE[det][1]
            region = tuple(int(d.pop(k)) for k in ('min_ss', 'max_ss', 'min_fs', 'max_fs'))
            want = (ss.start + off, ss.stop - 1 + off, fs.start, fs.stop - 1)
            assert region == want, '%s: region %s, expected %s' % (n, region, want)
            got_dims = {}
            for k in list(d):
                if k.startswith('dim'):
                    got_dims[int(k[3:])] = d.pop(k)
            exp_dims = {i: str(p) if x == 'modno' else str(x) for i, x in enumerate(dims)
                        if x != 'frame'}
            assert got_dims == exp_dims, '%s: dims %s, expected %s' % (n, got_dims, exp_dims)
            c, s, f = tiles[p][a]
            corner = np.array([float(d.pop('corner_x')) / res, float(d.pop('corner_y')) / res,
                               float(d.pop('coffset'))])
            for what, got, exp in (('corner', corner, c), ('ss', vec(d.pop('ss')) / res, s),
                                   ('fs', vec(d.pop('fs')) / res, f)):
                # Vectors are multiplied by up to 256 pixels
                tol = 1e-9 if what == 'corner' else 1e-12
                assert np.abs(got - exp).max() < tol, '%s: %s is %s, expected %s' % (n, what, got, exp)
            assert not d, d


VEC = re.compile(r'([+-]?)\s*(\d*\.?\d*)\s*([xyz])\s*')


def vec(text):
    """Parse +1.0x -0.1y as CrystFEL does: terms are separated by + or -"""
    v = np.zeros(3)
    pos = 0
    while pos < len(text):
        m = VEC.match(text, pos)
        assert m, 'cannot read vector %r' % text
        v['xyz'.index(m.group(3))] = float(m.group(1) + (m.group(2) or '1'))
        pos = m.end()
    return v
