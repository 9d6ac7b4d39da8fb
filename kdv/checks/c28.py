"""CBF export and QuickView"""
import hashlib
import os

import numpy as np

PROPERTY = 'C28'
QUICK, THOROUGH = 3200, 40000
RULE = ('Integer stacks (8-64 bits, signed and not, both byte orders, any memory layout) with an '
        'index and header, converted by numpy_to_cbf or from a generated file (formats 0.5 and 1.0, '
        'several sources) by hdf5_to_cbf, and read with fabio. QuickView histories of next, prev, '
        'setting the position, displaying an index and changing the data, compared with a model of '
        'the position and image. Non-trivial: the stack has at least 2 different images.')
ASSUMPTIONS = ['values below 2**30 (fabio loses larger differences of neighbours) and whole numbers '
               '(the CBF format written by fabio has only integers)']
DTYPES = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', '>i2', '>u4', '?', 'f4']


def strategy(tier):
    from hypothesis import strategies as st
    word = st.text('abcXYZ0189_-. ', min_size=1, max_size=8).map(str.strip).filter(bool)
    header = st.one_of(st.none(), st.just({}), st.dictionaries(
        st.sampled_from(['Detector', 'Exposure_time', 'a', 'Beam_xy']),
        st.one_of(word, st.integers(0, 1000)), max_size=3))
    stack = st.fixed_dictionaries({
        'dtype': st.sampled_from(DTYPES), 'n': st.integers(1, 5),
        'shape': st.lists(st.integers(1, 5), min_size=2, max_size=2),
        'layout': st.sampled_from(['C', 'C', 'F', 'step', 'neg', 'T']),
        'fill': st.sampled_from(['range', 'range', 'big', 'zero', 'noise']),
        'seed': st.integers(0, 2 ** 16)})
    cbf = st.fixed_dictionaries({
        'kind': st.just('cbf'), 'stack': stack, 'index': st.one_of(st.none(), st.integers(-5, 4)),
        'header': header, 'via': st.sampled_from(['numpy', 'numpy', 'dataset'])})
    h5 = st.fixed_dictionaries({
        'kind': st.just('h5'), 'stack': stack, 'index': st.integers(-5, 4), 'header': header,
        'version': st.sampled_from(['0.5', '1.0']), 'others': st.integers(0, 3),
        'first': st.booleans()})
    i = st.integers(-6, 6)
    op = st.one_of(
        st.tuples(st.sampled_from(['next', 'next', 'prev', 'previous', 'builtin_next', 'len'])),
        st.tuples(st.just('pos'), i), st.tuples(st.just('end')), st.tuples(st.just('display'), i),
        st.tuples(st.just('data'), stack), st.tuples(st.just('bad'), st.integers(0, 5))).map(list)
    view = st.fixed_dictionaries({'kind': st.just('view'), 'stack': stack, 'init': st.booleans(),
                                  'ops': st.lists(op, max_size=14)})
    return st.one_of(cbf, h5, view, view)


def make_stack(spec):
    n, (a, b) = spec['n'], spec['shape']
    dt = np.dtype(spec['dtype'])
    shape = (n, a, b)
    lay = spec['layout']
    size = n * a * b * 2
    info = None if dt.kind in 'bf' else np.iinfo(dt)
    top = min(info.max, 2 ** 30) if info else (1 if dt.kind == 'b' else 2 ** 20)
    low = max(info.min, -2 ** 30) if info else (0 if dt.kind == 'b' else -2 ** 20)
    rng = np.random.RandomState(spec['seed'])
    if spec['fill'] == 'range':
        v = np.arange(size) % (top - low + 1)
    elif spec['fill'] == 'big':
        v = np.where(np.arange(size) * 7 % 3 == 0, top, np.arange(size) % 100)
        v = np.minimum(v, top)
    elif spec['fill'] == 'zero':
        v = np.zeros(size, int)
    else:
        v = rng.randint(low, top + 1, size=size, dtype=np.int64)
    v = v.astype(dt)
    if lay == 'step':
        return v.reshape(n, a, b * 2)[..., ::2]
    v = v[:n * a * b]
    if lay == 'F':
        return np.asfortranarray(v.reshape(shape))
    if lay == 'neg':
        return v.reshape(shape)[::-1, :, ::-1]
    if lay == 'T':
        return v.reshape(b, a, n).T
    return v.reshape(shape)


def read_cbf(path):
    import fabio
    img = fabio.open(path)
    return np.array(img.data), dict(img.header)


def check_cbf(got, want, header, ctx):
    data, head = got
    assert data.shape == want.shape, (data.shape, want.shape)
    assert (data.astype(object) == want.astype(int).astype(object)).all(), \
        'read %s, expected %s' % (data, want)
    lines = [ln.strip() for ln in head.get('_array_data.header_contents', '').splitlines()
             if ln.strip()]
    want_lines = ['# %s %s' % (k, v) for k, v in (header or {}).items()]
    for ln in want_lines:
        assert ln in lines, 'header %r, expected a line %r' % (lines, ln)
    assert len(lines) == len(want_lines), (lines, want_lines)
    if header:
        ctx.label('header')


def check(case, ctx):
    {'cbf': check_numpy, 'h5': check_h5, 'view': check_view}[case['kind']](case, ctx)


def different(stack):
    return any((stack[i] != stack[0]).any() for i in range(len(stack)))


def check_numpy(case, ctx):
    import h5py
    from karabo_data import numpy_to_cbf
    with ctx.building():
        stack = make_stack(case['stack'])
        orig = stack.copy()
        header = None if case['header'] is None else dict(case['header'])
        index = case['index']
        if index is not None:
            index = index % len(stack) - (len(stack) if index < 0 else 0)
        arg = stack
        f = None
        if case['via'] == 'dataset':
            f = h5py.File(ctx.path('in.h5'), 'w')
            arg = f.create_dataset('x', data=stack)
    try:
        args = {} if index is None else {'index': index}
        if header is not None:
            args['header'] = header
        cbf = numpy_to_cbf(arg, **args)
        i = 0 if index is None else index
        assert cbf.data.shape == stack.shape[1:] and (cbf.data == orig[i]).all()
        cbf.write(ctx.path('out.cbf'))
    finally:
        if f is not None:
            f.close()
    check_cbf(read_cbf(ctx.path('out.cbf')), orig[i], case['header'], ctx)
    assert (stack == orig).all() and stack.dtype == orig.dtype
    ctx.nontrivial(different(orig))
    ctx.label('numpy_to_cbf')


def check_h5(case, ctx):
    import h5py
    from karabo_data import hdf5_to_cbf
    from ..runspec import write_metadata
    with ctx.building():
        stack = make_stack(case['stack'])
        path = ctx.path('in.h5')
        det = 'INSTRUMENT/SPB_DET_AGIPD1M-1/DET/3CH0:xtdf/image'
        names = ['CONTROL/A/B/C', 'INSTRUMENT/A/B/C:out/data',
                 'INSTRUMENT/SPB_DET_AGIPD1M-1/DET/3CH0:xtdf/header'][:case['others']]
        names = [det] + names if case['first'] else names + [det]
        with h5py.File(path, 'w') as f:
            for n in names:
                f[n + '/data'] = stack if n == det else np.full((5, 4, 4), 99)
            write_metadata(f, case['version'], names)
        index = case['index'] % len(stack) - (len(stack) if case['index'] < 0 else 0)
        if index < 0:
            index += len(stack)     # h5py may not take negative numbers
        old = hashlib.sha1(open(path, 'rb').read()).hexdigest()
    out = ctx.path('out.cbf')
    kw = {} if case['header'] is None else {'header': dict(case['header'])}
    hdf5_to_cbf(path, out, index, **kw)
    check_cbf(read_cbf(out), stack[index], case['header'], ctx)
    assert hashlib.sha1(open(path, 'rb').read()).hexdigest() == old
    ctx.nontrivial(different(stack))
    ctx.label('hdf5_to_cbf', 'format ' + case['version'])


def check_view(case, ctx):
    with ctx.building():
        import matplotlib
        matplotlib.use('agg')
        import matplotlib.pyplot as plt
        plt.close('all')
        data = make_stack(case['stack'])
    from karabo_data import QuickView

    def shown(i, what):
        axes_images = [x for ax in plt.gcf().axes for x in ax.get_images()]
        assert len(axes_images) == 1, '%s: %d images' % (what, len(axes_images))
        im = axes_images[0]
        a = np.asarray(im.get_array())
        assert a.shape == data[i].shape and (a == data[i]).all(), \
            '%s: displayed %s, expected %s' % (what, a, data[i])
        title = im.axes.get_title()
        assert title.split()[-1] == str(i), '%s: title %r, expected %d' % (what, title, i)

    try:
        if case['init']:
            qv = QuickView(data)
        else:
            qv = QuickView()
            assert qv.data is None
            qv.data = data
        pos, vis = 0, 0
        shown(0, 'start')
        for op in case['ops']:
            what = str(op)
            n = len(data)
            if op[0] in ('next', 'builtin_next'):
                qv.next() if op[0] == 'next' else next(qv)
                if pos < n - 1:
                    pos = vis = pos + 1
            elif op[0] in ('prev', 'previous'):
                getattr(qv, op[0])()
                if pos > 0:
                    pos = vis = pos - 1
            elif op[0] == 'pos':
                if 0 <= op[1] < n:
                    qv.pos = op[1]
                    pos = vis = op[1]
                else:
                    try:
                        qv.pos = op[1]
                    except ValueError:
                        ctx.label('position refused')
                    else:
                        raise AssertionError('position %d of %d accepted' % (op[1], n))
            elif op[0] == 'end':
                qv.pos = len(qv) - 1
                pos = vis = n - 1
            elif op[0] == 'display':
                i = op[1] % n
                qv.display(i)
                vis = i
            elif op[0] == 'data':
                data = make_stack(op[1])
                qv.data = data
                pos = vis = 0
                ctx.label('data changed')
            elif op[0] == 'bad':
                bad = [4, None, [[[1]]], np.zeros((2, 2)), np.zeros((1, 2, 2, 2)), np.zeros(3)][op[1]]
                try:
                    qv.data = bad
                except TypeError:
                    pass
                else:
                    raise AssertionError('data %r accepted' % (bad,))
            assert len(qv) == len(data), what
            assert qv.pos == pos, '%s: position %d, expected %d' % (what, qv.pos, pos)
            assert qv.data is data, what
            shown(vis, what)
        ctx.nontrivial(different(data))
        ctx.label('QuickView')
    finally:
        plt.close('all')
