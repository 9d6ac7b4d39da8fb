"""Streaming data: messages and their order"""
import threading
import time

import numpy as np

from ..streams import WAIT_S, connect, free_port

PROPERTY = 'C22'
QUICK, THOROUGH = 1800, 16000
RULE = ('Trains of generated sources (scalars of Python and NumPy, strings, bytes, nested lists and dicts, '
        'arrays of any simple dtype, shape and memory layout, strings of variable length) with '
        'metadata in the data, given separately or not at all, protocol versions 1.0 and 2.2, dummy '
        'timestamps, queue lengths 1-4. A generated history of feeding, requesting and receiving by '
        '1-2 real bridge clients over the loopback network, or a thread feeding at its own pace. '
        'Each train must arrive once, in order, with equal data. Non-trivial: at least 2 trains, or '
        'an array which is not C contiguous, or nested data.')
ASSUMPTIONS = ['arrays are not modified between being fed and sent',
               'a server with no data within %d s is taken not to have sent it' % WAIT_S]
DTYPES = ['f4', 'f8', 'f2', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', '?', 'c8', '>f4', '>i2',
          'S4', 'U3']


def strategy(tier):
    from hypothesis import strategies as st
    text = st.text(st.characters(codec='utf-8', exclude_categories=['Cs']), max_size=6)
    scalar = st.one_of(
        st.none(), st.booleans(), st.integers(-2 ** 63, 2 ** 64 - 1), st.integers(-3, 300),
        st.floats(allow_nan=False, allow_infinity=False), text)
    nested = st.recursive(scalar, lambda c: st.one_of(
        st.lists(c, max_size=3), st.dictionaries(text, c, max_size=3)), max_leaves=6)
    array = st.tuples(st.just('arr'), st.sampled_from(DTYPES),
                      st.lists(st.integers(0, 4), max_size=3),
                      st.sampled_from(['C', 'C', 'F', 'step', 'neg', 'ro', 'broadcast']),
                      st.integers(0, 255)).map(list)
    value = st.one_of(
        nested.map(lambda v: ['py', v]), array, array,
        st.tuples(st.just('np'), st.sampled_from(DTYPES), st.integers(0, 255)).map(list),
        st.lists(st.integers(0, 255), max_size=5).map(lambda b: ['bytes', b]),
        st.lists(text, min_size=1, max_size=3).map(lambda v: ['strings', v]),
        st.just(['strings', []]), st.just(['strings', ['a', 'b', 'ü', ''], [2, 2]]),
        st.sampled_from([['float', 'nan'], ['float', 'inf'], ['tuple', [1, 'a']]]))
    name = st.sampled_from(['source1', 'XMPL/DET/MOD0', 'A/B/C', 'A/B/C:out', 'z', 'ü/é'])
    key = st.sampled_from(['image.data', 'a.value', 'b', 'metadata.x', 'data', 'ünï.code', 'list'])
    md = st.dictionaries(st.sampled_from(['timestamp', 'timestamp.tid', 'source', 'timestamp.sec', 'x']),
                         st.one_of(st.integers(0, 2 ** 40), st.just(1234.567890), st.just('1234')),
                         max_size=3)
    source = st.fixed_dictionaries({'props': st.dictionaries(key, value, max_size=3),
                                    'md': st.one_of(st.none(), md)})
    train = st.fixed_dictionaries({
        'sources': st.dictionaries(name, source, min_size=1, max_size=3),
        'given': st.one_of(st.none(), st.none(), md, st.just('empty'))})
    return st.fixed_dictionaries({
        'version': st.sampled_from([None, '2.2', '1.0']),
        'dummy': st.booleans(),
        'maxlen': st.sampled_from([None, 1, 2, 4]),
        'trains': st.lists(train, min_size=1, max_size=5),
        'mode': st.sampled_from(['history', 'history', 'thread']),
        'clients': st.integers(1, 2),
        'early': st.booleans(),
        'legacy': st.sampled_from([False, False, False, True]),
        'ops': st.lists(st.sampled_from(['feed', 'feed', 'request', 'receive']), max_size=14),
        'who': st.lists(st.integers(0, 1), max_size=20),
        'delays': st.lists(st.sampled_from([0, 0, 1, 3]), max_size=6),
    })


def make_value(spec):
    kind = spec[0]
    if kind == 'py':
        return spec[1]
    if kind == 'bytes':
        return bytes(spec[1])
    if kind == 'float':
        return float(spec[1])
    if kind == 'tuple':
        return tuple(spec[1])
    if kind == 'strings':
        a = np.array(spec[1], dtype=object)
        return a.reshape(spec[2]) if len(spec) > 2 else a
    if kind == 'np':
        return make_array(spec[1], [], 'C', spec[2])[()]
    return make_array(*spec[1:])


def make_array(dtype, shape, layout, n):
    dt = np.dtype(dtype)
    full = list(shape)
    if layout == 'step' and full:
        full[-1] = full[-1] * 2
    size = int(np.prod(full))
    if dt.kind in 'SU':
        a = np.array([str((n + i) % 1000) for i in range(size)], dtype=dt).reshape(full)
    else:
        a = ((np.arange(size) * 7 + n) % 251).astype(dt).reshape(full)
        if dt.kind == 'c':
            a = np.asarray(a * dt.type(1 + 2j))
    if layout == 'F':
        a = np.asfortranarray(a)
    elif layout == 'step' and full:
        a = a[..., ::2]
    elif layout == 'neg' and full:
        a = a[::-1]
    elif layout == 'ro':
        a.flags.writeable = False
    elif layout == 'broadcast':
        a = np.broadcast_to(a, (2,) + a.shape)
    return a


def make_train(spec):
    """(data, metadata argument, expected metadata)"""
    data, given, expect = {}, None, {}
    if spec['given'] == 'empty':
        given = {}       # As if there was none
    elif spec['given']:
        given = {}
    for s, d in spec['sources'].items():
        data[s] = {k: make_value(v) for k, v in d['props'].items()}
        if d['md'] is not None:
            data[s]['metadata'] = dict(d['md'])
        expect[s] = dict(d['md'] or {})
        if given is not None and spec['given'] != 'empty':
            given[s] = dict(spec['given'], source=s)
            expect[s] = dict(given[s])
    return data, given, expect


def expected(value, version):
    """What the value should be on the other side"""
    if isinstance(value, np.ndarray) and value.dtype == object:
        return value if version == '1.0' else value.tolist()
    if isinstance(value, np.generic):
        return value if version == '1.0' else value.item()
    if isinstance(value, tuple):
        return list(value)
    return value


def equal(got, want):
    if isinstance(want, np.ndarray):
        return (isinstance(got, np.ndarray) and got.dtype == want.dtype and got.shape == want.shape
                and np.array_equal(got, want, equal_nan=want.dtype.kind in 'fc'))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(
            equal(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(map(equal, got, want))
    if isinstance(want, float) and want != want:
        return got != got
    if isinstance(want, (np.generic, bytes)):
        return got == want
    return type(got) is type(want) and got == want


def decode(obj):
    import msgpack_numpy
    if isinstance(obj, dict):
        obj = {k: decode(v) for k, v in obj.items()}
        return msgpack_numpy.decode(obj)
    if isinstance(obj, list):
        return [decode(o) for o in obj]
    return obj


def compare(got, train, version, dummy):
    data, meta = got
    want, given, want_meta = train
    if version == '1.0':
        data = decode(data)
        meta = decode(meta)
    assert set(data) == set(want), 'sources %s, expected %s' % (set(data), set(want))
    for s in want:
        exp = {k: expected(v, version) for k, v in want[s].items() if k != 'metadata'}
        d = {k: v for k, v in data[s].items() if k != 'metadata'}
        assert set(d) == set(exp), '%s: keys %s, expected %s' % (s, set(d), set(exp))
        for k in exp:
            assert equal(d[k], exp[k]), '%s %s: %r, expected %r' % (s, k, d[k], exp[k])
        m = dict(meta[s])
        if dummy and 'timestamp' not in want_meta[s]:
            t = m.pop('timestamp')
            assert abs(t - time.time()) < 600
            assert m.pop('timestamp.sec') == str(int(t))
            frac = m.pop('timestamp.frac')
            assert len(frac) == 18 and abs(float('0.' + frac) - t % 1) < 1e-5
            exp_m = {k: v for k, v in want_meta[s].items() if k != 'timestamp.sec'}
        else:
            exp_m = want_meta[s]
        assert equal(m, exp_m), '%s metadata: %r, expected %r' % (s, m, exp_m)
        if 'metadata' in data[s] and version != '1.0':
            assert 'metadata' in want[s]


def snapshot(train):
    import copy
    return copy.deepcopy(train)


def check(case, ctx):
    from karabo_data.export import ZMQStreamer
    with ctx.building():
        trains = [make_train(t) for t in case['trains']]
        originals = [snapshot(t) for t in trains]
        port = free_port()
    kw = {'dummy_timestamps': True} if case['dummy'] else {}
    if case['maxlen']:
        kw['maxlen'] = case['maxlen']
    if case['version']:
        kw['protocol_version'] = case['version']
    version = case['version'] or '2.2'
    ctx.label('protocol %s' % version, case['mode'])
    if case['legacy']:
        import karabo_data
        ctx.label('deprecated function')
        server = karabo_data.ZMQStreamer(port, **kw)
    else:
        server = ZMQStreamer(port, **kw)
    clients = []
    try:
        if case['early']:
            clients = [connect(port) for _ in range(case['clients'])]
        server.start()
        if not clients:
            clients = [connect(port) for _ in range(case['clients'])]
        if case['mode'] == 'thread':
            received = threaded(case, server, clients, trains)
        else:
            received = history(case, server, clients, trains, case['maxlen'] or 10)
    finally:
        for c in clients:
            c._context.destroy(linger=0)
        stopper = threading.Thread(target=server.stop, daemon=True)
        stopper.start()
        stopper.join(WAIT_S)
        stuck = stopper.is_alive()
    assert not stuck, 'stop() does not return'
    # received: for each client, the messages in order
    if len(clients) == 1:
        order = list(range(len(trains)))
    else:
        # Each train goes to one of the clients, in order
        order = None
    check_received(received, originals, order, version, case['dummy'])
    for (data, given, _), (data0, given0, _) in zip(trains, originals):
        assert equal_plain(data, data0) and equal_plain(given, given0), 'the data fed was modified'
    ctx.nontrivial(len(trains) > 1 or any(
        v[0] == 'arr' and v[3] != 'C' for t in case['trains'] for s in t['sources'].values()
        for v in s['props'].values()))
    if any(t['given'] for t in case['trains']):
        ctx.label('metadata given')


def equal_plain(a, b):
    if isinstance(b, dict):
        return set(a) == set(b) and all(equal_plain(a[k], b[k]) for k in b)
    if isinstance(b, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b, equal_nan=b.dtype.kind in 'fc')
    if isinstance(b, float) and b != b:
        return a != a
    return a == b or (a != a and b != b)


def check_received(received, trains, order, version, dummy):
    n = sum(len(r) for r in received)
    assert n == len(trains), '%d trains received, %d were fed' % (n, len(trains))
    if order is not None:
        for i, got in zip(order, received[0]):
            compare(got, trains[i], version, dummy)
        return
    # Two clients: find which has each train, in the order of feeding
    ways = {(0, 0)}
    for i, t in enumerate(trains):
        new, err = set(), None
        for a, b in ways:
            for k, pos in ((0, a), (1, b)):
                if pos < len(received[k]):
                    try:
                        compare(received[k][pos], t, version, dummy)
                    except AssertionError as e:
                        err = e
                    else:
                        new.add((a + 1, b) if k == 0 else (a, b + 1))
        if not new:
            raise AssertionError('train %d was not received in order: %s' % (i, err))
        ways = new


def history(case, server, clients, trains, maxlen):
    """Feeding, requesting and receiving as the case says, with nothing which has to wait"""
    received = [[] for _ in clients]
    who = list(case['who'])
    fed = got = requested = 0
    open_requests = []      # clients which have requested, in order

    def feed():
        nonlocal fed
        data, given, _ = trains[fed]
        if given is None:
            server.feed(data)
        else:
            server.feed(data, given)
        fed += 1

    def request(k):
        c = clients[k]
        if not c._recv_ready:
            # As Client.next() does before it waits
            c._socket.send(b'next')
            c._recv_ready = True
            open_requests.append(k)

    def receive():
        nonlocal got
        # Requests from different clients may arrive in any order
        deadline = time.monotonic() + WAIT_S
        while True:
            for k in list(open_requests):
                if clients[k]._socket.poll(0 if len(open_requests) > 1 else 50):
                    received[k].append(clients[k].next())
                    open_requests.remove(k)
                    got += 1
                    return
            if time.monotonic() > deadline:
                raise AssertionError('nothing received, %d trains fed, %d received' % (fed, got))
            time.sleep(0.0005)

    for op in case['ops']:
        k = (who.pop(0) if who else 0) % len(clients)
        # Messages for open requests are taken from the queue
        queued = fed - got - min(len(open_requests), fed - got)
        if op == 'feed' and fed < len(trains) and queued < maxlen:
            feed()
        elif op == 'request':
            request(k)
        elif op == 'receive' and open_requests and fed > got:
            receive()
    while got < len(trains):
        if fed < len(trains) and fed - got < maxlen:
            feed()
        if not open_requests:
            request((who.pop(0) if who else 0) % len(clients))
        receive()
    return received


def threaded(case, server, clients, trains):
    """Feed from a thread at its own pace, and clients receiving at theirs"""
    received = [[] for _ in clients]
    delays = case['delays']
    errors = []

    def feeder():
        try:
            for i, (data, given, _) in enumerate(trains):
                if i < len(delays) and delays[i]:
                    time.sleep(delays[i] / 1000)
                server.feed(*((data,) if given is None else (data, given)))
        except BaseException as e:
            errors.append(e)

    t = threading.Thread(target=feeder, daemon=True)
    t.start()
    try:
        pending = len(trains)
        deadline = time.monotonic() + WAIT_S
        i = 0
        while pending:
            for k, c in enumerate(clients):
                if not c._recv_ready:
                    c._socket.send(b'next')
                    c._recv_ready = True
            for k, c in enumerate(clients):
                if pending and c._socket.poll(2):
                    received[k].append(c.next())
                    pending -= 1
                    i += 1
                    if len(delays) > i and delays[-i]:
                        time.sleep(delays[-i] / 1000)
            if errors:
                raise errors[0]
            if time.monotonic() > deadline:
                raise AssertionError('%d trains not received' % pending)
        t.join(WAIT_S)
        assert not t.is_alive(), 'feed() does not return'
    finally:
        if errors and t.is_alive():
            t.join(1)
    return received
