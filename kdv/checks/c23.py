"""Serving files: which trains are streamed, with what data"""
import threading
import time

import numpy as np

from ..globs import key_matches
from ..globs import matches as glob_matches
from ..runspec import Model, build_run, label_spec, run_specs, same, some_long, spec_files
from ..streams import WAIT_S, connect, free_port
from .c06 import KEY_GLOBS, SRC_GLOBS, pattern
from .c22 import decode

PROPERTY = 'C23'
QUICK, THOROUGH = 1600, 16000
RULE = ('Generated runs (up to 16 trains, gaps, sources without data in some trains, several files) '
        'served from the run folder or from one of the files, by serve_files() or by the command '
        'line with its options, with generated source and key patterns, queue lengths, both '
        'protocol versions, 1-2 clients over the loopback network which start late or are slow. '
        'The trains which arrive must be those with data for the selection, each once and in order, '
        'with exactly the recorded data; then the server must finish. Non-trivial: at least 2 '
        'trains arrive and the selection or the data leaves something out, or several files.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'trains without any data for the selection may or may not be sent (without data)',
               'a server which does nothing for %d s is taken to be stuck' % WAIT_S]


def strategy(tier):
    from hypothesis import strategies as st
    pat = st.one_of(
        st.just(['*', '*']), st.just(['*', '*']),
        st.tuples(st.sampled_from(SRC_GLOBS), st.sampled_from(KEY_GLOBS)).map(list),
        st.tuples(st.just('rel'), st.integers(0, 40), st.integers(0, 6), st.integers(0, 8),
                  st.integers(0, 60)).map(list))
    return st.fixed_dictionaries({
        'run': some_long(run_specs(max_trains=24 if tier == 'thorough' else 16), 100,
                         sizes=(40, 64, 128)),
        'path': st.one_of(st.none(), st.none(), st.integers(0, 8)),
        'how': st.sampled_from(['serve', 'serve', 'main', 'legacy']),
        'pattern': pat,
        'maxlen': st.sampled_from([None, 1, 2, 30]),
        'version': st.sampled_from([None, '1.0']),
        'dummy': st.booleans(),
        'clients': st.sampled_from([1, 1, 2]),
        'early': st.booleans(),
        'delays': st.lists(st.sampled_from([0, 0, 0, 1, 5]), max_size=8),
    })


def file_spec(spec, i):
    """The run consisting of a single file"""
    files = spec_files(spec)
    i %= len(files)
    name, agg, f = files[i]
    return i, dict(spec, aggs=[dict(agg, files=[f])])


def selection(model, src_glob, key_glob):
    sel = {}
    for s in model.sources:
        if glob_matches(src_glob, s):
            keys = {k for k in model.keys(s)
                    if key_matches(key_glob, k, model.sources[s]['kind'] == 'control')}
            if keys:
                sel[s] = keys
    return sel


def check(case, ctx):
    from karabo_data import export
    with ctx.building():
        spec = case['run']
        paths = build_run(spec, ctx.path('run'))
        path = ctx.path('run')
        if case['path'] is not None and paths:
            i, spec = file_spec(spec, case['path'])
            path = paths[i]
            ctx.label('single file')
        if not paths:
            return
        model = label_spec(spec, ctx)
        src_glob, key_glob = case['pattern'] if case['pattern'][0] != 'rel' else relative(
            case['pattern'], model)
        if key_glob is None:
            key_glob = '*'
        sel = selection(model, src_glob, key_glob)
        port = free_port()
    if not model.trains and not sel:
        return

    errors = []

    def serve():
        try:
            if case['how'] == 'main':
                args = [path, str(port)]
                if src_glob != '*' or case['early']:
                    args += ['--source', src_glob]
                if key_glob != '*' or case['early']:
                    args[:0] = ['--key=' + key_glob]
                export.main(args)
            else:
                serve_files = export.serve_files
                if case['how'] == 'legacy':
                    import karabo_data
                    serve_files = karabo_data.serve_files
                kw = {}
                if case['maxlen'] is not None:
                    kw['maxlen'] = case['maxlen']
                if case['version']:
                    kw['protocol_version'] = case['version']
                if case['dummy']:
                    kw['dummy_timestamps'] = True
                if src_glob == '*' and key_glob == '*' and case['early']:
                    serve_files(path, port, **kw)
                elif key_glob == '*' and case['early']:
                    serve_files(path, port, src_glob, **kw)
                else:
                    serve_files(path, port, source_glob=src_glob, key_glob=key_glob, **kw)
        except BaseException as e:
            errors.append(e)

    serve_main = case['how'] == 'main'
    version = '2.2' if serve_main else case['version'] or '2.2'
    ctx.label('command line' if serve_main else 'serve_files', 'protocol ' + version)
    clients = []
    thread = threading.Thread(target=serve, daemon=True)
    received = [[] for _ in range(case['clients'])]
    try:
        if case['early']:
            clients = [connect(port) for _ in range(case['clients'])]
        thread.start()
        if not clients:
            clients = [connect(port) for _ in range(case['clients'])]
        receive(thread, clients, received, case['delays'])
    finally:
        for c in clients:
            c._context.destroy(linger=0)
    if not sel:
        assert errors and isinstance(errors[0], (ValueError, KeyError)), \
            'a selection of nothing was served: %r' % errors
        assert not any(received)
        ctx.label('nothing selected')
        return
    if errors:
        raise errors[0]

    if len(clients) == 1:
        messages = [(m, tid_of(m, version)) for m in received[0]]
    else:
        ctx.label('two clients')
        messages = []
        for r in received:
            part = [(m, tid_of(m, version)) for m in r]
            tids = [t for _, t in part if t is not None]
            assert tids == sorted(tids), 'trains received in the order %s' % tids
            messages += part
        messages.sort(key=lambda m: m[1] or 0)
    want = [t for t in model.trains
            if any(model.count(s, k, t) for s, keys in sel.items() for k in keys)]
    got = [t for _, t in messages]
    needed = [t for t in got if t in set(want)]
    assert needed == want, 'trains %s received, expected %s' % (got, want)
    assert len(set(got)) == len(got) and set(got) <= set(model.trains), got
    for (data, meta), tid in messages:
        compare(data, meta, model, sel, tid, version, case['dummy'] and not serve_main)
    ctx.nontrivial(len(want) > 1 and (
        len(want) < len(model.trains) or len(sel) < len(model.sources)
        or 'several files' in ctx.case_labels or 'train without entries' in ctx.case_labels))
    if len(want) > 10:
        ctx.label('more than 10 trains')


def relative(pat, model):
    _, i, hs, hk, pos = pat
    fields = model.fields()
    if not fields:
        return ['*', '*']
    s, k = fields[i % len(fields)]
    if hk == 7:
        kg = '*'
    elif hk == 8 and k.endswith('.value'):
        kg = k[:-len('.value')]
    else:
        kg = pattern(k, hk, pos + i)
    return [pattern(s, hs, pos), kg]


def receive(thread, clients, received, delays):
    """Keep asking for the next train until the server has finished"""
    deadline = time.monotonic() + WAIT_S
    last_round = False
    n = 0
    while True:
        for k, c in enumerate(clients):
            if not c._recv_ready:
                # As Client.next() does before it waits
                c._socket.send(b'next')
                c._recv_ready = True
        for k, c in enumerate(clients):
            while c._socket.poll(20 if last_round else 3):
                received[k].append(c.next())
                deadline = time.monotonic() + WAIT_S
                n += 1
                if n <= len(delays) and delays[n - 1]:
                    time.sleep(delays[n - 1] / 1000)
                if not last_round:
                    break
                c._socket.send(b'next')
                c._recv_ready = True
        if last_round:
            return
        if not thread.is_alive():
            last_round = True
        if time.monotonic() > deadline:
            raise AssertionError('the server neither sends data nor finishes (%d trains received)' % n)


def tid_of(msg, version):
    data, meta = msg
    tids = {m.get('timestamp.tid') for m in meta.values()}
    assert len(tids) == 1, 'train IDs %s in one message' % tids
    return tids.pop()


def compare(data, meta, model, sel, tid, version, dummy):
    what = 'train %s' % tid
    if version == '1.0':
        data = decode(data)
    assert set(data) <= set(sel), '%s: unexpected sources %s' % (what, set(data) - set(sel))
    for s, keys in sel.items():
        want = model.train_data(s, keys, tid)
        if s not in data:
            assert not want, '%s: source %s missing' % (what, s)
            continue
        got = {k: v for k, v in data[s].items() if k != 'metadata'}
        assert meta[s]['source'] == s and meta[s]['timestamp.tid'] == tid, (what, meta)
        extra = set(meta[s]) - {'source', 'timestamp.tid'}
        assert extra == ({'timestamp', 'timestamp.sec', 'timestamp.frac'} if dummy else set()), extra
        assert set(got) == set(want), '%s: %s: keys %s, expected %s' % (
            what, s, sorted(got), sorted(want))
        for k, v in want.items():
            if isinstance(v, np.ndarray) and v.dtype.kind == 'O':
                # Strings: sent as (nested) lists
                g = got[k].tolist() if isinstance(got[k], np.ndarray) else got[k]
                assert g == v.tolist(), '%s: %s %s: %r, expected %r' % (what, s, k, g, v)
            elif isinstance(v, bytes):
                assert got[k] == v, '%s: %s %s: %r, expected %r' % (what, s, k, got[k], v)
            elif v.ndim:
                same(got[k], v, '%s: %s %s' % (what, s, k))
            else:
                g = got[k]
                assert g == v.item() or (g != g and v != v), '%s: %s %s: %r, expected %r' % (
                    what, s, k, g, v)
