"""The run map cache is transparent"""
import contextlib
import io
import json
import os
import resource
import shutil
from unittest import mock

import h5py

from ..engine import HarnessError
from ..globs import matches
from ..runspec import Model, build_file
from .c09 import check_open

PROPERTY = 'C10'
QUICK, THOROUGH = 2400, 20000
RULE = ('Histories of 3-12 steps on a run directory: write / replace / touch / truncate / remove '
        'data files (every write has a new modification time or size), damage the cache file '
        '(removed, truncated, other content, partial, an earlier copy, replaced by a directory), '
        'open through real, symlinked and relative paths with include patterns, and open as an '
        'unprivileged user who cannot write (or read) the cache. After each open, trains, sources, '
        'keys and data are compared with the model of the files now there, and the entries of the '
        'cache with the facts. Non-trivial: an open after a data file changed or the cache was '
        'damaged, with a cache written before.')
ASSUMPTIONS = ['a changed data file differs in size or modification time (documented limit)',
               'the scratch root is redirected with karabo_data.run_files_map.SCRATCH_ROOT_DIR']

NSLOTS = 3
FAULTS = ['delete', 'truncate', 'garbage', 'binary', 'empty', 'null', 'object', 'list of numbers',
          'partial', 'earlier', 'directory', 'missing fields', 'unreadable']
SOURCES = [
    {'kind': 'control', 'name': 'A/B/C', 'index': 'count',
     'keys': [{'key': 'x.value', 'dtype': 'f4', 'shape': []}]},
    {'kind': 'control', 'name': 'A/B/D', 'index': 'last',
     'keys': [{'key': 'y.value', 'dtype': 'u2', 'shape': []}]},
    {'kind': 'inst', 'name': 'A/B/C:out'},
    {'kind': 'inst', 'name': 'CAM/SIDE/1:daqOutput'},
]


def strategy(tier):
    from hypothesis import strategies as st
    slot = st.integers(0, NSLOTS - 1)
    content = st.fixed_dictionaries({
        'first': st.integers(0, 4), 'n': st.integers(0, 4), 'sources': st.integers(1, 15),
        'pad': st.integers(0, 1), 'count': st.integers(0, 2)})
    opn = st.tuples(st.just('open'), st.sampled_from(['*', '*', '*', '*DA0[01]*', '*DA02*']),
                    st.sampled_from(['real', 'real', 'link', 'relative', 'slash']))
    op = st.one_of(
        st.tuples(st.just('write'), slot, content, st.sampled_from(['new', 'new', 'keep'])),
        st.tuples(st.just('write'), slot, content, st.sampled_from(['new', 'new', 'keep'])),
        st.tuples(st.just('touch'), slot),
        st.tuples(st.just('remove'), slot),
        st.tuples(st.just('break'), slot, st.integers(5, 95)),
        st.tuples(st.just('swap'), slot, slot),
        st.tuples(st.just('fault'), st.sampled_from(['run', 'scratch']), st.sampled_from(FAULTS),
                  st.integers(0, 99)),
        opn, opn, opn,
        # A file is replaced just after it was opened
        st.tuples(st.just('race'), st.sampled_from(['*', '*', '*DA0[01]*']),
                  st.sampled_from(['real', 'link']), slot, content, st.sampled_from(['new', 'keep'])),
        # Files cannot get bigger than so many bytes
        st.tuples(st.just('open full'), st.sampled_from(['*', '*DA0[01]*']),
                  st.sampled_from(['real', 'link']), st.sampled_from([0, 1, 100, 200, 300, 500, 1000])),
        st.tuples(st.just('open as user'), st.sampled_from(['*', '*DA00*']), st.booleans(),
                  st.sampled_from(['real', 'link', 'relative'])),
    ).map(list)
    return st.fixed_dictionaries({
        'base': st.sampled_from([10000, 10000, 142844490, 2 ** 32 - 3, 2 ** 40]),
        'files': st.lists(content, min_size=1, max_size=NSLOTS),
        'scratch': st.booleans(),
        'ops': st.lists(op, min_size=3, max_size=20 if tier == 'thorough' else 12),
        'version': st.sampled_from(['0.5', '1.0']),
    })


class World:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.version = case['version']
        self.base = case['base']
        self.exp = ctx.path('exp')
        prop = os.path.join(self.exp, 'FXE', '201901', 'p001234')
        self.scratch_dir = os.path.join(prop, 'scratch')
        os.makedirs(prop)
        if case['scratch']:
            os.makedirs(self.scratch_dir)
            os.chmod(self.scratch_dir, 0o777)
        self.run = ctx.path('store', 'raw', 'FXE', '201901', 'p001234', 'r0450')
        os.makedirs(self.run)
        os.symlink(os.path.dirname(self.run), os.path.join(prop, 'raw'))
        self.link = os.path.join(prop, 'raw', 'r0450')
        self.content = {}       # slot -> content (usable files)
        self.broken = set()     # slots which cannot be opened
        self.clock = 0
        self.used = [set() for _ in range(NSLOTS)]   # (time, size) of all versions so far
        self.snapshots = {'run': [], 'scratch': []}
        self.caches = {
            'run': os.path.join(self.run, 'karabo_data_map.json'),
            'scratch': os.path.join(self.scratch_dir, '.karabo_data_maps', 'raw_r0450.json')}
        self.faulty = set()

    def name(self, slot):
        return 'RAW-R0450-DA%02d-S00000.h5' % slot

    def path(self, slot):
        return os.path.join(self.run, self.name(slot))

    def new_time(self, slot):
        self.clock += 1
        # unique, not monotonic; some differ only in the fraction of a second
        t = 1500000000 + ((self.clock // 4 * 7919) % 1009) * 1000 + self.clock % 4 * 0.25
        os.utime(self.path(slot), (t, t))
        st = os.stat(self.path(slot))
        self.used[slot].add((st.st_mtime, st.st_size))

    def file_spec(self, slot):
        c = self.content[slot]
        trains = [self.base + 100 * slot + c['first'] + i for i in range(c['n'])]
        srcs = []
        for i, s in enumerate(SOURCES):
            if c['sources'] & (1 << i):
                s = dict(s)
                if s['kind'] == 'inst':
                    s['groups'] = [{'name': 'data', 'index': 'count', 'junk': 0,
                                    'counts': {str(t): c['count'] for t in trains if c['count']},
                                    'keys': [{'key': 'z', 'dtype': 'i4', 'shape': [2]}]}]
                srcs.append(s)
        return srcs, trains, c['pad']

    def write(self, slot, content, mode):
        p = self.path(slot)
        old = os.stat(p) if os.path.exists(p) else None
        self.content[slot] = content
        self.broken.discard(slot)
        tmp = p + '.tmp'
        srcs, trains, pad = self.file_spec(slot)
        build_file(tmp, self.version, srcs, trains, pad)
        os.replace(tmp, p)
        if (mode == 'keep' and old is not None
                and (old.st_mtime, os.stat(p).st_size) not in self.used[slot]):
            os.utime(p, (old.st_mtime, old.st_mtime))
            self.ctx.label('replaced, same time, other size')
        else:
            self.new_time(slot)
            if old is not None and os.stat(p).st_size == old.st_size:
                self.ctx.label('replaced, other time, same size')
        st = os.stat(p)
        self.used[slot].add((st.st_mtime, st.st_size))

    def model(self, include):
        aggs = []
        for slot in sorted(self.content):
            if slot not in self.broken and matches(include, self.name(slot)):
                srcs, trains, pad = self.file_spec(slot)
                aggs.append({'name': 'DA%02d' % slot, 'sources': srcs,
                             'files': [{'trains': trains, 'pad': pad}]})
        return Model({'version': self.version, 'aggs': aggs}), len(aggs)

    def fault(self, where, kind, n):
        p = self.caches[where]
        if where == 'scratch' and not os.path.isdir(self.scratch_dir):
            return False
        if kind == 'earlier':
            if not self.snapshots[where]:
                return False
            data = self.snapshots[where][n % len(self.snapshots[where])]
            self._unfault(p)
            with open(p, 'wb') as f:
                f.write(data)
            return True
        if kind not in ('delete', 'directory') and not os.path.exists(p) \
                and not os.path.isdir(os.path.dirname(p)):
            return False
        if kind == 'delete':
            if not os.path.exists(p):
                return False
            self._unfault(p)
            return True
        if kind == 'directory':
            self._unfault(p)
            os.makedirs(p)
            return True
        if kind == 'unreadable':
            if not os.path.isfile(p):
                return False
            os.chmod(p, 0)
            return True
        if kind in ('partial', 'missing fields', 'truncate'):
            if not os.path.isfile(p):
                return False
            raw = open(p, 'rb').read()
            if kind == 'truncate':
                new = raw[:len(raw) * n // 100]
            else:
                try:
                    data = json.loads(raw)
                except ValueError:
                    return False
                if not isinstance(data, list) or not all(isinstance(d, dict) for d in data):
                    return False
                if kind == 'partial':
                    if data:
                        del data[n % len(data)]
                else:
                    for d in data[:1]:
                        for k in sorted(d)[n % max(len(d), 1):][:1]:
                            del d[k]
                new = json.dumps(data).encode()
        else:
            new = {'garbage': b'[{"filename": nonsense', 'binary': bytes(range(256)), 'empty': b'',
                   'null': b'null', 'object': b'{"filename": "x"}',
                   'list of numbers': b'[1, 2]'}[kind]
        self._unfault(p)
        with open(p, 'wb') as f:
            f.write(new)
        return True

    def _unfault(self, p):
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.unlink(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if 'scratch' in p:
            os.chmod(os.path.dirname(p), 0o777)

    def open(self, include, how, race=None):
        """race: (slot, content, mode) to write there just after the file is opened"""
        from karabo_data import RunDirectory
        model, n = self.model(include)
        held = {}
        for p in self.caches.values():
            with contextlib.suppress(OSError):
                f = open(p, 'rb')
                held[p] = f, f.read()
        try:
            with self.racing(race) if race else contextlib.nullcontext():
                self._open(RunDirectory, model, n, include, how)
            for p, (f, content) in held.items():
                f.seek(0)
                assert f.read() == content, 'a cache file which was being read was modified'
        finally:
            for f, _ in held.values():
                f.close()

    @contextlib.contextmanager
    def racing(self, race):
        todo = [race]
        world, target = self, self.path(race[0])

        class File(h5py.File):
            def __init__(self, name, *args, **kw):
                super().__init__(name, *args, **kw)
                with contextlib.suppress(OSError, TypeError):
                    if todo and os.path.samefile(name, target):
                        r = todo.pop()
                        with mock.patch('h5py.File', plain):
                            world.write(*r)
                        world.ctx.label('replaced just after opening')
        plain = h5py.File
        with mock.patch('h5py.File', File):
            yield

    def _open(self, RunDirectory, model, n, include, how):
        what = 'RunDirectory(%s, %r)' % (how, include)
        cwd = os.getcwd()
        path = {'real': self.run, 'link': self.link, 'slash': self.run + '/',
                'relative': os.path.basename(self.run)}[how]
        if how == 'relative':
            os.chdir(os.path.dirname(self.run))
        dc = None
        try:
            try:
                dc = RunDirectory(path, include=include)
            except Exception as e:
                if n:
                    raise AssertionError('%s failed: %r' % (what, e)) from e
                return
            assert n, what + ' opened, although there is no usable file'
            check_open(dc, model, what)
        finally:
            if dc is not None:
                for f in dc.files:
                    f.close()
            os.chdir(cwd)

    def check_cache(self, where, include):
        """Entries of a cache which claim to be up to date are right

        Returns what is missing for files matching include, or None
        """
        p = self.caches[where]
        if not os.path.isfile(p):
            return 'no cache was written'
        raw = open(p, 'rb').read()
        try:
            data = json.loads(raw)
            entries = {d['filename']: d for d in data}
        except Exception:
            return 'the cache is still damaged: %r' % raw[:200]
        self.snapshots[where].append(raw)
        missing = None
        for slot in self.content:
            e = entries.get(self.name(slot))
            st = os.stat(self.path(slot))
            fresh = e is not None and e.get('mtime') == st.st_mtime and e.get('size') == st.st_size
            if slot in self.broken:
                assert not fresh, 'broken file in the cache'
                continue
            if include and matches(include, self.name(slot)) and not fresh:
                missing = 'no entry for %s' % self.name(slot)
            if fresh and {'train_ids', 'control_sources', 'instrument_sources'} <= set(e):
                srcs, trains, _ = self.file_spec(slot)
                assert e['train_ids'] == trains, e
                assert sorted(e['control_sources']) == sorted(
                    s['name'] for s in srcs if s['kind'] == 'control'), e
                assert sorted(e['instrument_sources']) == sorted(
                    s['name'] for s in srcs if s['kind'] == 'inst'), e
        return missing


def check(case, ctx):
    with ctx.building():
        w = World(case, ctx)
        for slot, c in enumerate(case['files']):
            w.write(slot, c, 'new')
    dirty = have_cache = False
    faulted = set()
    with mock.patch('karabo_data.run_files_map.SCRATCH_ROOT_DIR', w.exp):
        for op in case['ops'] + [['open', '*', 'real']]:
            if op[0] in ('open', 'open as user', 'open full', 'race'):
                ctx.nontrivial(dirty and have_cache)
                if dirty and have_cache:
                    ctx.label('open after a change')
            if op[0] == 'open':
                w.open(op[1], op[2])
                have_cache = have_cache or os.path.isfile(w.caches['run'])
                n = w.model(op[1])[1]
                missing = [w.check_cache('run', op[1]), w.check_cache('scratch', op[1])]
                assert not n or faulted or None in missing, missing
                continue
            if op[0] == 'race':
                if op[3] in w.content and op[3] not in w.broken:
                    w.open(op[1], op[2], op[3:])
                    for c in w.caches:
                        w.check_cache(c, None)
                    dirty = True
                continue
            if op[0] == 'open full':
                with ctx.building():
                    before = listing(w)
                full(lambda: w.open(op[1], op[2]), op[3])
                with contextlib.suppress(OSError):
                    os.chmod(os.path.dirname(w.caches['scratch']), 0o777)
                for d, names in listing(w).items():
                    new = names - before[d] - {os.path.basename(p) for p in w.caches.values()}
                    assert not new, 'left in %s: %s' % (d, new)
                for c in w.caches:
                    miss = w.check_cache(c, None)
                    assert faulted or miss is None or not miss.startswith('the cache'), miss
                ctx.label('disk full')
                continue
            if op[0] == 'open as user':
                with ctx.building():
                    for p in w.caches.values():
                        if os.path.isfile(p) and op[2]:
                            os.chmod(p, 0o644)
                as_user(lambda: w.open(op[1], op[3]), ctx)
                missing = [w.check_cache('run', op[1]), w.check_cache('scratch', op[1])]
                if os.path.isdir(w.scratch_dir) and not faulted and w.model(op[1])[1] \
                        and 'open as user' in ctx.case_labels:
                    assert None in missing, ('opened as user', missing)
                continue
            with ctx.building():
                dirty = apply(w, op, faulted) or dirty
                if op[0] == 'fault':
                    ctx.label('cache ' + op[2])
                else:
                    ctx.label(op[0])


def listing(w):
    return {d: {n for n in os.listdir(d) if not os.path.isdir(os.path.join(d, n))}
            if os.path.isdir(d) else set() for d in (w.run, w.scratch_dir, os.path.dirname(w.caches['scratch']))}


def full(func, limit):
    """Call func when no file can be made bigger than limit bytes"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        func()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def apply(w, op, faulted):
    kind = op[0]
    if kind == 'fault':
        done = w.fault(*op[1:])
        if done and op[2] != 'delete':
            # how (and when) other content is replaced is not specified
            faulted.add(op[1])
        return done
    slot = op[1]
    if kind == 'write':
        w.write(slot, op[2], op[3])
        return True
    if slot not in w.content:
        return False
    if kind == 'touch':
        w.new_time(slot)
    elif kind == 'remove':
        os.unlink(w.path(slot))
        del w.content[slot]
        w.broken.discard(slot)
    elif kind == 'break':
        if slot in w.broken:
            return False
        size = os.path.getsize(w.path(slot))
        with open(w.path(slot), 'r+b') as f:
            f.truncate(max(1, size * op[2] // 100))
        w.new_time(slot)
        w.broken.add(slot)
    elif kind == 'swap':
        # the content of one file moves to the other name, with its own time and size
        other = op[2]
        if other == slot or other not in w.content or slot in w.broken or other in w.broken:
            return False
        c1, c2 = w.content[slot], w.content[other]
        w.write(slot, c2, 'new')
        w.write(other, c1, 'new')
    return True


def as_user(func, ctx):
    """Run func in a child process without privileges; raise what it raises"""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            msg = b'ok'
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                msg = b'skip'
            else:
                try:
                    func()
                except BaseException:
                    import traceback
                    msg = b'fail' + traceback.format_exc().encode()[-3000:]
            with os.fdopen(wfd, 'wb') as f:
                f.write(msg)
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(r, 'rb') as f:
        msg = f.read()
    os.waitpid(pid, 0)
    if msg.startswith(b'fail'):
        raise AssertionError('as unprivileged user: ' + msg[4:].decode(errors='replace'))
    if msg == b'skip':
        ctx.label('could not drop privileges')
    elif msg == b'ok':
        ctx.label('open as user')
    else:
        raise HarnessError('child process died')
