"""Opening and closing files"""
import contextlib
import hashlib
import io
import os
import warnings

import numpy as np

from ..common import (apply_narrow, check_shape_of, check_train_dict, covered, narrow_fields,
                      narrow_strategy, narrow_trains)
from ..runspec import INST_NAMES, Model, build_run, label_spec, run_specs, same, spec_files

PROPERTY = 'C26'
QUICK, THOROUGH = 5000, 50000
RULE = ('Histories of up to 14 operations over collections of one generated run: open the folder or '
        'some of its files (again), select, select_trains, union, read in eight ways, advance up '
        'to four iterators in turns, enter and leave with blocks (normally or by an exception, '
        'nested), on opened and on derived '
        'collections. Every read is compared with the model; open files are those of the process '
        '(/proc/self/fd); data files are hashed. Non-trivial: something is read after files were '
        'closed.')
ASSUMPTIONS = ['files are well-formed as the validator defines it',
               'iterators and dask arrays made before closing need not work afterwards']


def strategy(tier):
    from hypothesis import strategies as st
    i = st.integers(0, 20)
    op = st.one_of(
        st.tuples(st.just('open'), st.sampled_from(['dir', 'file', 'paths']), i),
        st.tuples(st.just('select'), i, narrow_strategy()),
        st.tuples(st.just('union'), i, i),
        st.tuples(st.just('read'), i, st.integers(0, 8), i),
        st.tuples(st.just('read'), i, st.integers(0, 8), i),
        st.tuples(st.just('read'), i, st.integers(0, 8), i),
        st.tuples(st.just('iter'), i),
        st.tuples(st.just('next'), i, st.integers(1, 3)),
        st.tuples(st.just('turns'), i, st.lists(i, min_size=1, max_size=2),
                  st.lists(st.integers(0, 3), min_size=2, max_size=8)),
        st.tuples(st.just('with'), i, st.sampled_from(['ok', 'ok', 'raise', 'nested']),
                  st.lists(st.tuples(i, st.integers(0, 8), i).map(list), max_size=3)),
        st.tuples(st.just('with'), i, st.sampled_from(['ok', 'ok', 'raise', 'nested']),
                  st.lists(st.tuples(i, st.integers(0, 8), i).map(list), max_size=3)),
    ).map(list)
    return st.fixed_dictionaries({
        'run': run_specs(max_trains=6, max_files=2, max_keys=2,
                         inst_names=[n for n in INST_NAMES if '/DET/' not in n]),
        'first': st.sampled_from(['dir', 'file', 'paths']),
        'ops': st.lists(op, min_size=2, max_size=25 if tier == 'thorough' else 14),
    })


class Coll:
    def __init__(self, dc, model, sel, trains, roots, opened):
        self.dc, self.model, self.sel, self.trains = dc, model, sel, trains
        self.roots = roots      # the opened collections it has files from
        self.opened = opened

    def touched(self):
        for r in self.roots:
            r['maybe_open'] = True


def spoil(x):
    """Change what was returned: it belongs to the caller"""
    if isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in 'biufS':
        x[...] = np.zeros((), x.dtype) if x.dtype.kind in 'bS' else 77


class Boom(Exception):
    pass


def open_paths(directory):
    out = set()
    for fd in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            p = os.readlink('/proc/self/fd/' + fd)
            if p.startswith(directory) and p.endswith('.h5'):
                out.add(p)
    return out


def read(c, how, n):
    """Read something and compare it with the model"""
    dc, model, sel, trains = c.dc, c.model, c.sel, c.trains
    c.touched()
    fields = [(s, k) for s in sorted(sel) for k in sorted(sel[s]) if s in dc.all_sources]
    if how == 0 or not fields or not trains:
        check_shape_of(dc, model, sel, trains)
        return
    s, k = fields[n % len(fields)]
    tid = trains[n % len(trains)]
    if how == 1:
        t, data = dc.train_from_id(tid)
        assert t == tid
        check_train_dict(data, model, sel, tid, 'train_from_id')
        spoil(data)
    elif how == 2:
        t, data = dc.train_from_index(n % len(trains))
        assert t == tid
        check_train_dict(data, model, sel, tid, 'train_from_index')
        spoil(data)
    elif how == 3:
        got = []
        for t, data in dc.trains():
            got.append(t)
            check_train_dict(data, model, sel, t, 'trains()')
            spoil(data)
        assert got == trains
    elif how == 4:
        a = dc.get_array(s, k)
        want, tids = model.array(s, k, trains)
        same(a.values, want, 'get_array')
        assert [int(t) for t in a.coords['trainId'].values] == tids.tolist()
        spoil(a.values)
    elif how == 5:
        ser = dc.get_data_counts(s, k)
        got = [(int(t), int(x)) for t, x in zip(ser.index.values, ser.values)]
        assert got == [(t, model.count(s, k, t)) for t in covered(model, s, trains)]
        spoil(ser.values)
    elif how == 6:
        same(dc.get_dask_array(s, k).compute(), model.array(s, k, trains)[0], 'get_dask_array')
    elif how == 7:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            dc.info()
        lines = out.getvalue().splitlines()
        assert lines[0].split()[-1] == str(len(trains)), lines[0]
        assert str(trains[-1]) in lines[3], lines
    else:
        # Part of an iteration, left unfinished
        for j, (t, data) in zip(range(1 + n % 2), dc.trains()):
            assert t == trains[j]
            check_train_dict(data, model, sel, t, 'trains()')


def check(case, ctx):
    from karabo_data import H5File, RunDirectory
    from karabo_data.reader import DataCollection
    spec = case['run']
    with ctx.building():
        d = os.path.realpath(ctx.path('run'))
        paths = build_run(spec, d)
        label_spec(spec, ctx)
        if not paths:
            return
        files = spec_files(spec)
        old = {p: (hashlib.sha1(open(p, 'rb').read()).hexdigest(), os.stat(p).st_mtime_ns)
               for p in paths}
        assert not open_paths(d)
    roots, colls, iters = [], [], []
    closed = False

    def open_new(how, n):
        if how == 'dir':
            dc, mine = RunDirectory(d), list(range(len(paths)))
        elif how == 'file':
            mine = [n % len(paths)]
            dc = H5File(paths[mine[0]])
        else:
            mine = [i for i in range(len(paths)) if (n >> (i % 4)) & 1] or [0]
            dc = DataCollection.from_paths([paths[i] for i in mine])
        sub = dict(spec, aggs=[dict(files[i][1], files=[files[i][2]]) for i in mine])
        root = {'paths': {paths[i] for i in mine}, 'maybe_open': True}
        roots.append(root)
        model = Model(sub)
        colls.append(Coll(dc, model, {s: model.keys(s) for s in model.sources},
                          list(model.trains), [root], True))

    def advance(x):
        x[0].touched()
        got = next(x[1], None)
        if x[2] == len(x[0].trains):
            assert got is None, 'trains() goes on after the last train: %s' % (got,)
            iters.remove(x)
            return
        tid = x[0].trains[x[2]]
        assert got is not None and got[0] == tid, 'trains(): %s, expected %d' % (got, tid)
        check_train_dict(got[1], x[0].model, x[0].sel, tid, 'trains(), one of several')
        x[2] += 1
        if len(iters) > 1 and any(y is not x and y[2] for y in iters):
            ctx.label('several iterators in turns')

    def check_closed(root):
        others = set()
        for r in roots:
            if r['maybe_open']:
                others |= r['paths']
        left = (open_paths(d) & root['paths']) - others
        assert not left, 'files still open: %s' % [os.path.basename(p) for p in left]

    open_new(case['first'], 5)
    for op in case['ops']:
        c = colls[op[1] % len(colls)] if op[0] != 'open' else None
        if op[0] == 'open':
            if len(roots) < 4:
                open_new(op[1], op[2])
        elif op[0] == 'select':
            if c.trains and c.sel:
                c.touched()
                from karabo_data import by_id, by_index
                pick = narrow_fields(c.model, op[2]['fields'])
                sel = {s: k & c.sel.get(s, set()) for s, k in pick.items()}
                sel = {s: k for s, k in sel.items() if k and s in c.dc.all_sources}
                dc, trains = c.dc, c.trains
                if op[2]['fields'] is not None and sel:
                    dc = dc.select({s: set(k) for s, k in sel.items()})
                else:
                    sel = c.sel
                trains2, req = narrow_trains(trains, op[2]['trains'])
                if req is not None:
                    dc = dc.select_trains((by_index if req[0] == 'index' else by_id)[req[1]])
                    trains = trains2
                if dc is not c.dc:
                    colls.append(Coll(dc, c.model, sel, trains, c.roots, False))
        elif op[0] == 'union':
            c2 = colls[op[2] % len(colls)]
            # Parts of the same data: joined, they have all trains & fields of either
            if c.model is c2.model and set(c.dc.all_sources) == set(c2.dc.all_sources) == \
                    set(c.sel) and c.sel == c2.sel:
                c.touched()
                colls.append(Coll(c.dc.union(c2.dc), c.model, c.sel,
                                  sorted(set(c.trains) | set(c2.trains)), c.roots, False))
                ctx.label('union')
        elif op[0] == 'read':
            read(c, op[2], op[3])
            if closed:
                ctx.nontrivial()
        elif op[0] == 'turns':
            iters = iters[2:]
            iters += [[x, x.dc.trains(), 0] for x in
                      [c] + [colls[i % len(colls)] for i in op[2]]][:4 - len(iters)]
            for i in op[3]:
                if iters:
                    advance(iters[i % len(iters)])
        elif op[0] == 'iter':
            # Iterators of the same and of different collections, taken in turns
            if len(iters) < 4:
                iters.append([c, c.dc.trains(), 0])
        elif op[0] == 'next':
            for _ in range(op[2]):
                if iters:
                    advance(iters[op[1] % len(iters)])
        else:
            if not c.opened:
                before = open_paths(d)
                entered = False
                try:
                    with c.dc:
                        entered = True
                except Exception as e:
                    assert not entered, repr(e)
                assert not entered, 'with statement on a collection which was not opened from files'
                assert open_paths(d) == before, 'files were closed or opened'
                ctx.label('with on a derived collection')
                continue
            try:
                with c.dc as inner:
                    assert inner is c.dc
                    for i, how, n in op[3]:
                        # this collection or one made from it
                        mine = [x for x in colls if x.roots[0] is c.roots[0]]
                        read(mine[i % len(mine)], how, n)
                        if closed:
                            ctx.nontrivial()
                    if op[2] == 'nested':
                        with c.dc:
                            read(c, 1, 0)
                        read(c, 4, 0)
                    if op[2] == 'raise':
                        raise Boom()
            except Boom:
                ctx.label('exception')
            else:
                assert op[2] != 'raise', 'exception lost'
            closed = True
            iters = [x for x in iters if c.roots[0] not in x[0].roots]
            c.roots[0]['maybe_open'] = False
            check_closed(c.roots[0])
    # In the end: close all
    for c in colls:
        if c.opened:
            with c.dc:
                pass
            c.roots[0]['maybe_open'] = False
            check_closed(c.roots[0])
    assert not open_paths(d)
    for c in colls:
        read(c, 3, 0)
    for c in colls:
        for f in c.dc.files:
            f.close()
    for p in paths:
        assert (hashlib.sha1(open(p, 'rb').read()).hexdigest(), os.stat(p).st_mtime_ns) == old[p], \
            '%s was changed' % p
