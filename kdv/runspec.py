"""Generated EuXFEL runs: a plain-data description, the files, and a reference model.

A *spec* is JSON data:

  {'version': '0.5'|'1.0',
   'aggs': [ {'name': 'DA01',
              'sources': [source, ...],
              'files': [ {'trains': [ids...], 'pad': n, 'counts': ...} ... ] } ]}

  source = {'kind': 'control', 'name': ..., 'index': 'count'|'last', 'keys': [key...],
            'missing': [train IDs without an entry, if any]}
         | {'kind': 'inst', 'name': 'a/b/c:chan',
            'groups': [{'name': g, 'index': ..., 'counts': {str(tid): n}, 'keys': [key...],
                        'junk': rows of unreferenced data after the last entry}]}
  key = {'key': 'a.b.value', 'dtype': 'f4', 'shape': [..]}

Every stored value is derived from (source, key, train, entry, element), so an entry read from
the wrong place differs from the expected one.
"""
import os
import zlib

import h5py
import numpy as np

JUNK = 111  # value of elements which belong to no train


def np_dtype(code):
    """NumPy dtype for a dtype in a spec. 'str': strings of variable length (read as bytes)"""
    return np.dtype('O' if code == 'str' else code)


def put(f, path, arr, store=None):
    """Store an array in a file

    store: None (contiguous), 'chunks' (in chunks, can grow, as the DAQ does it) or 'gzip'
    """
    kw = {}
    if store and 0 not in arr.shape[1:]:
        rows = 1 + (len(path) + len(arr)) % 5
        kw = {'chunks': (rows,) + arr.shape[1:], 'maxshape': (None,) + arr.shape[1:]}
        if store == 'gzip':
            kw.update(compression='gzip', compression_opts=1, shuffle=True)
    if arr.dtype.kind == 'O':
        kw.update(dtype=h5py.special_dtype(vlen=bytes))
    f.create_dataset(path, data=arr, **kw)


def entry_values(source, key, tid, n, shape, dtype, shared=False, pid=(0, 0)):
    """The n entries stored for one train

    shared: the values do not depend on the source (e.g. pulse IDs of detector modules)
    pid: (lowest pulse ID, gap in the middle)
    """
    dtype = np_dtype(dtype)
    size = int(np.prod(shape, dtype=int))
    base = zlib.crc32(('%s|%s|%d' % ('' if shared else source, key, tid)).encode())
    if dtype.kind == 'S':
        vals = [(b'%d-%d-%d' % (tid % 1000, i, j)) for i in range(n) for j in range(size)]
        return np.array(vals, dtype=dtype).reshape((n,) + tuple(shape))
    if dtype.kind == 'O':
        out = np.empty(n * size, dtype='O')
        out[:] = [(b'%d;' % (base + j)) * (((base >> 3) + j) % 4) for j in range(n * size)]
        return out.reshape((n,) + tuple(shape))
    if key.endswith('.pulseId'):
        # ascending within the train, different between trains
        one = pid[0] + (base % 5) + np.arange(n) * (1 + base % 3)
        one[n // 2:] += pid[1]
        return np.repeat(one, size).astype(dtype).reshape((n,) + tuple(shape))
    i = np.arange(n * size, dtype=np.uint64)
    v = (np.uint64(base) + i * np.uint64(2654435761)) & np.uint64(0xffffffff)
    v = v ^ (v >> np.uint64(15))
    if dtype.kind == 'b':
        out = (v & np.uint64(1)).astype(bool)
    elif dtype.kind == 'f':
        out = ((v % np.uint64(1 << 20)).astype('f8') - (1 << 19)) + 0.5
        out[v % np.uint64(13) == 0] = np.nan
        out[v % np.uint64(17) == 0] = np.inf
        out = (out / 16 if dtype.itemsize == 2 else out).astype(dtype)
    elif dtype.kind == 'c':
        out = ((v % np.uint64(1 << 20)).astype('f8') * (1 - 2j)).astype(dtype)
    elif dtype.itemsize == 8:
        v = v * np.uint64(4294967291) + v    # use the high bits too
        out = v.astype(dtype)
    else:
        out = v.astype(dtype)
    return out.reshape((n,) + tuple(shape))


def agg_trains(agg):
    return [t for f in agg['files'] for t in f['trains']]


class Model:
    """What a spec says the data is."""

    def __init__(self, spec):
        self.sources = {}    # name -> {'kind', 'trains': set, 'keys': {key: {...}}}
        trains = set()
        for agg in spec['aggs']:
            tids = agg_trains(agg)
            trains.update(tids)
            for src in agg['sources']:
                s = self.sources.setdefault(src['name'], {
                    'kind': src['kind'], 'trains': set(), 'keys': {}})
                s['trains'].update(tids)
                if src['kind'] == 'control':
                    for k in src['keys']:
                        self._add_key(s, k['key'], '', k, {
                            t: int(t not in src.get('missing', ())) for t in tids})
                else:
                    for g in src['groups']:
                        for k in g['keys']:
                            self._add_key(s, g['name'] + '.' + k['key'], g['name'], k,
                                          {t: g['counts'].get(str(t), 0) for t in tids})
        self.trains = sorted(trains)

    @staticmethod
    def _add_key(s, key, group, k, counts):
        d = s['keys'].setdefault(key, {'group': group, 'dtype': np_dtype(k['dtype']),
                                       'shape': tuple(k['shape']), 'counts': {},
                                       'shared': k.get('shared', False),
                                       'pid': k.get('pid', (0, 0))})
        d['counts'].update(counts)

    def control(self):
        return {n for n, s in self.sources.items() if s['kind'] == 'control'}

    def instrument(self):
        return {n for n, s in self.sources.items() if s['kind'] == 'inst'}

    def keys(self, source):
        return set(self.sources[source]['keys'])

    def fields(self):
        return [(s, k) for s in sorted(self.sources) for k in sorted(self.sources[s]['keys'])]

    def count(self, source, key, tid):
        return self.sources[source]['keys'][key]['counts'].get(tid, 0)

    def entries(self, source, key, tid):
        """Array (count,) + shape of the entries in one train"""
        k = self.sources[source]['keys'][key]
        return entry_values(source, key, tid, k['counts'].get(tid, 0), k['shape'], k['dtype'],
                            k['shared'], k['pid'])

    def array(self, source, key, trains):
        """(values, train IDs) over the given trains, in order"""
        k = self.sources[source]['keys'][key]
        parts, tids = [np.zeros((0,) + k['shape'], k['dtype'])], []
        for t in trains:
            n = k['counts'].get(t, 0)
            if n:
                parts.append(self.entries(source, key, t))
                tids.extend([t] * n)
        return np.concatenate(parts), np.array(tids, dtype=np.uint64)

    def train_data(self, source, keys, tid):
        """Expected dict of {key: data} for train_from_id"""
        out = {}
        for key in keys:
            e = self.entries(source, key, tid)
            if len(e) == 0:
                continue
            out[key] = e[0] if len(e) == 1 else e
        return out

    def has_all(self, selection, tid):
        """Does every selected field have at least one entry in this train?"""
        return all(self.count(s, k, tid) for s, keys in selection.items() for k in keys)


# ------------------------------------------------------------------ files

def file_name(agg, i, run='R0001', prefix='RAW'):
    return '%s-%s-%s-S%05d.h5' % (prefix, run, agg['name'], i)


def spec_files(spec):
    """[(filename, agg, file dict)]"""
    out = []
    for agg in spec['aggs']:
        for i, f in enumerate(agg['files']):
            out.append((f.get('name') or file_name(agg, i), agg, f))
    return out


def build_run(spec, directory):
    os.makedirs(directory, exist_ok=True)
    paths = []
    for name, agg, f in spec_files(spec):
        p = os.path.join(directory, name)
        build_file(p, f.get('version') or spec['version'], agg['sources'], f['trains'],
                   f.get('pad', 0), spec.get('vlen', False), spec.get('run_group', False),
                   spec.get('meta_gaps', False), spec.get('store'), spec.get('extras', False))
        paths.append(p)
    return paths


def _junk(n, shape, dtype):
    dtype = np_dtype(dtype)
    if dtype.kind in 'SO':
        return np.full((n,) + tuple(shape), b'junk', dtype=dtype)
    return np.full((n,) + tuple(shape), JUNK, dtype=dtype)


def build_file(path, version, sources, trains, pad, vlen=False, run_group=False,
               meta_gaps=False, store=None, extras=False):
    nt = len(trains)
    with h5py.File(path, 'w') as f:
        put(f, 'INDEX/trainId', np.array(list(trains) + [0] * pad, dtype=np.uint64), store)
        if extras:
            # More than this package needs, as in real files
            f['INDEX/flag'] = np.ones(nt + pad, dtype=np.int32)
            f['INDEX/origin'] = np.full(nt + pad, -1, dtype=np.int32)
            f['INDEX/timestamp'] = np.arange(nt + pad, dtype=np.uint64)
            f['METADATA/creationDate'] = np.array([b'20200101T120000Z'])
            f['METADATA/dataWriter'] = np.array([b'DA01'])
            f.attrs['note'] = 'x'
        data_sources = []
        for src in sources:
            name = src['name']
            if src['kind'] == 'control':
                data_sources.append('CONTROL/' + name)
                cl = [int(t not in src.get('missing', ())) for t in trains]
                firsts = np.array([sum(cl[:i]) for i in range(nt)] + [0] * pad, dtype=np.uint64)
                counts = np.array(cl + [0] * pad, dtype=np.uint64)
                _write_index(f, 'INDEX/' + name, src.get('index', 'count'), firsts, counts, store)
                for k in src['keys']:
                    parts = [entry_values(name, k['key'], t, 1, k['shape'], k['dtype'])
                             for t, n in zip(trains, cl) if n]
                    parts.append(_junk(pad, k['shape'], k['dtype']))
                    arr = np.concatenate(parts)
                    put(f, 'CONTROL/%s/%s' % (name, k['key'].replace('.', '/')), arr, store)
                    if run_group:
                        put(f, 'RUN/%s/%s' % (name, k['key'].replace('.', '/')),
                            arr[:1] if len(arr) else _junk(1, k['shape'], k['dtype']))
                if run_group:
                    f['RUN/%s/only/in/run/value' % name] = np.ones(1)
            else:
                for g in src['groups']:
                    gname = '%s/%s' % (name, g['name'])
                    data_sources.append('INSTRUMENT/' + gname)
                    cl = [g['counts'].get(str(t), 0) for t in trains]
                    fl = [sum(cl[:i]) for i in range(nt)]
                    firsts = np.array(fl + [0] * pad, dtype=np.uint64)
                    counts = np.array(cl + [0] * pad, dtype=np.uint64)
                    _write_index(f, 'INDEX/' + gname, g.get('index', 'count'), firsts, counts,
                                 store)
                    for k in g['keys']:
                        key = g['name'] + '.' + k['key']
                        parts = [entry_values(name, key, t, n, k['shape'], k['dtype'],
                                              k.get('shared', False), k.get('pid', (0, 0)))
                                 for t, n in zip(trains, cl) if n]
                        parts.append(_junk(g.get('junk', 0), k['shape'], k['dtype']))
                        put(f, 'INSTRUMENT/%s/%s' % (name, key.replace('.', '/')),
                            np.concatenate(parts), store)
        if meta_gaps:
            # Empty entries may be anywhere
            data_sources = [x for ds in data_sources for x in ('', ds)]
        write_metadata(f, version, data_sources, vlen)


def _write_index(f, path, fmt, firsts, counts, store=None):
    put(f, path + '/first', firsts, store)
    if fmt == 'count':
        put(f, path + '/count', counts, store)
    else:
        status = (counts > 0).astype(np.int32)
        last = np.where(counts > 0, firsts + counts - np.uint64(1), firsts).astype(np.uint64)
        put(f, path + '/last', last, store)
        put(f, path + '/status', status, store)


def write_metadata(f, version, data_sources, vlen=False):
    N = len(data_sources)
    prefix = 'METADATA/'
    if version != '0.5':
        f.create_dataset('METADATA/dataFormatVersion', data=np.array([version.encode()], dtype='S8'))
        prefix = 'METADATA/dataSources/'
    pad = 2   # real files have empty entries at the end
    enc = [s.encode() for s in data_sources] + [b''] * pad
    if vlen:
        dt = h5py.special_dtype(vlen=bytes)
        for name, vals in (('dataSourceId', enc), ('root', [e.partition(b'/')[0] for e in enc]),
                           ('deviceId', [e.partition(b'/')[2] for e in enc])):
            f.create_dataset(prefix + name, (len(enc),), dtype=dt)[:] = vals
        return
    f[prefix + 'dataSourceId'] = np.array(enc, dtype='S120')
    f[prefix + 'root'] = np.array([e.partition(b'/')[0] for e in enc], dtype='S120')
    f[prefix + 'deviceId'] = np.array([e.partition(b'/')[2] for e in enc], dtype='S120')


# ------------------------------------------------------------------ strategies

CTRL_NAMES = ['SA1_XTD2_XGM/DOOCS/MAIN', 'SPB_XTD9_XGM/XGM/DOOCS', 'SA1_XTD2_XGM/DOOCS/MAIN2',
              'FXE_MOT/MDL/M1', 'fxe_mot/mdl/m1', 'A/B/C-1', 'A/B/C_1']
INST_NAMES = ['SA3_XTD10_PES/ADC/1:network', 'SPB_XTD9_XGM/XGM/DOOCS:output', 'A/B/C:out',
              'A/B/C:out2', 'CAM/SIDE/1:daqOutput', 'SPB_DET_AGIPD1M-1/DET/0CH0:xtdf',
              'SPB_DET_AGIPD1M-1/DET/11CH0:xtdf']
CTRL_KEYS = ['beamPosition.ixPos.value', 'beamPosition.ixPos.timestamp', 'beamPosition.iyPos.value',
             'beamPosition.iyPos.timestamp', 'flux.value', 'flux.timestamp', 'state.a.b.c.value',
             'spectrum.value', 'ixPos.value', 'ixPosRms.value', 'flux2.value', 'xvalue',
             'a.value.b.value', 'a.valueRms.value', 'timestamp.sec.value', 'b.timestamp.raw',
             'mytimestamp', 'value.timestamp']
GROUPS = ['data', 'image', 'digitizers', 'data2', 'header']
INST_KEYS = ['pixels', 'channel_1_A.raw.samples', 'channel_1_A.raw', 'x', 'y', 'pulseCount',
             'raw.samples.value', 'pix', 'data', 'value', 'timestamp', 'a.timestamp',
             'value.a']
DTYPES = ['f4', 'f8', 'u1', 'u2', 'u4', 'u8', 'i2', 'i4', 'i8', '?', 'S9', 'str',
          'f2', 'c8']


def _prefix_free(keys):
    """Drop keys which would be a group of another ('a.b' when 'a.b.c' exists)"""
    return [k for k in keys if not any(o != k and o.startswith(k + '.') for o in keys)]


def run_specs(max_trains=10, max_aggs=3, max_files=3, dtypes=tuple(DTYPES), shapes=None,
              min_trains=1, max_count=4, only_scalar=False, ctrl_names=CTRL_NAMES,
              inst_names=INST_NAMES, allow_pad=True, big_ids=True, empty_files=True,
              max_sources=3, max_keys=3, big_counts=False, missing=True):
    """Strategy for run specs"""
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        n = draw(st.integers(min_trains, max_trains))
        start = draw(st.sampled_from([1, 2, 10000, 142844490, 10 ** 9, 2 ** 31 - 3, 2 ** 32 - 4, 2 ** 40] if big_ids else [10000]))
        steps = draw(st.lists(st.sampled_from([1, 1, 1, 1, 2, 3, 7]), min_size=max(n - 1, 0),
                              max_size=max(n - 1, 0)))
        trains = [start]
        for s in steps:
            trains.append(trains[-1] + s)
        trains = trains[:n]

        n_aggs = draw(st.integers(1, max_aggs))
        cn = list(ctrl_names)
        inn = list(inst_names)
        aggs = []
        for a in range(n_aggs):
            mode = draw(st.sampled_from(['all', 'all', 'some', 'range']))
            if mode == 'all' or n < 2:
                mine = list(trains)
            elif mode == 'range':
                lo = draw(st.integers(0, n - 1))
                hi = draw(st.integers(lo + 1, n))
                mine = trains[lo:hi]
            else:
                mask = draw(st.lists(st.sampled_from([True, True, True, False]), min_size=n, max_size=n))
                mine = [t for t, m in zip(trains, mask) if m]
            if not mine and not empty_files:
                mine = list(trains)
            nf = draw(st.integers(1, max_files))
            cuts = sorted(draw(st.lists(st.integers(0, len(mine)), min_size=nf - 1, max_size=nf - 1)))
            bounds = [0] + cuts + [len(mine)]
            files = []
            for lo, hi in zip(bounds[:-1], bounds[1:]):
                if lo == hi and not empty_files:
                    continue
                files.append({'trains': mine[lo:hi],
                              'pad': draw(st.integers(0, 2)) if allow_pad else 0})
            if not files:
                files.append({'trains': mine, 'pad': 0})
            if len(files) > 1 and draw(st.sampled_from([False, False, True])):
                # Sequence numbers in another order than the trains
                for f, i in zip(files, draw(st.permutations(range(len(files))))):
                    f['name'] = file_name({'name': 'DA%02d' % (a + 1)}, i)
            ns = draw(st.integers(1, max_sources))
            sources = []
            for _ in range(ns):
                kinds = (['control'] if cn else []) + (['inst'] if inn else [])
                if not kinds:
                    break
                kind = draw(st.sampled_from(kinds))
                if kind == 'control':
                    name = draw(st.sampled_from(cn))
                    cn.remove(name)
                    sources.append(draw(control_source(name)))
                    if missing and mine and draw(st.sampled_from([False] * 7 + [True])):
                        sources[-1]['missing'] = draw(st.lists(
                            st.sampled_from(mine), min_size=1, max_size=4, unique=True))
                else:
                    name = draw(st.sampled_from(inn))
                    inn.remove(name)
                    sources.append(draw(inst_source(name, mine)))
            if sources:
                aggs.append({'name': 'DA%02d' % (a + 1), 'sources': sources, 'files': files})
        return dict(draw(file_styles([f for a in aggs for f in a['files']])), aggs=aggs)

    shp = shapes
    if shp is None:
        shp = [[], [], [], [], [], [3], [3], [2, 3], [1], [2, 1, 2], [0], [2, 0]]
    if only_scalar:
        shp = [[]]

    @st.composite
    def control_source(draw, name):
        keys = draw(st.lists(st.sampled_from(CTRL_KEYS), min_size=1, max_size=max_keys, unique=True))
        return {'kind': 'control', 'name': name,
                'index': draw(st.sampled_from(['count', 'last'])),
                'keys': [{'key': k, 'dtype': draw(st.sampled_from(list(dtypes))),
                          'shape': draw(st.sampled_from(shp))} for k in _prefix_free(keys)]}

    @st.composite
    def counts_for(draw, tids):
        mode = draw(st.sampled_from(['one', 'const', 'any', 'any', 'sparse', 'none']
                                    if not big_counts else ['const', 'any']))
        if mode == 'one':
            cs = [1] * len(tids)
        elif mode == 'const':
            cs = [draw(st.integers(1, max_count))] * len(tids)
        elif mode == 'none':
            cs = [0] * len(tids)
        elif mode == 'sparse':
            cs = draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=len(tids), max_size=len(tids)))
        else:
            cs = draw(st.lists(st.integers(0, max_count), min_size=len(tids), max_size=len(tids)))
        return {str(t): c for t, c in zip(tids, cs) if c}

    @st.composite
    def inst_source(draw, name, tids):
        gs = draw(st.lists(st.sampled_from(GROUPS), min_size=1, max_size=2, unique=True))
        groups = []
        for g in gs:
            keys = draw(st.lists(st.sampled_from(INST_KEYS), min_size=1, max_size=max_keys,
                                 unique=True))
            groups.append({
                'name': g, 'index': draw(st.sampled_from(['count', 'last'])),
                'counts': draw(counts_for(tids)),
                'junk': draw(st.integers(0, 2)) if allow_pad else 0,
                'keys': [{'key': k, 'dtype': draw(st.sampled_from(list(dtypes))),
                          'shape': draw(st.sampled_from(shp))} for k in _prefix_free(keys)]})
        return {'kind': 'inst', 'name': name, 'groups': groups}

    return strat()


def file_styles(files):
    """Strategy for the format version, how datasets are stored and additional information

    May give some of the files another version.
    """
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        out = {'version': draw(st.sampled_from(['0.5'] * 4 + ['1.0'] * 4 + ['1.1', '1.2']))}
        store = draw(st.sampled_from([None, None, 'chunks', 'gzip']))
        if store:
            out['store'] = store
        if draw(st.sampled_from([False, False, True])):
            out['extras'] = True
        if len(files) > 1 and draw(st.sampled_from([False, False, False, True])):
            files[draw(st.integers(0, len(files) - 1))]['version'] = draw(
                st.sampled_from(['0.5', '1.0']))
        return out
    return strat()


def long_runs(sizes=(40, 64, 128, 130, 300), only_scalar=False, max_count=4, big=True,
              inst_names=INST_NAMES):
    """Strategy for specs of runs with many trains, files or entries, made from short patterns"""
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        n = draw(st.sampled_from(list(sizes)))
        start = draw(st.sampled_from([1, 10000, 10 ** 9, 2 ** 32 - 20, 5 * 10 ** 9]))
        steps = draw(st.lists(st.sampled_from([1, 1, 1, 2, 30]), min_size=1, max_size=5))
        trains = [start]
        for i in range(n - 1):
            trains.append(trains[-1] + steps[i % len(steps)])
        dtypes = ['f8', 'u2', 'i8', '?', 'u1']
        shapes = [[]] if only_scalar else [[], [], [2]]
        aggs = []
        for a in range(draw(st.integers(1, 2))):
            keep = draw(st.one_of(st.just([True]), st.lists(st.sampled_from([True, True, False]),
                                                             min_size=1, max_size=4)))
            mine = [t for i, t in enumerate(trains) if keep[i % len(keep)]] or list(trains)
            nf = draw(st.sampled_from([1, 1, 2, 11, 25]))
            cuts = [len(mine) * i // nf for i in range(nf + 1)]
            files = [{'trains': mine[lo:hi], 'pad': draw(st.integers(0, 1))}
                     for lo, hi in zip(cuts, cuts[1:])]
            pattern = draw(st.lists(st.integers(0, max_count), min_size=1, max_size=5))
            counts = {t: pattern[i % len(pattern)] for i, t in enumerate(mine)}
            shape = draw(st.sampled_from(shapes))
            if big and draw(st.booleans()):
                at = mine[draw(st.integers(0, 1000)) % len(mine)]
                counts[at] = draw(st.sampled_from([256, 300, 70000]))
            sources = [
                {'kind': 'inst', 'name': inst_names[a], 'groups': [
                    {'name': 'data', 'index': draw(st.sampled_from(['count', 'last'])),
                     'counts': {str(t): c for t, c in counts.items() if c},
                     'junk': draw(st.integers(0, 1)),
                     'keys': [{'key': 'x', 'dtype': draw(st.sampled_from(dtypes)),
                               'shape': shape}]}]},
                {'kind': 'control', 'name': CTRL_NAMES[a],
                 'index': draw(st.sampled_from(['count', 'last'])),
                 'keys': [{'key': 'flux.value', 'dtype': draw(st.sampled_from(dtypes)),
                           'shape': draw(st.sampled_from(shapes))}]}]
            some = draw(st.sampled_from([2, 2, 2, 0, 1]))
            aggs.append({'name': 'DA%02d' % (a + 1),
                         'sources': sources if some == 2 else [sources[some]], 'files': files})
        return dict(draw(file_styles([f for a in aggs for f in a['files']])), aggs=aggs, long=True)
    return strat()


def some_long(runs, every, **kw):
    """Mostly the given specs, one in so many a long one"""
    from hypothesis import strategies as st
    return st.integers(0, every - 1).flatmap(
        lambda i: long_runs(**kw) if i == every - 1 else runs)


def label_spec(spec, ctx):
    """Classify a generated run"""
    m = Model(spec)
    if spec.get('long'):
        ctx.label('long run')
    nf = sum(len(a['files']) for a in spec['aggs'])
    if nf > 1:
        ctx.label('several files')
    if any(len([f for f in a['files'] if f['trains']]) > 1 for a in spec['aggs']):
        ctx.label('several sequence files')
    if any(not f['trains'] for a in spec['aggs'] for f in a['files']):
        ctx.label('file without trains')
    if any(b - a > 1 for a, b in zip(m.trains, m.trains[1:])):
        ctx.label('train ID gap')
    cs = [c for s in m.sources.values() for k in s['keys'].values() for c in k['counts'].values()]
    if 0 in cs:
        ctx.label('train without entries')
    if any(c > 1 for c in cs):
        ctx.label('several entries per train')
    for a in spec['aggs']:
        for s in a['sources']:
            ctx.label(s['kind'])
            for g in s.get('groups', [s]):
                ctx.label('index ' + g.get('index', 'count'))
    ctx.label('format ' + spec['version'])
    if len({f.get('version', spec['version']) for a in spec['aggs'] for f in a['files']}) > 1:
        ctx.label('files of different format versions')
    if spec.get('store'):
        ctx.label('datasets ' + spec['store'])
    return m


# ------------------------------------------------------------------ comparing

def same(got, want, what=''):
    """Exact equality of dtype, shape and values (NaN equal to NaN)"""
    want = np.asarray(want)
    got = np.asarray(got)
    if want.dtype.kind == 'O' and want.shape == ():
        want = want[()]
    if isinstance(want, bytes):      # one string
        assert got.shape == () and got[()] == want, '%s: %r, expected %r' % (what, got, want)
        return
    assert got.dtype == want.dtype, '%s: dtype %s, expected %s' % (what, got.dtype, want.dtype)
    assert got.shape == want.shape, '%s: shape %s, expected %s' % (what, got.shape, want.shape)
    if got.dtype.kind in 'fc':
        ok = ((got == want) | ((got != got) & (want != want))).all()
    else:
        ok = (got == want).all()
    assert ok, '%s: values differ: got %s, expected %s' % (
        what, np.array2string(got, threshold=20), np.array2string(want, threshold=20))
