"""Write small EuXFEL-style HDF5 files for the demonstrations"""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter('ignore')
import h5py
import numpy as np


def write_file(path, trains, control=None, inst=None, fmt='count', version='0.5'):
    """control: {source: {key: array}}; inst: {source: {group: (counts, {key: array})}}"""
    n = len(trains)
    with h5py.File(path, 'w') as f:
        f['INDEX/trainId'] = np.array(trains, dtype='u8')
        ids = []
        for s, keys in (control or {}).items():
            ids.append('CONTROL/' + s)
            f['INDEX/%s/first' % s] = np.arange(n, dtype='u8')
            f['INDEX/%s/count' % s] = np.ones(n, dtype='u8')
            for k, v in keys.items():
                f['CONTROL/%s/%s' % (s, k.replace('.', '/'))] = np.asarray(v)
        for s, groups in (inst or {}).items():
            for g, (counts, keys) in groups.items():
                ids.append('INSTRUMENT/%s/%s' % (s, g))
                counts = np.asarray(counts, dtype='u8')
                first = np.concatenate([[0], np.cumsum(counts)[:-1]]).astype('u8')
                f['INDEX/%s/%s/first' % (s, g)] = first
                if fmt == 'count':
                    f['INDEX/%s/%s/count' % (s, g)] = counts
                else:
                    f['INDEX/%s/%s/last' % (s, g)] = np.where(counts > 0, first + counts - 1, first
                                                              ).astype('u8')
                    f['INDEX/%s/%s/status' % (s, g)] = (counts > 0).astype('i4')
                for k, v in keys.items():
                    f['INSTRUMENT/%s/%s/%s' % (s, g, k.replace('.', '/'))] = np.asarray(v)
        pre = 'METADATA/'
        if version != '0.5':
            f['METADATA/dataFormatVersion'] = np.array([version.encode()], dtype='S8')
            pre += 'dataSources/'
        ids = [i.encode() for i in ids] + [b'', b'']
        f[pre + 'dataSourceId'] = np.array(ids, dtype='S120')
        f[pre + 'root'] = np.array([i.partition(b'/')[0] for i in ids], dtype='S120')
        f[pre + 'deviceId'] = np.array([i.partition(b'/')[2] for i in ids], dtype='S120')


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='demo-')
    try:
        yield d
    finally:
        shutil.rmtree(d)


def printed(func, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        func(*args, **kw)
    return out.getvalue()


def raises(exc, func, *args, **kw):
    try:
        func(*args, **kw)
    except exc:
        return True
    return False


def detector_file(path, modno, trains, counts, det='SPB_DET_AGIPD1M-1', raw=False, pulse_ids=None,
                  shape=(4, 3), dtype='f4', raw_dim=2, fmt='count'):
    """One module of corrected or raw data; pixel values encode module, train and frame"""
    n = int(sum(counts))
    tids = np.repeat(trains, counts)
    num = np.concatenate([np.arange(c) for c in counts] + [[]]).astype(int)
    val = modno * 1000 + (tids % 100) * 10 + num
    pid = num if pulse_ids is None else np.asarray(pulse_ids)
    one = (n, 1) if raw else (n,)
    s = (n, raw_dim) + tuple(shape) if raw else (n,) + tuple(shape)
    data = np.broadcast_to(val.reshape((n,) + (1,) * (len(s) - 1)), s).astype('u2' if raw else dtype)
    keys = {'data': data, 'pulseId': pid.astype('u8').reshape(one),
            'cellId': num.astype('u2').reshape(one), 'trainId': tids.astype('u8').reshape(one)}
    if not raw:
        keys['gain'] = (val % 3).reshape((n,) + (1,) * len(shape)) * np.ones((n,) + tuple(shape), 'u1')
        keys['gain'] = keys['gain'].astype('u1')
        keys['mask'] = (val.reshape((n,) + (1,) * len(shape)) * np.ones((n,) + tuple(shape), 'u4')
                        ).astype('u4')
    m = np.asarray(counts) > 0
    write_file(path, trains, inst={'%s/DET/%dCH0:xtdf' % (det, modno): {
        'image': (counts, keys),
        'header': (m.astype(int), {'pulseCount': np.asarray(counts)[m].astype('u8')})}}, fmt=fmt)
    return data
