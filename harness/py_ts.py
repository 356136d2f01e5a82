"""TimeSeries operations: T11 normalise, T12 deredden, T13 bookkeeping, T14 fold,
T15 simulated signals."""
import math
import os
import tempfile
import contextlib

import numpy as np

from engine.registry import harness
from engine.core import maximum, minimum, ite, band, bor, bnot, floor, implies, sqrt
from .common import mined, rel
from .cpp_num import fast_median_oracle

PY = ['riptide/time_series.py', 'riptide/folding.py', 'riptide/libffa.py', 'riptide/running_medians.py']


def unchanged(ctx, ts, X, tsamp, label='source time series unchanged'):
    ctx.check(len(ctx.vals(ts.data)) == len(X), label)
    ctx.same_all(list(zip(ctx.vals(ts.data), X)) + [(ts.tsamp, tsamp)], label, tol=1e-6)


def f32(ctx, ts):
    ctx.check(str(ts.data.dtype) == 'float32' and ts.data.ndim == 1, 'the data are one-dimensional single precision', str(ts.data.dtype))


def tobs_ok(ctx, ts, label='tobs is the length of the data'):
    n = len(ctx.vals(ts.data))
    ctx.check(ts.nsamp == n, 'nsamp')
    for v in (ts.length, ts.tobs, ts.metadata['tobs']):
        ctx.close(v, n * ts.tsamp, label, tol=1e-5)
        ctx.check(rel(v, n * ts.tsamp), label)


# ---------------------------------------------------------------- T11
@harness('T11', quick=[dict(n=2), dict(n=3), dict(n=5), dict(n=3, dtype='float64'), dict(n=4, inplace=True), dict(n=4, dtype='int16')],
         thorough=[dict(n=n, inplace=i) for n in (2, 3, 4, 5, 6, 8) for i in (False, True)],
         query_ms=30000, bounds='all data |x| <= 8 with a standard deviation above 1/16: 2..5 samples (8 thorough)')
def normalise_is_zscore(ctx):
    """normalise() subtracts the mean and divides by the standard deviation"""
    n, inplace = ctx.cfg['n'], ctx.cfg.get('inplace', False)
    x = ctx.arr('x', n, dtype=ctx.cfg.get('dtype', 'float32'))
    X = ctx.vals(x)
    m = sum(X) / n
    v = sum((a - m) * (a - m) for a in X) / n
    ctx.assume(v >= 1.0 / 256)
    ts = ctx.R.TimeSeries.from_numpy_array(x, 0.25)
    r = ts.normalise(inplace=inplace)
    if inplace:
        ctx.check(r is None, 'nothing returned in place')
        out = ts
    else:
        out = r
        ctx.check(out is not ts, 'a new object')
        unchanged(ctx, ts, X, 0.25)
    ctx.same_all(list(zip(ctx.vals(x), X)), 'array given by the user unchanged', tol=1e-6)
    f32(ctx, out)
    sd = sqrt(v)
    Y = ctx.vals(out.data)
    ctx.check(len(Y) == n, 'same length')
    for y, a in zip(Y, X):
        ctx.close(y * sd, a - m, 'z-score times standard deviation = distance to the mean', tol=2e-3)
    tobs_ok(ctx, out)
    ctx.close(out.tsamp, 0.25, 'sampling time')


@harness('T11', quick=[dict(n=3), dict(n=6), dict(n=6, inplace=True)], thorough=[dict(n=n) for n in (3, 6, 12, 24, 48)],
         query_ms=30000, bounds='every outlier in [-64, 64] on 3..6 fixed samples (48 thorough)')
def normalise_outlier(ctx):
    """z-scores of fixed data with one arbitrary outlier"""
    n = ctx.cfg['n']
    x = ctx.real('x', -64, 64)
    X = [float((5 * i * i + 3 * i) % 11) for i in range(n - 1)] + [x]
    m = sum(X) / n
    v = sum((a - m) * (a - m) for a in X) / n
    ts = ctx.R.TimeSeries.from_numpy_array(ctx.farr(X), 0.25)
    r = ts.normalise(inplace=ctx.cfg.get('inplace', False))
    Y = ctx.vals((r or ts).data)
    for y, a in zip(Y, X):
        d = a - m
        ctx.close(y * y * v, d * d, 'squared z-score', tol=2e-2)
        ctx.check(y * d >= -1e-3, 'sign of the z-score')


@harness('T11', quick=[dict(n=4, off=0.0), dict(n=6, off=2.0 ** 24), dict(n=5, off=-1e9, scale=1e7), dict(n=5, off=0.0, scale=1e-9),
                       dict(n=4, off=0.0, scale=1e12)],
         bounds='large offsets (exact in float64), symbolic scale around 1e-9, 16, 1e7 and 1e12', budget_s=30)
def normalise_scale_invariant(ctx):
    """the result does not depend on the scale or offset of the data"""
    n = ctx.cfg['n']
    base = [((7 * i * i + i) % 13) - 6.0 for i in range(n)]
    m = sum(base) / n
    sd = math.sqrt(sum((b - m) ** 2 for b in base) / n)
    s = ctx.real('s', 1, 64) * ctx.cfg.get('scale', 16.0)
    x = ctx.farr([b * s + ctx.cfg['off'] for b in base])
    out = ctx.R.TimeSeries.from_numpy_array(x, 0.5).normalise()
    ctx.close_all(list(zip(ctx.vals(out.data), [(b - m) / sd for b in base])), 'normalised data', tol=2e-2)


@harness('T11', quick=[dict(n=3000, off=2.0 ** 24), dict(n=2500, off=2.0 ** 22, inplace=True)], budget_s=60,
         bounds='3000 samples of magnitude 2^24 with a standard deviation of 2 to 8 and one free sample')
def normalise_many_large_samples(ctx):
    """many samples on a large offset, whose sum is far beyond single precision"""
    n, off = ctx.cfg['n'], ctx.cfg['off']
    # the mean is halfway between two single precision numbers
    base = [2.0 * ((i * i + i // 2) % 4 if ctx.cfg['off'] > 2.0 ** 23 else (7 * i * i + i) % 13 - 6.0) for i in range(n - 1)] + [2.0 * ctx.int('x', -4, 4)]
    rest = base[:-1]
    m = sum(rest) / n + base[-1] / n
    v0 = sum(b * b for b in rest) / n - (sum(rest) / n) ** 2   # the free sample moves it by less than 1%
    sd = math.sqrt(v0)
    out = ctx.R.TimeSeries.from_numpy_array(ctx.farr([b + off for b in base]), 0.5)
    out = out.normalise(inplace=ctx.cfg.get('inplace', False)) or out
    Y = ctx.vals(out.data)
    ctx.check(len(Y) == n, 'same length')
    ctx.close_all([(Y[i], (base[i] - m) / sd) for i in range(0, n - 1, 97)], 'normalised data', tol=1e-2)


# ---------------------------------------------------------------- T12
@harness('T12', quick=[dict(n=5, w=0.75, ts=0.25, mp=3), dict(n=8, w=3.0, ts=0.5, mp=3), dict(n=4, w=0.3, ts=0.1, mp=101),
                       dict(n=10, w=2.6, ts=0.5, mp=1), dict(n=9, w=2.9, ts=0.5, mp=3, inplace=True), dict(n=4, w=0.26, ts=0.25, mp=5, inplace=True)],
         budget_s=100, max_paths=20000, bounds='all data |x| <= 8 for the listed (n, width, sampling time, points), 4..9 samples')
def deredden_subtracts_running_median(ctx):
    """deredden() = data - fast running median over round(width / tsamp) samples"""
    c = ctx.cfg
    n, inplace = c['n'], c.get('inplace', False)
    x = ctx.arr('x', n)
    X = ctx.vals(x)
    ts = ctx.R.TimeSeries.from_numpy_array(x, c['ts'], copy=True)
    w = int(math.floor(c['w'] / c['ts'] + 0.5))
    rm = fast_median_oracle(X, w, c['mp'])
    r = ts.deredden(c['w'], minpts=c['mp'], inplace=inplace)
    out = ts if inplace else r
    if inplace:
        ctx.check(r is None, 'nothing returned in place')
    else:
        unchanged(ctx, ts, X, c['ts'])
    ctx.same_all(list(zip(ctx.vals(x), X)), 'array given by the user unchanged', tol=1e-6)
    f32(ctx, out)
    ctx.check(out.nsamp == n, 'same length')
    ctx.same_all([(a, b - m) for a, b, m in zip(ctx.vals(out.data), X, rm)], 'data minus running median', tol=1e-3)
    tobs_ok(ctx, out)
    ctx.close(out.tsamp, c['ts'], 'sampling time')


@harness('T12', bounds='12 samples, every width from 0 to 16 sampling times, 3 points', budget_s=60)
def deredden_width_in_samples(ctx):
    """the width is converted to the nearest number of samples; windows that do not
    fit are refused"""
    X = [((5 * i * i + 3 * i) % 11) * 0.5 for i in range(12)]
    w = ctx.real('w', 0, 8)
    k = int(floor(w * 2 + 0.5))
    ctx.assume(band(w * 2 + 0.5 - k > 1e-6, w * 2 + 0.5 - k < 1 - 1e-6))
    ts = ctx.R.TimeSeries.from_numpy_array(ctx.farr(X), 0.5)
    st, v = ctx.call(ts.deredden, w, minpts=3)
    st2, v2 = ctx.call(ctx.R.fast_running_median, ctx.farr(X), k, min_points=3)
    ctx.check(st == st2, 'refused exactly when the running median refuses the window', '%r %r' % (v, v2))
    if st == 'ok':
        ctx.same_all([(a, b - m) for a, b, m in zip(ctx.vals(v.data), X, ctx.vals(v2))], 'data minus running median', tol=1e-3)


@harness('T12', quick=[dict(n=2600, w=1.2, ts=0.001, mp=11, inplace=True), dict(n=1300, w=40.05, ts=0.1, mp=7), dict(n=900, w=9.01, ts=0.2, mp=101)], budget_s=100,
         bounds='900 to 2600 samples, windows of 45 to 1200 samples, of fixed data with 2 free samples')
def deredden_long_series(ctx):
    """the same with many samples and wide windows"""
    c = ctx.cfg
    n = c['n']
    X = [float((17 * i * i + 5 * i) % 113) * 0.25 + (i % 700) * 0.03125 for i in range(n)]
    X[n // 3], X[n - 5] = ctx.real('x', 64, 128), ctx.real('y', -128, -64)
    ts = ctx.R.TimeSeries.from_numpy_array(ctx.farr(X), c['ts'])
    rm = fast_median_oracle(X, int(math.floor(c['w'] / c['ts'] + 0.5)), c['mp'])
    out = ts.deredden(c['w'], minpts=c['mp'], inplace=c.get('inplace', False)) or ts
    Y = ctx.vals(out.data)
    ctx.check(len(Y) == n, 'same length')
    ix = sorted(set(range(0, n, 61)) | {n // 3, n - 5, n - 1})
    ctx.same_all([(Y[i], X[i] - rm[i]) for i in ix], 'data minus running median', tol=1e-2)


# ---------------------------------------------------------------- T13
@harness('T13', quick=[dict(n=6, f=1.5), dict(n=7, f=2.25, inplace=True), dict(n=8, f=4.0), dict(n=5, f=5.0, inplace=True)],
         bounds='all data |x| <= 8, listed factors')
def timeseries_downsample(ctx):
    """downsample(): integrated data, sampling time multiplied by the factor"""
    c = ctx.cfg
    n, f, inplace = c['n'], c['f'], c.get('inplace', False)
    x = ctx.arr('x', n)
    X = ctx.vals(x)
    ts = ctx.R.TimeSeries(x, 0.25, metadata={'source_name': 'src', 'dm': 3.5})
    e = ctx.vals(ctx.R.downsample(ctx.farr(X), f))
    r = ts.downsample(f, inplace=inplace)
    out = ts if inplace else r
    if inplace:
        ctx.check(r is None, 'nothing returned in place')
    else:
        unchanged(ctx, ts, X, 0.25)
        tobs_ok(ctx, ts, 'tobs of the source unchanged')
    ctx.same_all(list(zip(ctx.vals(x), X)), 'array given by the user unchanged', tol=1e-6)
    f32(ctx, out)
    ctx.check(out.nsamp == len(e), 'number of samples')
    ctx.same_all(list(zip(ctx.vals(out.data), e)), 'integrated data', tol=1e-3)
    ctx.close(out.tsamp, 0.25 * f, 'sampling time', tol=1e-6)
    tobs_ok(ctx, out)
    ctx.check(out.metadata['source_name'] == 'src' and out.metadata['dm'] == 3.5, 'metadata kept')


@harness('T13', bounds='9 samples, every real factor 1 < f <= 9 and sampling time in [1e-4, 16]', budget_s=100)
def timeseries_downsample_times(ctx):
    """tobs and tsamp after downsampling by any factor, in place or not"""
    X = [((5 * i * i + 3 * i) % 11) * 0.5 for i in range(9)]
    f = ctx.real('f', 1, 9)
    ctx.assume(f >= 1 + 1e-6)
    dt = ctx.choose('dt', [0.25, 64e-6, 3.0])
    inplace = ctx.choose('inplace', [False, True])
    ts = ctx.R.TimeSeries.from_numpy_array(ctx.farr(X), dt)
    r = ts.downsample(f, inplace=inplace)
    out = ts if inplace else r
    n = out.nsamp
    ctx.check(band(n * f <= 9 * (1 + 1e-9), (n + 1) * f > 9 * (1 - 1e-9)), 'number of samples')
    ctx.check(rel(out.tsamp, f * dt), 'sampling time')
    tobs_ok(ctx, out)


OPS = ['copy', 'normalise', 'normalise!', 'deredden', 'deredden!', 'downsample', 'downsample!', 'fold']


def apply_op(ctx, ts, op):
    """(series carrying the result, was it in place)"""
    inp = op.endswith('!')
    k = op.rstrip('!')
    if k == 'copy':
        return ts.copy(), False
    if k == 'normalise':
        r = ts.normalise(inplace=inp)
    elif k == 'deredden':
        r = ts.deredden(3 * ts.tsamp, minpts=3, inplace=inp)
    elif k == 'downsample':
        r = ts.downsample(1.25, inplace=inp)
    else:
        ts.fold(4 * ts.tsamp, 3)
        return ts, None
    return (ts, True) if inp else (r, False)


@harness('T13', quick=[dict(k=3)], thorough=[dict(k=4)], budget_s=250, max_paths=20000, max_witnesses=10,
         bounds='every sequence of 3 operations (4 thorough) out of copy, normalise, deredden, downsample (in place or not) and fold, on a fixed series of 12 samples')
def operation_histories(ctx):
    """after any sequence of operations: single precision data, consistent lengths,
    sources untouched by operations that are not in place, independent metadata"""
    X = [((5 * i * i + 3 * i) % 11) - 4.0 for i in range(12)]
    user = ctx.farr(X)
    ts = ctx.R.TimeSeries.from_numpy_array(user, 0.5, copy=True)
    ts.metadata['source_name'] = 'src'
    for step in range(ctx.cfg['k']):
        op = ctx.choose('op%d' % step, OPS)
        before, dt, tob = ctx.vals(ts.data), ts.tsamp, ts.metadata['tobs']
        out, inp = apply_op(ctx, ts, op)
        f32(ctx, out)
        tobs_ok(ctx, out)
        ctx.check(out.metadata['source_name'] == 'src', 'metadata kept')
        if not inp:
            unchanged(ctx, ts, before, dt)
            ctx.close(ts.metadata['tobs'], tob, 'tobs of the source unchanged', tol=1e-6)
        if out is not ts:
            out.metadata['source_name'] = 'other'
            ctx.check(ts.metadata['source_name'] == 'src', 'metadata of the result are independent of the source')
            out.metadata['source_name'] = 'src'
        ts = out
    ctx.same_all(list(zip(ctx.vals(user), X)), 'array given by the user unchanged', tol=1e-5)


@harness('T13', quick=[dict(dtype=d) for d in ('float32', 'float64', 'int16')], bounds='all data |x| <= 8 of 5 samples, every tsamp in [1e-4, 16]')
def construction(ctx):
    """a series holds its data in single precision; copy=True protects the user's array"""
    x = ctx.arr('x', 5, dtype=ctx.cfg['dtype'])
    X = ctx.vals(x)
    dt = ctx.real('dt', 1e-4, 16)
    how = ctx.choose('how', ['init', 'array', 'list', 'dict'])
    copy = ctx.choose('copy', [True, False])
    T = ctx.R.TimeSeries
    if how == 'init':
        ts = T(x, dt, metadata={'dm': 1.0}, copy=copy)
    elif how == 'array':
        ts = T.from_numpy_array(x, dt, copy=copy)
    elif how == 'list':
        ts = T(list(X), dt, copy=copy)
    else:
        ts = T.from_dict(T(x, dt, metadata={'dm': 1.0}).to_dict())
    f32(ctx, ts)
    ctx.check(ts.nsamp == 5, 'nsamp')
    ctx.same_all(list(zip(ctx.vals(ts.data), X)), 'data', tol=1e-5)
    ctx.check(rel(ts.tsamp, dt), 'tsamp')
    tobs_ok(ctx, ts)
    if how in ('init', 'dict'):
        ctx.check(ts.metadata['dm'] == 1.0, 'metadata')
    if copy and how in ('init', 'array'):
        ts.data[0] = 100.0
        ctx.same_all(list(zip(ctx.vals(x), X)), "copy=True: the user's array is not shared", tol=1e-6)
    c = ts.copy()
    b = ctx.vals(ts.data)
    c.data[1] = 50.0
    c.metadata['dm'] = 9.0
    ctx.same_all(list(zip(ctx.vals(ts.data), b)), 'copy() is deep', tol=1e-6)
    ctx.check(ts.metadata['dm'] != 9.0, 'copy() copies metadata')


# ---------------------------------------------------------------- T14
def fold_oracle(X, dt, period, bins):
    """value of bin j of period k, as an integral of the data; number of full periods"""
    n = len(X)
    L = n * dt
    m = int(math.floor(L / period * (1 + 1e-12)))
    f = period / bins / dt
    out = []
    for k in range(m):
        row = []
        for j in range(bins):
            a, b = (k * bins + j) * f, (k * bins + j + 1) * f
            s = 0.0
            for i in range(max(0, int(a) - 1), min(n, int(b) + 2)):
                o = min(b, i + 1.0) - max(a, float(i))
                if o > 0:
                    s = s + X[i] * o
            row.append(s / math.sqrt(m * f))
        out.append(row)
    return out, m


def fold_cfgs(big):
    c = [dict(n=20, dt=0.5, p=2.5, bins=3, s=None), dict(n=24, dt=0.25, p=1.1, bins=4, s=2), dict(n=18, dt=1.0, p=3.0, bins=2, s=None),
         dict(n=27, dt=0.1, p=0.3, bins=2, s=7), dict(n=30, dt=0.02, p=0.11, bins=5, s=5), dict(n=25, dt=0.5, p=5.1, bins=8, s=1),
         dict(n=15, dt=0.5, p=4.4, bins=6, s=None), dict(n=33, dt=0.5, p=2.2, bins=4, s=3), dict(n=22, dt=0.5, p=2.0, bins=3, s=5),
         dict(n=18, dt=0.5, p=9.0, bins=12, s=None), dict(n=20, dt=0.5, p=2.5, bins=4, s=4), dict(n=14, dt=0.1, p=0.3, bins=3, s=None),
         dict(n=15, dt=0.5, p=2.5, bins=5, s=2), dict(n=12, dt=0.7, p=2.1, bins=3, s=1)]
    if big:
        c += [dict(n=n, dt=0.1, p=p, bins=b, s=s) for n, p, b in [(50, 0.37, 3), (64, 0.8, 5), (45, 0.9, 8), (70, 0.35, 2)]
              for s in (None, 1, 2, 3, 5)]
    return c


@harness('T14', quick=lambda: fold_cfgs(False), thorough=lambda: fold_cfgs(True), query_ms=20000, budget_s=60,
         bounds='all data |x| <= 8 for the listed (n, tsamp, period, bins, subints), 15..33 samples (70 thorough)')
def fold_values(ctx):
    """row k, bin j of the folded data = integral of the data over that phase bin,
    scaled so that summing all rows keeps unit noise; subints group whole periods"""
    c = ctx.cfg
    n, dt, p, bins, s = c['n'], c['dt'], c['p'], c['bins'], c['s']
    x = ctx.arr('x', n)
    X = ctx.vals(x)
    ts = ctx.R.TimeSeries.from_numpy_array(x, dt)
    E, m = fold_oracle(X, dt, p, bins)
    r = ts.fold(p, bins, subints=s)
    rows = m if s is None else s
    ctx.check(tuple(r.shape) == ((bins,) if rows == 1 else (rows, bins)), 'shape of the folded data', '%r, %d periods' % (r.shape, m))
    V = ctx.vals(r)
    pairs = []
    g = m / rows
    for q in range(rows):
        for j in range(bins):
            e = 0.0
            for k in range(m):
                o = min((q + 1) * g, k + 1.0) - max(q * g, float(k))
                if o > 0:
                    e = e + E[k][j] * o
            pairs.append((V[q * bins + j], e))
    ctx.same_all(pairs, 'folded data', tol=5e-3)
    ctx.same_all(list(zip(ctx.vals(x), X)), 'input unchanged', tol=1e-6)
    ctx.check(ts.nsamp == n and ts.tsamp == dt, 'series unchanged')
    f = p / bins / dt
    if rows > 1 and not m % rows:
        # profile = sum of the sub-integrations
        one = ctx.vals(ts.fold(p, bins, subints=1))
        ctx.same_all([(one[j], sum(V[q * bins + j] for q in range(rows))) for j in range(bins)], 'profile = sum of the rows', tol=1e-2)


@harness('T14', quick=[dict(bins=130, s=None), dict(bins=257, s=2)], thorough=[dict(bins=b, s=s) for b in (130, 257, 300, 512) for s in (None, 1, 2)],
         budget_s=60, bounds='130 and 257 bins (512 thorough), 2 to 3 periods, three samples of arbitrary value')
def fold_many_bins(ctx):
    """folding with realistic numbers of bins"""
    bins, s = ctx.cfg['bins'], ctx.cfg['s']
    dt, f = 0.5, 1.25
    m = 2 if s else 3
    n = int((m + 0.4) * bins * f)
    p = bins * f * dt
    X = [((5 * i * i + 3 * i) % 7) * 0.5 - 1.0 for i in range(n)]
    for i in (1, int(bins * f * 1.5), int(m * bins * f) - 2):
        X[i] = ctx.real('x%d' % i, -16, 16)
    E, k = fold_oracle(X, dt, p, bins)
    ctx.check(k == m, 'periods')
    r = ctx.R.TimeSeries.from_numpy_array(ctx.farr(X), dt).fold(p, bins, subints=s)
    ctx.check(tuple(r.shape) == ((bins,) if s == 1 else (m, bins)), 'shape of the folded data', repr(r.shape))
    V = ctx.vals(r)
    if s == 1:
        E = [[sum(E[q][j] for q in range(m)) for j in range(bins)]]
    ctx.same_all([(V[q * bins + j], E[q][j]) for q in range(len(E)) for j in range(bins)], 'folded data', tol=5e-3)


@harness('T14', quick=[dict(n=12, bins=2), dict(n=14, bins=3)], thorough=[dict(n=n, bins=b) for n, b in [(12, 2), (14, 3), (16, 2), (18, 4)]],
         budget_s=150, max_paths=20000, bounds='12 and 14 samples, 2 and 3 bins, every real period and subints in {none, -1..8}')
def fold_refuses_invalid(ctx):
    """periods longer than the data, bins shorter than a sample and more
    sub-integrations than periods are refused; everything else folds, to the
    requested shape"""
    ctx.sym_arrays = True
    n, bins = ctx.cfg['n'], ctx.cfg['bins']
    dt = 0.5
    X = [((5 * i * i + 3 * i) % 11) * 0.5 for i in range(n)]
    p = ctx.real('p', 0.25, (n + 2) * dt)
    s = ctx.choose('s', [None, -1, 0, 1, 2, 3, 4, 5, 6, 8])
    L = n * dt
    # away from the limits, where rounding decides
    m = int(floor(L / p))
    ctx.assume(band(p * (m + 1) > L * (1 + 1e-9), bor(m == 0, p * m < L * (1 - 1e-9))))
    ctx.assume(bor(p > bins * dt * (1 + 1e-8), p < bins * dt * (1 - 1e-8), p == bins * dt))
    good = band(m >= 1, p >= bins * dt)
    if s is not None:
        good = band(good, s >= 1, s <= m)
    ts = ctx.R.TimeSeries.from_numpy_array(ctx.farr(X), dt)
    st, v = ctx.call(ts.fold, p, bins, subints=s)
    if bool(good):
        ctx.check(st == 'ok', 'valid parameters accepted', repr(v))
        rows = m if s is None else s
        ctx.check(tuple(v.shape) == ((bins,) if rows == 1 else (rows, bins)), 'shape', '%r for %d periods, %r subints' % (v.shape, m, s))
    else:
        ctx.check(st == 'exc' and isinstance(v, ValueError), 'invalid parameters refused', repr(v))


@harness('T14', quick=[dict(lo=2, hi=40)], thorough=[dict(lo=2, hi=120)], budget_s=200, max_paths=20000,
         bounds='every number of periods m up to 40 (120 thorough), every number of sub-integrations 1..m, 2 bins of 1.5 samples')
def fold_row_counts(ctx):
    """exactly the requested number of sub-integrations"""
    m = int(ctx.int('m', ctx.cfg['lo'], ctx.cfg['hi']))
    s = int(ctx.int('s', 1, ctx.cfg['hi']))
    ctx.assume(s <= m)
    n = 3 * m
    ts = ctx.R.TimeSeries.from_numpy_array(np.ones(n, dtype=np.float32), 0.1)
    r = ts.fold(0.3, 2, subints=s)
    ctx.check(tuple(r.shape) == ((2,) if s == 1 else (s, 2)), 'number of sub-integrations', '%r for %d of %d' % (r.shape, s, m))
    t = sum(ctx.vals(r))
    ctx.close(t, n / math.sqrt(m * 1.5), 'total', tol=0.05)


# ---------------------------------------------------------------- T15
@contextlib.contextmanager
def noise_source(ctx, n, rec):
    """numpy.random.normal gives symbolic samples, scaled as requested"""
    old = np.random.normal
    u = ctx.vec('noise', n, -4, 4)

    def normal(loc=0.0, scale=1.0, size=None):
        rec.append((loc, scale, size))
        k = size if isinstance(size, int) else int(np.prod(size)) if size is not None else 1
        return ctx.farr([loc + scale * v for v in (u * (k // n + 1))[:k]], 'float64')
    np.random.normal = normal
    try:
        yield u
    finally:
        np.random.normal = old


def von_mises(n, period, phi0, ducy):
    k = math.log(2.0) / (2.0 * math.sin(math.pi * ducy / 2.0) ** 2)
    v = [math.exp(k * (math.cos((i / period - phi0) * 2 * math.pi) - 1.0)) for i in range(n)]
    q = math.sqrt(sum(a * a for a in v))
    return [a / q for a in v]


@harness('T15', quick=[dict(n=8, period=4.0, phi0=0.5, ducy=0.2), dict(n=12, period=3.7, phi0=0.1, ducy=0.05),
                       dict(n=10, period=10.0, phi0=0.73, ducy=0.3), dict(n=11, period=3.7, phi0=-0.4, ducy=0.15), dict(n=9, period=5.5, phi0=2.2, ducy=0.6), dict(n=24, period=400.0, phi0=0.02, ducy=0.01)],
         bounds='all amplitudes in [0, 16], noise levels in [0, 4] and noise samples, for the listed lengths, periods, phases and duty cycles')
def simulated_signal(ctx):
    """signal = amplitude x unit-norm von Mises pulse train at the given phase and
    duty cycle, plus white noise of the given standard deviation (none for 0)"""
    c = ctx.cfg
    n = c['n']
    A = ctx.real('A', 0, 16)
    sd = ctx.real('sd', 0, 4)
    rec = []
    with noise_source(ctx, n, rec) as u:
        y = ctx.R.generate_signal(n, c['period'], phi0=c['phi0'], ducy=c['ducy'], amplitude=A, stdnoise=sd)
    V = von_mises(n, c['period'], c['phi0'], c['ducy'])
    ctx.check(tuple(y.shape) == (n,), 'number of samples')
    ctx.same_all([(a, A * v + sd * e) for a, v, e in zip(ctx.vals(y), V, u)], 'signal plus noise', tol=5e-3)


@harness('T15', quick=[dict(scale=1e-9), dict(scale=1e9)], bounds='8 samples, noise levels and amplitudes of 1e-9 and 1e9 times those above')
def simulated_scales(ctx):
    """signals and noise of any scale are generated alike"""
    k, n = ctx.cfg['scale'], 8
    A, sd = ctx.real('A', 0.25, 16), ctx.real('sd', 0.25, 4)
    rec = []
    with noise_source(ctx, n, rec) as u:
        y = ctx.R.generate_signal(n, 4.0, phi0=0.25, ducy=0.2, amplitude=A * k, stdnoise=sd * k)
    V = von_mises(n, 4.0, 0.25, 0.2)
    ctx.same_all([(a / k, A * v + sd * e) for a, v, e in zip(ctx.vals(y), V, u)], 'signal plus noise', tol=5e-3)


@harness('T15', quick=[dict(n=20000, period=1.5), dict(n=9001, period=3000.7)], bounds='40 samples of noiseless signals of 9001 and 20000 samples, all amplitudes in [0, 16]')
def simulated_long_signals(ctx):
    """pulses stay in phase over many samples"""
    c = ctx.cfg
    n = c['n']
    A = ctx.real('A', 0, 16)
    y = ctx.vals(ctx.R.generate_signal(n, c['period'], phi0=0.3, ducy=0.1, amplitude=A, stdnoise=0.0))
    V = von_mises(n, c['period'], 0.3, 0.1)
    ctx.check(len(y) == n, 'number of samples')
    ix = list(range(0, 10)) + list(range(n // 3, n // 3 + 10)) + list(range(n - 20, n))
    q = max(V)
    ctx.same_all([(y[i] / q, A * (V[i] / q)) for i in ix], 'signal', tol=1e-3)


@harness('T15', quick=[dict(dt=0.5, n=9), dict(dt=0.25, n=12)], bounds='lengths in (n - 1/2, n + 1/2) samples, all amplitudes in [0, 16]; noiseless')
def generated_series(ctx):
    """TimeSeries.generate(): the signal in seconds, at the nearest number of samples"""
    n, dt = ctx.cfg['n'], ctx.cfg['dt']
    A = ctx.real('A', 0, 16)
    L = ctx.real('L', (n - 0.4375) * dt, (n + 0.4375) * dt)
    P = 3.3 * dt
    ts = ctx.R.TimeSeries.generate(L, dt, P, phi0=0.25, ducy=0.1, amplitude=A, stdnoise=0)
    V = von_mises(n, 3.3, 0.25, 0.1)
    f32(ctx, ts)
    ctx.check(ts.nsamp == n, 'number of samples')
    ctx.same_all([(a, A * v) for a, v in zip(ctx.vals(ts.data), V)], 'signal', tol=2e-3)
    tobs_ok(ctx, ts)
    ctx.close(ts.tsamp, dt, 'sampling time')
    ctx.close(ts.metadata['signal_period'], P, 'period in the metadata')
