"""Histories of calls: a result is a function of the arguments of its own call, never of
earlier or later calls, and the objects returned earlier keep their value."""
import copy
import os
import tempfile

import numpy as np

from engine.registry import harness
from .common import mined, types_of
from .py_io import sigproc_header, inf_text, SIGPROC
from .cpp_num import boxcar_oracle
from .py_dm import write_inf, Cand, BANDS


def flat(ctx, v):
    """leaves of a result, in order"""
    R = ctx.R
    if v is None or isinstance(v, (str, bytes, bool)):
        return [v]
    if isinstance(v, (list, tuple)) or type(v).__name__ == 'dict_values':
        return [len(v)] + [y for x in v for y in flat(ctx, x)]
    if isinstance(v, dict) and not hasattr(v, 'to_dict'):
        return [y for k in sorted(v, key=str) for y in [str(k)] + flat(ctx, v[k])]
    n = type(v).__name__
    if n == 'TimeSeries':
        return [v.tsamp] + flat(ctx, v.data) + flat(ctx, dict(v.metadata))
    if n == 'Periodogram':
        return [y for a in (v.widths, v.periods, v.foldbins, v.snrs, v.freqs) for y in flat(ctx, a)] + flat(ctx, dict(v.metadata))
    if n == 'Peak' or hasattr(v, '_fields'):
        return [y for k in v._fields for y in flat(ctx, getattr(v, k))]
    if n == 'Metadata':
        return flat(ctx, dict(v))
    if n == 'SkyCoord':
        return [float(v.icrs.ra.deg), float(v.icrs.dec.deg)]
    if isinstance(v, np.ndarray):
        return list(v.shape) + list(ctx.vals(v))
    return [v]


def same(ctx, a, b, label, tol=1e-6):
    ctx.check(len(a) == len(b), label, '%d values, expected %d' % (len(a), len(b)))
    num = []
    for x, y in zip(a, b):
        if x is None or isinstance(x, (str, bytes, bool)) or y is None or isinstance(y, (str, bytes, bool)):
            ctx.check(type(x) is type(y) and x == y, label, '%r, expected %r' % (x, y))
        else:
            num.append((x, y))
    ctx.same_all(num, label, tol=tol)


def history(ctx, thunks, label, tol=1e-6):
    """run all calls, then again in the other order: every call gives the result it gave the
    first time, and the results held since are not altered by the calls in between"""
    held = [t() for t in thunks]
    snap = [flat(ctx, h) for h in held]
    for i in reversed(range(len(thunks))):
        same(ctx, flat(ctx, thunks[i]()), snap[i], label + ': the same call gives the same result', tol)
    for h, s in zip(held, snap):
        same(ctx, flat(ctx, h), s, label + ': results are not altered by later calls', tol)
    return held


B1 = 'two or three calls with other arguments in between and the first call again; arbitrary data |x| <= 8 of fixed small sizes'


@harness('F01', bounds=B1)
def ffa_history(ctx):
    """transforms do not depend on earlier transforms"""
    a, b, c = ctx.arr('a', (3, 4)), ctx.arr('b', (3, 4)), ctx.arr('c', (4, 4))
    history(ctx, [lambda: ctx.R.ffa2(a), lambda: ctx.R.ffa2(b), lambda: ctx.R.ffa2(c), lambda: ctx.R.ffa1(ctx.farr(ctx.vals(c)), 3)], 'transform')


@harness('F02', bounds='lengths 24 and 25 with base periods 4 and 5, two arbitrary sampling times')
def trial_freqs_history(ctx):
    """trial frequencies and periods do not depend on earlier calls"""
    d = [ctx.real('d1', 0.001, 16), ctx.real('d2', 0.001, 16)]
    q = [(24, 5, d[0]), (24, 5, d[1]), (25, 5, d[0]), (24, 4, d[0]), (24, 5, 1.0)]
    out = history(ctx, [lambda q=q, f=f: f(q[0], q[1], dt=q[2]) for q in q for f in (ctx.R.ffafreq, ctx.R.ffaprd)], 'trial frequencies')
    for k, (n, p, dt) in enumerate(q):
        m = n // p
        for s in range(m):
            e = 1.0 / p - s / (m - 1.0) / p ** 2
            ctx.close(ctx.vals(out[2 * k])[s] * dt, e, 'trial frequency', tol=1e-6)
            ctx.close(ctx.vals(out[2 * k + 1])[s] * e, dt, 'trial period', tol=1e-5)


@harness('F03', bounds=B1, query_ms=20000)
def boxcar_history(ctx):
    """S/N do not depend on earlier calls"""
    a, b = ctx.arr('a', (2, 5)), ctx.arr('b', (2, 5))
    f = ctx.R.boxcar_snr
    history(ctx, [lambda: f(a, [1, 2], 1.0), lambda: f(b, [1, 2], 1.0), lambda: f(a, [2], 1.0), lambda: f(a, [1, 2], 3.0), lambda: f(ctx.farr(ctx.vals(a)[:7]), [1, 2], 1.0)],
            'S/N')
    g = lambda n, w, s=1.0: f(ctx.farr(ctx.vals(a)[:n]), w, s)
    history(ctx, [lambda: g(5, [2]), lambda: g(6, [2]), lambda: g(3, [2]), lambda: g(6, [2], 2.0), lambda: g(6, [3]), lambda: g(4, [1, 3, 2]), lambda: g(4, [2])], 'S/N')
    for n, w in ((6, 2), (3, 2), (5, 2)):
        ctx.close(ctx.vals(g(n, [w]))[0], boxcar_oracle(ctx.vals(a)[:n], w, 1.0), 'S/N', tol=2e-3)


@harness('F04', bounds=B1)
def downsample_history(ctx):
    """downsampling does not depend on earlier calls"""
    a, b = ctx.arr('a', 7), ctx.arr('b', 7)
    f = ctx.R.downsample
    history(ctx, [lambda: f(a, 1.75), lambda: f(b, 1.75), lambda: f(a, 2.0), lambda: f(ctx.farr(ctx.vals(a)[:5]), 1.75)], 'downsampled data')
    g = lambda n, q: f(ctx.farr(ctx.vals(a)[:n]), q)
    history(ctx, [lambda n=n, q=q: g(n, q) for q, ns in ((1.25, (4, 7, 5)), (1.75, (3, 6))) for n in ns], 'downsampled data')


@harness('F05', bounds='two series of 4 samples, widths 1 and 3, in turns', query_ms=20000)
def median_history(ctx):
    """running medians do not depend on earlier calls"""
    a = ctx.arr('a', 4)
    b = ctx.farr([3.0, -1.0, 4.0, 1.0])
    f = ctx.R.running_median
    history(ctx, [lambda: f(a, 3), lambda: f(b, 3), lambda: f(a, 1), lambda: f(ctx.farr([2.0, 7.0, -3.0, 1.0, 8.0]), 3)], 'running median')


@harness('F06', bounds='series of 9 and 12 fixed samples of arbitrary scale, several widths, in turns')
def fast_median_history(ctx):
    """fast running medians do not depend on earlier calls"""
    k = ctx.real('k', 0.25, 4)
    a, b = (ctx.farr([k * (((5 * i * i + 3 * i) % 11) - 4.0) for i in range(n)]) for n in (12, 9))
    c = ctx.farr([k * (((7 * i * i + i) % 13) - 3.0) for i in range(12)])
    f = ctx.R.fast_running_median
    history(ctx, [lambda: f(a, 6, 3), lambda: f(c, 6, 3), lambda: f(b, 6, 3), lambda: f(a, 9, 3), lambda: f(a, 5, 5)], 'fast running median')


def pg(ctx, x, dt, w, pmin, pmax, b0, b1):
    return ctx.R.libcpp.periodogram(x, dt, np.asarray(w), pmin, pmax, b0, b1)


@harness('F07', bounds='series of 20 and 30 samples, sampling time and limits in arbitrary proportion, in turns', budget_s=100)
def plan_history(ctx):
    """the trials do not depend on earlier searches"""
    z, y = ctx.farr([0.0] * 20), ctx.farr([0.0] * 30)
    u = ctx.real('u', 0.25, 4)
    history(ctx, [lambda: pg(ctx, z, 0.5, [1], 1.6, 4.1, 3, 4)[:2], lambda: pg(ctx, z, 0.5, [1], 1.6, 3.1, 3, 4)[:2], lambda: pg(ctx, y, 0.5, [1], 1.6, 4.1, 3, 4)[:2],
                  lambda: pg(ctx, z, 0.25 * u, [1], 0.8 * u, 2.05 * u, 3, 4)[:2], lambda: pg(ctx, z, 0.5, [1], 1.6, 4.1, 3, 5)[:2]], 'trials')


@harness('F08', bounds='two arbitrary series of 12 samples |x| <= 8 and one of 14, other widths and ranges, in turns', budget_s=100, query_ms=20000)
def periodogram_history(ctx):
    """the S/N of a search do not depend on earlier searches"""
    a, b = ctx.arr('a', 12), ctx.arr('b', 12)
    c = ctx.farr([((5 * i * i + 3 * i) % 11) - 4.0 for i in range(14)])
    history(ctx, [lambda: pg(ctx, a, 0.5, [1, 2], 1.6, 3.4, 3, 4), lambda: pg(ctx, b, 0.5, [1, 2], 1.6, 3.4, 3, 4), lambda: pg(ctx, a, 0.5, [2], 1.6, 3.4, 3, 4),
                  lambda: pg(ctx, c, 0.5, [1, 2], 1.6, 3.4, 3, 4), lambda: pg(ctx, a, 0.5, [1, 2], 1.5, 3.4, 3, 4)], 'S/N')


@harness('F09', bounds='arbitrary scale of one fixed series; searches at other factors and of other lengths in between', budget_s=60)
def noise_level_history(ctx):
    """the noise level of a search does not depend on earlier searches"""
    k = ctx.real('k', 0.25, 4)
    x = lambda n: ctx.farr([k * (((5 * i * i + 3 * i) % 11) - 4.0) for i in range(n)])
    a, b = x(24), x(20)
    history(ctx, [lambda: pg(ctx, a, 0.5, [1], 3.3, 5.1, 3, 3)[2], lambda: pg(ctx, b, 0.5, [1], 3.3, 5.1, 3, 3)[2], lambda: pg(ctx, a, 1.0, [1], 3.3, 5.1, 3, 3)[2]],
            'normalised S/N', tol=1e-4)


def series(ctx, n, dt=0.5, name='x', scale=None):
    k = ctx.real(name, 0.25, 4) if scale is None else scale
    return ctx.R.TimeSeries(ctx.farr([k * (((5 * i * i + 3 * i) % 11) - 4.0) for i in range(n)]), dt, metadata={'dm': 1.5})


def tsdata(r):
    return (r.tsamp, r.data, dict(r.metadata))


@harness('T11', bounds='two series of 5 and 6 fixed samples of arbitrary scale and one of other contents, in turns')
def normalise_history(ctx):
    """normalisation depends on the series alone"""
    a, b = series(ctx, 6, name='k'), series(ctx, 5, name='q')
    c = ctx.R.TimeSeries(ctx.farr([1.0, 5.0, -2.0, 0.5, 3.0, 9.0]), 0.5, metadata={'dm': 1.5})
    history(ctx, [lambda: tsdata(a.normalise()), lambda: tsdata(b.normalise()), lambda: tsdata(c.normalise()), lambda: tsdata(a.copy().normalise()),
                  lambda: tsdata(a.normalise().normalise())], 'normalised series', tol=1e-3)
    d = a.copy()
    d.data[:] = ctx.farr([2.0, 5.0, -2.0, 0.5, 3.0, 8.0])
    e = ctx.R.TimeSeries(ctx.farr([2.0, 5.0, -2.0, 0.5, 3.0, 8.0]), 0.5)
    ctx.same_all(list(zip(ctx.vals(d.normalise().data), ctx.vals(e.normalise().data))), 'normalisation of the present samples', tol=1e-3)


@harness('T12', bounds='series of 8 and 12 fixed samples of arbitrary scale, several windows, in turns')
def deredden_history(ctx):
    """dereddening depends on the series and the window alone"""
    a, b = series(ctx, 12, name='k'), series(ctx, 8, name='q')
    c = ctx.R.TimeSeries(ctx.farr([float((7 * i * i + i) % 13) for i in range(12)]), 0.5, metadata={'dm': 1.5})
    history(ctx, [lambda: tsdata(a.deredden(3.0, minpts=3)), lambda: tsdata(c.deredden(3.0, minpts=3)), lambda: tsdata(b.deredden(3.0, minpts=3)),
                  lambda: tsdata(a.deredden(1.5, minpts=3)), lambda: tsdata(a.deredden(2.5, minpts=5)), lambda: tsdata(a.copy().deredden(3.0, minpts=3))],
            'dereddened series', tol=1e-3)
    a.data[3] = 40.0
    d = ctx.R.TimeSeries(ctx.farr(ctx.vals(a.data)), 0.5)
    ctx.same_all(list(zip(ctx.vals(a.deredden(3.0, minpts=3).data), ctx.vals(d.deredden(3.0, minpts=3).data))), 'median of the present samples', tol=1e-3)


@harness('T13', bounds='series of 9 and 12 fixed samples of arbitrary scale, several factors, in turns')
def ts_downsample_history(ctx):
    """downsampling depends on the series and the factor alone"""
    a, b = series(ctx, 12, name='k'), series(ctx, 9, name='q')
    c = ctx.R.TimeSeries(ctx.farr([float((7 * i * i + i) % 13) for i in range(12)]), 0.5, metadata={'dm': 1.5})
    history(ctx, [lambda: tsdata(a.downsample(1.75)), lambda: tsdata(c.downsample(1.75)), lambda: tsdata(b.downsample(1.75)), lambda: tsdata(a.downsample(2.5)),
                  lambda: tsdata(a.copy().downsample(1.75)), lambda: (a.nsamp, a.length, a.tobs)], 'downsampled series', tol=1e-3)


@harness('T14', bounds='series of 20 fixed samples of arbitrary scale folded at several periods, bins and sub-integrations, in turns')
def fold_history(ctx):
    """folding depends on the series and the arguments alone"""
    a, b = series(ctx, 20, name='k'), series(ctx, 16, name='q')
    c = ctx.R.TimeSeries(ctx.farr([float((7 * i * i + i) % 13) for i in range(20)]), 0.5, metadata={'dm': 1.5})
    history(ctx, [lambda: a.fold(2.3, 3), lambda: c.fold(2.3, 3), lambda: b.fold(2.3, 3), lambda: a.fold(2.3, 4), lambda: a.fold(2.3, 3, subints=1),
                  lambda: a.fold(2.3, 3, subints=2), lambda: a.fold(2.7, 3), lambda: a.copy().fold(2.3, 3)], 'folded data', tol=1e-3)
    d = a.copy()
    d.data[4] = 33.0
    e = ctx.R.TimeSeries(ctx.farr(ctx.vals(d.data)), 0.5)
    ctx.same_all(list(zip(ctx.vals(d.fold(2.3, 3).ravel()), ctx.vals(e.fold(2.3, 3).ravel()))), 'fold of the present samples', tol=1e-3)


@harness('T15', bounds='series of 8 samples, several periods, phases, duty cycles and amplitudes in turns, noiseless')
def simulation_history(ctx):
    """a simulated signal depends on its arguments alone"""
    g = ctx.R.mod('riptide.libffa').generate_signal
    amp = ctx.real('amp', 0.25, 16)
    history(ctx, [lambda k=k: g(k.get('n', 8), k.get('p', 4.0), amplitude=k.get('a', amp), stdnoise=0.0) for k in
                  ({}, dict(p=3.5), dict(a=2 * amp), dict(n=10))] +
            [lambda: g(8, 4.0, phi0=0.25, amplitude=amp, stdnoise=0.0), lambda: g(8, 4.0, ducy=0.1, amplitude=amp, stdnoise=0.0)], 'signal', tol=1e-4)


@harness('S16', bounds='two fixed series of 24 samples and one of 20, one of arbitrary scale, other ranges, bins and windows, in turns', budget_s=100, query_ms=30000)
def search_history(ctx):
    """a search depends on the series and its parameters alone"""
    k = ctx.real('k', 0.5, 4)
    mk = lambda n, q: ctx.R.TimeSeries(ctx.farr([k * (((q * i * i + 3 * i) % 13) - 4.5) for i in range(n)]), 0.25)
    a, b, c = mk(24, 5), mk(24, 7), mk(20, 5)
    kw = dict(period_min=1.1, period_max=2.3, bins_min=4, bins_max=5, fpmin=1, ducy_max=0.6, rmed_width=1.25, rmed_minpts=3)
    S = lambda t, **u: ctx.R.ffa_search(t, **dict(kw, **u))
    out = history(ctx, [lambda: S(a), lambda: S(b), lambda: S(c), lambda: S(a, period_max=2.1), lambda: S(a, bins_max=6), lambda: S(a, rmed_width=0.75),
                        lambda: S(a, deredden=False), lambda: S(a, wtsp=2.5), lambda: S(a, already_normalised=True)], 'search', tol=1e-2)
    d = ctx.R.TimeSeries(ctx.farr(ctx.vals(a.data)), 0.25)
    same(ctx, flat(ctx, S(d)), flat(ctx, out[0]), 'search: an equal series gives an equal result', 1e-2)


@harness('S17', bounds='4 and 12 bins, every duty cycle from 1/8 to 1/2, two spacings, in turns')
def width_trials_history(ctx):
    """width trials depend on the arguments alone, and may be altered by the caller"""
    f = ctx.R.mod('riptide.ffautils').generate_width_trials
    q = ctx.real('ducy', 0.125, 0.5)
    history(ctx, [lambda: f(12, ducy_max=q, wtsp=1.5), lambda: f(12, ducy_max=0.5, wtsp=1.5), lambda: f(12, ducy_max=q, wtsp=1.2), lambda: f(4, ducy_max=q, wtsp=1.5)],
            'trial widths')
    w = f(12, ducy_max=0.5, wtsp=1.5)
    before = list(ctx.vals(w))
    w[0] = 7
    ctx.check(list(ctx.vals(f(12, ducy_max=0.5, wtsp=1.5))) == before, 'trial widths: later calls do not see what the caller did with the result')


@harness('S18', bounds='two periodograms of 4 trials with arbitrary S/N of one of them, other thresholds and radii in turns', max_paths=20000, budget_s=60)
def peaks_history(ctx):
    """peaks depend on the periodogram and the parameters alone"""
    P = np.asarray([1.0, 1.013, 1.032, 1.057])
    W, FB = np.asarray([1, 2]), np.asarray([8, 8, 9, 9])
    s = ctx.arr('s', 2, -4, 16)
    v = ctx.vals(s)
    mk = lambda S, T: ctx.R.Periodogram(W, P, FB, S, metadata=ctx.R.Metadata({'dm': 2.0, 'tobs': T}))
    base = [9.0, 3.0, v[0], 8.0, v[1], 12.0, 2.0, 7.0]
    a, b = mk(ctx.farr(base).reshape(4, 2), 50.0), mk(ctx.farr(base[::-1]).reshape(4, 2), 50.0)
    c = mk(ctx.farr(base).reshape(4, 2), 20.0)
    far = lambda x, y: x * x - 2 * x * y + y * y > 1e-4
    f = lambda g, **k: (lambda: [[getattr(p, q) for q in ('period', 'freq', 'width', 'ducy', 'iw', 'ip', 'snr', 'dm')] for p in ctx.R.find_peaks(g, **dict(dict(smin=6.0, clrad=0.3, segwidth=2.0), **k))[0]])
    ctx.assume(far(v[0], v[1]))
    history(ctx, [f(a), f(b), f(c), f(a, smin=8.5), f(a, clrad=1.5)], 'peaks')


@harness('S19', bounds='4 trials of 2 widths with arbitrary periods in [1/4, 8], S/N and length; all accessors in two orders')
def periodogram_object_history(ctx):
    """reading a Periodogram does not alter it"""
    n, w = 4, 2
    p = ctx.farr(ctx.vec('p', n, 0.25, 8), 'float64')
    P0 = ctx.vals(p)
    s = ctx.arr('s', (n, w), -16, 16)
    S0 = ctx.vals(s)
    T = ctx.real('tobs', 1, 1000)
    g = ctx.R.Periodogram(np.arange(1, w + 1), p, np.asarray([8] * n), s, metadata=ctx.R.Metadata({'tobs': T, 'dm': 2.0}))
    rd = [lambda: g.freqs, lambda: g.tobs, lambda: g.to_dict(), lambda: g.freqs * 2.0, lambda: ctx.R.Periodogram.from_dict(g.to_dict()), lambda: g.periods]
    for k in (ctx.choose('first', [0, 2, 4]), 0, 2, 1, 4, 3, 0, 5, 2, 0):
        r = rd[k]()
        if k == 0:
            ctx.same_all([(f * q, 1.0) for f, q in zip(ctx.vals(r), P0)], 'frequencies are inverse periods', tol=1e-5)
        elif k == 2:
            same(ctx, flat(ctx, r['periods'])[1:], P0, 'periods in the dictionary')
            same(ctx, flat(ctx, r['snrs'])[2:], S0, 'S/N in the dictionary')
        elif k == 4:
            same(ctx, ctx.vals(r.periods), P0, 'periods of a copy')
            ctx.same_all([(f * q, 1.0) for f, q in zip(ctx.vals(r.freqs), P0)], 'frequencies of a copy are inverse periods', tol=1e-9)
        elif k == 5:
            same(ctx, ctx.vals(r), P0, 'periods')
    same(ctx, ctx.vals(p), P0, 'the arrays given by the user are unchanged')
    same(ctx, ctx.vals(s), S0, 'the arrays given by the user are unchanged')


@harness('P20', bounds='3 arbitrary points and two other sets, two radii, in turns', max_paths=20000, budget_s=60)
def cluster_history(ctx):
    """clusters depend on the points and the radius alone"""
    f = ctx.R.mod('riptide.clustering').cluster1d
    x = ctx.arr('x', 3, -4, 4, dtype='float64')
    v = ctx.vals(x)
    y = ctx.farr([0.0, 1.5, 9.0, 1.0], 'float64')
    for i in range(3):
        for j in range(i):
            for r in (1.0, 2.0):
                d = v[i] - v[j]
                ctx.assume((d * d - r * r) * (d * d - r * r) > 1e-6)
    canon = lambda r: sorted(sorted(int(i) for i in ctx.vals(c)) for c in r)
    history(ctx, [lambda: canon(f(x, 1.0)), lambda: canon(f(y, 1.0)), lambda: canon(f(x, 2.0)), lambda: canon(f(y[:3], 1.0))], 'clusters')


@harness('P21', bounds='4 arbitrary trial DMs, two bands, two smallest widths and two ranges, in turns', max_paths=20000, budget_s=100)
def selection_history(ctx):
    """the selection depends on the arguments alone"""
    D = ctx.vec('d', 3, 0, 64)
    ctx.assume(D[1] > D[0] + 1e-2)
    ctx.assume(D[2] > D[1] + 1e-2)
    f = ctx.R.mod('riptide.pipeline.dmiter').select_dms
    a, b = BANDS['parkes'], BANDS['coarse']
    w = 2e-3
    T = [float(i) for i in range(0, 64, 3)]
    history(ctx, [lambda: f(D, -1.0, 100.0, a[0], a[1], a[2], w), lambda: f(T, -1.0, 100.0, a[0], a[1], a[2], w), lambda: f(T, -1.0, 100.0, b[0], b[1], b[2], w),
                  lambda: f(T, -1.0, 100.0, a[0], a[1], a[2], 5 * w), lambda: f(T, 10.0, 31.0, a[0], a[1], a[2], w)], 'selected DMs')


@harness('P22', bounds='4 files, chunks of 1, 2, 3 and 5 files; chunks held until the end, iterations interleaved, a second iterator on other files')
def dm_iterator_history(ctx):
    """chunks of files may be held, iterations repeated and interleaved"""
    D = [0.0, 1.0, 40.0, 90.0]
    k = ctx.real('k', 0.5, 2)
    with tempfile.TemporaryDirectory() as d, tempfile.TemporaryDirectory() as e:
        files = [write_inf(ctx, d, i, x * k) for i, x in enumerate(D)]
        other = [write_inf(ctx, e, i, 5.0 + x * k) for i, x in enumerate(D[:2])]
        I = ctx.R.mod('riptide.pipeline.dmiter').DMIterator
        a = I(files, None, None, fmt='presto', wmin=1e-6)
        b = I(other[::-1], None, None, fmt='presto', wmin=1e-6)
        ctx.check(len(ctx.vals(a.selected_dms)) == 4, 'selected trials', repr(a.selected_dms))
        for n in (1, 2, 3, 5):
            got = list(a.iterate_filenames(chunksize=n))
            exp = [files[i:i + n] for i in range(0, 4, n)]
            ctx.check([list(c) for c in got] == exp, 'every selected file once, in order', repr(got))
        i1, i2 = iter(a.iterate_filenames(chunksize=2)), iter(a.iterate_filenames(chunksize=1))
        c1, c2 = next(i1), next(i2)
        c3, c4 = next(i1), next(i2)
        ctx.check([list(c) for c in (c1, c2, c3, c4)] == [files[:2], files[:1], files[2:], files[1:2]], 'interleaved iterations', repr((c1, c2, c3, c4)))
        ctx.check([f for c in b.iterate_filenames(chunksize=5) for f in c] == other and [f for c in a.iterate_filenames(chunksize=1) for f in c] == files,
                  'iterators are independent')
        ctx.check([a.get_filename(x) for x in a.selected_dms] == files and [b.get_filename(x) for x in b.selected_dms] == other, 'file of a trial DM')


@harness('P24', bounds='pairs of fixed frequencies with arbitrary S/N, three sets of limits, in turns', budget_s=60, max_paths=20000)
def harmonic_test_history(ctx):
    """the harmonic test depends on the arguments alone"""
    s, q = ctx.real('s', 6, 32), ctx.real('q', 6, 32)
    ctx.assume(abs(abs(q - s / np.sqrt(2.0)) - 3.0) > 1e-3)
    ctx.assume(abs(abs(s - q / np.sqrt(2.0)) - 3.0) > 1e-3)
    F, H, G = Cand(1.0, s, 0.05, 10.0), Cand(2.0, q, 0.05, 10.0), Cand(1.4, 9.0, 0.02, 10.0)
    h = ctx.R.mod('riptide.pipeline.harmonic_testing').htest

    def t(a, b, T=64.0, **k):
        r, f = h(a, b, T, 1182.0, 1582.0, **dict(dict(denom_max=5, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=3.0), **k))
        return (bool(r), f.numerator, f.denominator)
    history(ctx, [lambda: t(F, H), lambda: t(H, F), lambda: t(F, G), lambda: t(F, G, denom_max=2), lambda: t(F, H, snr_distance_max=200.0), lambda: t(F, G, T=0.5),
                  lambda: t(F, G, denom_max=50)], 'harmonic test')


@harness('R32', bounds='two files written in turns under one name, arbitrary samples, sampling times and DMs')
def sigproc_history(ctx):
    """a SIGPROC file is read as it is at the time, whatever was read before"""
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.tim')
        held = []
        for k in range(3):
            dt, dm = ctx.real('t%d' % k, 1e-3, 16), ctx.real('dm%d' % k, 0, 512)
            n = (3, 5, 3)[k]
            X = ctx.vec('x%d_' % k, n, -64, 64)
            items = [('source_name', 'J%d' % k), ('tsamp', dt), ('nbits', 32), ('nchans', 1), ('refdm', dm), ('tstart', 50000.0 + k), ('src_raj', 53431.9),
                     ('src_dej', 220052.0)]
            types = dict(SIGPROC, diameter='d')
            if k == 1:
                items.insert(2, ('diameter', 3.5))
            if os.path.exists(f):
                os.unlink(f)
            ctx.write_data(f, X, 'float32', sigproc_header(ctx, items, types))
            ts = ctx.R.TimeSeries.from_sigproc(f, **(dict(extra_keys={'diameter': types_of(ctx.R.mod('riptide.reading.sigproc'), 'float')[0]}) if k == 1 else {}))
            if k == 1:
                ctx.must_raise(lambda: ctx.R.TimeSeries.from_sigproc(f), 'a key of unknown type is refused')
            held.append((ts, X, dt, dm, 'J%d' % k))
        for ts, X, dt, dm, nm in held:
            ctx.check(ts.nsamp == len(X) and ts.metadata['source_name'] == nm, 'samples of the file')
            ctx.same_all(list(zip(ctx.vals(ts.data), X)), 'samples of the file', tol=1e-4)
            ctx.close_all([(ts.tsamp, dt), (ts.metadata['dm'], dm), (ts.metadata['tobs'], dt * len(X))], 'header of the file', tol=1e-6)


@harness('R33', bounds='two files written in turns under one name, arbitrary samples, sampling times and DMs')
def presto_history(ctx):
    """a PRESTO file is read as it is at the time, whatever was read before"""
    with tempfile.TemporaryDirectory() as d:
        held = []
        for k in range(3):
            dt, dm = ctx.real('t%d' % k, 1e-3, 16), ctx.real('dm%d' % k, 0, 512)
            n = (3, 5, 3)[k]
            X = ctx.vec('x%d_' % k, n, -64, 64)
            for s in ('.inf', '.dat'):
                if os.path.exists(os.path.join(d, 'a' + s)):
                    os.unlink(os.path.join(d, 'a' + s))
            prs = [(k, 10 + k)] * k
            with open(os.path.join(d, 'a.inf'), 'w') as g:
                g.write(inf_text(ctx, basename='a', tsamp=dt, dm=dm, nsamp=n, pairs=prs, breaks=int(k > 0)))
            ctx.write_data(os.path.join(d, 'a.dat'), X, 'float32')
            held.append((ctx.R.TimeSeries.from_presto_inf(os.path.join(d, 'a.inf')), X, dt, dm, prs))
        for ts, X, dt, dm, prs in held:
            ctx.check(ts.nsamp == len(X) and [tuple(p) for p in ts.metadata['onoff_pairs']] == prs, 'samples of the file', repr(ts.metadata['onoff_pairs']))
            ctx.same_all(list(zip(ctx.vals(ts.data), X)), 'samples of the file', tol=1e-4)
            ctx.close_all([(ts.tsamp, dt), (ts.metadata['dm'], dm), (ts.metadata['tobs'], dt * len(X))], 'header of the file', tol=1e-6)


@harness('R34', bounds='three Metadata objects made and altered in turns, arbitrary numbers')
def metadata_history(ctx):
    """Metadata objects do not share items"""
    M = ctx.R.Metadata
    x, y = ctx.real('x', 0, 512), ctx.real('y', 0, 512)
    d = {'dm': x, 'extra': [1, 2, {'a': 3}], 'source_name': 'A'}
    a, e = M(d), M()
    b = M({'dm': y, 'source_name': 'B', 'other': 1})
    a['new'] = 5
    e['source_name'] = 'E'
    ctx.close_all([(a['dm'], x), (b['dm'], y), (d['dm'], x)], 'items are kept', tol=1e-9)
    ctx.check(set(d) == {'dm', 'extra', 'source_name'} and 'new' not in b and 'other' not in a and b['source_name'] == 'B' and a['source_name'] == 'A',
              'items are not shared', repr((sorted(a), sorted(b))))
    f = M()
    ctx.check(f['source_name'] is None and f['dm'] is None and 'new' not in f, 'a new object is empty', repr(dict(f)))
    c = M(a)
    c['source_name'] = 'C'
    c['dm'] = y
    ctx.check(a['source_name'] == 'A', 'copies are independent')
    ctx.close(a['dm'], x, 'copies are independent', tol=1e-9)
    r = M.from_dict(a.to_dict())
    ctx.close(r['dm'], x, 'dictionary form', tol=1e-9)
    ctx.check(r['source_name'] == 'A' and r['extra'] == [1, 2, {'a': 3}], 'dictionary form', repr(dict(r)))


@harness('R35', bounds='objects with arbitrary contents written in turns under one name and in memory')
def json_history(ctx):
    """what is loaded is what was saved last, and objects loaded earlier keep their contents"""
    R = ctx.R
    J = R.mod('riptide.serialization')
    a, b = ctx.arr('a', (2, 3)), ctx.arr('b', (2, 3))
    t = R.TimeSeries(ctx.arr('c', 4), 0.5, metadata={'dm': 2.0})
    objs = [a, b, {'p': a, 'q': [1, 2.5, None, 'x']}, t, [b, a]]
    V = [flat(ctx, o) for o in objs]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'o.json')
        held = []
        for o in objs:
            R.save_json(f, o)
            held.append(R.load_json(f))
        for i in reversed(range(len(objs))):
            same(ctx, flat(ctx, J.from_json(J.to_json(objs[i]))), V[i], 'the object comes back')
    for h, v, o in zip(held, V, objs):
        same(ctx, flat(ctx, h), v, 'the object loads back')
        same(ctx, flat(ctx, o), v, 'saving leaves the object unchanged')
