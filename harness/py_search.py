"""Search and peak detection: S16 ffa_search, S17 width trials, S18 peaks,
S19 periodogram objects, P20 one-dimensional clustering."""
import math

import numpy as np

from engine.registry import harness
from engine.core import maximum, minimum, ite, band, bor, bnot, floor, sqrt
from .common import mined
from .cpp_num import fast_median_oracle


# ---------------------------------------------------------------- S17
def width_trials(nbins, ducy, f):
    """1, then max(w + 1, floor(f w)), up to the largest duty cycle"""
    out, w = [], 1
    lim = maximum(1, floor(ducy * nbins))
    while bool(w <= lim):
        out.append(int(w))
        w = int(max(w + 1, int(floor(f * w))))
    return out


@harness('S17', quick=[dict(lo=2, hi=8), dict(lo=9, hi=12)], thorough=[dict(lo=k, hi=k + 3) for k in range(2, 34, 4)], budget_s=400, max_paths=30000,
         bounds='every number of bins from 2 to 12 (33 thorough), every real maximum duty cycle in (0, 1) and step factor in (1, 4]')
def width_trials_all(ctx):
    """the trial widths are 1, then max(w + 1, floor(wtsp w)), up to ducy_max of the bins"""
    nb = int(ctx.int('nbins', ctx.cfg['lo'], ctx.cfg['hi']))
    ducy = ctx.real('ducy', 0, 1)
    f = ctx.real('f', 1, 4)
    ctx.assume(band(ducy > 1e-6, ducy < 1 - 1e-6, f > 1 + 1e-6))
    m = sym_mod(ctx)
    W = [int(w) for w in ctx.vals(m.generate_width_trials(nb, ducy_max=ducy, wtsp=f))]
    ctx.check(len(W) >= 1 and W[0] == 1, 'the first trial width is one bin', repr(W))
    ctx.check(all(b > a for a, b in zip(W, W[1:])), 'widths strictly increase', repr(W))
    ctx.check(all(w < nb for w in W), 'every width is narrower than the profile', repr(W))
    for a, b in zip(W, W[1:] + [None]):
        lim = maximum(1, ducy * nb)
        if b is not None:
            ctx.check(band(b >= a + 1, b >= f * a - 1 - 1e-9, bor(b == a + 1, b <= f * a + 1e-9)), 'step between widths', repr(W))
            ctx.check(b <= lim * (1 + 1e-9), 'duty cycle limit', repr(W))
        else:
            ctx.check(bor(a + 1 > lim * (1 - 1e-9), floor(f * a * (1 + 1e-9)) > lim * (1 - 1e-9)), 'all widths up to the limit are tried', repr(W))


@harness('S17', quick=[dict(nb=240), dict(nb=100), dict(nb=1040)], thorough=[dict(nb=n) for n in (50, 100, 128, 240, 260, 500, 1040, 2000)],
         budget_s=100, max_paths=20000, bounds='240, 100 and 1040 bins, wtsp 1.5, every real maximum duty cycle in (0, 0.3)')
def width_trials_usual(ctx):
    """the same at the usual numbers of bins, against the formula of the documentation"""
    nb = ctx.cfg['nb']
    ducy = ctx.real('ducy', 1e-6, 0.3)
    k = floor(ducy * nb)
    ctx.assume(band(ducy * nb - k > 1e-6, ducy * nb - k < 1 - 1e-6))
    W = [int(w) for w in ctx.vals(sym_mod(ctx).generate_width_trials(nb, ducy_max=ducy, wtsp=1.5))]
    E = width_trials(nb, ducy, 1.5)
    ctx.check(W == E, 'trial widths', '%r, expected %r' % (W, E))


def sym_mod(ctx):
    return ctx.R.mod('riptide.ffautils')


# ---------------------------------------------------------------- S16
def stages(ctx, ts, deredden, norm, width, minpts):
    """the series to be searched: dereddened, then normalised"""
    X = ctx.vals(ts.data)
    if deredden:
        w = int(math.floor(width / ts.tsamp + 0.5))
        X = [a - b for a, b in zip(X, fast_median_oracle(X, w, minpts))]
    if norm:
        m = sum(X) / len(X)
        v = sum((a - m) * (a - m) for a in X) / len(X)
        s = sqrt(v)
        X = [(a - m) / s for a in X]
    return X


SEARCHES = [dict(n=24, bmin=4, bmax=5, k=4.5, ratio=2.2, rw=3.0, mp=3), dict(n=20, bmin=3, bmax=4, k=3.0, ratio=3.1, rw=1.25, mp=101),
            dict(n=30, bmin=6, bmax=7, k=7.0, ratio=1.7, rw=5.0, mp=5)]


@harness('S16', quick=SEARCHES, budget_s=100, query_ms=30000, max_paths=4000,
         bounds='fixed series of 20..30 samples with arbitrary scale and offset, 3..7 bins, every combination of deredden and already_normalised')
def search_pipeline(ctx):
    """ffa_search() dereddens then normalises (as requested), searches exactly that
    series and returns it; the source series is left alone"""
    c = ctx.cfg
    n, dt = c['n'], 0.25
    der = ctx.choose('deredden', [True, False])
    done = ctx.choose('already_normalised', [False, True])
    a, b = ctx.real('a', 0.25, 8), ctx.real('b', -32, 32)
    X = [a * (((5 * i * i + 3 * i) % 13) - 4.5) + b for i in range(n)]
    ts = ctx.R.TimeSeries(ctx.farr(X), dt, metadata={'source_name': 'src', 'dm': 7.5})
    kw = dict(period_min=c['k'] * dt, period_max=c['k'] * dt * c['ratio'], bins_min=c['bmin'], bins_max=c['bmax'], fpmin=1,
              wtsp=1.5, ducy_max=0.6, rmed_width=c['rw'], rmed_minpts=c['mp'], deredden=der, already_normalised=done)
    tsr, pg = ctx.R.ffa_search(ts, **kw)
    E = stages(ctx, ts, der, not done, c['rw'], c['mp'])
    Y = ctx.vals(tsr.data)
    ctx.check(len(Y) == n, 'length of the searched series')
    ctx.close(tsr.tsamp, dt, 'sampling time of the searched series')
    ctx.same_all(list(zip(Y, E)), 'the returned series is the dereddened, normalised input', tol=4e-3)
    W = width_trials(c['bmin'], 0.6, 1.5)
    ctx.check([int(w) for w in ctx.vals(pg.widths)] == W, 'trial widths', repr(pg.widths))
    p, nb, s = ctx.R.libcpp.periodogram(tsr.data, dt, np.asarray(W), kw['period_min'], kw['period_max'], c['bmin'], c['bmax'])
    ctx.close_all(list(zip(ctx.vals(pg.periods), ctx.vals(p))), 'trial periods', tol=1e-6)
    ctx.check(len(ctx.vals(pg.periods)) == len(ctx.vals(p)) and tuple(pg.snrs.shape) == tuple(s.shape), 'number of trials')
    ctx.check([int(v) for v in ctx.vals(pg.foldbins)] == [int(v) for v in ctx.vals(nb)], 'fold bins')
    ctx.same_all(list(zip(ctx.vals(pg.snrs), ctx.vals(s))), 'S/N of the searched series', tol=4e-3)
    ctx.close(pg.tobs, n * dt, 'tobs of the periodogram', tol=1e-4)
    ctx.check(pg.metadata['dm'] == 7.5 and pg.metadata['source_name'] == 'src', 'metadata of the periodogram')
    ctx.same_all(list(zip(ctx.vals(ts.data), X)), 'source series unchanged', tol=1e-4)
    ctx.check(ts.nsamp == n and ts.tsamp == dt, 'source series unchanged')


@harness('S16', quick=[dict(n=20, bmin=4, bmax=5, ducy=0.5, wtsp=1.5), dict(n=23, bmin=10, bmax=10, ducy=0.45, wtsp=2.0),
                       dict(n=26, bmin=11, bmax=11, ducy=0.4, wtsp=1.2)],
         thorough=[dict(n=24, bmin=4, bmax=5, ducy=0.5, wtsp=1.5), dict(n=33, bmin=10, bmax=11, ducy=0.45, wtsp=2.0),
                   dict(n=33, bmin=11, bmax=12, ducy=0.75, wtsp=1.2)], budget_s=100, query_ms=20000,
         bounds='series of 20..26 samples (33 thorough), all data |x| <= 8, already normalised; listed widths and ranges')
def search_symbolic_data(ctx):
    """S/N, periods, widths and bins for arbitrary data and search range"""
    c = ctx.cfg
    dt = 0.5
    x = ctx.arr('x', c['n'])
    X = ctx.vals(x)
    pmin = c['bmin'] * dt * 1.125
    ts = ctx.R.TimeSeries.from_numpy_array(x, dt)
    tsr, pg = ctx.R.ffa_search(ts, period_min=pmin, period_max=pmin * 1.9, bins_min=c['bmin'], bins_max=c['bmax'], fpmin=1, wtsp=c['wtsp'],
                               ducy_max=c['ducy'], deredden=False, already_normalised=True)
    W = width_trials(c['bmin'], c['ducy'], c['wtsp'])
    ctx.check([int(w) for w in ctx.vals(pg.widths)] == W, 'trial widths')
    p, b, s = ctx.R.libcpp.periodogram(ctx.farr(X), dt, np.asarray(W), pmin, pmin * 1.9, c['bmin'], c['bmax'])
    ctx.check(tuple(pg.snrs.shape) == tuple(s.shape) == (len(ctx.vals(pg.periods)), len(W)), 'one S/N per trial and width')
    ctx.close_all(list(zip(ctx.vals(pg.periods), ctx.vals(p))), 'trial periods', tol=1e-6)
    ctx.same_all(list(zip(ctx.vals(pg.snrs), ctx.vals(s))), 'S/N', tol=4e-3)
    ctx.same_all(list(zip(ctx.vals(tsr.data), X)), 'searched series', tol=1e-4)
    ctx.same_all(list(zip(ctx.vals(ts.data), X)), 'source series unchanged', tol=1e-4)


@harness('S16', quick=[dict(vary='min'), dict(vary='max')], budget_s=200, max_paths=20000,
         bounds='every real period_min from 4 to 6 samples, and every real period_max up to 10 samples, on 16 samples')
def search_ranges(ctx):
    """period_min and period_max are passed on in seconds"""
    dt = 0.5
    X = [0.0] * 16
    if ctx.cfg['vary'] == 'min':
        a = ctx.real('pmin', 2.0, 3.0)
        b = a * 1.6
    else:
        a = 2.125
        b = ctx.real('pmax', 2.126, 5.0)
    ts = ctx.R.TimeSeries.from_numpy_array(ctx.farr(X), dt)
    __, pg = ctx.R.ffa_search(ts, period_min=a, period_max=b, bins_min=4, bins_max=4, fpmin=1, deredden=False, already_normalised=True)
    P = ctx.vals(pg.periods)
    ctx.check(len(P) >= 1, 'at least one trial')
    ctx.close(P[0], a, 'the first trial period is period_min', tol=1e-5)
    ctx.check_all([p < b * (1 + 1e-9) for p in P], 'trials below period_max')
    p, __, s = ctx.R.libcpp.periodogram(ctx.farr(X), dt, np.asarray([1]), a, b, 4, 4)
    ctx.check(len(P) == len(ctx.vals(p)), 'number of trials')
    ctx.close_all(list(zip(P, ctx.vals(p))), 'trial periods', tol=1e-6)


@harness('S16', bounds='40 samples, 4 bins, fpmin 1..8', budget_s=60)
def search_fpmin_cap(ctx):
    """at least fpmin periods fit in the data"""
    dt = 0.5
    X = [((5 * i * i + 3 * i) % 13) - 4.5 for i in range(40)]
    k = int(ctx.int('fpmin', 1, 8))
    ts = ctx.R.TimeSeries.from_numpy_array(ctx.farr(X), dt)
    __, pg = ctx.R.ffa_search(ts, period_min=2.0, period_max=9.0, bins_min=4, bins_max=5, fpmin=k, deredden=False, already_normalised=True)
    ctx.check(all(p * k <= 20.0 * (1 + 1e-6) for p in ctx.vals(pg.periods)), 'period_max is capped to the length of the data / fpmin')


# ---------------------------------------------------------------- S18
def percentile(v, q):
    s = sorted_sym(v)
    x = (len(s) - 1) * q / 100.0
    i = int(math.floor(x))
    return s[i] if i + 1 >= len(s) else s[i] + (s[i + 1] - s[i]) * (x - i)


def sorted_sym(v):
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = minimum(a, b), maximum(a, b)
    return v


def groups(idx, key, r):
    """friends of friends along an ordered key: consecutive points farther apart
    than r belong to different groups"""
    out = []
    for i in idx:
        if out and bool(abs(key(i) - key(out[-1][-1])) <= r):
            out[-1].append(i)
        else:
            out.append([i])
    return out


def check_peaks(ctx, peaks, P, FB, W, S, T, thr, clrad, dm, smin):
    """peaks against the specification; thr[iw][ip] is the dynamic threshold or None"""
    exp = []
    for iw in range(len(W)):
        sel = []
        for ip in range(len(P)):
            c = S[ip][iw] > smin
            if thr[iw] is not None:
                c = band(c, S[ip][iw] > thr[iw][ip])
            if bool(c):
                sel.append(ip)
        for g in groups(sel, lambda i: 1.0 / P[i], clrad / T):
            exp.append((iw, g))
    ctx.check(len(peaks) == len(exp), 'number of peaks', '%d, expected %d' % (len(peaks), len(exp)))
    left = list(exp)
    for p in peaks:
        own = [e for e in left if e[0] == p.iw and p.ip in e[1]]
        ctx.check(len(own) == 1, 'one peak per cluster of significant trials', repr((p.iw, p.ip)))
        left.remove(own[0])
        iw, g = own[0]
        ctx.check_all([S[p.ip][iw] >= S[i][iw] for i in g], 'the peak is the brightest trial of its cluster')
        ctx.close(p.snr, S[p.ip][iw], 'S/N of the peak', tol=1e-4)
        ctx.close(p.period, P[p.ip], 'period of the peak', tol=1e-9)
        ctx.close(p.freq, 1.0 / P[p.ip], 'frequency of the peak', tol=1e-9)
        ctx.check(p.width == W[iw], 'width of the peak')
        ctx.close(p.ducy, float(W[iw]) / FB[p.ip], 'duty cycle of the peak', tol=1e-9)
        ctx.check(p.dm == dm, 'DM of the peak')
    ctx.check_all([a.snr >= b.snr for a, b in zip(peaks, peaks[1:])], 'peaks by decreasing S/N')


@harness('S18', quick=[dict(np=4, nw=1), dict(np=3, nw=2), dict(np=5, nw=1, fix=(1,)), dict(np=1, nw=2), dict(np=2, nw=1), dict(np=1, nw=1, sw=1e-3), dict(np=3, nw=1, sw=1e-3)], thorough=[dict(np=5, nw=1), dict(np=4, nw=2), dict(np=6, nw=1, fix=(1,))],
         budget_s=350, max_paths=60000,
         bounds='every S/N in [-16, 16] of 1..5 trials (6 thorough) and 1..2 widths, every threshold, clustering radii between all spacings, segments of all trials or narrower than their spacing')
def peaks_static_threshold(ctx):
    """peak = brightest trial of each group of trials above smin; too few segments for a fit"""
    n, nw = ctx.cfg['np'], ctx.cfg['nw']
    P = [1.0 + 0.01 * i + 0.003 * i * i for i in range(n)]
    FB = [10 + i % 3 for i in range(n)]
    W = [1, 3, 4][:nw]
    T = 50.0
    smin = ctx.real('smin', 0, 8)
    clrad = ctx.choose('clrad', [0.1, 0.6, 0.85, 1.0, 1.3, 5.0])
    s = ctx.arr('s', (n, nw), -16, 16)
    S = [[ctx.vals(s)[i * nw + j] for j in range(nw)] for i in range(n)]
    if 'fix' in ctx.cfg:
        ctx.assume(S[ctx.cfg['fix'][0]][0] > smin)
    dm = {0.1: 12.5, 0.6: 0.0, 0.85: None, 1.0: 0.25}.get(clrad, 12.5)
    meta = ctx.R.Metadata({'dm': dm, 'tobs': T})
    pg = ctx.R.Periodogram(np.asarray(W), np.asarray(P), np.asarray(FB), s, metadata=meta)
    peaks, pol = ctx.R.find_peaks(pg, smin=smin, clrad=clrad, segwidth=ctx.cfg.get('sw', 2.0))
    check_peaks(ctx, peaks, P, FB, W, S, T, [None] * nw, clrad, dm, smin)
    ctx.check(sorted(pol) == list(range(nw)), 'one threshold per width')
    for k in pol:
        v = ctx.vals(pol[k])
        ctx.check(len(v) == 1, 'constant threshold')
        ctx.close(v[0], smin, 'constant threshold', tol=1e-6)


def dyn_cfgs(big):
    c = [dict(n=12, seg=3, deg=1, minseg=3, hot=5), dict(n=12, seg=3, deg=2, minseg=3, hot=0), dict(n=13, seg=4, deg=1, minseg=4, hot=12),
         dict(n=14, seg=3, deg=1, minseg=4, hot=6), dict(n=10, seg=2, deg=1, minseg=1, hot=3, nstd=2.0)]
    if big:
        c += [dict(n=40, seg=10, deg=2, minseg=10, hot=h) for h in (0, 7, 21, 39)] + [dict(n=30, seg=6, deg=2, minseg=5, hot=h, nstd=3.0) for h in (3, 16)]
    return c


@harness('S18', quick=lambda: dyn_cfgs(False), thorough=lambda: dyn_cfgs(True), budget_s=200, query_ms=20000, max_paths=20000,
         bounds='10..14 trials (40 thorough) in 2..4 segments (10), one width; one arbitrary S/N in [-32, 32] and a symbolic scale and offset of the others')
def peaks_dynamic_threshold(ctx):
    """the threshold is the polynomial in log(f) fitted to median + nstd x IQR / 1.349 of
    the segments; trials must exceed both it and smin"""
    c = ctx.cfg
    n, m, nstd = c['n'], c['seg'], c.get('nstd', 1.5)
    x = ctx.real('x', -32, 32)
    a = ctx.real('a', 0.25, 4)
    b = ctx.real('b', -2, 4)
    P = [2.0 * 1.004 ** i for i in range(n)]
    F = [1.0 / p for p in P]
    span = F[0] - F[-1]
    T = 100.0
    seg = span * T / (m - 0.5)          # m segments
    S = [a * ((((7 * i * i + 3 * i) % 11) - 5) * 0.5) + b for i in range(n)]
    S[c['hot']] = x
    k = n // m
    fc, tc = [], []
    for q in range(m):
        sl = S[q * k:(q + 1) * k]
        fc.append(float(np.median(F[q * k:(q + 1) * k])))
        tc.append(percentile(sl, 50) + nstd * (percentile(sl, 75) - percentile(sl, 25)) / 1.349)
    smin = ctx.choose('smin', [1.0, 4.0])
    if m >= c['minseg']:
        A = np.vander(np.log(fc), c['deg'] + 1)
        C = np.linalg.pinv(A)
        co = [sum(float(C[r][q]) * tc[q] for q in range(m)) for r in range(c['deg'] + 1)]
        thr = [sum(co[r] * math.log(f) ** (c['deg'] - r) for r in range(c['deg'] + 1)) for f in F]
        # trials too close to the threshold are decided by rounding
        for i in range(n):
            ctx.assume(bor(S[i] > thr[i] + 1e-4, S[i] < thr[i] - 1e-4))
    else:
        thr = None
    for i in range(n):
        ctx.assume(bor(S[i] > smin + 1e-4, S[i] < smin - 1e-4, S[i] == smin))
    s = ctx.farr(S, 'float32', (n, 1))
    pg = ctx.R.Periodogram(np.asarray([2]), np.asarray(P), np.asarray([16] * n), s, metadata=ctx.R.Metadata({'tobs': T, 'dm': 1.0}))
    kw = dict(smin=smin, segwidth=seg, nstd=nstd, minseg=c['minseg'], polydeg=c['deg'], clrad=0.05)
    peaks, pol = ctx.R.find_peaks(pg, **kw)
    check_peaks(ctx, peaks, P, [16] * n, [2], [[v] for v in S], T, [thr], 0.05, 1.0, smin)
    if thr is not None:
        ctx.check(len(ctx.vals(pol[0])) == c['deg'] + 1, 'polynomial degree')
        lf = [0.0, -0.5, -1.0]
        V = ctx.vals(pol[0])
        for l in lf:
            ctx.close(sum(v * l ** (c['deg'] - r) for r, v in enumerate(V)) / 64.0,
                      sum(v * l ** (c['deg'] - r) for r, v in enumerate(co)) / 64.0, 'fitted threshold', tol=1e-2)


@harness('S18', quick=[dict(n=30, m=30), dict(n=203, m=8)], bounds='every observation length in [20, 400] s and segment width in [1, 8] / tobs on 30 fixed trials, and up to 8 segments of 203 trials', budget_s=100, max_paths=20000)
def peaks_segments(ctx):
    """number and contents of the segments: equal numbers of trials, span segwidth / tobs"""
    T = ctx.real('T', 20, 400)
    w = ctx.real('w', 1, 8)
    n = ctx.cfg['n']
    P = [2.0 * 1.004 ** i for i in range(n)]
    F = np.asarray([1.0 / p for p in P])
    S = np.asarray([(((7 * i * i + 3 * i) % 11) - 5) * 0.5 + (i * 0.618) % 1.0 for i in range(n)])
    r = (F[0] - F[-1]) * T / w
    m = -int(floor(-r))
    ctx.assume(band(m <= ctx.cfg['m'], m - r > 1e-6, m - r < 1 - 1e-6))
    fc, sm, ss = ctx.R.mod('riptide.peak_detection').segment_stats(F, S, T, segwidth=w)
    k = n // m
    FC, SM, SS = ctx.vals(fc), ctx.vals(sm), ctx.vals(ss)
    ctx.check(len(FC) == len(SM) == len(SS) == m, 'number of segments', '%d, expected %d' % (len(FC), m))
    for q in range(m):
        ctx.close(FC[q], float(np.median(F[q * k:(q + 1) * k])), 'centre frequency', tol=1e-6)
        ctx.close(SM[q], float(np.median(S[q * k:(q + 1) * k])), 'median S/N', tol=1e-5)
        a, b = np.percentile(S[q * k:(q + 1) * k], (25, 75))
        ctx.close(SS[q], float(b - a) / 1.349, 'S/N standard deviation', tol=1e-5)


@harness('S18', bounds='130 trials of which 4 are arbitrary in [0, 32], in clusters of up to 90 trials', budget_s=100, max_paths=4000)
def peaks_wide_clusters(ctx):
    """one peak per cluster, at its brightest trial, when clusters have many trials"""
    n, T, smin, clrad = 130, 100.0, 4.0, 0.1
    P = [2.0 * 1.001 ** i for i in range(n)]
    hot = {k: ctx.real('x%d' % k, 0, 32) for k in ctx.choose('where', [(12, 101), (88, 92, 129)])}
    S = [hot.get(i, 2.0 if i in (90, 91, 110) else 5.0 + (i * 37 % 64) / 64.0) for i in range(n)]
    for v in hot.values():
        ctx.assume(bor(v > smin + 1e-4, v < smin - 1e-4))
    pg = ctx.R.Periodogram(np.asarray([2]), np.asarray(P), np.asarray([16] * n), ctx.farr(S, 'float32', (n, 1)), metadata=ctx.R.Metadata({'tobs': T, 'dm': 1.0}))
    peaks, pol = ctx.R.find_peaks(pg, smin=smin, clrad=clrad, segwidth=1.0)
    check_peaks(ctx, peaks, P, [16] * n, [2], [[v] for v in S], T, [None], clrad, 1.0, smin)


# ---------------------------------------------------------------- S19
@harness('S19', quick=[dict(n=4, w=1), dict(n=5, w=3)], bounds='4..5 trials and 1..3 widths with arbitrary periods in [1/4, 8] and S/N')
def periodogram_object(ctx):
    """frequencies are the inverse periods, tobs comes from the metadata, and the
    dictionary form is lossless"""
    n, w = ctx.cfg['n'], ctx.cfg['w']
    p = ctx.farr(ctx.vec('p', n, 0.25, 8), 'float64')
    s = ctx.arr('s', (n, w), -16, 16)
    tob = ctx.real('tobs', 1, 1000)
    md = ctx.R.Metadata({'tobs': tob, 'dm': 2.0})
    W, B = np.arange(1, w + 1), np.asarray([8] * n)
    pg = ctx.R.Periodogram(W, p, B, s, metadata=md)
    ctx.same_all([(f * q, 1.0) for f, q in zip(ctx.vals(pg.freqs), ctx.vals(p))], 'frequencies are inverse periods', tol=1e-9)
    ctx.close(pg.tobs, tob, 'tobs', tol=1e-9)
    q = ctx.R.Periodogram.from_dict(pg.to_dict())
    for a, b, l in ((q.widths, W, 'widths'), (q.periods, p, 'periods'), (q.foldbins, B, 'foldbins'), (q.snrs, s, 'snrs')):
        ctx.check(tuple(a.shape) == tuple(b.shape), l)
        ctx.same_all(list(zip(ctx.vals(a), ctx.vals(b))), l, tol=1e-6)
    ctx.check(q.metadata['dm'] == 2.0, 'metadata')
    ctx.close(q.tobs, tob, 'tobs', tol=1e-9)
    e = ctx.R.Periodogram(W, p, B, s, metadata=ctx.R.Metadata({'dm': 2.0}))
    ctx.check(e.tobs is None and e.metadata['tobs'] is None, 'tobs is None when the metadata do not hold it', repr(e.tobs))
    e = ctx.R.Periodogram(W, p, B, s)
    ctx.check(e.metadata['dm'] is None and isinstance(e.metadata, ctx.R.Metadata), 'default metadata')


# ---------------------------------------------------------------- P20
@harness('P20', quick=[dict(n=1), dict(n=3), dict(n=4)], thorough=[dict(n=5)], budget_s=250, max_paths=60000, weight=2,
         bounds='every set of up to 4 points (5 thorough) in [-8, 8], every radius in [0, 8]')
def clusters_are_friends_of_friends(ctx):
    """the clusters are the connected components of the relation |x_i - x_j| <= r"""
    n = ctx.cfg['n']
    x = ctx.arr('x', n, dtype='float64')
    X = ctx.vals(x)
    r = ctx.real('r', 0, 8)
    cl = ctx.R.mod('riptide.clustering').cluster1d(x, r)
    ids = [[int(i) for i in ctx.vals(c)] for c in cl]
    ctx.check(sorted(i for c in ids for i in c) == list(range(n)), 'every point is in exactly one cluster', repr(ids))
    ctx.check(all(ids), 'no empty cluster')
    own = {i: k for k, c in enumerate(ids) for i in c}
    for i in range(n):
        for j in range(i):
            if own[i] != own[j]:
                ctx.check(bor(X[i] - X[j] > r, X[j] - X[i] > r), 'points within the radius share a cluster')
    for c in ids:
        s = sorted_sym([X[i] for i in c])
        ctx.check_all([b - a <= r for a, b in zip(s, s[1:])], 'clusters have no gap larger than the radius')
    ctx.same_all(list(zip(ctx.vals(x), X)), 'input unchanged', tol=1e-9)


@harness('P20', quick=[dict(n=5), dict(n=0), dict(n=6)], thorough=[dict(n=8), dict(n=9)], budget_s=250, max_paths=60000,
         bounds='every increasing or decreasing sequence of up to 6 points (9 thorough), every radius in [0, 8]')
def clusters_of_sorted_points(ctx):
    """already_sorted=True gives the same clusters, for either direction"""
    n = ctx.cfg['n']
    x0 = ctx.real('x0', -8, 8)
    d = ctx.vec('d', max(n - 1, 0), 0, 8)
    sg = ctx.choose('direction', [1.0, -1.0])
    X = [x0]
    for v in d:
        X.append(X[-1] + sg * v)
    X = X[:n]
    r = ctx.real('r', 0, 8)
    cl = ctx.R.mod('riptide.clustering').cluster1d(ctx.farr(X, 'float64'), r, already_sorted=True)
    ids = [[int(i) for i in ctx.vals(c)] for c in cl]
    exp = []
    for i in range(n):
        if exp and bool(d[i - 1] <= r):
            exp[-1].append(i)
        else:
            exp.append([i])
    ctx.check(sorted(map(sorted, ids)) == exp, 'clusters of a sorted sequence', '%r, expected %r' % (ids, exp))


@harness('P20', bounds='six points around 1.0 from 1e-9 to 1e-7 apart, every radius from 1e-9 to 3e-7', budget_s=60)
def clusters_of_close_points(ctx):
    """points are compared at full precision"""
    X = [1.0, 1.00000001, 1.000000015, 1.00000003, 1.0000001, 1.0000003]
    q = ctx.real('q', 0.5, 400)
    for a, b in zip(X, X[1:]):
        ctx.assume(bor((b - a) * 1e9 - q > 1e-3, q - (b - a) * 1e9 > 1e-3))
    o = [3, 0, 5, 2, 4, 1]
    srt = ctx.choose('sorted', [True, False])
    x = ctx.farr(X if srt else [X[i] for i in o], 'float64')
    f = ctx.R.mod('riptide.clustering').cluster1d
    cl = f(x, q * 1e-9, already_sorted=True) if srt else f(x, q * 1e-9)
    ids = sorted(sorted(int(i) if srt else o[int(i)] for i in ctx.vals(c)) for c in cl)
    exp = [[0]]
    for i in range(1, len(X)):
        if bool((X[i] - X[i - 1]) * 1e9 <= q):
            exp[-1].append(i)
        else:
            exp.append([i])
    ctx.check(ids == exp, 'clusters of close points', '%r, expected %r' % (ids, exp))


@harness('S16', budget_s=100, max_paths=4000, bounds='series of 300 samples, 20 to 75 bins, widest trial of any share of the bins from 0.05 to 0.45')
def search_many_bins(ctx):
    """the widths are those of the smallest number of bins however wide the range of bins"""
    n, dt = 300, 0.25
    ducy = ctx.real('ducy', 0.05, 0.45)
    lo, hi = ctx.choose('bins', [(20, 75), (48, 50), (25, 26)])
    ts = ctx.R.TimeSeries.from_numpy_array(ctx.farr([1.0 if i == 40 else 0.0 for i in range(n)]), dt)
    tsr, pg = ctx.R.ffa_search(ts, period_min=hi * dt * 1.02, period_max=hi * dt * 1.5, bins_min=lo, bins_max=hi, fpmin=1, wtsp=1.5, ducy_max=ducy,
                               deredden=False, already_normalised=True)
    wmax = max(1, int(floor(ducy * lo)))
    W = [1]
    while max(W[-1] + 1, int(1.5 * W[-1])) <= wmax:
        W.append(max(W[-1] + 1, int(1.5 * W[-1])))
    ctx.assume(band(*[bor(ducy * lo - k > 1e-9, k - ducy * lo > 1e-9) for k in range(lo)]))
    ctx.check([int(w) for w in ctx.vals(pg.widths)] == W, 'trial widths', '%r, expected %r' % (pg.widths, W))
    ctx.check(tuple(pg.snrs.shape) == (len(ctx.vals(pg.periods)), len(W)), 'one S/N per trial and width', repr(pg.snrs.shape))
    nb = [int(v) for v in ctx.vals(pg.foldbins)]
    ctx.check(nb[0] == lo and all(lo <= v <= hi for v in nb), 'bins of the trials', repr((nb[0], min(nb), max(nb))))
