"""Periodogram: trial plan, S/N, noise normalisation; safety of the native boundary."""
import math

import numpy as np

from engine.registry import harness
from engine.core import maximum, minimum, ite, band, bor, bnot, floor
from .common import mined
from .cpp_num import boxcar_oracle

EPS = 1e-9


def near(a, b, eps=EPS):
    return band(a <= b * (1 + eps), a >= b * (1 - eps))


def plan(size, dt, pmin, pmax, bmin, bmax):
    """the search plan: [(period, bins, required)]. A trial within a relative 1e-9 of
    a limit is optional. All comparisons are between real numbers."""
    E = []
    g = (bmax + 1.0) / bmin
    tau = pmin / bmin
    total = size * dt
    for ids in range(40):
        t = tau * g ** ids
        if not bool(t * bmin < pmax * (1 + EPS)):
            break
        n = total / t
        for b in range(bmin, bmax + 1):
            if not bool(b * t < pmax * (1 + EPS)):
                break
            rows = int(floor(n / b))
            for s in range(rows if rows > 1 else 0):
                e = t * (b * b / (b - s / (rows - 1.0)))
                lim = (b + 1) * t
                if bool(band(e < lim * (1 - EPS), e < pmax * (1 - EPS))):
                    E.append((e, b, True))
                elif bool(band(e < lim * (1 + EPS), e < pmax * (1 + EPS))):
                    E.append((e, b, False))
                else:
                    break
            if rows < 2:
                return E
    return E


def check_plan(ctx, P, B, E):
    L = len(P)
    i = 0
    for k, (e, b, must) in enumerate(E):
        if not must:
            if i >= L or not bool(near(P[i], e)):
                continue
            if k + 1 < len(E) and bool(near(E[k + 1][0], e)) and (i + 1 >= L or not bool(near(P[i + 1], e))):
                continue
        ctx.check(i < L, 'every trial period below the limits is searched', 'missing trial %d, bins %d' % (k, b))
        ctx.check(B[i] == b, 'number of phase bins of a trial', 'trial %d' % i)
        ctx.check(near(P[i], e, 1e-7), 'trial period', 'trial %d bins %d' % (i, b))
        i += 1
    ctx.check(i == L, 'no trial outside the search plan', '%d extra' % (L - i))


def check_shape(ctx, out, pmin, pmax, bmin, bmax, nw):
    p, b, s = out
    L = len(p)
    ctx.check(len(b) == L and tuple(s.shape) == (L, nw), 'one period, bin count and S/N row per trial', '%d %d %r' % (L, len(b), s.shape))
    P, B = ctx.vals(p), [int(x) for x in ctx.vals(b)]
    if L:
        ctx.close(P[0] * 8 / pmin, 8.0, 'the first trial period is period_min', tol=1e-6)
    ctx.check_all([P[k + 1] > P[k] * (1 - EPS) for k in range(L - 1)], 'trial periods increase')
    ctx.check_all([P[k] < pmax * (1 + EPS) for k in range(L)], 'trial periods are below period_max')
    ctx.check(all(bmin <= x <= bmax for x in B), 'fold bins between bins_min and bins_max')
    return P, B


def plan_cfgs(big):
    c = [dict(size=40, bmin=3, bmax=4, pmin=1.5, rmax=14), dict(size=64, bmin=5, bmax=6, pmin=3.3, rmax=8),
         dict(size=30, bmin=2, bmax=2, pmin=1.0, rmax=24), dict(size=48, bmin=8, bmax=9, pmin=4.7, rmax=4),
         dict(size=33, bmin=4, bmax=9, pmin=2.0, rmax=5, fused=True), dict(size=21, bmin=2, bmax=5, pmin=1.9, rmax=12),
         dict(size=90, bmin=10, bmax=11, pmin=5.0, rmax=3),
         dict(size=1300, bmin=254, bmax=259, pmin=127.25, rmax=1.03)]
    if big:
        c += [dict(size=n, bmin=b, bmax=b + d, pmin=(b + q) * 0.5, rmax=r, fused=bool(d & 1))
              for n, b, d, q, r in [(57, 3, 1, 0.21, 20), (100, 6, 2, 1.3, 17), (128, 16, 2, 0.0, 8), (75, 2, 1, 2.5, 30), (200, 20, 2, 3.0, 4),
                                    (63, 7, 0, 0.1, 9), (81, 9, 9, 0.5, 9), (37, 3, 2, 0.77, 13)]]
    return c


@harness('F07', quick=lambda: plan_cfgs(False), thorough=lambda: plan_cfgs(True), budget_s=200, max_paths=20000,
         bounds='series of 21..90 samples (200 thorough), 2..11 bins (22 thorough), and 1300 samples with 254..259 bins, every real period_max from period_min to beyond '
                'the length of the data')
def trial_plan_all_period_max(ctx):
    """the trials are exactly those of the search plan, for every period_max"""
    c = ctx.cfg
    size, bmin, bmax, pmin = c['size'], c['bmin'], c['bmax'], c['pmin']
    dt = 0.5
    pmax = pmin * ctx.real('ratio', 1 + 1e-6, c['rmax'])
    w = [1]
    out = ctx.R.libcpp.periodogram(ctx.farr([0.0] * size), dt, np.asarray(w), pmin, pmax, bmin, bmax)
    P, B = check_shape(ctx, out, pmin, pmax, bmin, bmax, 1)
    check_plan(ctx, P, B, plan(size, dt, pmin, pmax, bmin, bmax))


def plan_cfgs2(big):
    c = [dict(size=10, bmin=2, bmax=3, ratio=1.9, hi=4.0), dict(size=13, bmin=3, bmax=4, ratio=1.6, hi=4.0),
         dict(size=9, bmin=2, bmax=2, ratio=2.5, hi=3.5), dict(size=14, bmin=4, bmax=4, ratio=1.3, hi=5.0)]
    if big:
        c += [dict(size=16, bmin=2, bmax=3, ratio=4.5, hi=5.0), dict(size=19, bmin=4, bmax=6, ratio=2.2, hi=7.0),
              dict(size=12, bmin=2, bmax=2, ratio=9.0, hi=5.0)]
    return c


@harness('F07', quick=lambda: plan_cfgs2(False), thorough=lambda: plan_cfgs2(True), budget_s=200, max_paths=20000, weight=5,
         bounds='series of 9..14 samples (19 thorough), 2..4 bins, every real period_min up to the given number of samples, fixed '
                'ratio period_max / period_min')
def trial_plan_all_period_min(ctx):
    """the trials are exactly those of the search plan, for every period_min, that is
    every sequence of downsampling factors"""
    c = ctx.cfg
    size, bmin, bmax = c['size'], c['bmin'], c['bmax']
    dt = 0.5
    pmin = ctx.real('pmin', bmin * dt, c['hi'] * dt)
    pmax = pmin * c['ratio']
    w = [1]
    out = ctx.R.libcpp.periodogram(ctx.farr([0.0] * size), dt, np.asarray(w), pmin, pmax, bmin, bmax)
    P, B = check_shape(ctx, out, pmin, pmax, bmin, bmax, 1)
    check_plan(ctx, P, B, plan(size, dt, pmin, pmax, bmin, bmax))


@harness('F07', quick=[dict(size=30, bmin=3, bmax=4, k=3.5, ratio=9.0), dict(size=30, bmin=5, bmax=5, k=5.0, ratio=3.0)],
         bounds='30 samples, 3..5 bins, sampling times in [1e-3, 16]', budget_s=60)
def trial_plan_scales_with_tsamp(ctx):
    """periods scale with the sampling time; fold bins do not depend on it"""
    c = ctx.cfg
    dt = ctx.real('dt', 0.001, 16)
    pmin = dt * c['k']
    pmax = pmin * c['ratio']
    w = [1]
    out = ctx.R.libcpp.periodogram(ctx.farr([0.0] * c['size']), dt, np.asarray(w), pmin, pmax, c['bmin'], c['bmax'])
    P = [p / dt for p in ctx.vals(out[0])]
    check_plan(ctx, P, [int(b) for b in ctx.vals(out[1])], plan(c['size'], 1.0, c['k'], c['k'] * c['ratio'], c['bmin'], c['bmax']))


@harness('F07', bounds='12 samples, bins in [0, 5], period_min and period_max in [-2, 6], tsamp in [-1, 2]', budget_s=120, max_paths=20000)
def periodogram_refuses_invalid(ctx):
    """invalid search ranges are refused"""
    which = ctx.choose('which', ['dt', 'periods', 'bins'])
    dt, pmin, pmax, bmin, bmax = 0.5, 2.0, 3.0, 2, 3
    if which == 'dt':
        dt = ctx.real('dt', -1, 2)
    elif which == 'periods':
        pmin = ctx.real('pmin', -2, 3)
        pmax = ctx.real('pmax', -2, 4)
    else:
        bmin = int(ctx.int('bmin', 0, 5))
        bmax = int(ctx.int('bmax', 0, 5))
    good = band(dt > 0, pmin > 0, pmax > pmin, bmin > 1, bmax >= bmin, pmin >= dt * bmin)
    if bool(good):
        if which == 'bins':
            st, v = ctx.call(ctx.R.libcpp.periodogram, ctx.farr([0.0] * 24), dt, np.asarray([1]), pmin, pmax, bmin, bmax)
            ctx.check(st == 'ok', 'valid search range accepted', repr(v))
        return
    st, v = ctx.call(ctx.R.libcpp.periodogram, ctx.farr([0.0] * 12), dt, np.asarray([1]), pmin, pmax, bmin, bmax)
    ctx.check(st == 'exc' and isinstance(v, (ValueError, TypeError)), 'invalid search range refused', repr(v))


# ---------------------------------------------------------------- F08 / F09
def noise_variance(n, f):
    """variance of a sample of unit-variance noise downsampled by f (n output samples)"""
    k = math.floor(f)
    x = n * (f - k)
    return f - 1.0 / 3.0 if x > 1 else k - x + 2.0 / 3.0 * x * x


def snr_cfgs(big):
    c = [dict(size=20, bmin=3, bmax=4, k=3.0, ratio=3.1, w=[1, 2]), dict(size=24, bmin=4, bmax=5, k=4.6, ratio=2.4, w=[1, 3]),
         dict(size=17, bmin=2, bmax=3, k=2.0, ratio=4.2, w=[1]), dict(size=30, bmin=5, bmax=6, k=6.5, ratio=1.9, w=[2, 1, 4]),
         dict(size=18, bmin=2, bmax=3, k=4.0, ratio=3.1, w=[1], dtype='float64'), dict(size=40, bmin=8, bmax=9, k=8.0, ratio=2.2, w=[2]),
         dict(size=36, bmin=3, bmax=4, k=9.003, ratio=1.2, w=[2]), dict(size=20, bmin=3, bmax=3, k=3.012, ratio=1.3, w=[1]),
         dict(size=48, bmin=4, bmax=4, k=4.002, ratio=1.2, w=[2]), dict(size=16, bmin=3, bmax=5, k=3.4, ratio=1.9, w=[2], direct=True), dict(size=33, bmin=3, bmax=3, k=2.9999 * 2, ratio=1.3, w=[1]),
         dict(size=1300, bmin=100, bmax=100, k=100.006, ratio=1.005, w=[1], sparse=True)]
    if big:
        c += [dict(size=n, bmin=b, bmax=b + d, k=b + q, ratio=r, w=w)
              for n, b, d, q, r, w in [(48, 6, 2, 0.0, 4.1, [1, 2, 5]), (64, 10, 2, 1.1, 3.2, [3, 1]), (50, 4, 1, 0.0, 8.3, [1, 3]),
                                       (81, 9, 3, 3.3, 2.7, [1, 2, 4, 8]), (45, 3, 1, 0.9, 9.1, [2]), (72, 12, 1, 0.5, 2.1, [6, 11])]]
    return c


@harness('F08', quick=lambda: snr_cfgs(False), thorough=lambda: snr_cfgs(True), budget_s=200, query_ms=20000,
         bounds='all data |x| <= 8, series of 17..40 samples (81 thorough), 2..9 bins (13 thorough), listed period ranges; 1300 samples of which two are arbitrary')
def periodogram_snr(ctx):
    """the S/N of a trial is that of the corresponding row of the FFA transform of the
    data downsampled by the factor of the trial, at every width, in trial order"""
    c = ctx.cfg
    size, bmin, bmax, W = c['size'], c['bmin'], c['bmax'], c['w']
    dt = 0.25
    if c.get('direct'):   # three free samples, the others given
        x = ctx.farr([ctx.real('x%d' % i, -8, 8) if i in (2, 7, 11) else ((5 * i * i + 3 * i) % 7) * 0.5 - 1.0 for i in range(size)])
    elif c.get('sparse'):   # two late samples
        x = ctx.farr([ctx.real('x%d' % i, 16, 64) if i in (size - 17, size - 60) else ((5 * i * i + 3 * i) % 7) * 0.5 - 1.0 for i in range(size)])
    else:
        x = ctx.arr('x', size, dtype=c.get('dtype', 'float32'))
    X = ctx.vals(x)
    pmin = c['k'] * dt
    p, b, s = ctx.R.libcpp.periodogram(x, dt, np.asarray(W), pmin, pmin * c['ratio'], bmin, bmax)
    B = [int(v) for v in ctx.vals(b)]
    S = ctx.vals(s)
    ctx.check(tuple(s.shape) == (len(B), len(W)), 'one S/N per trial and width')
    f0 = c['k'] / bmin
    i = 0
    for ids in range(20):
        f = f0 * ((bmax + 1.0) / bmin) ** ids
        if size < f:
            break
        y = ctx.R.downsample(x, f) if abs(f - 1) > 1e-9 else x
        n = len(ctx.vals(y))
        for bins in range(bmin, bmax + 1):
            k = 0
            while i + k < len(B) and B[i + k] == bins:
                k += 1
            if not k:
                continue
            rows = n // bins
            t = ctx.R.ffa2(y[:rows * bins].reshape(rows, bins))
            std = math.sqrt(rows * noise_variance(math.floor(size / f), f))
            if c.get('direct'):   # not the routine of the code under test
                T = ctx.vals(t)
                e = [boxcar_oracle(T[r * bins:(r + 1) * bins], w, std) for r in range(rows) for w in W]
            else:
                e = ctx.vals(ctx.R.boxcar_snr(t, W, stdnoise=std))
            ctx.check(k <= rows, 'no more trials than rows')
            ctx.same_all([(S[i * len(W) + j], e[j]) for j in range(k * len(W))], 'S/N of a trial', tol=4e-3,
                         detail='bins %d, factor %g' % (bins, f))
            i += k
    ctx.check(i == len(B), 'every trial belongs to the search plan', '%d of %d' % (i, len(B)))
    ctx.same_all(list(zip(ctx.vals(x), X)), 'input unchanged', tol=1e-6)


@harness('F09', quick=[dict(size=9, lo=1.0, hi=2.25), dict(size=13, lo=2.0, hi=3.25), dict(size=17, lo=3.0, hi=4.25),
                       dict(size=25, lo=4.0, hi=6.25)],
         thorough=[dict(size=n, lo=float(a), hi=a + 1.25) for n, a in [(9, 1), (12, 1), (13, 2), (20, 2), (17, 3), (24, 3), (21, 4), (25, 5), (29, 6), (33, 7)]],
         budget_s=200, query_ms=30000, weight=4,
         bounds='9..25 samples (33 thorough), every real downsampling factor from 1 to 6.25 (8.25 thorough)')
def noise_level_all_factors(ctx):
    """S/N is normalised by the standard deviation of the downsampled, folded noise"""
    c = ctx.cfg
    size, bins = c['size'], 2
    dt = 1.0
    f = ctx.real('f', c['lo'], c['hi'])
    ctx.assume(f > c['lo'])
    pmin = f * (bins * dt)
    X = [((5 * i * i + 3 * i) % 7) * 0.5 - 1.0 for i in range(size)]
    x = ctx.farr(X)
    p, b, s = ctx.R.libcpp.periodogram(x, dt, np.asarray([1]), pmin, pmin * 1.125, bins, bins)
    S = ctx.vals(s)
    y = ctx.R.downsample(x, f)
    n = len(ctx.vals(y))
    rows = n // bins
    if rows < 2 or not S:
        return
    t = ctx.R.ffa2(y[:rows * bins].reshape(rows, bins))
    e = ctx.vals(ctx.R.boxcar_snr(t, [1], stdnoise=1.0))[0]
    k = int(floor(f))
    z = n * (f - k)
    var = f - 1.0 / 3.0 if bool(z > 1) else k - z + 2.0 / 3.0 * z * z
    ctx.close(S[0] * S[0] * (rows * var), e * e, 'noise level of a trial', tol=0.02)


@harness('F09', quick=[dict(size=n, f=f) for n, f in [(64, 4.0), (64, 3.0), (60, 5.0), (64, 8.0), (400, 2.618033988), (400, 3.302775637),
                                                      (400, 1.7320508), (300, 4.0000005), (300, 6.002)]],
         bounds='listed factors, S/N of all symbolic pulse heights |x| <= 8')
def noise_level_is_that_of_white_noise(ctx):
    """noise level = rms over the output samples of the downsampling weights (the
    standard deviation of unit-variance white noise after the same operation)"""
    c = ctx.cfg
    size, f, bins = c['size'], c['f'], 2
    a = ctx.real('a', 1, 8)
    x = ctx.farr([a * (((5 * i * i + 3 * i) % 7) * 0.5 - 1.0) for i in range(size)])
    p, b, s = ctx.R.libcpp.periodogram(x, 1.0, np.asarray([1]), f * bins, f * bins * 1.01, bins, bins)
    S = ctx.vals(s)
    n = math.floor(size / f)
    v = 0.0
    for k in range(n):
        lo, hi = k * f, (k + 1) * f
        for i in range(int(lo), min(size, int(hi) + 1)):
            v += max(0.0, min(hi, i + 1.0) - max(lo, i)) ** 2
    v /= n
    y = ctx.R.downsample(x, f)
    rows = n // bins
    t = ctx.R.ffa2(y[:rows * bins].reshape(rows, bins))
    e = ctx.vals(ctx.R.boxcar_snr(t, [1], stdnoise=math.sqrt(rows * v)))[0]
    ctx.check(len(S) >= 1, 'at least one trial')
    ctx.same_all([(S[0], e)], 'noise level of white noise', tol=2e-2)
