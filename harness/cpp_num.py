"""Trial frequencies, boxcar S/N, downsampling, running medians."""
import math

import numpy as np

from engine.registry import harness
from engine.core import maximum, minimum, ite, band, bor, bnot, floor
from .common import mined


# ---------------------------------------------------------------- F02
@harness('F02', bounds='2 <= p <= 9, p <= N <= 40, dt in [0.001, 16]', budget_s=120, query_ms=10000,
         thorough=[dict(pmax=14, nmax=70)], quick=[dict(pmax=9, nmax=40)], weight=5, max_witnesses=3)
def trial_freqs_and_periods(ctx):
    """ffafreq = (1/p - s/(m-1)/p^2)/dt for s = 0..m-1, ffaprd its inverse; one
    entry per row of the transform; m = 1 gives 1/(p dt)"""
    p = int(ctx.int('p', 2, ctx.cfg['pmax']))
    N = ctx.int('N', 2, ctx.cfg['nmax'])
    ctx.assume(N >= p)
    dt = ctx.real('dt', 0.001, 16)
    f = ctx.R.ffafreq(N, p, dt=dt)
    m = len(f)
    ctx.check(band(m * p <= N, (m + 1) * p > N), 'one trial frequency per row', '%d rows' % m)
    F = ctx.vals(f)
    P = ctx.vals(ctx.R.ffaprd(N, p, dt=dt))
    ctx.check(len(P) == m, 'one trial period per row')
    for s in range(m):
        e = 1.0 / p - (s / (m - 1.0) / p ** 2 if m > 1 else 0.0)
        ctx.close(F[s] * dt, e, 'trial frequency', tol=1e-12, detail='s=%d' % s)
        ctx.close(P[s] * e, dt, 'trial period is the inverse of the frequency', tol=1e-11, detail='s=%d' % s)


@harness('F02', bounds='N, p in [-3, 12] (integers), dt in [-2, 2]', budget_s=120)
def ffafreq_refuses_invalid(ctx):
    """ValueError unless N >= p > 1 are integers and dt > 0"""
    p = ctx.int('p', -3, 12)
    N = ctx.int('N', -3, 12)
    dt = ctx.real('dt', -2, 2)
    st, v = ctx.call(ctx.R.ffafreq, N, p, dt=dt)
    good = band(p > 1, N >= p, dt > 0)
    if bool(good):
        ctx.check(st == 'ok', 'valid arguments accepted', repr(v))
    else:
        ctx.check(st == 'exc' and isinstance(v, ValueError), 'invalid arguments refused', repr(v))
    st, v = ctx.call(ctx.R.ffaprd, N, p, dt=dt)
    ctx.check((st == 'ok') == bool(good), 'ffaprd accepts the same arguments', repr(v))


@harness('F02', bounds='non-integer N or p')
def ffafreq_refuses_non_integers(ctx):
    """N and p must be integers"""
    x = ctx.real('x', 2, 12)
    ctx.must_raise_type(ValueError, ctx.R.ffafreq, 'non-integer N refused', x, 2)
    ctx.must_raise_type(ValueError, ctx.R.ffafreq, 'non-integer p refused', 24, x)


# ---------------------------------------------------------------- F03
def boxcar_oracle(x, w, std):
    """max over phases of the correlation with a zero-mean unit-norm boxcar"""
    n = len(x)
    h = math.sqrt((n - w) / float(n * w))
    b = w / float(n - w) * h
    total = sum(x)
    best = None
    for k in range(n):
        s = 0.0
        for j in range(w):
            s = s + x[(k + j) % n]
        v = ((h + b) * s - b * total) / std
        best = v if best is None else maximum(best, v)
    return best


def snr_cfgs(big):
    c = [dict(shape=[2], w=[1]), dict(shape=[3], w=[1, 2]), dict(shape=[2, 4], w=[1, 3]), dict(shape=[5], w=[4, 2]),
         dict(shape=[1, 2, 4], w=[2]), dict(shape=[7], w=[3, 6]), dict(shape=[8], w=[1, 7, 5], std=2.5),
         dict(shape=[2, 6], w=[2, 5], dtype='float64', std=0.5), dict(shape=[3, 4], w=[2, 1]), dict(shape=[9], w=[4])]
    c += [dict(shape=[k], w=[max(1, k // 3)]) for k in mined(2, 20, cap=10)]
    if big:
        c += [dict(shape=[n], w=[w]) for n in range(2, 13) for w in range(1, n)]
        c += [dict(shape=[2, 3, 5], w=[1, 2, 4]), dict(shape=[4, 8], w=[3, 1]), dict(shape=[16], w=[5])]
    return c


@harness('F03', quick=lambda: snr_cfgs(False), thorough=lambda: snr_cfgs(True), budget_s=90, query_ms=20000,
         bounds='all profiles |x| <= 8 of the listed shapes (up to 9 bins quick, 16 thorough) and width lists')
def boxcar_snr_is_matched_filter(ctx):
    """S/N for width w = largest correlation, over all phases, with the zero-mean
    unit-norm boxcar of width w, divided by the noise standard deviation"""
    shape, widths = tuple(ctx.cfg['shape']), ctx.cfg['w']
    std = ctx.cfg.get('std', 1.0)
    x = ctx.arr('x', shape, dtype=ctx.cfg.get('dtype', 'float32'))
    before = ctx.vals(x)
    y = ctx.R.boxcar_snr(x, list(widths), stdnoise=std)
    ctx.check(tuple(y.shape) == shape[:-1] + (len(widths),), 'one S/N per profile and width', repr(y.shape))
    n = shape[-1]
    Y = ctx.vals(y)
    k = 0
    for r in range(len(before) // n):
        prof = before[r * n:(r + 1) * n]
        for w in widths:
            ctx.close(Y[k], boxcar_oracle(prof, w, std), 'S/N is the matched filter response', tol=2e-3,
                      detail='profile %d width %d' % (r, w))
            k += 1
    ctx.same_all(list(zip(ctx.vals(x), before)), 'input unchanged', tol=1e-6)


@harness('F03', quick=[dict(n=67, w=[1, 5]), dict(n=131, w=[2, 30, 9]), dict(n=300, w=[3, 90]), dict(n=600, w=[150])],
         thorough=[dict(n=n, w=w) for n in (63, 64, 65, 66, 67, 71, 127, 129, 131, 240, 257, 300) for w in ([1, 5], [2, 30, 9])] + [dict(n=600, w=[150]), dict(n=1024, w=[200, 1])],
         budget_s=120, bounds='profiles of up to 600 bins (1024 thorough) with one bin of arbitrary amplitude at the start, in the middle or near the end')
def boxcar_snr_long_profiles(ctx):
    """the matched filter response for realistic numbers of bins"""
    n, W = ctx.cfg['n'], ctx.cfg['w']
    a = ctx.real('a', 32, 256)
    pos = ctx.choose('pos', [0, n // 2, n - 2, n - 1])
    X = [((7 * i * i + 3 * i) % 11) * 0.125 - 0.5 for i in range(n)]
    X[pos] = a
    y = ctx.R.boxcar_snr(ctx.farr(X), W, stdnoise=1.5)
    S = np.concatenate(([0.0], np.cumsum([0.0 if i == pos else v for i, v in enumerate(X)] * 2)))
    for w, v in zip(W, ctx.vals(y)):
        h = math.sqrt((n - w) / float(n * w))
        b = w / float(n - w) * h
        # the brightest window contains the bright bin
        best = max(S[k + w] - S[k] for k in range(n) if (pos - k) % n < w)
        ctx.close(v, ((h + b) * (best + a) - b * (S[n] + a)) / 1.5, 'S/N is the matched filter response', tol=5e-3, detail='width %d' % w)


@harness('F03', quick=[dict(n=5, w=2), dict(n=8, w=3)], bounds='one concrete profile, noise level in [0.01, 64]')
def boxcar_snr_scales_with_noise(ctx):
    """S/N is inversely proportional to stdnoise"""
    n, w = ctx.cfg['n'], ctx.cfg['w']
    x = [((7 * i * i + 3 * i) % 11) - 4.0 for i in range(n)]
    std = ctx.real('std', 0.01, 64)
    y = ctx.R.boxcar_snr(ctx.farr(x), [w], stdnoise=std)
    ctx.close(ctx.vals(y)[0] * std, boxcar_oracle(x, w, 1.0), 'S/N x stdnoise', tol=2e-3)


@harness('F03', bounds='5 bins, widths in [-2, 8], noise level in [-2, 2]')
def boxcar_snr_refuses_invalid(ctx):
    """widths outside 1..bins-1 and noise levels <= 0 are refused; valid ones are not"""
    n = 5
    x = ctx.farr([1.0, -2.0, 0.5, 3.0, 0.25])
    w1 = int(ctx.int('w1', -2, 8))
    w2 = int(ctx.int('w2', -2, 8))
    std = ctx.real('std', -2, 2)
    good = band(std > 0, 0 < w1 < n and 0 < w2 < n)
    st, v = ctx.call(ctx.R.boxcar_snr, x, [w1, w2], stdnoise=std)
    if bool(good):
        ctx.check(st == 'ok', 'valid widths accepted', repr(v))
    else:
        ctx.check(st == 'exc' and isinstance(v, (ValueError, OverflowError)), 'invalid width or noise refused', repr(v))


@harness('F03', bounds='no trial width')
def boxcar_snr_refuses_no_width(ctx):
    """an empty list of widths does not read out of bounds"""
    x = ctx.arr('x', 4)
    st, v = ctx.call(ctx.R.boxcar_snr, x, np.zeros(0, dtype=int))
    ctx.check(st == 'exc' or v.size == 0, 'no width: refused or empty', repr(v))


# ---------------------------------------------------------------- F04
def overlap(i, a, b):
    """length of [i, i+1] inside [a, b]"""
    return maximum(0.0, minimum(b, i + 1.0) - maximum(a, float(i)))


@harness('F04', quick=[dict(n=n) for n in (2, 3, 4, 5, 6)], thorough=[dict(n=n) for n in range(2, 11)], budget_s=120,
         query_ms=15000, weight=10, bounds='n samples (2..6 quick, 2..10 thorough), every real factor 1 < f <= n, unit impulse at '
         'every position', max_paths=20000)
def downsample_weights(ctx):
    """every output sample integrates the input over [k f, (k+1) f] exactly, for every
    real factor; there are floor(n/f) of them"""
    n = ctx.cfg['n']
    f = ctx.real('f', 1, n)
    ctx.assume(f > 1)
    i = int(ctx.int('i', 0, n - 1))
    x = ctx.farr([1.0 if j == i else 0.0 for j in range(n)])
    y = ctx.R.downsample(x, f)
    no = len(y)
    ctx.check(band(no * f <= n, (no + 1) * f > n), 'floor(n/f) output samples', '%d' % no)
    Y = ctx.vals(y)
    for k in range(no):
        ctx.close(Y[k], overlap(i, k * f, (k + 1) * f), 'weight of an input sample = its overlap', tol=1e-3,
                  detail='output %d' % k)


def ds_cfgs(big):
    c = [dict(n=n, f=f) for n, f in [(5, 1.5), (8, 2.0), (9, 2.25), (10, 10.0), (12, 1.0000001), (7, 6.9999), (16, 3.2), (11, 1.1),
                                     (17, 4.25), (20, 6.666666666666667), (30, 1.0344827586206897), (6, 5.999999999999999)]]
    c += [dict(n=k + 7, f=k + d) for k in mined(2, 24, cap=8) for d in (0.0, 0.5)]
    if big:
        c += [dict(n=n, f=n / q) for n in range(3, 40, 4) for q in (1.3, 2, 3, 3.7, 5.0) if n / q > 1]
    return c


@harness('F04', quick=lambda: ds_cfgs(False), thorough=lambda: ds_cfgs(True),
         bounds='all data |x| <= 8 for the listed (n, f), f including divisors of n and values one ulp away')
def downsample_is_integral(ctx):
    """all data, listed factors: the output is the exact integral, the input unchanged"""
    n, f = ctx.cfg['n'], ctx.cfg['f']
    x = ctx.arr('x', n)
    X = ctx.vals(x)
    y = ctx.R.downsample(x, f)
    no = len(y)
    ctx.check(no == math.floor(n / f), 'floor(n/f) output samples', '%d' % no)
    ctx.check(str(y.dtype) == 'float32', 'float32 output')
    Y = ctx.vals(y)
    pairs = []
    for k in range(no):
        e = 0.0
        for i in range(n):
            o = overlap(i, k * f, (k + 1) * f)
            if o:
                e = e + X[i] * o
        pairs.append((Y[k], e))
    ctx.same_all(pairs, 'output = exact integral', tol=5e-3)
    ctx.same_all(list(zip(ctx.vals(x), X)), 'input unchanged', tol=1e-6)


@harness('F04', quick=[dict(n=4001, f=1.1), dict(n=2500, f=1.0001), dict(n=5000, f=3.3), dict(n=6000, f=700.7)],
         thorough=[dict(n=n, f=f) for n in (4001, 20000) for f in (1.1, 1.0001, 1.7, 3.3, 10.1, 700.7)],
         budget_s=120, bounds='series of 2500..6000 samples (20000 thorough) with three samples of arbitrary value up to 4096, listed factors')
def downsample_long_series(ctx):
    """the bounds of the integrals do not drift along the series"""
    n, f = ctx.cfg['n'], ctx.cfg['f']
    no = int(math.floor(n / f))
    X = [0.0] * n
    free = sorted({int(no * f) - 1, int((no - 2) * f) + 1, int((no - 2) * f), n // 2, n // 2 + 1, 3})
    for i in free:
        X[i] = ctx.real('x%d' % i, -4096, 4096)
    y = ctx.R.downsample(ctx.farr(X), f)
    Y = ctx.vals(y)
    ctx.check(len(Y) == no, 'floor(n/f) output samples', '%d' % len(Y))
    pairs = []
    for k in range(no):
        e = 0.0
        for i in free:
            o = min((k + 1) * f, i + 1.0) - max(k * f, float(i))
            if o > 0:
                e = e + X[i] * o
        pairs.append((Y[k], e))
    ctx.same_all(pairs, 'output = exact integral', tol=0.02)


@harness('F04', quick=[dict(n=n) for n in (1, 2, 5)], bounds='every real factor in [-3, n + 3]', budget_s=90)
def downsample_refuses_invalid(ctx):
    """ValueError unless 1 < f <= n"""
    n = ctx.cfg['n']
    x = ctx.farr([0.5 * j - 1 for j in range(n)])
    f = ctx.real('f', -3, n + 3)
    st, v = ctx.call(ctx.R.downsample, x, f)
    if bool(band(f > 1, f <= n)):
        ctx.check(st == 'ok', 'valid factor accepted', repr(v))
    else:
        ctx.check(st == 'exc' and isinstance(v, ValueError), 'invalid factor refused', repr(v))


# ---------------------------------------------------------------- F05 / F06
def is_median(m, window):
    """m is an element of the (odd-sized) window with half of it on each side"""
    h = len(window) // 2
    lt = gt = 0
    eq = False
    for v in window:
        lt = lt + ite(v < m - 1e-6, 1, 0)
        gt = gt + ite(v > m + 1e-6, 1, 0)
        d = m - v
        eq = bor(eq, band(d <= 1e-6, d >= -1e-6))
    return band(eq, lt <= h, gt <= h)


@harness('F05', quick=[dict(n=2, w=1), dict(n=4, w=3), dict(n=5, w=3), dict(n=6, w=5), dict(n=5, w=1)],
         thorough=[dict(n=n, w=w) for n, w in [(2, 1), (4, 3), (5, 3), (6, 3), (7, 3), (6, 5), (7, 5)]],
         budget_s=350, max_paths=60000, weight=8, max_witnesses=2,
         bounds='all data |x| <= 8: (n, w) up to (6, 5) quick, (7, 5) thorough')
def running_median_exact(ctx):
    """output i is the median of the w samples centred on i, the ends padded with the
    edge values; the input is not modified"""
    n, w = ctx.cfg['n'], ctx.cfg['w']
    x = ctx.arr('x', n)
    X = ctx.vals(x)
    y = ctx.R.running_median(x, w)
    ctx.check(tuple(y.shape) == (n,), 'same length as the input')
    Y = ctx.vals(y)
    h = w // 2
    ctx.check_all([is_median(Y[i], [X[min(max(j, 0), n - 1)] for j in range(i - h, i + h + 1)]) for i in range(n)],
                  'median of the window')
    ctx.check_all([band(a - b <= 1e-6, b - a <= 1e-6) for a, b in zip(ctx.vals(x), X)], 'input unchanged')


@harness('F05', quick=[dict(n=n, w=w) for n, w in [(9, 7), (24, 5), (33, 11), (12, 11)]],
         thorough=[dict(n=n, w=w) for n, w in [(9, 7), (24, 5), (33, 11), (12, 11), (40, 39), (64, 9), (33, 31), (50, 13)]],
         budget_s=60, bounds='increasing ramps of any slopes with one sample replaced by any value |v| <= 64 (n up to 33 quick, 64 thorough)')
def running_median_long(ctx):
    """longer windows: a monotonic series of arbitrary positive steps and one outlier
    of arbitrary value"""
    n, w = ctx.cfg['n'], ctx.cfg['w']
    X = []
    a = 0.0
    for i in range(n):
        X.append(a)
        a = a + 1.0
    pos = n // 2
    v = ctx.real('v', -64, 64)
    X[pos] = v
    y = ctx.R.running_median(ctx.farr(X), w)
    Y = ctx.vals(y)
    h = w // 2
    ctx.check(len(Y) == n, 'same length as the input')
    ctx.check_all([is_median(Y[i], [X[min(max(j, 0), n - 1)] for j in range(i - h, i + h + 1)]) for i in range(n)],
                  'median of the window')


@harness('F05', bounds='n = 5, widths in [-3, 9]')
def running_median_refuses_invalid(ctx):
    """the width must be odd and smaller than the data"""
    x = ctx.farr([1.0, -2.0, 0.5, 3.0, 0.25])
    w = int(ctx.int('w', -3, 9))
    st, v = ctx.call(ctx.R.running_median, x, w)
    if w % 2 == 1 and 0 < w < 5:
        ctx.check(st == 'ok', 'valid width accepted', repr(v))
    else:
        ctx.check(st == 'exc' and isinstance(v, (ValueError, TypeError)), 'invalid width refused', repr(v))


@harness('F05', quick=[dict(n=4, w=3, step=2), dict(n=3, w=1, step=-1), dict(n=4, w=3, step=-1)],
         bounds='strided and reversed views, all data |x| <= 8', budget_s=100)
def running_median_views(ctx):
    """non-contiguous inputs give the result of a contiguous copy"""
    n, w, step = ctx.cfg['n'], ctx.cfg['w'], ctx.cfg['step']
    base = ctx.arr('x', n * abs(step))
    v = base[::step]
    X = ctx.vals(base)[::step]
    y = ctx.R.running_median(v, w)
    Y = ctx.vals(y)
    h = w // 2
    ctx.check_all([is_median(Y[i], [X[min(max(j, 0), n - 1)] for j in range(i - h, i + h + 1)]) for i in range(n)],
                  'median of the window')


def sort_net(v):
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = minimum(a, b), maximum(a, b)
    return v


def fast_median_oracle(X, w, mp):
    """block means of int(w / mp) samples, running median of mp blocks, linear
    interpolation between block centres"""
    n = len(X)
    sf = max(1, int(w / float(mp)))
    if sf == 1:
        h = w // 2
        return [sort_net([X[min(max(j, 0), n - 1)] for j in range(i - h, i + h + 1)])[h] for i in range(n)]
    nb = n // sf
    B = [sum(X[b * sf:(b + 1) * sf]) / float(sf) for b in range(nb)]
    h = mp // 2
    med = [sort_net([B[min(max(j, 0), nb - 1)] for j in range(i - h, i + h + 1)])[h] for i in range(nb)]
    cen = [b * sf + 0.5 * (sf - 1) for b in range(nb)]
    out = []
    for i in range(n):
        if i <= cen[0]:
            out.append(med[0])
        elif i >= cen[-1]:
            out.append(med[-1])
        else:
            b = int((i - cen[0]) / sf)
            t = (i - cen[b]) / sf
            out.append(med[b] * (1 - t) + med[b + 1] * t)
    return out


@harness('F06', quick=[dict(n=8, w=6, mp=3), dict(n=9, w=6, mp=3), dict(n=5, w=3, mp=3), dict(n=4, w=3, mp=101), dict(n=13, w=9, mp=3),
                       dict(n=11, w=7, mp=3), dict(n=9, w=4, mp=1), dict(n=10, w=5, mp=1)]
         + [dict(n=4 * f + 3, w=3 * f, mp=3, blocks=True) for f in (8, 17, 40)],
         thorough=[dict(n=n, w=w, mp=mp) for n, w, mp in [(8, 6, 3), (9, 6, 3), (5, 3, 3), (4, 3, 101), (13, 9, 3), (11, 7, 3), (9, 4, 1),
                                                          (10, 5, 1), (12, 6, 3), (16, 12, 3), (15, 8, 3), (12, 10, 5)]],
         budget_s=150, max_paths=40000, weight=6, bounds='all data |x| <= 8 for the listed (n, width, min_points), blocks of up to 5 samples, or 8, 17 and 40 samples with one free sample in each')
def fast_running_median_value(ctx):
    """block means, running median of min_points blocks, linear interpolation at the
    original resolution; exact running median when no reduction is needed"""
    n, w, mp = ctx.cfg['n'], ctx.cfg['w'], ctx.cfg['mp']
    if ctx.cfg.get('blocks'):   # one free sample and a given pattern per block
        f = w // mp
        B = ctx.vec('x', n // f, -8, 8)
        x = ctx.farr([B[i // f] if i % f == 0 and i // f < len(B) else ((5 * i * i + 3 * i) % 7) * 0.5 - 1.0 for i in range(n)])
    else:
        x = ctx.arr('x', n)
    X = ctx.vals(x)
    y = ctx.R.fast_running_median(x, w, min_points=mp)
    ctx.check(tuple(y.shape) == (n,), 'same length as the input')
    E = list(zip(ctx.vals(y), fast_median_oracle(X, w, mp)))
    ctx.close_all(E[::w // mp // 3] if ctx.cfg.get('blocks') else E, 'approximate running median', tol=2e-3)
    ctx.same_all(list(zip(ctx.vals(x), X)), 'input unchanged', tol=1e-6)


@harness('F06', bounds='n = 12, width in [1, 40], min_points in [1, 13]', budget_s=100)
def fast_running_median_arguments(ctx):
    """even min_points refused; otherwise the median of a constant series is that
    constant, at full length, whenever the reduced window fits"""
    n = 12
    c = ctx.real('c', -8, 8)
    x = ctx.farr([c] * n)
    w = int(ctx.int('w', 1, 40))
    mp = int(ctx.int('mp', 1, 13))
    st, v = ctx.call(ctx.R.fast_running_median, x, w, min_points=mp)
    if mp % 2 == 0:
        ctx.check(st == 'exc' and isinstance(v, ValueError), 'even min_points refused', repr(v))
        return
    sf = max(1, int(w / float(mp)))
    fits = (w % 2 == 1 and w < n) if sf == 1 else (mp < n // sf)
    if fits:
        ctx.check(st == 'ok', 'window fits', repr(v))
        ctx.check(tuple(v.shape) == (n,), 'same length')
        ctx.close_all([(y, c) for y in ctx.vals(v)], 'median of a constant series', tol=1e-3)
    else:
        ctx.check(st == 'exc', 'window does not fit', repr(v))
