"""Safety and conventions of the native boundary (F10)."""
import math

import numpy as np

from engine.registry import harness
from engine.core import maximum, band
from .common import mined

NS = [1, 2, 3, 5, 8]


@harness('F10', quick=[dict(n=n) for n in NS], thorough=[dict(n=n) for n in range(1, 20)], bounds='1..8 elements (19 thorough), every shift up to 3n + 1')
def rollback_is_roll(ctx):
    """rollback(x, s)[i] = x[(i + s) mod n]; fused_rollback_add(x, y, s) = x + roll(y, -s)"""
    n = ctx.cfg['n']
    x, y = ctx.arr('x', n), ctx.arr('y', n)
    X, Y = ctx.vals(x), ctx.vals(y)
    s = int(ctx.int('s', 0, 3 * n + 1))
    r = ctx.vals(ctx.R.libcpp.rollback(x, s))
    ctx.check(len(r) == n, 'same size')
    ctx.same_all([(r[i], X[(i + s) % n]) for i in range(n)], 'rollback', tol=1e-6)
    r = ctx.vals(ctx.R.libcpp.fused_rollback_add(x, y, s))
    ctx.check(len(r) == n, 'same size')
    ctx.same_all([(r[i], X[i] + Y[(i + s) % n]) for i in range(n)], 'fused_rollback_add', tol=1e-5)
    ctx.same_all(list(zip(ctx.vals(x) + ctx.vals(y), X + Y)), 'inputs unchanged', tol=1e-6)


@harness('F10', quick=[dict(n=n) for n in (1, 2, 3, 5)], thorough=[dict(n=n) for n in range(1, 13)],
         bounds='1..5 elements (12 thorough), every prefix length up to 3n + 2')
def circular_prefix_sum_value(ctx):
    """out[j] = sum of x[i mod n] for i <= j, for j < nsum"""
    n = ctx.cfg['n']
    x = ctx.arr('x', n)
    X = ctx.vals(x)
    k = int(ctx.int('k', 0, 3 * n + 2))
    st, v = ctx.call(ctx.R.libcpp.circular_prefix_sum, x, k)
    if k == 0:
        ctx.check(st == 'exc' or len(v) == 0, 'empty prefix')
        return
    ctx.check(st == 'ok', 'accepted', repr(v))
    r = ctx.vals(v)
    ctx.check(len(r) == k, 'nsum elements', '%d' % len(r))
    a = 0.0
    pairs = []
    for j in range(k):
        a = a + X[j % n]
        pairs.append((r[j], a))
    ctx.same_all(pairs, 'circular prefix sum', tol=1e-3)


@harness('F10', bounds='one concrete series')
def circular_prefix_sum_accuracy(ctx):
    """small elements are not lost in a large sum"""
    X = [2.0 ** 24] + [1.0] * 60
    r = ctx.vals(ctx.R.libcpp.circular_prefix_sum(ctx.farr(X), 100))
    e = np.cumsum(X + X)[:100]
    ctx.check(all(abs(float(a) - b) <= 8 for a, b in zip(r, e)), 'circular prefix sum of elements of different sizes', repr([float(a) for a in r][:62]))


def calls(R):
    L = R.libcpp
    w = np.asarray([1, 2])
    return {
        'rollback': (1, lambda a: L.rollback(a, 2)),
        'fused_rollback_add': (1, lambda a: L.fused_rollback_add(a, a, 1)),
        'circular_prefix_sum': (1, lambda a: L.circular_prefix_sum(a, 7)),
        'ffa2': (2, L.ffa2),
        'snr1': (1, lambda a: L.snr1(a, w, 1.0)),
        'snr2': (2, lambda a: L.snr2(a, w, 1.0)),
        'downsample': (1, lambda a: L.downsample(a, 1.5)),
        'running_median': (1, lambda a: L.running_median(a, 3)),
        'periodogram': (1, lambda a: L.periodogram(a, 1.0, w, 3.0, 4.0, 3, 3)[2]),
        'boxcar_snr': (2, lambda a: R.boxcar_snr(a, [1, 2])),
        'py_ffa2': (2, R.ffa2),
        'ffa1': (1, lambda a: R.ffa1(a, 3)),
        'py_downsample': (1, lambda a: R.downsample(a, 1.5)),
        'py_running_median': (1, lambda a: R.running_median(a, 3)),
    }


NAMES = ['rollback', 'fused_rollback_add', 'circular_prefix_sum', 'ffa2', 'snr1', 'snr2', 'downsample', 'running_median', 'periodogram',
         'boxcar_snr', 'py_ffa2', 'ffa1', 'py_downsample', 'py_running_median']


def light(name):
    """the median sorts its input: few symbolic samples"""
    return 'median' in name


def same(ctx, got, want, label, tol=3e-3):
    ctx.check(tuple(got.shape) == tuple(want.shape), label + ': shape', '%r %r' % (got.shape, want.shape))
    ctx.same_all(list(zip(ctx.vals(got), ctx.vals(want))), label, tol=tol)


@harness('F10', quick=[dict(f=f) for f in NAMES], bounds='all data |x| <= 8, arrays of up to 16 elements; strides 2, -1, 3, offset and transposed views')
def views_equal_copies(ctx):
    """a non-contiguous array is refused, or gives the result of a contiguous copy"""
    nd, f = calls(ctx.R)[ctx.cfg['f']]
    n = 5 if light(ctx.cfg['f']) else 8
    kind = ctx.choose('kind', ['step', 'reverse', 'offset'])
    if nd == 1:
        base = ctx.arr('x', 2 * n if kind == 'step' else n + 1)
        if kind == 'step':
            v = base[::2]
            V = ctx.vals(base)[::2]
        elif kind == 'reverse':
            v = base[::-1]
            V = ctx.vals(base)[::-1]
        else:
            v = base[1:]
            V = ctx.vals(base)[1:]
        c = ctx.farr(V)
    else:
        base = ctx.arr('x', (4, 3))
        if kind == 'step':
            v = base[::2]
        elif kind == 'reverse':
            v = base[:, ::-1]
        else:
            v = base.T
        c = ctx.farr(ctx.vals(v), 'float32', tuple(v.shape))
    st, r = ctx.call(f, v)
    if st == 'exc':
        ctx.check(isinstance(r, (ValueError, TypeError)), 'non-contiguous input refused with a ValueError', repr(r))
        return
    same(ctx, r, f(c), 'result for a view')


@harness('F10', quick=[dict(f=f) for f in NAMES], bounds='arrays of 0, 1, 2 and 3 dimensions with 0, 1 or more elements')
def shapes_are_checked(ctx):
    """wrong dimensions and empty arrays are refused (or give an empty result)"""
    nd, f = calls(ctx.R)[ctx.cfg['f']]
    shape = ctx.choose('shape', [(0,), (1,), (4,), (0, 0), (0, 3), (3, 0), (2, 3), (1, 1), (1, 2, 3), (0, 1, 2)])
    n = 1
    for d in shape:
        n *= d
    a = ctx.farr([0.5 * i - 1.0 for i in range(n)], 'float32', shape)
    st, r = ctx.call(f, a)
    if len(shape) != nd and ctx.cfg['f'] != 'boxcar_snr':
        ctx.check(st == 'exc', 'wrong number of dimensions refused', repr(shape))
    elif n == 0:
        ctx.check(st == 'exc' or len(ctx.vals(r)) == 0, 'empty array refused', repr(shape))
    elif st == 'ok':
        ctx.check(all(v == v for v in ctx.vals(r)), 'no undefined value')


@harness('F10', quick=[dict(f=f, dtype=d) for f in NAMES for d in ('float64', 'int16')] + [dict(f=f, dtype='uint8') for f in ('ffa2', 'downsample')],
         bounds='all integer data in [0, 8] of 9 samples')
def dtypes_are_converted(ctx):
    """other numeric types give the result of their float32 conversion"""
    nd, f = calls(ctx.R)[ctx.cfg['f']]
    n = 5 if light(ctx.cfg['f']) else 9
    a = ctx.arr('x', n if nd == 1 else (3, 3), 0, 8, dtype=ctx.cfg['dtype'])
    A = ctx.vals(a)
    c = ctx.farr([v + 0.0 for v in A], 'float32', tuple(a.shape))
    st, r = ctx.call(f, a)
    if st == 'exc':
        ctx.check(isinstance(r, (ValueError, TypeError)), 'other types are converted or refused', repr(r))
        return
    same(ctx, r, f(c), 'result for another type')
    ctx.same_all(list(zip(ctx.vals(a), A)), 'input unchanged', tol=1e-6)


@harness('F10', quick=[dict(n=9), dict(n=14)], bounds='9 and 14 samples, 2..4 bins, two widths in [-1, 6]')
def periodogram_checks_widths(ctx):
    """trial widths that do not fit the smallest number of bins are refused"""
    n = ctx.cfg['n']
    bmin = int(ctx.int('bmin', 2, 4))
    w1, w2 = int(ctx.int('w1', -1, 6)), int(ctx.int('w2', -1, 6))
    x = ctx.farr([((3 * i * i) % 5) - 2.0 for i in range(n)])
    st, v = ctx.call(ctx.R.libcpp.periodogram, x, 1.0, np.asarray([w1, w2]), float(bmin), bmin * 1.8, bmin, bmin + 1)
    if 0 < w1 < bmin and 0 < w2 < bmin:
        ctx.check(st == 'ok', 'valid widths accepted', repr(v))
    else:
        ctx.check(st == 'exc' and isinstance(v, (ValueError, OverflowError, TypeError)), 'invalid widths refused', repr(v))


@harness('F10', quick=[dict(size=11, bmin=2, bmax=3, ratio=2.2, hi=3.5), dict(size=17, bmin=3, bmax=3, ratio=3.1, hi=2.6), dict(size=16, bmin=2, bmax=2, ratio=8.0, hi=1.3)],
         thorough=[dict(size=11, bmin=2, bmax=3, ratio=2.2, hi=3.5), dict(size=17, bmin=3, bmax=3, ratio=3.1, hi=2.6), dict(size=16, bmin=2, bmax=2, ratio=8.0, hi=1.3),
                   dict(size=30, bmin=3, bmax=5, ratio=6.0, hi=3.1), dict(size=25, bmin=2, bmax=4, ratio=10.0, hi=2.2)],
         budget_s=400, max_paths=20000,
         bounds='11..17 samples (30 thorough), 2..3 bins (5), every real period_min that gives a first downsampling factor of 1 to 3.5')
def periodogram_stays_in_bounds(ctx):
    """every access of a periodogram is inside the arrays it works on, and every value it returns is
    written, for every real period_min"""
    c = ctx.cfg
    size, bmin, bmax, dt = c['size'], c['bmin'], c['bmax'], 0.5
    k = ctx.real('k', 1, c['hi'])
    pmin = k * (bmin * dt)
    st, v = ctx.call(ctx.R.libcpp.periodogram, ctx.farr([0.0] * size), dt, np.asarray([1]), pmin, pmin * c['ratio'], bmin, bmax)
    if st == 'exc':
        ctx.check(isinstance(v, (IndexError, ValueError)), 'refused', repr(v))
        ctx.check(k * (bmin * 2) > size * (1 - 1e-9), 'data of two periods or more are searched', repr(v))
        return
    p, b, s = v
    L = len(p)
    ctx.check(len(b) == L and tuple(s.shape) == (L, 1), 'one period, bin count and S/N per trial')
    ctx.check(all(bmin <= int(v) <= bmax for v in ctx.vals(b)), 'every number of bins is defined')
    ctx.check_all([v >= pmin * (1 - 1e-9) for v in ctx.vals(p)], 'every period is defined')
    ctx.same_all([(v, 0.0) for v in ctx.vals(s)], 'S/N of a flat series', tol=1e-6)


@harness('F10', quick=[dict(n=6)], thorough=[dict(n=n) for n in (4, 6, 9)], budget_s=100, max_paths=20000,
         bounds='profiles of 6 bins (9 thorough), every triple of widths from 0 to n, in any order, a single one or two rows')
def snr_stays_in_bounds(ctx):
    """the S/N of any list of widths stays inside its arrays: the widths that fit give the same
    values whatever their order, others are refused"""
    n = ctx.cfg['n']
    W = [int(ctx.int('w%d' % i, 0, n)) for i in range(3)]
    rows = ctx.choose('rows', [1, 2])
    X = [float((5 * i * i + 3 * i) % 11) - 4.0 for i in range(n * rows)]
    L = ctx.R.libcpp
    st, v = ctx.call(L.snr2, ctx.farr(X, 'float32', (rows, n)), np.asarray(W), 1.0)
    if all(0 < w < n for w in W):
        ctx.check(st == 'ok', 'valid widths are accepted', repr(v))
        E = []
        for r in range(rows):
            x = X[r * n:(r + 1) * n]
            for w in W:
                b = max(sum(x[(i + k) % n] for k in range(w)) for i in range(n))
                h = math.sqrt((n - w) / (n * w))
                E.append((h + w / (n - w) * h) * b - w / (n - w) * h * sum(x))
        ctx.close_all(list(zip(ctx.vals(v), E)), 'S/N of every width', tol=1e-4)
    else:
        ctx.check(st == 'exc' and isinstance(v, (ValueError, OverflowError, TypeError)), 'widths that do not fit are refused', repr(v))


@harness('F10', bounds='two arrays of 1 to 6 elements each, every shift from -2 to 8')
def arguments_must_agree(ctx):
    """arrays of different lengths and negative shifts are refused"""
    n, m = int(ctx.int('n', 1, 6)), int(ctx.int('m', 1, 6))
    s = int(ctx.int('s', -2, 8))
    X, Y = [1.5 * i - 2.0 for i in range(n)], [float(i * i) for i in range(m)]
    L = ctx.R.libcpp
    st, v = ctx.call(L.fused_rollback_add, ctx.farr(X), ctx.farr(Y), s)
    if s < 0 or n != m:
        ctx.check(st == 'exc' and isinstance(v, (ValueError, TypeError, OverflowError)), 'arrays of different lengths and negative shifts are refused', repr(v))
    else:
        ctx.check(st == 'ok', 'arrays of the same length are accepted', repr(v))
        ctx.close_all([(a, X[i] + Y[(i + s) % n]) for i, a in enumerate(ctx.vals(v))], 'fused_rollback_add', tol=1e-6)
    st, v = ctx.call(L.rollback, ctx.farr(X), s)
    ctx.check((st == 'ok') == (s >= 0), 'negative shifts are refused', repr(v))
