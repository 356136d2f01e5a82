"""FFA transform."""
import math

import numpy as np

from engine.registry import harness
from engine.core import Sym, maximum, minimum, ite, band, bor, bnot, compare, floor
from .common import mined


def shift_of(ctx, out, m, p, probe):
    """shift applied to every input row in every output row, read off impulse
    responses of the transform; None when a response is not one shifted copy"""


def _path_of(R, m, p):
    """shift[s][i] such that output row s is sum_i input[i] rolled left by
    shift[s][i]; determined from unit impulses in column 0"""
    import numpy as np
    sh = [[None] * m for _ in range(m)]
    for i in range(m):
        x = np.zeros((m, p), dtype=np.float32)
        x[i, 0] = 1.0
        y = np.asarray(plainf(R.ffa2(x)))
        for s in range(m):
            nz = [j for j in range(p) if y[s, j] != 0]
            sh[s][i] = (-nz[0]) % p if len(nz) == 1 and y[s, nz[0]] == 1.0 else None
    return sh


def plainf(a):
    if hasattr(a, 'plain'):
        return np.array(a.plain().tolist(), dtype=float)
    return a


def ideal_ok(shifts, m, p, s):
    """the unwrapped path: starts at 0, ends at s, never steps backwards, and
    stays within half the tree depth + rounding of the straight line"""
    # unwrap: shifts are known modulo p; choose the representative nearest the
    # straight line s*i/(m-1)
    import math
    tol = 0.5 * math.ceil(math.log2(m)) + 0.5 if m > 1 else 0.0
    un = []
    for i, x in enumerate(shifts):
        line = s * i / (m - 1.0) if m > 1 else 0.0
        k = round((line - x) / p)
        un.append(x + k * p)
    return un, tol


QUICK_FFA = [dict(m=m, p=p) for m, p in
             [(1, 1), (1, 5), (2, 1), (2, 3), (3, 4), (4, 5), (5, 3), (6, 16), (7, 9), (8, 8), (9, 11), (11, 4), (12, 7), (13, 5),
              (15, 16), (16, 17), (17, 8), (19, 33), (23, 10), (31, 6), (32, 12), (33, 5)]]


def ffa_cfgs_quick():
    c = list(QUICK_FFA)
    for k in mined(2, 70, cap=30):
        if k <= 40:
            c.append(dict(m=k, p=5))
        c.append(dict(m=5, p=k))
    return [dict(x) for x in {tuple(sorted(x.items())): x for x in c}.values()]


def ffa_cfgs_thorough():
    c = ffa_cfgs_quick()
    c += [dict(m=m, p=p) for m in range(1, 65) for p in (4, 7, 13)]
    c += [dict(m=m, p=p) for m in (2, 3, 5, 8, 21) for p in range(1, 70)]
    c += [dict(m=m, p=8) for m in (96, 127, 128, 129)]
    return [dict(x) for x in {tuple(sorted(x.items())): x for x in c}.values()]


@harness('F01', quick=ffa_cfgs_quick, thorough=ffa_cfgs_thorough, budget_s=60,
         bounds='all float inputs |x| <= 8 of every (m, p) listed in configs_explored (m <= 40, p <= 70 quick; m <= 129 thorough)')
def ffa_rows_are_shifted_sums(ctx):
    """every output row s is the sum of one circularly shifted copy of every input
    row; the shifts start at 0, end at s, never decrease and follow the straight line"""
    m, p = ctx.cfg['m'], ctx.cfg['p']
    R = ctx.R
    sh = _path_of(R, m, p)
    ctx.check(all(x is not None for r in sh for x in r), 'each sample of an input row contributes once to an output row')
    x = ctx.arr('x', (m, p))
    y = R.ffa2(x)
    ctx.check(tuple(y.shape) == (m, p), 'shape')
    ctx.check(str(y.dtype) == 'float32', 'dtype')
    X = ctx.vals(x)
    Y = ctx.vals(y)
    for s in range(m):
        pairs = []
        for j in range(p):
            e = 0.0
            for i in range(m):
                e = e + X[i * p + (j + sh[s][i]) % p]
            pairs.append((Y[s * p + j], e))
        ctx.same_all(pairs, 'output row = sum of shifted input rows', tol=1e-2, detail='row %d' % s)
        un, tol = ideal_ok(sh[s], m, p, s)
        ctx.check(sh[s][0] % p == 0, 'the first row is not shifted', 'row %d: %r' % (s, sh[s]))
        ctx.check((sh[s][m - 1] - s) % p == 0, 'the last row is shifted by the row index', 'row %d: %r' % (s, sh[s]))
        if p > 2 * tol + 1:
            ctx.check(all(b >= a for a, b in zip(un, un[1:])), 'shifts never decrease', 'row %d: %r' % (s, un))
            ctx.check(all(abs(u - (s * i / (m - 1.0) if m > 1 else 0.0)) <= tol for i, u in enumerate(un)),
                      'shifts follow the straight line', 'row %d: %r' % (s, un))


@harness('F01', quick=[dict(m=m, p=p) for m, p in [(530, 3), (263, 17), (131, 40)]], thorough=[dict(m=m, p=p) for m, p in [(258, 17), (300, 3), (131, 40), (515, 67), (1030, 5), (2051, 3), (129, 261)]],
         budget_s=200, bounds='up to 300 rows (2051 thorough), one pulse of arbitrary height 1..8 in the first, second, middle or one of the last rows')
def ffa_many_rows(ctx):
    """transforms of many rows: a pulse appears once in every output row, shifted along the
    straight line from shift 0 in the first input row to shift s in the last"""
    m, p = ctx.cfg['m'], ctx.cfg['p']
    i = ctx.choose('row', [0, 1, m // 2 - 1, m // 2, m - 2, m - 1])
    a = ctx.real('a', 1, 8)
    j0 = (2 * p) // 3
    y = ctx.R.ffa2(ctx.farr([a if k == i * p + j0 else 0.0 for k in range(m * p)], 'float32', (m, p)))
    ctx.check(tuple(y.shape) == (m, p), 'shape')
    Y = ctx.vals(y)
    tol = 0.5 * math.ceil(math.log2(m)) + 0.5
    pulses, prev = [], 0.0
    for s in range(m):
        row = Y[s * p:(s + 1) * p]
        nz = [j for j in range(p) if hasattr(row[j], 't') or row[j] != 0]
        ctx.check(len(nz) == 1, 'a sample contributes once to every output row', 'row %d: %r' % (s, nz))
        pulses.append((row[nz[0]], a))
        sh = (j0 - nz[0]) % p
        line = s * i / (m - 1.0)
        if i == 0:
            ctx.check(sh == 0, 'the first row is not shifted', 'row %d' % s)
        elif i == m - 1:
            ctx.check(sh == s % p, 'the last row is shifted by the row index', 'row %d' % s)
        else:
            un = sh + p * round((line - sh) / p)
            ctx.check(abs(un - line) <= tol, 'shifts follow the straight line', 'row %d: %d, expected %g' % (s, un, line))
    ctx.same_all(pulses, 'height of the pulse', tol=1e-3)


@harness('F01', quick=[dict(n=n, p=p) for n, p in [(7, 3), (12, 4), (20, 7), (5, 5), (33, 16), (9, 1), (10, 6)]],
         thorough=[dict(n=n, p=p) for n in range(1, 40) for p in range(1, min(n, 12) + 1)],
         bounds='all float inputs |x| <= 8 for the listed (n, p)')
def ffa1_is_ffa2_of_whole_periods(ctx):
    """ffa1 of n samples at base period p = ffa2 of the first p*floor(n/p) samples; the
    input is not modified"""
    n, p = ctx.cfg['n'], ctx.cfg['p']
    x = ctx.arr('x', n)
    before = ctx.vals(x)
    y1 = ctx.R.ffa1(x, p)
    m = n // p
    y2 = ctx.R.ffa2(x[:m * p].reshape(m, p))
    ctx.check(tuple(y1.shape) == (m, p), 'ffa1 shape')
    ctx.same_all(list(zip(ctx.vals(y1), ctx.vals(y2))), 'ffa1 = ffa2 of the whole periods', tol=1e-2)
    ctx.same_all(list(zip(ctx.vals(x), before)), 'input unchanged', tol=1e-6)
    total = sum(before[:m * p])
    rows = [(sum(ctx.vals(y1)[s * p:(s + 1) * p]), total) for s in range(m)]
    ctx.same_all(rows, 'flux is conserved in every row', tol=2e-2)


@harness('F01', bounds='n <= 24, p in [-2, 30]')
def ffa1_rejects_bad_arguments(ctx):
    """ffa1 refuses base periods outside 1..n, non-integer base periods and non-1D data"""
    n = ctx.choose('n', [1, 2, 5, 24])
    x = ctx.farr([0.5 * i for i in range(n)])
    p = ctx.int('p', -2, 30)
    st, v = ctx.call(ctx.R.ffa1, x, p)
    valid = band(p >= 1, p <= n)
    if bool(valid):
        ctx.check(st == 'ok', 'valid base period accepted', repr(v))
        ctx.check(v.shape[0] * v.shape[1] <= n, 'shape within the data')
    else:
        ctx.check(st == 'exc' and isinstance(v, ValueError), 'base period outside 1..n refused', repr(v))
    ctx.must_raise_type(ValueError, ctx.R.ffa1, 'float base period refused', x, 2.0)
    ctx.must_raise_type(ValueError, ctx.R.ffa1, '2D input refused', x.reshape(1, n), 1)
