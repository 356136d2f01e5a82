"""DM trial selection: P21 select_dms, P22 DMIterator, P23 search ranges; P24 harmonic test."""
import copy
import math
import os
import tempfile
from fractions import Fraction

import numpy as np
from astropy.coordinates import SkyCoord
import astropy.units as uu

from engine.registry import harness
from engine.core import maximum, minimum, ite, band, bor, bnot, floor
from .py_io import inf_text, sigproc_header

KDM = 1.0 / 2.41e-4
BANDS = {'parkes': (1182.0, 1582.0, 1024), 'coarse': (1250.0, 1450.0, 16), 'low': (300.0, 330.0, 64), 'two': (400.0, 800.0, 2)}


def radii(T, band_, wmin):
    """half of the DM step at which the broadening is max(wmin, intra-channel smearing)"""
    f0, f1, nc = band_
    kdisp = KDM * (1 / f0 ** 2 - 1 / f1 ** 2)
    cw, fm = (f1 - f0) / nc, (f0 + f1) / 2
    ks = KDM * (1 / (fm - cw / 2) ** 2 - 1 / (fm + cw / 2) ** 2)
    return [maximum(wmin, ks * d) / kdisp for d in T]


def critical_widths(D, bd):
    """smallest widths at which a gap between two trials closes, or equals the smearing of a trial"""
    f0, f1, nc = bd
    kdisp = KDM * (1 / f0 ** 2 - 1 / f1 ** 2)
    cw, fm = (f1 - f0) / nc, (f0 + f1) / 2
    ks = KDM * (1 / (fm - cw / 2) ** 2 - 1 / (fm + cw / 2) ** 2)
    out = [ks * d for d in D]
    for i, a in enumerate(D):
        for b in D[i + 1:]:
            out += [(b - a) * kdisp / 2, (b - a) * kdisp - ks * b, (b - a) * kdisp - ks * a]
    return out


def sort_terms(V):
    """increasing order; forks"""
    out = []
    for v in V:
        k = 0
        while k < len(out) and bool(out[k] <= v):
            k += 1
        out.insert(k, v)
    return out


def check_selection(ctx, S, D, lo, hi, band_, wmin, label=''):
    """S covers the trials of D between lo and hi with as few trials as the greedy rule allows"""
    T = [d for d in sort_terms(D) if bool(band(d >= lo, d <= hi))]
    n = len(T)
    idx, k = [], 0
    for s in S:
        while k < n and not bool(s == T[k]):
            k += 1
        ctx.check(k < n, label + 'selected trials are available trials in range, in increasing order')
        idx.append(k)
        k += 1
    ctx.check(bool(idx) and idx[0] == 0, label + 'the first trial in range is selected', repr(idx))
    ctx.check(idx[-1] == n - 1, label + 'the last trial in range is selected', repr(idx))
    r = radii(T, band_, wmin)
    gap = lambda i, j: (T[j] - r[j]) - (T[i] + r[i])
    for a, b in zip(idx, idx[1:]):
        if b > a + 1:
            ctx.check(gap(a, b) <= 1e-7, label + 'no part of the DM range is left uncovered', repr(idx))
        if b + 1 < n:
            ctx.check(gap(a, b + 1) > -1e-7, label + 'no trial is selected without need', repr(idx))


@harness('P21', quick=[dict(n=3, band=b) for b in BANDS] + [dict(n=4, band='parkes', sorted=True), dict(n=5, band='coarse', sorted=True)],
         thorough=[dict(n=4, band=b) for b in BANDS] + [dict(n=n, band=b, sorted=True) for n in (5, 7) for b in BANDS], budget_s=250, max_paths=40000,
         bounds='every set of 3 trial DMs (4 thorough) in any order, of 4 and 6 (7 thorough) in increasing order, every DM range and smallest width, 4 observing bands')
def dm_selection(ctx):
    """the selection starts at the first trial in range, ends at the last, leaves no gap that
    available trials could have covered and skips all the trials it can"""
    n = ctx.cfg['n']
    bd = BANDS[ctx.cfg['band']]
    D = ctx.vec('d', n, 0, 2048)
    w = ctx.real('wmin', 1e-6, 4.0)
    if ctx.cfg.get('sorted'):
        ctx.assume(band(*[b > a + 1e-3 for a, b in zip(D, D[1:])]))
        lo, hi = -1.0, 4096.0
    else:
        for i in range(n):
            for j in range(i):
                ctx.assume(bor(D[i] - D[j] > 1e-3, D[j] - D[i] > 1e-3))
        lo, hi = ctx.real('lo', -16, 2048), ctx.real('hi', -16, 2048)
        ctx.assume(band(*[bor(d - x > 1e-6, x - d > 1e-6, d == x) for d in D for x in (lo, hi)]))
    f = ctx.R.mod('riptide.pipeline.dmiter').select_dms
    none = not any([bool(band(d >= lo, d <= hi)) for d in D])
    args = (ctx.farr(D, 'float64') if ctx.choose('array', [True, False]) else list(D), lo, hi, bd[0], bd[1], bd[2], w)
    if none:
        ctx.must_raise(lambda: f(*args), 'an empty selection is refused')
        return
    S = ctx.vals(f(*args))
    check_selection(ctx, S, D, lo, hi, bd, w)


@harness('P21', quick=[dict(n=5, band='parkes', step=10.1), dict(n=6, band='coarse', step=0.3), dict(n=6, band='low', step=0.001)], budget_s=100, max_paths=4000,
         bounds='5..6 evenly spaced trial DMs with decimals, every smallest width')
def dm_selection_decimals(ctx):
    """the selected DMs are the very numbers given, to the last digit"""
    n, bd, st = ctx.cfg['n'], BANDS[ctx.cfg['band']], ctx.cfg['step']
    D = [float('%.12g' % (0.7 + k * st)) for k in range(n)]
    w = ctx.real('wmin', 1e-6, 4.0)
    ctx.assume(band(*[bor(w - x > 1e-9, x - w > 1e-9) for x in critical_widths(D, bd)]))
    S = ctx.vals(ctx.R.mod('riptide.pipeline.dmiter').select_dms([D[2]] + D[:2] + D[3:], D[0], D[-1], bd[0], bd[1], bd[2], w))
    for s in S:
        ctx.check(any(float(s) == x for x in D), 'a selected DM is one of the trial DMs', repr(s))
    check_selection(ctx, S, D, D[0], D[-1], bd, w)


# ---------------------------------------------------------------- P22
def write_inf(ctx, d, k, dm, tsamp=0.25, nsamp=10, fbot=1182.0, cbw=0.390625, nchan=1024, raj='05:34:31.9000', decj='22:00:52.0000', data=None):
    f = os.path.join(d, 'f%d.inf' % k)
    with open(f, 'w') as g:
        g.write(inf_text(ctx, basename='f%d' % k, dm=dm, tsamp=tsamp, nsamp=nsamp, fbot=fbot, bw=cbw * nchan if not ctx.is_sym(cbw) else 400.0, cbw=cbw,
                         nchan=nchan, raj=raj, decj=decj))
    if data is not None:
        ctx.write_data(f[:-4] + '.dat', data, 'float32')
    return os.path.realpath(f)


GB = SkyCoord("05:34:31.9000", "22:00:52.0000", unit=(uu.hour, uu.degree)).galactic.b.deg  # of the default position


@harness('P22', quick=[dict(n=3, cap=True), dict(n=3, cap=False)], thorough=[dict(n=4, cap=True), dict(n=4, cap=False)], budget_s=250, max_paths=40000,
         bounds='3 files (4 thorough) of arbitrary distinct DMs, every DM range given or left blank, every cap on DM |sin b|, every width')
def dm_iterator_range(ctx):
    """DMIterator selects between the requested limits (blank means no limit), capped by
    dmsinb_max / |sin b|, and iterates over the files of exactly those trials"""
    n = ctx.cfg['n']
    D = ctx.vec('d', n, 0, 2048)
    for i in range(n):
        for j in range(i):
            ctx.assume(bor(D[i] - D[j] > 1e-3, D[j] - D[i] > 1e-3))
    w = ctx.real('wmin', 1e-6, 4.0)
    if ctx.cfg['cap']:
        lo, hi = None, (None if ctx.choose('nohi', [True, False]) else ctx.real('hi', 0, 2048))
        cap = ctx.real('cap', 0, 256)
    else:
        lo, hi = ctx.real('lo', 0, 2048), (None if ctx.choose('nohi', [True, False]) else ctx.real('hi', 0, 2048))
        cap = None
    ch = ctx.choose('chunk', [1, 2, 5])
    lim = []
    if lo is not None:
        lim.append(lo)
    if hi is not None:
        lim.append(hi)
    kc = 1 / abs(math.sin(math.radians(GB)))
    if cap is not None:
        lim.append(cap * kc)
    ctx.assume(band(*[bor(d - x > 1e-3, x - d > 1e-3, band(d == 0, x == 0)) for d in D for x in lim]))
    elo = lo if lo is not None else -1.0
    ehi = hi if hi is not None else 1e6
    if cap is not None:
        ehi = minimum(ehi, cap * kc)
    with tempfile.TemporaryDirectory() as d:
        files = [write_inf(ctx, d, k, x) for k, x in enumerate(D)]
        mk = lambda: ctx.R.mod('riptide.pipeline.dmiter').DMIterator(files, lo, hi, dmsinb_max=cap, fmt='presto', wmin=w)
        if not any([bool(band(x >= elo, x <= ehi)) for x in D]):
            ctx.must_raise(mk, 'an empty selection is refused')
            return
        it = mk()
    S = ctx.vals(it.selected_dms)
    f0 = 1182.0
    check_selection(ctx, S, D, elo, ehi, (f0, f0 + 400.0, 1024), w)
    ctx.close_all([(it.fmin, f0), (it.fmax, f0 + 400.0), (it.nchans, 1024)], 'observing band', tol=1e-6)
    exp = []
    for s in S:
        k = [i for i, x in enumerate(D) if bool(x == s)][0]
        ctx.check(it.get_filename(s) == files[k], 'file of a trial DM', repr(it.get_filename(s)))
        exp.append(files[k])
    got = [list(c) for c in it.iterate_filenames(chunksize=ch)]
    ctx.check([f for c in got for f in c] == exp, 'every selected file once, in order', repr(got))
    ctx.check(all(len(c) == ch for c in got[:-1]) and all(0 < len(c) <= ch for c in got), 'size of the chunks', repr([len(c) for c in got]))


@harness('P22', budget_s=60, max_paths=40000, bounds='3 files, two bands with either sign of the channel width, arbitrary sampling times and lengths')
def dm_iterator_metadata(ctx):
    """the observing band is that of the files when they agree, otherwise the one of the
    configuration; the reported length is the median and the sampling time the largest"""
    kind = ctx.choose('kind', ['same', 'fbot', 'nchan', 'cbw', 'channels'])
    odd_k = ctx.choose('odd', [2, 0, 1]) if kind != 'same' else 2
    sel = (None, None) if kind != 'same' else ctx.choose('range', [(None, None), (5.0, None), (None, 15.0), (9.0, 11.0)])
    man = ctx.choose('manual', [None, (1000.0, 1400.0, 32)])
    fb, cw = ctx.choose('band', [(1182.25, 0.390625), (300.5, 1.75)])
    neg = ctx.choose('neg', [False, True])
    sg = -1 if neg else 1
    dt = [ctx.real('t%d' % i, 1e-3, 8) for i in range(3)]
    ns = [int(ctx.choose('ns', [8, 20])), 10, 16]
    with tempfile.TemporaryDirectory() as d:
        files = []
        for k in range(3):
            odd = k == odd_k
            ch = odd and kind == 'channels'
            files.append(write_inf(ctx, d, k, 0.1 + 10.1 * k, tsamp=dt[k], nsamp=ns[k], fbot=fb + ((1.5, 0.001953125)[cw > 1] if odd and kind == 'fbot' else 0),
                                   cbw=sg * (cw / 2 if ch else cw + (0.25 if odd and kind == 'cbw' else 0)),
                                   nchan=128 if ch else 64 + (16 if odd and kind == 'nchan' else 0)))
        kw = dict(zip(('fmin', 'fmax', 'nchans'), man)) if man else {}
        mk = lambda: ctx.R.mod('riptide.pipeline.dmiter').DMIterator(files, *sel, dmsinb_max=None, fmt='presto', wmin=1e-3, **kw)
        if kind != 'same' and man is None:
            ctx.must_raise(mk, 'files of different bands are refused')
            return
        it = mk()
    if kind == 'same':
        a, b = fb, fb + sg * 64 * cw
        E = (minimum(a, b), maximum(a, b), 64)
    else:
        E = man
    ctx.close_all([(it.fmin, E[0]), (it.fmax, E[1]), (it.nchans, E[2])], 'observing band', tol=1e-6)
    T = [n * t for n, t in zip(ns, dt)]
    a, b, c = T
    med = maximum(minimum(a, b), minimum(maximum(a, b), c))
    ctx.close(it.tobs_median(), med, 'median length', tol=1e-6)
    ctx.close(it.tsamp_max(), maximum(maximum(dt[0], dt[1]), dt[2]), 'largest sampling time', tol=1e-9)


@harness('P22', budget_s=100, bounds='2 files, SIGPROC or PRESTO, several positions', max_paths=4000)
def dm_iterator_refusals(ctx):
    """different positions, no files, and SIGPROC data without a configured band are refused"""
    kind = ctx.choose('kind', ['position', 'empty', 'sigproc', 'sigproc-band'])
    D = ctx.R.mod('riptide.pipeline.dmiter').DMIterator
    with tempfile.TemporaryDirectory() as d:
        if kind == 'position':
            pos = ctx.choose('pos', [('05:34:31.9000', '22:00:53.0000'), ('05:34:31.9000', '-22:00:52.0000'), ('05:34:32.9000', '22:00:52.0000')])
            odd = ctx.choose('odd', [0, 1, 2])
            files = [write_inf(ctx, d, k, 1.0 + k, **(dict(raj=pos[0], decj=pos[1]) if k == odd else {})) for k in range(3)]
            ctx.must_raise(lambda: D(files, None, None, dmsinb_max=None), 'files of different positions are refused')
            ctx.must_raise(lambda: D(files, None, None, dmsinb_max=45.0), 'files of different positions are refused')
        elif kind == 'empty':
            ctx.must_raise(lambda: D([], 0.0, 10.0, dmsinb_max=None), 'no files')
        else:
            files = []
            dms = [ctx.real('a', 0, 100), ctx.real('b', 101, 200)]
            for k, dm in enumerate(dms):
                f = os.path.join(d, 's%d.tim' % k)
                with open(f, 'wb') as g:
                    g.write(sigproc_header(ctx, [('tsamp', 0.25), ('nbits', 32), ('nchans', 1), ('refdm', dm), ('src_raj', 53431.9), ('src_dej', 220052.0)])
                            + b'\0' * 4 * (10 + k))
                files.append(f)
            if kind == 'sigproc':
                miss = ctx.choose('missing', ['all', 'fmin', 'fmax', 'nchans'])
                kw = {} if miss == 'all' else {k: v for k, v in dict(fmin=1000.0, fmax=1400.0, nchans=32).items() if k != miss}
                ctx.must_raise_type(ValueError, lambda: D(files, None, None, dmsinb_max=None, fmt='sigproc', **kw), 'the band must be configured')
            else:
                it = D(files, None, None, dmsinb_max=None, fmt='sigproc', fmin=1000.0, fmax=1400.0, nchans=32, wmin=1e-3)
                ctx.check((it.fmin, it.fmax, it.nchans) == (1000.0, 1400.0, 32), 'observing band')
                check_selection(ctx, ctx.vals(it.selected_dms), dms, -1.0, 1e4, (1000.0, 1400.0, 32), 1e-3)
                ctx.close(it.tobs_median(), 0.25 * 10.5, 'median length', tol=1e-6)


# ---------------------------------------------------------------- configuration used by the pipeline harnesses
def search_range(pmin, pmax, bmin=8, bmax=10, cbins=8, subints=4, name='r', fs=None, fp=None):
    return {'name': name, 'ffa_search': dict(period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax, **(fs or {})),
            'find_peaks': dict(fp or {}), 'candidates': {'bins': cbins, 'subints': subints}}


def config(ranges, **kw):
    c = {'processes': 2, 'data': {'format': 'presto', 'fmin': None, 'fmax': None, 'nchans': None},
         'dmselect': {'min': None, 'max': None, 'dmsinb_max': None}, 'dereddening': {'rmed_width': 5.0, 'rmed_minpts': 101},
         'ranges': ranges, 'clustering': {'radius': 0.2},
         'harmonic_flagging': {'denom_max': 100, 'phase_distance_max': 1.0, 'dm_distance_max': 3.0, 'snr_distance_max': 3.0},
         'candidate_filters': {'dm_min': None, 'snr_min': None, 'remove_harmonics': False, 'max_number': None}, 'plot_candidates': False}
    for k, v in kw.items():
        if isinstance(v, dict):
            c[k] = dict(c[k], **v)
        else:
            c[k] = v
    return c


# ---------------------------------------------------------------- P23
@harness('P23', quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)], budget_s=200, max_paths=20000,
         bounds='1..3 contiguous ranges (5 thorough) with arbitrary boundaries, arbitrary period')
def search_range_of_period(ctx):
    """the range of a period is the one whose [period_min, period_max) holds it, the first
    below all of them and the last above; the smallest width is that of the finest range"""
    n = ctx.cfg['n']
    B = ctx.vec('b', n + 1, 0.01, 100)
    ctx.assume(band(*[b > a + 1e-3 for a, b in zip(B, B[1:])]))
    p = ctx.real('p', 0.005, 200)
    nb = [ctx.choose('bins%d' % i, [8, 250]) for i in range(n)]
    rs = [search_range(a, b, bmin=k, bmax=k + 2, cbins=16 + i, subints=3 + i, name='range%d' % i) for i, (a, b, k) in enumerate(zip(B, B[1:], nb))]
    P = ctx.R.mod('riptide.pipeline.pipeline').Pipeline(config(rs))
    k = 0
    while k < n - 1 and bool(p >= B[k + 1]):
        k += 1
    r = P.get_search_range(p)
    ctx.check(r is not None and r['name'] == 'range%d' % k, 'range of the period', '%r, expected %d' % (r and r['name'], k))
    ctx.check(r['candidates'] == {'bins': 16 + k, 'subints': 3 + k}, 'parameters of the range', repr(r['candidates']))
    r['name'] = 'changed'
    ctx.check([q['name'] for q in P.config['ranges']] == ['range%d' % i for i in range(n)], 'the configuration is not modified')
    W = [a / q for a, q in zip(B, nb)]
    e = W[0]
    for x in W[1:]:
        e = minimum(e, x)
    ctx.close(P.wmin(), e, 'smallest width', tol=1e-6)


@harness('P23', quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], budget_s=200, max_paths=20000,
         bounds='2..3 ranges (4 thorough) with arbitrary limits, arbitrary sampling time')
def ranges_validation(ctx):
    """ranges which are not contiguous, or finer than the data allow, are refused, the
    others accepted"""
    n = ctx.cfg['n']
    A, B = ctx.vec('a', n, 0.01, 100), ctx.vec('b', n, 0.01, 100)
    dt = ctx.real('tsamp', 1e-4, 4)
    nb = [ctx.choose('bins%d' % i, [8, 12]) for i in range(n)]
    rs = [search_range(a, b, bmin=k, bmax=k + 2, cbins=10, name='range%d' % i) for i, (a, b, k) in enumerate(zip(A, B, nb))]
    V = ctx.R.mod('riptide.pipeline.config_validation')
    for k in (8, 12):   # exactly one sample per bin
        V.validate_ranges([search_range(k * 0.125, 4.0, bmin=k, bmax=k + 2, cbins=k), search_range(4.0, 8.0, bmin=k, bmax=k + 2, cbins=k)], 0.125)
    for g in (1e-7, -1e-7, 2.0 ** -40):   # nearly contiguous
        ctx.must_raise_type(V.InvalidSearchRange, lambda: V.validate_ranges([search_range(1.0, 4.0, bmin=8, bmax=10, cbins=8), search_range(4.0 + g, 8.0, bmin=8, bmax=10, cbins=8)], 0.03125),
                            'ranges must be contiguous')
    ok = band(*[max(k, 10) * dt <= a for a, k in zip(A, nb)], *[b == a for b, a in zip(B, A[1:])])
    ctx.assume(band(*[bor(k * dt - a > 1e-5, a - k * dt > 1e-5) for a, q in zip(A, nb) for k in (q, 10)],
                    *[bor(b == a, b - a > 1e-5, a - b > 1e-5) for b, a in zip(B, A[1:])]))
    if bool(ok):
        V.validate_ranges(rs, dt)
        ctx.check(True, 'valid ranges are accepted')
    else:
        ctx.must_raise_type(V.InvalidSearchRange, lambda: V.validate_ranges(rs, dt), 'invalid ranges are refused')


# ---------------------------------------------------------------- P24
class Cand:
    def __init__(self, freq, snr, ducy, dm):
        self.freq, self.snr, self.ducy, self.dm = freq, snr, ducy, dm

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__


def ratios(D, lo, hi):
    return sorted({Fraction(p, q) for q in range(1, D + 1) for p in range(int(lo * q), int(hi * q) + 2)})


@harness('P24', quick=[dict(D=3, f=1.0), dict(D=5, f=0.75)], thorough=[dict(D=D, f=f) for D in (2, 3, 5, 8) for f in (1.0, 0.75)], budget_s=300, max_paths=40000,
         bounds='every frequency between a fraction and three times the reference, denominators up to 3 and 5 (8 thorough), arbitrary S/N, duty cycles, DMs, length and limits')
def harmonic_test(ctx):
    """the fraction is the best p/q with a limited denominator, and candidates are related
    when phase, DM and S/N distances are all within their limits"""
    D, f0 = ctx.cfg['D'], ctx.cfg['f']
    fast = ctx.choose('fast', [True, False])
    # H = f0 x (F faster or slower): the ratio fast / slow is x in both cases
    x = ctx.real('x', 1.0, 3.0)
    F_ = ratios(D, 1, 3)
    ctx.assume(band(x > 1 + 1e-6, x < 3 - 1e-6, *[bor(x - (a + b) / 2 > 1e-6, (a + b) / 2 - x > 1e-6) for a, b in zip(F_, F_[1:])]))
    if fast:
        fF, fH = f0, f0 * x
        slow, quick_ = fF, fH
    else:
        fF, fH = f0 * x, f0
        slow, quick_ = fH, fF
    sF, sH = ctx.real('sF', 8, 64), ctx.real('sH', 1, 64)
    wF, wH = ctx.real('wF', 0.01, 0.5), ctx.real('wH', 0.01, 0.5)
    dF, dH = ctx.real('dF', 0, 512), ctx.real('dH', 0, 512)
    tobs = 64.0
    fmin, fmax = 1182.0, 1582.0
    F, H = Cand(fF, sF, wF, dF), Cand(fH, sH, wH, dH)
    lim = {'phase_distance_max': ctx.real('pm', 0.1, 4), 'dm_distance_max': ctx.real('dmm', 0.1, 8), 'snr_distance_max': ctx.real('sm', 0.1, 8)}
    h = ctx.R.mod('riptide.pipeline.harmonic_testing').htest
    rel, fr = h(F, H, tobs, fmin, fmax, denom_max=D, **lim)
    up = fr if fast else 1 / fr
    ctx.check(up.denominator <= D, 'largest denominator', repr(fr))
    dist = abs(x - up)
    ctx.check_all([dist <= abs(x - g) + 1e-9 for g in F_], 'closest fraction', repr(fr))
    phase = abs(up * slow - quick_) * tobs / (wH if fast else wF)
    disp = abs(dF - dH) * 4.15e3 * (1 / fmin ** 2 - 1 / fmax ** 2)
    # disp / min(width) <= limit, without a division by the unknown minimum
    dmok = band(disp * fF <= lim['dm_distance_max'] * wF, disp * fH <= lim['dm_distance_max'] * wH)
    es = abs(sH - sF / math.sqrt(up.numerator * up.denominator))
    far = lambda a, b, e=1e-3: bor(a - b > e, b - a > e)
    ctx.assume(band(far(phase, lim['phase_distance_max']), far(es, lim['snr_distance_max']), far(disp * fF, lim['dm_distance_max'] * wF, 1e-4),
                    far(disp * fH, lim['dm_distance_max'] * wH, 1e-4)))
    exp = band(phase <= lim['phase_distance_max'], dmok, es <= lim['snr_distance_max'])
    if bool(rel):
        ctx.check(exp, 'related only within all the limits', repr(fr))
    else:
        ctx.check(bnot(exp), 'related when within all the limits', repr(fr))


@harness('P24', bounds='arbitrary length and band limits', budget_s=60)
def harmonic_test_refusals(ctx):
    """an empty band or a null length are refused"""
    a, b, t = ctx.real('fmin', 1, 16), ctx.real('fmax', 1, 16), ctx.real('tobs', -4, 4)
    F, H = Cand(1.0, 20.0, 0.1, 5.0), Cand(2.0, 14.0, 0.1, 5.0)
    h = ctx.R.mod('riptide.pipeline.harmonic_testing').htest
    if bool(bor(b <= a, t <= 0)):
        ctx.must_raise(lambda: h(F, H, t, a, b), 'invalid parameters are refused')
    else:
        rel, fr = h(F, H, t, a, b)
        ctx.check(fr == 2, 'fraction')
        ctx.check(bool(rel), 'second harmonic')


@harness('P24', budget_s=100, max_paths=20000, bounds='signals exactly on the limits; arbitrary S/N, DM and duty cycles with the documented default limits')
def harmonic_test_limits(ctx):
    """the limits are inclusive, 100 is the default for denominators, 1 for the phase and 3 for the DM and S/N distances"""
    M = ctx.R.mod('riptide.pipeline.harmonic_testing')
    h, f0, f1 = M.htest, 1182.0, 1582.0
    case = ctx.choose('case', ['exact', 'snr', 'dm', 'phase', 'denominator'])
    if case == 'exact':
        k = ctx.choose('k', [0, 1, 2, 3])
        F, H = Cand(1.0, 32.0, 0.25, 5.0), Cand(4.0 if k < 2 else 0.25, (16.0 - 2.5, 16.0 + 2.5)[k % 2], 0.25, 5.0)
        ctx.check(bool(h(F, H, 64.0, f0, f1, snr_distance_max=2.5)[0]), 'S/N distance equal to the limit')
        ctx.check(not h(F, H, 64.0, f0, f1, snr_distance_max=2.4375)[0], 'S/N distance above the limit')
        F, H = Cand(1.0, 20.0, 0.5, 5.0), Cand(1.0 + 2.0 ** -6 * (-1) ** k, 20.0, 0.5, 5.0)
        if k % 2:
            F, H = H, F
        tobs = 64.0 * (1.5 if k < 2 else 1)
        ctx.check(bool(h(F, H, tobs, f0, f1, denom_max=4, phase_distance_max=tobs / 32)[0]), 'phase distance equal to the limit')
        ctx.check(not h(F, H, tobs, f0, f1, denom_max=4, phase_distance_max=tobs / 32 - 0.0625)[0], 'phase distance above the limit')
        F, H = Cand(1.0, 20.0, 0.25, 5.0), Cand(1.0, 20.0, 0.5, 9.0)
        d = M.hdiag(F, H, 64.0, f0, f1)
        ctx.check(bool(h(F, H, 64.0, f0, f1, dm_distance_max=d['dm_distance'])[0]), 'DM distance equal to the limit')
        return
    far = lambda a, b, e=1e-4: bor(a - b > e, b - a > e)
    up = ctx.choose('up', [True, False])
    f, s, w, d = (2.0 if up else 0.5), 32.0 / math.sqrt(2), 0.25, 5.0
    if case == 'snr':
        s = ctx.real('s', 1, 64)
        ctx.assume(far(abs(s - 32.0 / math.sqrt(2)), 3))
        ok = abs(s - 32.0 / math.sqrt(2)) <= 3
    elif case == 'dm':
        d = ctx.real('d', 0, 512)
        x = abs(d - 5.0) * 4.15e3 * (f0 ** -2 - f1 ** -2) / (0.125 if up else 0.25)
        ctx.assume(far(x, 3))
        ok = x <= 3
    elif case == 'phase':
        w = ctx.real('w', 0.01, 0.99)
        f = f * (1 + 1 / 4096)
        # the frequencies drift by a fixed number of turns
        x = (2 / 4096 * 64 / w) if up else (0.5 / 4096 * 2 * 64 / 0.25)
        ctx.assume(far(x, 1, 1e-4) if up else True)
        ok = (x <= 1) if up else (x <= 1)
    else:
        n = ctx.choose('n', [99, 100, 101])
        f, s = (n + 1) / n, 32.0 / math.sqrt(n * (n + 1))
        ok = n <= 100
        if not up:
            f, s = 1 / f, s
    rel, fr = h(Cand(1.0, 32.0, 0.25, 5.0), Cand(f, s, w, d), 640.0 if case == 'denominator' else 64.0, f0, f1)
    if case == 'denominator':
        r = fr if up else 1 / fr
        ctx.check(r.denominator <= 100 and (not ok or r == Fraction(n + 1, n)), 'denominators up to 100', repr(fr))
        return
    ctx.check(fr == (2 if up else Fraction(1, 2)), 'fraction', repr(fr))
    if bool(rel):
        ctx.check(ok, 'related within the default limits only', repr(f))
    else:
        ctx.check(bnot(ok), 'related within the default limits', repr(f))
