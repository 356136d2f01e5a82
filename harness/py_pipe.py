"""The multi-DM pipeline: P25 harmonic flagging, P26 candidate filters, P27 clustering and
tables, P28 configuration, P29 worker pool, P30 candidates, P31 rseek, P36 whole runs."""
import contextlib
import io
import copy
import csv
import glob
import math
import os
import tempfile
from fractions import Fraction

import numpy as np

from engine.registry import harness
from engine.core import maximum, minimum, ite, band, bor, bnot, floor
from .py_dm import config, search_range, write_inf, sort_terms
from .py_io import sigproc_header
from .pool import pools
from .common import REPO


def pipeline(ctx, **kw):
    rs = kw.pop('ranges', None) or [search_range(2.0, 4.0), search_range(4.0, 9.0, name='s')]
    return ctx.R.mod('riptide.pipeline.pipeline').Pipeline(config(rs, **kw))


def prepared(ctx, d, P, dms=(0.0, 10.0, 20.0), nsamp=(64, 64, 64), tsamp=0.125):
    P.prepare([write_inf(ctx, d, k, dm, tsamp=tsamp, nsamp=n) for k, (dm, n) in enumerate(zip(dms, nsamp))])
    return P


def peak(ctx, freq, snr, dm=0.0, ducy=0.125, width=2, iw=1, ip=3, period=None):
    Pk = ctx.R.mod('riptide.peak_detection').Peak
    return Pk(period=period if period is not None else 1.0 / freq, freq=freq, width=width, ducy=ducy, iw=iw, ip=ip, snr=snr, dm=dm)


def cluster(ctx, peaks):
    return ctx.R.mod('riptide.pipeline.peak_cluster').PeakCluster(peaks)


# ---------------------------------------------------------------- P25
def best_fraction(x, D):
    """closest p/q to the number x"""
    return Fraction(x).limit_denominator(D)


FREQS = {'family': [0.5, 1.0, 1.5], 'pair': [0.25, 0.5, 0.7], 'thirds': [0.75, 0.25, 0.5], 'close': [0.5, 0.501, 1.0],
         'drift': [0.5, 0.50735, 1.0263]}


@harness('P25', quick=[dict(f=k, vary=v) for k in FREQS for v in ('snr', 'dm')], thorough=[dict(f=k, vary=v) for k in FREQS for v in ('snr', 'dm', 'both')]
         + [dict(f='four', vary='snr')], budget_s=250, max_paths=40000,
         bounds='3 clusters (4 thorough) of five sets of frequencies, every S/N, every DM, in any order')
def harmonics_flagged(ctx):
    """taken by decreasing S/N, a cluster is flagged as the harmonic of the brightest cluster which
    is not a harmonic itself and passes the test; ranks follow the S/N"""
    c = ctx.cfg
    fr = FREQS.get(c['f'], [0.25, 0.5, 0.75, 1.0])
    n = len(fr)
    lim = dict(denom_max=6, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=3.0)
    sn = ctx.vec('s', n, 7, 40) if c['vary'] in ('snr', 'both') else [20.0, 15.0, 13.0, 10.5][:n]
    dm = ctx.vec('d', n, 0, 64) if c['vary'] in ('dm', 'both') else [5.0] * n
    du = [0.125, 0.0625, 0.25, 0.125]
    P = pipeline(ctx, harmonic_flagging=lim)
    with tempfile.TemporaryDirectory() as d:
        prepared(ctx, d, P, nsamp=(64, 80, 72), tsamp=0.125)
    tobs, f0, f1 = 72 * 0.125, 1182.0, 1582.0
    for i in range(n):
        for j in range(i):
            if c['vary'] != 'dm':
                ctx.assume(bor(sn[i] - sn[j] > 1e-3, sn[j] - sn[i] > 1e-3))
    C = [cluster(ctx, [peak(ctx, f, s, d, ducy=w), peak(ctx, f * 1.001, 1.0, 0.0, ducy=0.5)] if i % 2 else [peak(ctx, f, s, d, ducy=w)])
         for i, (f, s, d, w) in enumerate(zip(fr, sn, dm, du))]
    P.clusters = list(C)
    # expected
    order = []
    for i in range(n):
        k = 0
        while k < len(order) and bool(sn[order[k]] > sn[i]):
            k += 1
        order.insert(k, i)
    parent = {}
    far = lambda a, b, e: bor(a - b > e, b - a > e)
    for a in range(n):
        for b in range(a + 1, n):
            F, H = order[a], order[b]
            if F in parent or H in parent:
                continue
            slow, fast = (F, H) if fr[F] < fr[H] else (H, F)
            q = best_fraction(fr[fast] / fr[slow], lim['denom_max'])
            phase = abs(float(q * Fraction(fr[slow]) - Fraction(fr[fast]))) * tobs / du[fast]
            disp = abs(dm[F] - dm[H]) * 4.15e3 * (f0 ** -2 - f1 ** -2) / min(du[F] / fr[F], du[H] / fr[H])
            es = abs(sn[H] - sn[F] / math.sqrt(q.numerator * q.denominator))
            ctx.assume(band(far(disp, 3.0, 1e-4), far(es, 3.0, 1e-4)))
            if phase <= 1.0 and bool(band(disp <= 3.0, es <= 3.0)):
                parent[H] = (F, q if H == fast else 1 / q)
    P.flag_harmonics()
    ctx.check(len(P.clusters) == n and all(any(x is y for y in C) for x in P.clusters), 'the clusters are kept')
    for r, i in enumerate(order):
        ctx.check(C[i].rank == r, 'ranks follow the S/N', '%r' % [x.rank for x in C])
    for i in range(n):
        got = C[i].parent_fundamental
        if i in parent:
            F, q = parent[i]
            ctx.check(got is C[F], 'harmonic flag and parent', 'cluster %d of %r' % (i, parent))
            ctx.check(C[i].hfrac == q, 'harmonic fraction', '%r, expected %r' % (C[i].hfrac, q))
            ctx.check(C[i].is_harmonic, 'harmonic flag')
            sd = C[i].summary_dict()
            ctx.check((sd['hfrac_num'], sd['hfrac_denom'], sd['fundamental_rank'], sd['rank']) == (q.numerator, q.denominator, order.index(F), order.index(i)),
                      'summary of a harmonic', repr(sd))
        else:
            ctx.check(got is None and not C[i].is_harmonic, 'no flag on a fundamental', 'cluster %d of %r' % (i, parent))
            sd = C[i].summary_dict()
            ctx.check((sd['hfrac_num'], sd['hfrac_denom'], sd['fundamental_rank']) == (0, 0, order.index(i)), 'summary of a fundamental', repr(sd))


# ---------------------------------------------------------------- P26
@harness('P26', quick=[dict(n=3, cut=k) for k in ('dm', 'snr', 'both')] + [dict(n=4, cut='none')], thorough=[dict(n=4, cut=k) for k in ('dm', 'snr', 'both', 'none')],
         budget_s=250, max_paths=60000, bounds='3..4 clusters of arbitrary S/N and DM, every threshold or none, every set of harmonics, every maximum number')
def candidate_filters(ctx):
    """candidates are the clusters above the DM and S/N thresholds which are not harmonics (when
    these are removed), and the brightest of them when their number is limited"""
    n, cut = ctx.cfg['n'], ctx.cfg['cut']
    sn, dm = ctx.vec('s', n, -8, 40), (ctx.vec('d', n, 0, 64) if cut in ('dm', 'both') else [float(i) for i in range(n)])
    smin = ctx.real('smin', -8, 40) if cut in ('snr', 'both') else None
    dmin = ctx.real('dmin', -1, 64) if cut in ('dm', 'both') else None
    rem = ctx.choose('remove', [True, False, None])
    nmax = ctx.choose('max', [None, 1, 2, n + 1])
    harm = [ctx.choose('h%d' % i, [False, True]) for i in range(1, n)]
    for i in range(n):
        if smin is not None:
            ctx.assume(bor(sn[i] == smin, sn[i] - smin > 1e-4, smin - sn[i] > 1e-4))
        if dmin is not None:
            ctx.assume(bor(dm[i] == dmin, dm[i] - dmin > 1e-4, dmin - dm[i] > 1e-4))
        for j in range(i):
            ctx.assume(bor(sn[i] - sn[j] > 1e-4, sn[j] - sn[i] > 1e-4, *([sn[i] == sn[j]] if j == i - 1 and cut in ('snr', 'none') else [])))
    P = pipeline(ctx, candidate_filters=dict(dm_min=dmin, snr_min=smin, remove_harmonics=rem, max_number=nmax))
    C = [cluster(ctx, [peak(ctx, 0.5, -9.0, 40.0), peak(ctx, 0.5 + i, s, d)]) for i, (s, d) in enumerate(zip(sn, dm))]
    for i, h in enumerate(harm):
        if h:
            C[i + 1].parent_fundamental, C[i + 1].hfrac = C[0], (Fraction(2), Fraction(1, 3), Fraction(3, 2))[i]
    P.clusters = list(C)
    P.apply_candidate_filters()
    keep = [i for i in range(n) if (dmin is None or bool(dm[i] >= dmin)) and (smin is None or bool(sn[i] >= smin)) and not (rem and i and harm[i - 1])]
    number = min(nmax, len(keep)) if nmax else len(keep)
    got = [[i for i in range(n) if x is C[i]] for x in P.clusters_filtered]
    ctx.check(all(len(g) == 1 for g in got), 'candidates are clusters')
    got = [g[0] for g in got]
    ctx.check(len(set(got)) == len(got) == number and set(got) <= set(keep), 'clusters kept', '%r, expected %d of %r' % (got, number, keep))
    for i in got:   # either of two equally bright ones will do
        for j in set(keep) - set(got):
            ctx.check(sn[i] >= sn[j], 'the brightest are kept')
    ctx.check(len(P.clusters) == n and all(x is y for x, y in zip(P.clusters, C)), 'the clusters are left as they were')


# ---------------------------------------------------------------- P27
@harness('P27', quick=[dict(n=1), dict(n=3), dict(n=4)], thorough=[dict(n=n) for n in (2, 4, 5, 6)], budget_s=250, max_paths=60000,
         bounds='up to 4 peaks (6 thorough) of every frequency and S/N, every clustering radius')
def peaks_clustered(ctx):
    """peaks are clustered by frequency with the radius divided by the median length of the data,
    each in one cluster, whose centre is its brightest peak"""
    n = ctx.cfg['n']
    F = ctx.vec('f', n, 0.1, 2)
    ctx.assume(band(*[a - b > 1e-5 for a, b in zip(F, F[1:])]))   # by increasing period
    S = ctx.vec('s', n, 5, 40)
    rad = ctx.real('radius', 0.01, 4)
    P = pipeline(ctx, clustering={'radius': rad})
    with tempfile.TemporaryDirectory() as d:
        prepared(ctx, d, P, nsamp=(64, 160, 96), tsamp=0.125)
    tm = 12.0
    for a, b in zip(F, F[1:]):
        ctx.assume(bor((a - b) * tm - rad > 1e-5, rad - (a - b) * tm > 1e-5))
    for i in range(n):
        for j in range(i):
            ctx.assume(bor(S[i] - S[j] > 1e-4, S[j] - S[i] > 1e-4))
    pk = [peak(ctx, f, s, dm=10.0 * (i % 3), period=1.0 + i, width=1 + (2 * i) % 5, ducy=0.0625 * (1 + (2 * i) % 5)) for i, (f, s) in enumerate(zip(F, S))]
    P.peaks = list(pk)
    P.cluster_peaks()
    idx = [[p.period for p in c] for c in P.clusters]
    idx = sorted(sorted(int(round(q - 1.0)) for q in c) for c in idx)
    exp, cur = [], [0]
    for i in range(1, n):
        if bool((F[i - 1] - F[i]) * tm > rad):
            exp.append(cur)
            cur = []
        cur.append(i)
    exp.append(cur)
    ctx.check(idx == exp, 'clusters of peaks', '%r, expected %r' % (idx, exp))
    for c in P.clusters:
        ctx.check_all([c.centre.snr >= p.snr for p in c], 'the centre is the brightest peak')
        ctx.check(any(c.centre is p or c.centre == p for p in c), 'the centre is a peak of the cluster')
        ctx.check(not c.is_harmonic, 'new clusters are not harmonics')
        df = c.summary_dataframe()
        ctx.check(list(df.columns) == ['period', 'freq', 'dm', 'width', 'ducy', 'snr'] and len(df) == len(c), 'table of the peaks', repr(df))
        sd = c.centre.summary_dict()
        ctx.check(set(sd) == {'period', 'freq', 'dm', 'width', 'ducy', 'snr'}, 'summary', repr(sd))
        ctx.close_all([(sd['snr'], c.centre.snr), (sd['freq'], c.centre.freq)], 'summary', tol=1e-9)
    E = pipeline(ctx)
    E.cluster_peaks()
    E.flag_harmonics()
    E.apply_candidate_filters()
    E.build_candidates()
    ctx.check(E.clusters == [] and E.candidates == [] and list(E.clusters_filtered) == [], 'a run without peaks goes through')


@harness('P27', bounds='five peaks at frequencies 1e-9 apart or more, every clustering radius from 1e-9 to 1e-6', budget_s=60)
def peaks_clustered_finely(ctx):
    """clusters are formed at the resolution of the frequencies, however fine"""
    F = [1.00000003, 1.00000002, 1.000000015, 1.00000001, 1.0]
    lr = ctx.real('radius', 0.25, 300)   # units of 1e-9
    P = pipeline(ctx, clustering={'radius': lr * 1e-9})
    with tempfile.TemporaryDirectory() as d:
        prepared(ctx, d, P, nsamp=(64, 160, 96), tsamp=0.125)
    for a, b in zip(F, F[1:]):
        q = (a - b) * 12e9
        ctx.assume(bor(q - lr > 1e-2, lr - q > 1e-2))
    P.peaks = [peak(ctx, f, 8.0 + i % 3, dm=10.0 * i, period=1.0 + i) for i, f in enumerate(F)]
    P.cluster_peaks()
    idx = sorted(sorted(int(round(p.period - 1.0)) for p in c) for c in P.clusters)
    exp, cur = [], [0]
    for i in range(1, len(F)):
        if bool((F[i - 1] - F[i]) * 12e9 > lr):
            exp.append(cur)
            cur = []
        cur.append(i)
    exp.append(cur)
    ctx.check(idx == exp, 'clusters of peaks', '%r, expected %r' % (idx, exp))


@harness('P27', quick=[dict(n=3)], thorough=[dict(n=4)], budget_s=200, max_paths=20000, bounds='3 clusters (4 thorough) of every S/N')
def cluster_table(ctx):
    """the cluster table has one row per cluster, by decreasing S/N, with its parameters, size and
    harmonic relation"""
    n = ctx.cfg['n']
    S = ctx.vec('s', n, 5, 40)
    for i in range(n):
        for j in range(i):
            ctx.assume(bor(S[i] - S[j] > 1e-4, S[j] - S[i] > 1e-4))
    C = [cluster(ctx, [peak(ctx, 0.5 + i, 1.5, 40.0) for _ in range(i)] + [peak(ctx, 0.25 * (i + 1), s, 10.0 * i, ducy=0.125 / (i + 1))]) for i, s in enumerate(S)]
    for i, c in enumerate(C):
        c.rank = i
    h = ctx.choose('harmonic', [True, False])
    if h:
        C[1].parent_fundamental, C[1].hfrac = C[2], Fraction(3, 2)
    df = ctx.R.mod('riptide.pipeline.peak_cluster').clusters_to_dataframe(list(C))
    ctx.check(list(df.columns) == ['rank', 'period', 'dm', 'snr', 'ducy', 'freq', 'npeaks', 'hfrac_num', 'hfrac_denom', 'fundamental_rank'], 'columns', repr(df.columns))
    ctx.check(len(df) == n, 'one row per cluster')
    order = sorted(range(n), key=lambda i: sum(bool(S[j] > S[i]) for j in range(n)))
    for k, i in enumerate(order):
        r = {a: df[a].tolist()[k] for a in df.columns}
        ctx.check((r['rank'], r['npeaks']) == (i, i + 1), 'rows by decreasing S/N', repr(r))
        ctx.close_all([(r['snr'], S[i]), (r['freq'], 0.25 * (i + 1)), (r['period'], 4.0 / (i + 1)), (r['dm'], 10.0 * i), (r['ducy'], 0.125 / (i + 1))],
                      'parameters of the brightest peak', tol=1e-9)
        e = (3, 2, 2) if h and i == 1 else (0, 0, i)
        ctx.check((r['hfrac_num'], r['hfrac_denom'], r['fundamental_rank']) == e, 'harmonic relation', repr(r))


# ---------------------------------------------------------------- P28
def example():
    import yaml
    with open(os.path.join(REPO, 'riptide', 'pipeline', 'config', 'example.yaml')) as f:
        return yaml.safe_load(f)


POS, POS_NULL, INT, INT_NULL, NUM_NULL = 'number > 0', 'number > 0 or null', 'int > 0', 'int > 0 or null', 'number or null'
FIELDS = [
    ('processes', INT), ('data.fmin', POS_NULL), ('data.fmax', POS_NULL), ('data.nchans', INT_NULL), ('dmselect.min', NUM_NULL), ('dmselect.max', NUM_NULL),
    ('dmselect.dmsinb_max', POS_NULL), ('dereddening.rmed_width', POS), ('dereddening.rmed_minpts', POS), ('ranges.1.ffa_search.period_min', POS),
    ('ranges.1.ffa_search.period_max', POS), ('ranges.0.ffa_search.bins_min', INT), ('ranges.2.ffa_search.bins_max', INT), ('ranges.1.ffa_search.fpmin', INT),
    ('ranges.1.ffa_search.wtsp', 'number > 1'), ('ranges.1.ffa_search.ducy_max', 'float in (0, 1)'), ('ranges.0.find_peaks.smin', POS),
    ('ranges.0.find_peaks.segwidth', POS), ('ranges.2.find_peaks.nstd', POS), ('ranges.1.find_peaks.minseg', INT), ('ranges.1.find_peaks.polydeg', POS),
    ('ranges.1.find_peaks.clrad', POS), ('ranges.1.candidates.bins', INT), ('ranges.2.candidates.subints', INT_NULL), ('clustering.radius', POS),
    ('harmonic_flagging.denom_max', INT), ('harmonic_flagging.phase_distance_max', POS), ('harmonic_flagging.dm_distance_max', POS),
    ('harmonic_flagging.snr_distance_max', POS), ('candidate_filters.dm_min', NUM_NULL), ('candidate_filters.snr_min', NUM_NULL),
    ('candidate_filters.max_number', INT_NULL)]
OPTIONAL = {'fpmin', 'wtsp', 'ducy_max', 'smin', 'segwidth', 'nstd', 'minseg', 'polydeg', 'clrad'}


def at(c, path, value=None, put=False, drop=False):
    ks = [int(k) if k.isdigit() else k for k in path.split('.')]
    for k in ks[:-1]:
        c = c[k]
    if drop:
        c.pop(ks[-1], None)
    elif put:
        c[ks[-1]] = value
    else:
        return c[ks[-1]]


@harness('P28', quick=[dict(part=k) for k in range(4)], budget_s=150, max_paths=20000,
         bounds='each of the 32 numeric fields with every real and integer in [-8, 8], not-a-number, null, text, a list, and missing')
def configuration_fields(ctx):
    """each field of the configuration accepts exactly the values of its documented domain, and
    accepted values are passed on"""
    V = ctx.R.mod('riptide.pipeline.config_validation')
    path, dom = ctx.choose('field', FIELDS[ctx.cfg['part']::4])
    kind = ctx.choose('kind', ['real', 'int', 'null', 'text', 'list', 'missing', 'nan'])
    c = example()
    v = {'real': lambda: ctx.real('v', -8, 8), 'int': lambda: ctx.int('k', -8, 8), 'null': lambda: None, 'text': lambda: 'abc', 'list': lambda: [1.0],
         'missing': lambda: None, 'nan': lambda: float('nan')}[kind]()
    at(c, path, v, put=True)
    if kind == 'missing':
        at(c, path, drop=True)
        ok = path.split('.')[-1] in OPTIONAL
    elif kind == 'null':
        ok = 'null' in dom
    elif kind in ('text', 'list'):
        ok = False
    elif kind == 'nan':   # lies in no range
        ctx.assume(dom != NUM_NULL)
        ok = False
    elif dom.startswith('int'):
        ok = band(v > 0) if kind == 'int' else False
    elif dom == 'float in (0, 1)':
        ok = band(v > 0, v < 1) if kind == 'real' else False
    elif dom == 'number > 1':
        ok = band(v > 1)
    elif dom == NUM_NULL:
        ok = True
    else:
        ok = band(v > 0)
    if bool(ok):
        r = V.validate_pipeline_config(c)
        if kind == 'null':
            ctx.check(at(r, path) is None, 'null values are kept')
        elif kind == 'missing':
            ctx.check(path.split('.')[-1] not in at(r, path.rsplit('.', 1)[0]), 'missing values stay so')
        else:
            ctx.close(at(r, path), v, 'accepted values are passed on', tol=1e-12, detail=path)
        for p, _ in FIELDS:
            if p != path and p.split('.')[-1] not in OPTIONAL:
                ctx.check(at(r, p) == at(example(), p), 'other fields are not modified', p)
        ctx.check(len(r['ranges']) == 3 and [x['name'] for x in r['ranges']] == [x['name'] for x in example()['ranges']], 'ranges', path)
    else:
        ctx.must_raise_type(V.InvalidPipelineConfig, lambda: V.validate_pipeline_config(c), 'values outside the domain are refused')


@harness('P28', budget_s=100, max_paths=20000, bounds='each section and field of other types missing, misspelt, or of another type')
def configuration_structure(ctx):
    """sections and fields which are missing or unknown are refused, the documented ones accepted"""
    V = ctx.R.mod('riptide.pipeline.config_validation')
    kind = ctx.choose('kind', ['section', 'unknown', 'format', 'bool', 'ranges', 'good'])
    c = example()
    ok = False
    if kind == 'section':
        p = ctx.choose('p', list(example()) + ['ranges.0.ffa_search', 'ranges.1.find_peaks', 'ranges.2.candidates', 'ranges.0.name', 'candidate_filters.remove_harmonics',
                                               'data.format'])
        at(c, p, drop=True)
    elif kind == 'unknown':
        p = ctx.choose('p', ['', 'data.', 'dmselect.', 'ranges.0.', 'ranges.1.ffa_search.', 'ranges.2.find_peaks.', 'ranges.0.candidates.', 'harmonic_flagging.',
                             'candidate_filters.'])
        at(c, p + 'unknown', 1.0, put=True)
    elif kind == 'format':
        f = ctx.choose('f', ['presto', 'sigproc', 'PRESTO', 'dat', None, 3])
        at(c, 'data.format', f, put=True)
        ok = f in ('presto', 'sigproc')
    elif kind == 'bool':
        p = ctx.choose('p', ['candidate_filters.remove_harmonics', 'plot_candidates'])
        v = ctx.choose('v', [True, False, None, 'yes', 1, 0.5])
        at(c, p, v, put=True)
        ok = isinstance(v, bool) or (v is None and p != 'plot_candidates')
    elif kind == 'ranges':
        v = ctx.choose('v', [None, {}, 'x', [None], [{}], [3.0]])
        c['ranges'] = v
    else:
        w = ctx.choose('w', ['example', 'A', 'B', 'empty find_peaks', 'one range'])
        ok = True
        if w in 'AB':
            import yaml
            with open(os.path.join(REPO, 'riptide', 'tests', 'pipeline_config_%s.yml' % w)) as f:
                c = yaml.safe_load(f)
            y = ctx.R.mod('riptide.pipeline.pipeline').Pipeline.from_yaml_config(f.name).config
            ctx.check(y == c, 'configuration read from a file', repr(y))
        elif w == 'empty find_peaks':
            c['ranges'][0]['find_peaks'] = {}
        elif w == 'one range':
            c['ranges'] = c['ranges'][1:2]
    keep = copy.deepcopy(c)
    if ok:
        r = V.validate_pipeline_config(c)
        ctx.check(r == keep, 'accepted configurations are passed on', repr(r))
        ctx.check(ctx.R.mod('riptide.pipeline.pipeline').Pipeline(c).config == keep, 'configuration of the pipeline')
    else:
        ctx.must_raise_type(V.InvalidPipelineConfig, lambda: V.validate_pipeline_config(c), 'invalid configurations are refused')
        ctx.must_raise_type(V.InvalidPipelineConfig, lambda: ctx.R.mod('riptide.pipeline.pipeline').Pipeline(c), 'invalid configurations are refused')


# ---------------------------------------------------------------- P29
def shape(k, n):
    """periodic pulses of 6, 10 or 8 samples over an irregular background"""
    return [(((5 * i * i + 3 * i + k) % 13) - 6) * 0.25 + (6.0 if i % (6, 10, 8, 15)[k] == 1 + k else 0.0) for i in range(n)]


def write_tim(ctx, d, k, dm, tsamp, data):
    f = os.path.realpath(os.path.join(d, 'f%d.tim' % k))
    head = sigproc_header(ctx, [('source_name', 'J0534+2200'), ('tsamp', tsamp), ('nbits', 32), ('nchans', 1), ('refdm', dm), ('tstart', 50000.0),
                                ('src_raj', 53431.9), ('src_dej', 220052.0)])
    ctx.write_data(f, data, 'float32', header=head)
    return f


def load(ctx, f):
    T = ctx.R.TimeSeries
    return T.from_sigproc(f) if f.endswith('.tim') else T.from_presto_inf(f)


def observed(ctx, d, n, dt, dms, sym=True, fmt='presto'):
    """files of arbitrary scale and offset"""
    out = []
    for k, dm in enumerate(dms):
        a, b = (ctx.real('a%d' % k, 0.25, 8), ctx.real('b%d' % k, -32, 32)) if sym and k == 0 else (0.75 + k, -2.0 + 3 * k)
        X = [a * x + b for x in shape(k, n)]
        out.append(write_inf(ctx, d, k, dm, tsamp=dt, nsamp=n, data=X) if fmt == 'presto' else write_tim(ctx, d, k, dm, dt, X))
    return out


RA = dict(pmin=1.3, pmax=2.1, bmin=5, bmax=6, cbins=5, subints=2, name='A', fs=dict(fpmin=2, wtsp=1.5, ducy_max=0.5), fp=dict(smin=0.75, clrad=0.2))
RB = dict(pmin=2.1, pmax=3.3, bmin=8, bmax=9, cbins=6, subints=None, name='B', fs=dict(fpmin=1, wtsp=2.0), fp=dict(smin=1.25, clrad=0.4))


def expected_peaks(ctx, f, ranges, width, minpts):
    R = ctx.R
    ts = load(ctx, f).deredden(width, minpts=minpts).normalise()
    out = []
    for r in ranges:
        fs = r['ffa_search']
        __, pg = R.ffa_search(ts, period_min=fs['period_min'], period_max=fs['period_max'], bins_min=fs['bins_min'], bins_max=fs['bins_max'], deredden=False,
                              already_normalised=True, **{k: fs[k] for k in ('fpmin', 'wtsp', 'ducy_max') if k in fs})
        pk, __ = R.find_peaks(pg, **r['find_peaks'])
        out.append(pk)
    return out


def same_peaks(ctx, got, exp, label):
    ctx.check(len(got) == len(exp), label + ': number', '%d, expected %d' % (len(got), len(exp)))
    for g, e in zip(got, exp):
        ctx.check((g.width, g.iw, g.ip) == (e.width, e.iw, e.ip), label, '%r, expected %r' % (g, e))
        ctx.close_all([(getattr(g, k), getattr(e, k)) for k in ('period', 'freq', 'ducy', 'dm')], label, tol=1e-9)
        ctx.close(g.snr, e.snr, label, tol=4e-3)


@harness('P29', quick=[dict(p=1, free='data'), dict(p=3, free=0), dict(p=2, free=1), dict(p=2, free='silent')], thorough=[dict(p=p, free=k) for p in (1, 2, 3, 4) for k in (0, 1, 'data', 'silent')], budget_s=300, query_ms=30000, max_paths=4000, weight=3,
         bounds='3 files of 40 samples, one of arbitrary scale and offset, two search ranges (three, of which any two give no peaks), or every S/N threshold from 1/2 to 8 in one range, 1 and 3 processes (1..4 thorough), any completion order')
def worker_pool_search(ctx):
    """every file given to the pool is dereddened, normalised and searched in all the ranges with
    their own parameters; all peaks are returned, in the order of the files"""
    n, dt = 40, 0.25
    ranges = [search_range(**RA), search_range(**RB)]
    k = ctx.cfg['free']
    if k == 'silent':
        ranges.append(search_range(**dict(RB, pmin=3.3, pmax=4.5, name='C', bmin=9, bmax=10)))
        loud = ctx.choose('loud', [0, 1, 2])
        for i in range(3):
            if i != loud:
                ranges[i]['find_peaks']['smin'] = ctx.real('smin', 50, 100)
    elif k != 'data':
        ranges[k]['find_peaks']['smin'] = ctx.real('smin', 0.5, 8)
    w, mp = (2.25, 3) if k == 0 else (1.25, 5)
    back = ctx.choose('backwards', [False, True])
    with tempfile.TemporaryDirectory() as d:
        fmt = 'sigproc' if k == 1 else 'presto'
        f = observed(ctx, d, n, dt, (0.0, 10.0, 25.5), sym=k == 'data', fmt=fmt)
        W = ctx.R.mod('riptide.pipeline.worker_pool').WorkerPool({'rmed_width': w, 'rmed_minpts': mp}, ranges, processes=ctx.cfg['p'], fmt=fmt)
        keep = copy.deepcopy(ranges)
        with pools(ctx, back):
            got = W.process_fname_list([f[1], f[0], f[2]])
            again = W.process_fname_list([f[0]])
            none = W.process_fname_list([])
        E = [[p for q in expected_peaks(ctx, x, ranges, w, mp) for p in q] for x in f]
    ctx.check(any(E) if k == 'silent' else all(E), 'the files hold peaks', repr([len(e) for e in E]))
    same_peaks(ctx, got, E[1] + E[0] + E[2], 'peaks of the files')
    same_peaks(ctx, again, E[0], 'peaks of a second call')
    ctx.check(list(none) == [], 'no files')
    ctx.check([p.dm for p in got] == [10.0] * len(E[1]) + [0.0] * len(E[0]) + [25.5] * len(E[2]), 'DMs of the peaks')
    ctx.check(ranges == keep, 'the configuration is not modified')


# ---------------------------------------------------------------- P30
@harness('P30', quick=[dict(n=12, bins=3), dict(n=13, bins=2)], thorough=[dict(n=12, bins=3), dict(n=18, bins=4), dict(n=13, bins=2)], budget_s=200, max_paths=20000,
         bounds='series of 12 and 13 arbitrary samples (18 thorough), several periods and every number of sub-integrations from 1 to 6 or None')
def candidate_from_cluster(ctx):
    """a candidate holds the parameters of the brightest peak, the peaks of the cluster, the
    metadata of the series, and the series folded at that period in at most the requested
    number of sub-integrations"""
    n, bins = ctx.cfg['n'], ctx.cfg['bins']
    dt = 0.25
    X = ctx.arr('x', n)
    per = ctx.choose('period', [1.0, 1.25, n * dt / 2, n * dt / 3 + 1e-4, bins * dt])
    sub = ctx.choose('subints', [None, 1, 2, 3, 6])
    S = ctx.vec('s', 3, 1, 20)
    ctx.assume(band(S[1] > S[0] + 1e-3, S[1] > S[2] + 1e-3))
    ts = ctx.R.TimeSeries(X, dt, metadata={'dm': 2.0, 'source_name': 'src'})
    V = ctx.vals(X)
    cl = cluster(ctx, [peak(ctx, 0.5, S[0], 0.0), peak(ctx, 1 / per, S[1], 2.0, period=per), peak(ctx, 0.5, S[2], 2.0)])
    cl.rank = 0
    c = ctx.R.Candidate.from_pipeline_output(ts, cl, bins, subints=sub)
    full = int(math.floor(n * dt / per + 1e-9))
    rows = sub if sub is not None and sub * per < n * dt else full
    fold = ts.fold(per, bins, subints=rows)
    ctx.check(tuple(c.subints.shape) == ((rows, bins) if rows > 1 else (bins,)), 'shape of the sub-integrations', '%r, expected %d rows' % (c.subints.shape, rows))
    ctx.same_all(list(zip(ctx.vals(c.subints), ctx.vals(fold))), 'folded data', tol=1e-3)
    A = ctx.vals(c.subints)
    ctx.same_all([(p, sum(A[j::bins])) for j, p in enumerate(ctx.vals(c.profile))], 'the profile is the sum of the sub-integrations', tol=1e-3)
    one = ctx.R.Candidate(c.params, c.tsmeta, c.peaks, c.subints.reshape(rows, bins)[:1])
    ctx.check(tuple(one.profile.shape) == (bins,), 'the profile of a single sub-integration has one dimension', repr(one.profile.shape))
    ctx.same_all(list(zip(ctx.vals(one.profile), A[:bins])), 'the profile of a single sub-integration', tol=1e-6)
    ctx.check(set(c.params) >= {'period', 'freq', 'dm', 'width', 'ducy', 'snr'}, 'parameters', repr(c.params))
    ctx.close_all([(c.params['snr'], S[1]), (c.params['period'], per), (c.params['dm'], 2.0)], 'parameters of the brightest peak', tol=1e-9)
    ctx.check(len(c.peaks) == 3, 'peaks of the cluster')
    ctx.close_all(list(zip(c.peaks['snr'].tolist(), S)), 'peaks of the cluster', tol=1e-9)
    ctx.check(c.tsmeta['dm'] == 2.0 and c.tsmeta['source_name'] == 'src' and c.tsmeta['tobs'] == n * dt, 'metadata of the series')
    ctx.same_all(list(zip(ctx.vals(ts.data), V)), 'the series is left as it was', tol=1e-6)


@harness('P30', quick=[dict(n=263, P=2.0, bins=2), dict(n=90, P=3.1, bins=3)], thorough=[dict(n=263, P=2.0, bins=2), dict(n=90, P=3.1, bins=3), dict(n=999, P=3.0, bins=3)],
         budget_s=200, max_paths=2000, bounds='90 and 263 samples of arbitrary scale, 29 and 131 periods (333 thorough), numbers of sub-integrations close to that')
def candidate_many_periods(ctx):
    """a number of sub-integrations close to the number of periods is honoured up to that number"""
    n, P, bins, dt = ctx.cfg['n'], ctx.cfg['P'], ctx.cfg['bins'], 0.25
    full = int(n / P)
    a = ctx.real('a', 0.5, 4)
    ts = ctx.R.TimeSeries(ctx.farr([a * (((5 * i * i + 3 * i) % 13) - 6) for i in range(n)]), dt, metadata={'dm': 2.0})
    sub = ctx.choose('subints', [full - 1, full, full + 1, 10 * full, full // 2 + 1, None])
    cl = cluster(ctx, [peak(ctx, 1 / (P * dt), 9.0, 2.0, period=P * dt)])
    c = ctx.R.Candidate.from_pipeline_output(ts, cl, bins, subints=sub)
    rows = sub if sub is not None and sub <= full else full
    ctx.check(tuple(c.subints.shape) == (rows, bins), 'shape of the sub-integrations', '%r, expected %d rows' % (c.subints.shape, rows))
    ctx.same_all(list(zip(ctx.vals(c.subints), ctx.vals(ts.fold(P * dt, bins, subints=rows)))), 'folded data', tol=1e-3)


@harness('P30', quick=[dict(n=4)], thorough=[dict(n=6)], budget_s=200, max_paths=20000, bounds='4 peaks (6 thorough) of every S/N at 3 DMs')
def candidate_dm_curve(ctx):
    """the DM curve is the largest S/N of every trial DM, by increasing DM"""
    import pandas
    n = ctx.cfg['n']
    S = ctx.vec('s', n, 1, 20)
    D = [float(ctx.choose('d%d' % i, [20.0, 0.0, 10.0])) for i in range(n)]
    df = cluster(ctx, [peak(ctx, 0.5, s, d) for s, d in zip(S, D)]).summary_dataframe()
    c = ctx.R.Candidate({'snr': 3.0}, ctx.R.Metadata(), df, np.zeros((2, 4)))
    dm, sn = c.dm_curve
    dm = [float(v) for v in np.asarray(dm).tolist()]
    E = sorted(set(D))
    ctx.check(dm == E, 'trial DMs', repr(dm))
    for x, v in zip(E, np.asarray(sn).tolist()):
        T = [s for s, d in zip(S, D) if d == x]
        ctx.check(band(*[v >= t - 1e-9 for t in T], bor(*[v <= t + 1e-9 for t in T])), 'largest S/N of a trial DM')
    ctx.check(len(c.peaks) == n and c.peaks['dm'].tolist() == D, 'the peaks are left as they were')


@harness('P30', quick=[dict(plot=False), dict(plot=True)], max_paths=200, budget_s=200,
         bounds='1, 2 and 4 sub-integrations, 1 and 2 trial DMs, ranks 0, 7 and 12345, metadata missing, coordinates of two frames; fixed contents')
def candidate_files(ctx):
    """candidates are written in files named by rank, which load back as they were; all can
    be plotted"""
    import pandas
    R = ctx.R
    nsub = ctx.choose('subints', [1, 2, 4])
    ndm = ctx.choose('dms', [1, 2])
    A = np.arange(nsub * 6, dtype='float32').reshape(nsub, 6) % 5
    if nsub == 1:
        A = A[0]
    sky = R.mod('riptide.metadata').SkyCoord('05:34:31.9', '-22:00:52.0', unit=('hour', 'deg'))
    full = {'dm': 10.0, 'mjd': 59000.5, 'tobs': 16.0, 'source_name': 'J1', 'skycoord': sky}
    miss = ctx.choose('missing', [(), ('source_name', 'mjd'), ('skycoord',), ('dm',), ('dm', 'mjd', 'source_name', 'skycoord'), 'galactic'])
    if miss == 'galactic':
        full['skycoord'] = sky.galactic
    md = R.Metadata({k: v for k, v in full.items() if k not in miss})
    dm = lambda v: None if 'dm' in miss else v
    df = cluster(ctx, [peak(ctx, 0.5, 8.0 + i, dm(10.0 * (i % ndm))) for i in range(3)]).summary_dataframe()
    c = R.Candidate(dict(peak(ctx, 0.5, 10.0, dm(10.0)).summary_dict()), md, df, A)
    rank = ctx.choose('rank', [0, 7, 12345])
    with tempfile.TemporaryDirectory() as d:
        wr = R.mod('riptide.pipeline.pipeline').CandidateWriter(d, plot=ctx.cfg['plot'])
        wr((rank, c))
        ctx.check(sorted(os.listdir(d)) == ['candidate_%04d.json' % rank] + (['candidate_%04d.png' % rank] if ctx.cfg['plot'] else []), 'files', repr(os.listdir(d)))
        b = R.load_json(os.path.join(d, 'candidate_%04d.json' % rank))
    ctx.check(type(b) is R.Candidate and b.params == c.params and b.subints.tolist() == A.tolist() and b.subints.dtype == A.dtype, 'the candidate loads back')
    if 'skycoord' not in miss:
        g, h = b.tsmeta['skycoord'].icrs, sky.icrs
        ctx.check(abs(g.ra.deg - h.ra.deg) < 1e-6 and abs(g.dec.deg - h.dec.deg) < 1e-6, 'coordinates')
    ctx.check([x.tolist() for x in map(np.asarray, b.dm_curve)] == [x.tolist() for x in map(np.asarray, c.dm_curve)] and b.profile.tolist() == c.profile.tolist(),
              'the candidate loads back')


# ---------------------------------------------------------------- P31
@harness('P31', quick=[dict(vary='smin'), dict(vary='clrad'), dict(vary='smin', fmt='sigproc')], budget_s=250, query_ms=30000, max_paths=4000, weight=2,
         bounds='a series of 80 samples, every threshold from 1/2 to 8 and every clustering radius from 0.01 to 2')
def rseek_table(ctx):
    """rseek prints and returns the brightest peak of every group of close frequencies of the
    documented search, by decreasing S/N, or nothing without peaks"""
    n, dt = 80, 0.125
    v = ctx.cfg['vary']
    smin = ctx.real('smin', 0.5, 8) if v == 'smin' else 0.75
    rad = ctx.real('clrad', 0.01, 2) if v == 'clrad' else 0.2
    A = ctx.R.mod('riptide.apps.rseek')
    R = ctx.R
    with tempfile.TemporaryDirectory() as d:
        fmt = ctx.cfg.get('fmt', 'presto')
        X = [x + (3.0 if i % 17 in (8, 9) else 0.0) for i, x in enumerate(shape(3, n))]
        f = write_inf(ctx, d, 0, 12.5, tsamp=dt, nsamp=n, data=X) if fmt == 'presto' else write_tim(ctx, d, 0, 12.5, dt, X)
        args = A.get_parser().parse_args(['-f', fmt, '--Pmin', '1.8', '--Pmax', '2.3', '--bmin', '14', '--bmax', '16', '--smin', ctx.text(smin), '--wtsp', '1.75',
                                          '--rmed_width', '2.25', '--rmed_minpts', '3', '--clrad', ctx.text(rad), f])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            df = A.run_program(args)
        ts = load(ctx, f).deredden(2.25, minpts=3).normalise()
    __, pg = R.ffa_search(ts, period_min=1.8, period_max=2.3, bins_min=14, bins_max=16, fpmin=1, wtsp=1.75, ducy_max=0.3, deredden=False, already_normalised=True)
    pk, __ = R.find_peaks(pg, smin=smin, clrad=rad)
    if not pk:
        ctx.check(df is None, 'nothing is returned without peaks', repr(df))
        return
    ctx.check(df is not None, 'peaks are returned')
    pk = sorted(pk, key=lambda p: p.freq)
    groups = [[pk[0]]]
    for a, b in zip(pk, pk[1:]):
        gap = b.freq - a.freq
        ctx.assume(bor(gap * (n * dt) - rad > 1e-6, rad - gap * (n * dt) > 1e-6))
        if bool(gap * (n * dt) > rad):
            groups.append([])
        groups[-1].append(b)
    best = sorted([max(g, key=lambda p: p.snr) for g in groups], key=lambda p: -p.snr)
    ctx.check(list(df.columns) == ['period', 'freq', 'width', 'ducy', 'snr', 'dm'] or set(df.columns) == {'period', 'freq', 'width', 'ducy', 'snr', 'dm'}, 'columns', repr(df.columns))
    ctx.check(len(df) == len(best), 'one row per group', '%d, expected %d' % (len(df), len(best)))
    for k in ('period', 'freq', 'width', 'ducy', 'snr', 'dm'):
        ctx.close_all([(a, getattr(b, k)) for a, b in zip(df[k].tolist(), best)], 'rows', tol=4e-3 if k == 'snr' else 1e-9, detail=k)
    ctx.check(len([l for l in out.getvalue().splitlines() if l.strip()]) == len(best) + 1, 'printed table', out.getvalue())


# ---------------------------------------------------------------- P36
FILT = ('data', 'radius', 'dm', 'snr', 'cli', 'second', 'again')


@harness('P36', quick=[dict(n=3)], thorough=[dict(n=4)], budget_s=60, max_paths=4000, bounds='3 peaks (4 thorough) of arbitrary periods in two chunks of files')
def peaks_by_period(ctx):
    """the search hands every chunk of files to the workers and sorts all their peaks by period"""
    n = ctx.cfg['n']
    T = ctx.vec('p', n, 1, 2)
    pk = [peak(ctx, 1.0, 10.0 - i, dm=float(i), period=t) for i, t in enumerate(T)]
    P = pipeline(ctx, processes=3)

    class It:
        def iterate_filenames(self, chunksize=1):
            ctx.check(chunksize == 3, 'as many files as processes in a chunk', repr(chunksize))
            return iter([['a', 'b', 'c'], ['d']])

    class Pool:
        def process_fname_list(self, fnames):
            return pk[:-1] if list(fnames) == ['a', 'b', 'c'] else pk[-1:] if list(fnames) == ['d'] else []
    P.dmiter, P.worker_pool = It(), Pool()
    P.search()
    ctx.check(len(P.peaks) == n and all(sum(x is y for y in P.peaks) == 1 for x in pk), 'every peak once')
    for a, b in zip(P.peaks, P.peaks[1:]):
        ctx.check(a.period <= b.period, 'peaks by increasing period')


@harness('P36', quick=[dict(filt=k) for k in FILT], thorough=[dict(filt=k, p=p) for k in FILT for p in (1, 4)], budget_s=400,
         query_ms=30000, max_paths=4000, weight=3,
         bounds='3 files of 40 samples, two search ranges; arbitrary scale and offset of the data, or clustering radius, or DM threshold, or S/N threshold; any completion order of the processes')
def whole_run(ctx):
    """a whole run writes every peak of the selected files, every cluster, and the candidates which
    pass the filters, folded from the file of their DM, in files ranked by S/N"""
    n, dt = 40, 0.25
    R = ctx.R
    filt = ctx.cfg['filt']
    lim = dict(smin=2.5) if filt == 'again' else {}
    ranges = [search_range(**dict(r, fp=dict(r['fp'], **lim))) for r in (RA, RB)]
    rad = ctx.real('radius', 0.05, 2) if filt == 'radius' else 0.3
    dmin = ctx.real('dm_min', -2, 15) if filt == 'dm' else None
    smin = ctx.real('snr_min', 0.5, 10) if filt == 'snr' else None
    cf = {'data': {}, 'cli': {}, 'second': {}, 'again': {}, 'radius': {}, 'dm': dict(dm_min=dmin, max_number=2, remove_harmonics=True), 'snr': dict(snr_min=smin)}[filt]
    back = ctx.choose('backwards', [False, True])
    w, mp = (2.25, 3) if filt in ('radius', 'dm') else (1.25, 5)
    fmt = 'sigproc' if filt == 'dm' else 'presto'
    conf = config(ranges, processes=ctx.cfg.get('p', 2), candidate_filters=cf, dereddening=dict(rmed_width=w, rmed_minpts=mp),
                  dmselect=dict(min=-1.0, max=20.0), clustering=dict(radius=rad))
    if fmt == 'sigproc':
        conf['data'] = dict(format='sigproc', fmin=1182.0, fmax=1582.0, nchans=1024)
    M = R.mod('riptide.pipeline.pipeline')
    P = M.Pipeline(conf)
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, 'out')
        os.mkdir(out)
        if filt == 'second':
            # another run before, on other files of the same names
            e = os.path.join(d, 'first')
            os.mkdir(e)
            o = [write_inf(ctx, e, k, 5.0 + 10.0 * k, tsamp=dt / 2, nsamp=2 * n, data=[3.0 * x - k for x in shape(2 - k, 2 * n)]) for k in range(2)]
            with pools(ctx, back):
                M.Pipeline(config([search_range(**dict(RA, cbins=4))], processes=1, clustering=dict(radius=0.8), dmselect=dict(min=None, max=None),
                                  candidate_filters=dict(max_number=1), dereddening=dict(rmed_width=2.25, rmed_minpts=3))).process(o, e)
        if filt == 'again':
            # earlier runs of the same pipeline, the last one on data without any peak
            for t in range(2):
                e = os.path.join(d, 'run%d' % t)
                os.mkdir(e)
                o = [write_inf(ctx, e, k, 1.0 + t + 10.0 * k, tsamp=dt, nsamp=n, data=[3.0 * x - k for x in shape(2 - k, n)] if t == 0 else [math.sin(2.9 * i) for i in range(n)])
                     for k in range(2)]
                with pools(ctx, back):
                    P.process(o, e)
                ctx.check(all(os.path.exists(os.path.join(e, x)) == (t == 0) for x in ('peaks.csv', 'clusters.csv', 'candidates.csv', 'candidate_0000.json')),
                          'data without peaks give no products' if t else 'data with peaks give products', repr(os.listdir(e)))
        f = observed(ctx, d, n, dt, (0.0, 0.403, 30.0), sym=filt in ('data', 'cli', 'second', 'again'), fmt=fmt)
        with pools(ctx, back):
            if filt == 'cli':
                import yaml
                with open(os.path.join(d, 'conf.yml'), 'w') as g:
                    yaml.safe_dump(conf, g)
                M.run_program(M.get_parser().parse_args(['-c', os.path.join(d, 'conf.yml'), '-o', out, '--log-level', 'WARNING'] + f[::-1]))
            else:
                P.process(f[::-1], out)
        E = [p for x in f[:2] for q in expected_peaks(ctx, x, ranges, w, mp) for p in q]
        ts = [load(ctx, x).deredden(w, minpts=mp).normalise() for x in f]
        rows = {}
        for name in ('peaks', 'clusters', 'candidates'):
            p = os.path.join(out, name + '.csv')
            if os.path.exists(p):
                with open(p) as g:
                    rows[name] = [{k: ctx.number(v) for k, v in r.items()} for r in csv.DictReader(g)]
        cands = [R.load_json(os.path.join(out, 'candidate_%04d.json' % k)) for k in range(len(glob.glob(os.path.join(out, '*.json'))))]
    E = sorted(E, key=lambda p: p.period)
    ctx.check(bool(E) and 'peaks' in rows and len(rows['peaks']) == len(E), 'every peak is written once', '%d, expected %d' % (len(rows.get('peaks', ())), len(E)))
    for r, e in zip(rows['peaks'], E):
        ctx.close_all([(r['period'], e.period), (r['freq'], e.freq), (r['width'], e.width), (r['ducy'], e.ducy)], 'peaks by increasing period', tol=2e-9)
    key = lambda dm, s, w: (round(float(dm), 3), round(float(s), 2), int(w))
    ctx.check(sorted(key(r['dm'], r['snr'], r['width']) for r in rows['peaks']) == sorted(key(e.dm, e.snr, e.width) for e in E), 'DM, S/N and width of the peaks')
    tm = n * dt
    groups = [[E[0]]]
    for a, b in zip(E, E[1:]):
        g = abs(b.freq - a.freq) * tm
        if filt == 'radius':
            ctx.assume(bor(g - rad > 1e-6, rad - g > 1e-6))
        if bool(g > rad):
            groups.append([])
        groups[-1].append(b)
    best = sorted([max(g, key=lambda p: p.snr) for g in groups], key=lambda p: -p.snr)
    cl = rows['clusters']
    ctx.check(len(cl) == len(groups), 'every cluster is written once', '%d, expected %d' % (len(cl), len(groups)))
    ctx.check(sum(int(r['npeaks']) for r in cl) == len(E), 'every peak is in one cluster')
    ctx.close_all([(r['snr'], b.snr) for r, b in zip(cl, best)], 'clusters by decreasing S/N', tol=4e-3)
    ctx.close_all([(r['period'], b.period) for r, b in zip(cl, best)], 'clusters by decreasing S/N', tol=2e-9)
    ctx.check([int(r['rank']) for r in cl] == list(range(len(cl))), 'ranks of the clusters')
    harm = [int(r['hfrac_num']) > 0 for r in cl]
    keep = list(range(len(best)))
    if filt == 'dm':
        keep = [k for k in keep if bool(best[k].dm >= dmin) and not harm[k]][:2]
    elif filt == 'snr':
        for b in best:
            ctx.assume(bor(b.snr - smin > 4e-3, smin - b.snr > 4e-3))
        keep = [k for k in keep if bool(best[k].snr >= smin)]
    ctx.check(len(cands) == len(keep) and len(rows.get('candidates', [])) == len(keep), 'one file and one row per candidate', '%d, expected %d' % (len(cands), len(keep)))
    for c, r, k in zip(cands, rows.get('candidates', []), keep):
        b = best[k]
        ctx.close_all([(c.params['period'], b.period), (r['period'], b.period), (r['freq'], b.freq), (c.params['dm'], b.dm), (r['dm'], b.dm)], 'candidates by decreasing S/N', tol=2e-9)
        ctx.close_all([(c.params['snr'], b.snr), (r['snr'], b.snr)], 'candidates by decreasing S/N', tol=4e-3)
        t = ts[0] if b.dm == 0 else ts[1]
        bins, sub = (5, 2) if b.period < 2.1 else (6, None)
        if sub is not None and sub * b.period >= n * dt:
            sub = None
        x = t.fold(b.period, bins, subints=sub)
        ctx.check(tuple(c.subints.shape) == tuple(x.shape), 'sub-integrations of a candidate', '%r, expected %r' % (c.subints.shape, x.shape))
        ctx.close_all(list(zip(ctx.vals(c.subints), ctx.vals(x))), 'sub-integrations of a candidate', tol=4e-3)
        ctx.check(c.tsmeta['dm'] == b.dm and c.tsmeta['source_name'] == 'J0534+2200' and c.tsmeta['tobs'] == n * dt, 'metadata of a candidate')
        g = [g for g in groups if any(p is b for p in g)][0]
        ctx.check(len(c.peaks) == len(g), 'peaks of a candidate', '%d, expected %d' % (len(c.peaks), len(g)))
