"""Files and data containers: R32 SIGPROC, R33 PRESTO, R34 Metadata, R35 JSON."""
import math
import os
import struct
import tempfile
import warnings

import numpy as np

from engine.registry import harness
from engine.core import ite, band, bor, floor

from .common import types_of

# standard SIGPROC header keys ('s' string, 'i' 32-bit integer, 'd' double, 'b' byte flag)
SIGPROC = dict(filename='s', telescope_id='i', telescope='s', machine_id='i', data_type='i', rawdatafile='s', source_name='s',
               barycentric='i', pulsarcentric='i', az_start='d', za_start='d', src_raj='d', src_dej='d', tstart='d', tsamp='d',
               nbits='i', nsamples='i', fch1='d', foff='d', fchannel='d', nchans='i', nifs='i', refdm='d', flux='d', period='d',
               nbeams='i', ibeam='i', hdrlen='i', pb='d', ecc='d', asini='d', orig_hdrlen='i', new_hdrlen='i', sampsize='i',
               bandwidth='d', fbottom='d', ftop='d', obs_date='s', obs_time='s', accel='d', signed='b')


def pstr(s):
    b = s.encode()
    return struct.pack('<i', len(b)) + b


def sigproc_header(ctx, items, types=SIGPROC, start='HEADER_START', end=True):
    """bytes of a SIGPROC header with the given (key, value) pairs"""
    out = pstr(start)
    for k, v in items:
        t = types[k]
        out += pstr(k)
        out += pstr(v) if t == 's' else bytes([v]) if t == 'b' else ctx.pack(t, v)
    return out + pstr('HEADER_END') if end else out


def same_value(ctx, got, want, label):
    if isinstance(want, (str, bool)):
        ctx.check(type(got) is type(want) and got == want, label, '%r, expected %r' % (got, want))
    else:
        ctx.check(not isinstance(got, (str, bytes, bool, type(None))), label, repr(got))
        ctx.close(got, want, label, tol=1e-9)


@harness('R32', quick=[dict(order=0), dict(order=1), dict(order=2)], bounds='headers with all 41 standard keys and 3 extra ones in 3 orders, arbitrary 32-bit integers and doubles in [-2^20, 2^20]')
def sigproc_header_values(ctx):
    """every key of a header is read with its type and value, whatever the order"""
    types = dict(SIGPROC, num_trusses='i', diameter='d', planet='s')
    items = []
    for i, (k, t) in enumerate(types.items()):
        v = ((' %s  %d ' if i % 2 else '%s %d') % (k[:3], i)) if t == 's' else bool(i % 3) if t == 'b' else \
            ctx.int(k, -2 ** 31, 2 ** 31 - 1) if t == 'i' else ctx.real(k, -2 ** 20, 2 ** 20)
        items.append((k, v))
    o = ctx.cfg['order']
    items = items if o == 0 else items[::-1] if o == 1 else items[1::2] + items[::2]
    h = sigproc_header(ctx, items, types)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.tim')
        with open(f, 'wb') as g:
            g.write(h + b'\0' * 24)
        S = ctx.R.mod('riptide.reading.sigproc')
        Int, Float = types_of(S, 'int', 'float')
        sh = S.SigprocHeader(f, extra_keys={'num_trusses': Int, 'diameter': Float, 'planet': str})
        ctx.check(set(sh) == set(types), 'the keys are those of the header', repr(sorted(set(sh) ^ set(types))))
        for k, v in items:
            same_value(ctx, sh[k], v, 'header key ' + k)
        ctx.check(sh.bytesize == len(h), 'header size', '%r, expected %d' % (sh.bytesize, len(h)))
        ctx.check(sh.fname == os.path.abspath(f), 'file name')
        ctx.must_raise(lambda: S.SigprocHeader(f, extra_keys={'num_trusses': Int, 'planet': str}), 'a key of unknown type is refused')
        ctx.must_raise(lambda: S.SigprocHeader(f), 'a key of unknown type is refused')
        # files where a standard key has another type
        other = {'nbeams': 'd', 'signed': 'i', 'flux': 'i', 'ibeam': 's'}
        alt = [('source_name', 'X'), ('nbeams', ctx.real('beams', -64, 64)), ('signed', ctx.int('sign', 256, 2 ** 20)), ('flux', ctx.int('fl', -2 ** 20, 2 ** 20)), ('ibeam', 'central'), ('nbits', 32)]
        with open(f, 'wb') as g:
            h = sigproc_header(ctx, alt, dict(types, **other))
            g.write(h + b'\0' * 24)
        sh = S.SigprocHeader(f, extra_keys={'nbeams': Float, 'signed': Int, 'flux': Int, 'ibeam': str})
        ctx.check(set(sh) == {k for k, _ in alt} and sh.bytesize == len(h), 'keys of other types', repr(sorted(sh)))
        for k, v in alt:
            same_value(ctx, sh[k], v, 'standard key of the given type: ' + k)
        for v in (0, 1, 2, 128, 255):
            with open(f, 'wb') as g:
                g.write(sigproc_header(ctx, [('nbits', 8), ('signed', v), ('nchans', 1)]) + b'\0' * 8)
            sh = S.SigprocHeader(f)
            ctx.check(sh['signed'] is (v != 0) and sh['nchans'] == 1, 'flag %d' % v, repr(sh['signed']))


@harness('R32', bounds='every truncation point of a header, every wrong length of the first string from 0 to 40', budget_s=200, max_paths=20000)
def sigproc_broken_header(ctx):
    """files cut inside the header, or with another start flag, are refused"""
    items = [('source_name', 'J0000+00'), ('tsamp', 0.25), ('nbits', 32), ('nchans', 1), ('signed', 1), ('src_raj', 1.0), ('src_dej', 1.0)]
    kind = ctx.choose('kind', ['cut', 'flag', 'end'])
    h = sigproc_header(ctx, items)
    if kind == 'cut':
        k = int(ctx.int('k', 0, len(h) - 1))
        h = h[:k]
    elif kind == 'flag':
        n = int(ctx.int('n', 0, 40))
        h = pstr('HEADER_START'[:n] if n < 12 else 'HEADER_STARTxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx'[:n + 1]) + h[16:]
    else:
        h = sigproc_header(ctx, items, end=False)
    S = ctx.R.mod('riptide.reading.sigproc')
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.tim')
        with open(f, 'wb') as g:
            g.write(h)
        ctx.must_raise(lambda: S.SigprocHeader(f), 'a broken header is refused')


@harness('R32', quick=[dict(kind='ra'), dict(kind='dec')], budget_s=200, max_paths=20000,
         bounds='every right ascension hhmmss.s and declination ddmmss.s of either sign')
def sigproc_coordinates(ctx):
    """src_raj and src_dej are the sexagesimal hhmmss.s and ddmmss.s packed in a float"""
    ra = ctx.cfg['kind'] == 'ra'
    h = ctx.int('h', 0, 23 if ra else 89)
    m = ctx.int('m', 0, 59)
    s = ctx.real('s', 1 / 64, 60 - 1 / 64)
    neg = not ra and ctx.choose('neg', [False, True])
    sg = -1 if neg else 1
    v = sg * (h * 10000 + m * 100 + s)
    e = sg * (h + m / 60.0 + s / 3600.0)
    items = [('src_raj', v if ra else 123456.5), ('src_dej', 20304.5 if ra else v), ('tsamp', 0.25), ('nbits', 32), ('nchans', 1)]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.tim')
        with open(f, 'wb') as g:
            g.write(sigproc_header(ctx, items) + b'\0' * 8)
        S = ctx.R.mod('riptide.reading.sigproc')
        sh = S.SigprocHeader(f)
        for c in (sh.skycoord, ctx.R.Metadata.from_sigproc(sh)['skycoord']):
            ctx.close(c.icrs.ra.deg, 15 * (e if ra else 12 + 34 / 60 + 56.5 / 3600), 'right ascension', tol=1e-6)
            ctx.close(c.icrs.dec.deg, 2 + 3 / 60 + 4.5 / 3600 if ra else e, 'declination', tol=1e-6)


@harness('R32', quick=[dict(n=5)], thorough=[dict(n=n) for n in (1, 5, 12)], budget_s=200, max_paths=20000,
         bounds='5 samples (12 thorough) of every value, 8 bits signed or not and 32-bit floats, every tsamp, dm and mjd')
def sigproc_series(ctx):
    """the samples of 8-bit signed, 8-bit unsigned and 32-bit float files are loaded
    exactly, with sampling time and metadata; anything else is refused"""
    n = ctx.cfg['n']
    dt = ctx.real('tsamp', 1e-4, 16)
    dm, mjd = ctx.real('dm', 0, 4096), ctx.real('mjd', 0, 65536)
    kind = ctx.choose('kind', ['f32', 'i8', 'u8'])
    extra = ctx.choose('extra', [False, True])
    tail = ctx.choose('tail', [0, 3]) if kind == 'f32' else 0
    if kind == 'f32':
        X = ctx.vec('x', n, -1024, 1024)
    else:
        X = [ctx.int('k%d' % i, -128 if kind == 'i8' else 0, 127 if kind == 'i8' else 255) for i in range(n)]
    items = [('tsamp', dt), ('refdm', dm), ('tstart', mjd), ('nbits', 32 if kind == 'f32' else 8), ('nchans', 1), ('source_name', 'J1234+56'),
             ('src_raj', 10203.0), ('src_dej', -405.5)]
    types = dict(SIGPROC, diameter='d')
    if kind != 'f32':
        items.insert(1, ('signed', {'i8': 1, 'u8': 0}[kind]))
    if extra:
        items.insert(3, ('diameter', 12.5))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.b.tim')
        ctx.write_data(f, X, {'f32': 'float32', 'i8': 'int8', 'u8': 'uint8'}[kind], sigproc_header(ctx, items, types))
        with open(f, 'ab') as g:     # the file may have been cut within a sample
            g.write(b'\1' * tail)
        ts = ctx.R.TimeSeries.from_sigproc(f, **(dict(extra_keys={'diameter': types_of(ctx.R.mod('riptide.reading.sigproc'), 'float')[0]}) if extra else {}))
        ctx.check(str(ts.data.dtype) == 'float32' and ts.data.ndim == 1 and ts.nsamp == n, 'single precision samples', '%s %d' % (ts.data.dtype, ts.nsamp))
        ctx.same_all(list(zip(ctx.vals(ts.data), X)), 'samples of the file', tol=1e-4)
        ctx.close(ts.tsamp, dt, 'sampling time', tol=1e-9)
        md = ts.metadata
        for k, v in (('dm', dm), ('mjd', mjd), ('tobs', dt * n), ('tsamp', dt), ('refdm', dm)):
            ctx.close(md[k], v, 'metadata ' + k, tol=1e-6)
        ctx.check(md['source_name'] == 'J1234+56' and md['fname'] == os.path.realpath(f) and ('diameter' in md) == extra, 'metadata')
        sh = ctx.R.mod('riptide.reading.sigproc').SigprocHeader(f, extra_keys={'diameter': types_of(ctx.R.mod('riptide.reading.sigproc'), 'float')[0]})
        ctx.check(sh.nsamp == n, 'number of samples', repr(sh.nsamp))
        ctx.close(sh.tobs, n * dt, 'length of the file', tol=1e-6)
        m = ctx.R.Metadata.from_sigproc(f, extra_keys={'diameter': types_of(ctx.R.mod('riptide.reading.sigproc'), 'float')[0]})
        ctx.close(m['tobs'], n * dt, 'length in the metadata', tol=1e-6)
        ctx.close(m['dm'], dm, 'metadata dm', tol=1e-9)


@harness('R32', budget_s=200, max_paths=20000, bounds='nbits 1..64, 1..3 channels, signed key present or not, 0..100 bytes of data')
def sigproc_formats(ctx):
    """only single-channel 32-bit data, or 8-bit data of known signedness, are loaded; the
    number of samples is what the file holds"""
    nb = ctx.choose('nbits', [1, 2, 4, 8, 16, 32, 64])
    nc = ctx.choose('nchans', [1, 2, 3])
    sg = ctx.choose('signed', [None, 0, 1])
    opt = ctx.choose('optional', [True, False])
    L = ctx.choose('bytes', [0, 4, 8, 24, 96, 100])
    items = [('tsamp', 0.5), ('nbits', nb), ('nchans', nc), ('src_raj', 1.0), ('src_dej', 1.0)]
    if opt:
        items += [('refdm', 3.0), ('tstart', 4.0), ('source_name', 'x')]
        if L > 8:   # the number of samples written in the header is not to be trusted
            items += [('nsamples', L // 2 + 1), ('nbeams', 1)]
    if sg is not None:
        items.append(('signed', sg))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.tim')
        with open(f, 'wb') as g:
            g.write(sigproc_header(ctx, items) + b'\0' * L)
        sh = ctx.R.mod('riptide.reading.sigproc').SigprocHeader(f)
        if nb * nc >= 8:
            ctx.check(sh.bytes_per_sample == nb * nc // 8, 'bytes per sample')
            ctx.check(sh.nsamp == L // (nb * nc // 8), 'number of samples', repr(sh.nsamp))
            ctx.close(sh.tobs, 0.5 * (L // (nb * nc // 8)), 'length', tol=1e-9)
        good = nc == 1 and (nb == 32 or (nb == 8 and sg is not None)) and L > 0
        if good:
            m = ctx.R.TimeSeries.from_sigproc(f).metadata
            ctx.check(m['tobs'] == 0.5 * (L // (nb // 8)), 'length of the series')
            ctx.check(m['dm'] == (3.0 if opt else None) and m['mjd'] == (4.0 if opt else None) and m['source_name'] == ('x' if opt else None),
                      'optional keys', repr((m['dm'], m['mjd'], m['source_name'])))
        elif L:
            ctx.must_raise(lambda: ctx.R.TimeSeries.from_sigproc(f), 'data which are not a dedispersed time series are refused')
            ctx.must_raise(lambda: ctx.R.Metadata.from_sigproc(f), 'data which are not a dedispersed time series are refused')


# ---------------------------------------------------------------- R33
def line(key, v, col=40):
    return (' ' + key).ljust(col)[:col] + '=  ' + v


def inf_text(ctx, basename='name', telescope='Parkes', source='J0534+2200', raj='05:34:31.9000', decj='22:00:52.0000', mjd=50000.0, bary=1, nsamp=100,
             tsamp=0.25, breaks=0, pairs=(), band='Radio', dm=10.0, fbot=1182.0, bw=400.0, nchan=1024, cbw=0.39, energy=5.0, bandpass=2.0, fov=600.0,
             instrument='Multibeam', observer='Kenji Oba', analyst='Space Sloth'):
    t = ctx.text
    L = [line('Data file name without suffix', basename), line('Telescope used', telescope), line('Instrument used', instrument),
         line('Object being observed', source), line('J2000 Right Ascension (hh:mm:ss.ssss)', raj), line('J2000 Declination     (dd:mm:ss.ssss)', decj),
         line('Data observed by', observer), line('Epoch of observation (MJD)', t(mjd)), line('Barycentered?           (1 yes, 0 no)', t(bary)),
         line('Number of bins in the time series', t(nsamp)), line('Width of each time series bin (sec)', t(tsamp)),
         line('Any breaks in the data? (1 yes, 0 no)', t(breaks))]
    for i, (a, b) in enumerate(pairs):
        L.append(line('On/Off bin pair #%3d' % (i + 1), '%s, %s' % (t(a), t(b))))
    L.append(line('Type of observation (EM band)', band))
    if band == 'Radio':
        L += [line('Beam diameter (arcsec)', t(fov)), line('Dispersion measure (cm-3 pc)', t(dm)), line('Central freq of low channel (Mhz)', t(fbot)),
              line('Total bandwidth (Mhz)', t(bw)), line('Number of channels', t(nchan)), line('Channel bandwidth (Mhz)', t(cbw)), line('Data analyzed by', analyst)]
    else:
        L += [line('Field-of-view diameter (arcsec)', t(fov)), line('Central energy (kev)', t(energy)), line('Energy bandpass (kev)', t(bandpass)),
              line('Data analyzed by', analyst)]
    return '\n'.join(L + [' Any additional notes:', '    Input filterbank samples have 2 bits.', ''])


@harness('R33', budget_s=200, max_paths=20000, bounds='0..3 and 25 on/off pairs, text with separators in it, Radio, X-ray and Gamma, arbitrary values of every number')
def presto_header_values(ctx):
    """every line of a PRESTO header is read with its type and value"""
    np_ = ctx.choose('pairs', [0, 1, 3, 25])
    em = ctx.choose('band', ['Radio', 'X-ray', 'Gamma'])
    r = {k: ctx.real(k, lo, hi) for k, lo, hi in (('mjd', 0, 65536), ('tsamp', 1e-5, 16), ('dm', 0, 4096), ('fbot', 1, 8192), ('bw', -8192, 8192),
                                                  ('cbw', -64, 64), ('fov', 0, 8192), ('energy', 0, 512), ('bandpass', 0, 512))}
    k = {n: ctx.int(n, 0, 2 ** 31 - 1) for n in ('nsamp', 'nchan')}
    bary = ctx.int('bary', 0, 1)
    prs = [(ctx.int('a%d' % i, 0, 2 ** 31 - 1), ctx.int('b%d' % i, 0, 2 ** 31 - 1)) if i in (0, 1, np_ - 1) else (1000 * i, 1000 * i + 500) for i in range(np_)]
    words = dict(basename='beam0001_DM10.00', telescope='Parkes', source='J0534+2200', instrument='Multibeam', observer='Kenji Oba', analyst='Space Sloth')
    if np_ % 2:
        words = dict(basename='a=b = c, d: e', telescope='GBT = 100 m', source='B1 = J2', instrument='x == y', observer='A, B and C = D  E', analyst="nobody's =")
    text = inf_text(ctx, pairs=prs, breaks=int(np_ > 0), band=em, bary=bary, **words, **r, **k)
    P = ctx.R.mod('riptide.reading.presto')
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.y.inf')
        with open(f, 'w') as g:
            g.write(text)
        inf = P.PrestoInf(f)
        ctx.check(inf.fname == os.path.realpath(f) and inf.data_fname == os.path.realpath(os.path.join(d, 'x.y.dat')), 'file names', repr((inf.fname, inf.data_fname)))
        exp = dict({('source_name' if n == 'source' else n): w for n, w in words.items()}, raj='05:34:31.9000', decj='22:00:52.0000',
                   mjd=r['mjd'], nsamp=k['nsamp'], tsamp=r['tsamp'], em_band=em, fov_arcsec=r['fov'])
        if em == 'Radio':
            exp.update(dm=r['dm'], fbot=r['fbot'], bandwidth=r['bw'], nchan=k['nchan'], cbw=r['cbw'])
        else:
            exp.update(central_energy_kev=r['energy'], energy_bandpass_kev=r['bandpass'])
        for n, v in exp.items():
            ctx.check(n in inf, 'header key ' + n)
            same_value(ctx, inf[n], v, 'header key ' + n)
        ctx.check(bool(inf['barycentered']) == bool(bary == 1), 'header key barycentered')
        ctx.check(bool(inf['breaks']) == (np_ > 0), 'header key breaks')
        ctx.check(len(inf['onoff_pairs']) == np_, 'on/off pairs', repr(inf['onoff_pairs']))
        ctx.close_all([(x, y) for a, b in zip(inf['onoff_pairs'], prs) for x, y in zip(a, b)], 'on/off pairs', tol=1e-9)
        ctx.check(set(inf) == set(exp) | {'barycentered', 'breaks', 'onoff_pairs'}, 'keys', repr(sorted(inf)))


@harness('R33', quick=[dict(n=4, real=4), dict(n=3, real=5)], budget_s=200, max_paths=20000,
         bounds='3..5 samples of every value, every tsamp, dm and mjd, Radio, X-ray and Gamma')
def presto_series(ctx):
    """a PRESTO series holds the single precision samples of the .dat file next to the
    header, its sampling time, DM, epoch, coordinates and length"""
    n, real = ctx.cfg['n'], ctx.cfg['real']
    em = ctx.choose('band', ['Radio', 'X-ray', 'Gamma'])
    pos = ctx.choose('pos', [('05:34:31.9000', '22:00:52.0000', 83.6329166667, 22.0144444444), ('23:00:00.0', '-00:30:36.0', 345.0, -0.51)])
    dt, dm, mjd = ctx.real('tsamp', 1e-4, 16), ctx.real('dm', 0, 4096), ctx.real('mjd', 0, 65536)
    X = ctx.vec('x', real, -1024, 1024)
    with tempfile.TemporaryDirectory() as d:
        d = os.path.join(d, 'dir.inf.d')
        os.mkdir(d)
        f = os.path.join(d, 'a_DM1.50.inf')
        with open(f, 'w') as g:
            g.write(inf_text(ctx, basename='renamed', tsamp=dt, dm=dm, mjd=mjd, nsamp=n, band=em, raj=pos[0], decj=pos[1]))
        ctx.write_data(os.path.join(d, 'a_DM1.50.dat'), X, 'float32')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            ts = ctx.R.TimeSeries.from_presto_inf(f)
        ctx.check(any(issubclass(x.category, UserWarning) for x in w) == (em != 'Radio'), 'warning on high-energy data', repr(w))
        ctx.check(str(ts.data.dtype) == 'float32' and ts.nsamp == real, 'samples of the .dat file', repr(ts.nsamp))
        ctx.same_all(list(zip(ctx.vals(ts.data), X)), 'samples of the .dat file', tol=1e-4)
        ctx.close(ts.tsamp, dt, 'sampling time', tol=1e-9)
        md = ts.metadata
        ctx.close(md['tobs'], real * dt, 'length of the series', tol=1e-6)
        ctx.close(md['mjd'], mjd, 'metadata mjd', tol=1e-9)
        if em == 'Radio':
            ctx.close(md['dm'], dm, 'metadata dm', tol=1e-9)
        else:
            ctx.check(md['dm'] is None, 'no dm outside of the radio band', repr(md['dm']))
        ctx.check(md['source_name'] == 'J0534+2200' and md['fname'] == os.path.realpath(f) and md['em_band'] == em, 'metadata')
        c = md['skycoord'].icrs
        ctx.check(abs(c.ra.deg - pos[2]) < 1e-6 and abs(c.dec.deg - pos[3]) < 1e-6, 'coordinates', '%r %r' % (c.ra.deg, c.dec.deg))
        m = ctx.R.Metadata.from_presto_inf(f)
        ctx.close(m['tobs'], n * dt, 'length in the header', tol=1e-6)
        for dt, k in ((64.1234567e-6, 7), (1.1e-7, 3)):
            with open(f, 'w') as g:
                g.write(inf_text(ctx, tsamp=dt, nsamp=k, dm=0.1234567891, mjd=50000.123456789))
            m = ctx.R.Metadata.from_presto_inf(f)
            ctx.check(abs(m['tobs'] - dt * k) < 1e-12 * k * dt and m['tsamp'] == dt and m['dm'] == 0.1234567891 and m['mjd'] == 50000.123456789, 'numbers are not rounded', repr(m))


@harness('R33', budget_s=200, max_paths=20000, bounds='every line of the header missing or misplaced, 3 bands which are not supported')
def presto_broken_header(ctx):
    """incomplete headers, artificial data and unknown bands are refused"""
    kind = ctx.choose('kind', ['cut', 'shift', 'fake', 'band', 'value'])
    P = ctx.R.mod('riptide.reading.presto')
    if kind == 'cut':
        text = '\n'.join(inf_text(ctx, band=ctx.choose('em', ['Radio', 'X-ray'])).split('\n')[:int(ctx.int('k', 0, 16))])
    elif kind == 'shift':
        L = inf_text(ctx).split('\n')
        k = int(ctx.int('k', 0, 19))
        L[k] = L[k][1:] if ctx.choose('left', [True, False]) else ' ' + L[k]
        text = '\n'.join(L)
    elif kind == 'fake':
        text = inf_text(ctx, telescope='None (Artificial Data Set)')
    elif kind == 'band':
        text = inf_text(ctx, band=ctx.choose('em', ['Infrared', 'Optical', 'radio']))
    else:
        L = inf_text(ctx).split('\n')
        k = ctx.choose('k', [7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18])
        L[k] = L[k][:43] + 'abc'
        text = '\n'.join(L)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.inf')
        with open(f, 'w') as g:
            g.write(text)
        ctx.must_raise(lambda: P.PrestoInf(f), 'a broken header is refused')


@harness('R33', quick=[dict(dtype=t) for t in ('float32', 'float64', 'int16', 'uint8')], bounds='6 samples of every value in 4 types, every tsamp')
def raw_files(ctx):
    """raw binary and .npy files give the samples they hold"""
    t = ctx.cfg['dtype']
    lo, hi = {'float32': (-1024, 1024), 'float64': (-1024, 1024), 'int16': (-32768, 32767), 'uint8': (0, 255)}[t]
    X = ctx.vec('x', 6, lo, hi) if t[0] == 'f' else [ctx.int('k%d' % i, lo, hi) for i in range(6)]
    dt = ctx.real('tsamp', 1e-4, 16)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.bin')
        ctx.write_data(f, X, t)
        ts = ctx.R.TimeSeries.from_binary(f, dt, **({} if t == 'float32' else dict(dtype=np.dtype(t))))
        np.save(os.path.join(d, 'a.npy'), np.arange(5).astype(t))
        tn = ctx.R.TimeSeries.from_npy_file(os.path.join(d, 'a.npy'), dt)
    ctx.check(str(ts.data.dtype) == 'float32' and ts.nsamp == 6, 'samples', '%s %d' % (ts.data.dtype, ts.nsamp))
    ctx.same_all(list(zip(ctx.vals(ts.data), X)), 'samples of the file', tol=1e-4)
    ctx.check([float(v) for v in ctx.vals(tn.data)] == [0., 1., 2., 3., 4.], 'samples of the .npy file')
    for s in (ts, tn):
        ctx.close(s.tsamp, dt, 'sampling time', tol=1e-9)
        ctx.close(s.metadata['tobs'], s.nsamp * dt, 'length', tol=1e-6)


@harness('R33', bounds='5 fixed samples in 5 types of both byte orders')
def raw_byte_orders(ctx):
    """the byte order of the given type is respected"""
    t = ctx.choose('dtype', ['>f4', '>f8', '<f4', '>i2', '<i4'])
    v = [1.0, -2.0, 300.0, 0.0, 7.0]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.bin')
        with open(f, 'wb') as g:
            g.write(np.array(v).astype(t).tobytes())
        np.save(os.path.join(d, 'a.npy'), np.array(v).astype(t))
        for ts in (ctx.R.TimeSeries.from_binary(f, 0.5, dtype=t), ctx.R.TimeSeries.from_binary(f, 0.5, dtype=np.dtype(t)),
                   ctx.R.TimeSeries.from_npy_file(os.path.join(d, 'a.npy'), 0.5)):
            ctx.check([float(x) for x in ctx.vals(ts.data)] == v, 'samples of the file', repr(ctx.vals(ts.data)))
            ctx.check(str(ts.data.dtype) == 'float32', 'samples are single precision')


# ---------------------------------------------------------------- R34
@harness('R34', quick=[dict(key=k) for k in ('dm', 'mjd', 'tobs')], budget_s=100, bounds='every value of dm, mjd and tobs in [-1024, 1024], and every type')
def metadata_numbers(ctx):
    """dm and mjd must be floats >= 0, tobs a float > 0, or None"""
    k = ctx.cfg['key']
    kind = ctx.choose('kind', ['real', 'none', 'str', 'list', 'absent', 'int', 'nan', 'double'])
    M = ctx.R.Metadata
    if kind == 'real':
        v = ctx.real('v', -1024, 1024)
        ok = (v > 0) if k == 'tobs' else (v >= 0)
        if bool(ok):
            m = M({k: v})
            ctx.close(m[k], v, 'value of ' + k, tol=1e-9)
        else:
            ctx.must_raise(lambda: M({k: v}), 'invalid values are refused')
    elif kind in ('none', 'absent'):
        m = M({k: None} if kind == 'none' else {})
        ctx.check(k in m and m[k] is None, 'missing values are None')
    else:
        v = {'str': '3.5', 'list': [3.5], 'int': 3, 'nan': float('nan'), 'double': np.float64(2.5)}[kind]
        if kind == 'double':
            ctx.check(M({k: v})[k] == 2.5, 'double precision numbers are floats')
        else:
            ctx.must_raise(lambda: M({k: v}), 'values of another type are refused')


@harness('R34', budget_s=100, bounds='every combination of present and absent reserved keys with nested extra values')
def metadata_items(ctx):
    """reserved keys which are missing are None, the others and any JSON-serialisable
    extra are kept, and the caller's dictionary is not modified"""
    M = ctx.R.Metadata
    vals = {'source_name': 'J0000', 'dm': ctx.real('dm', 0, 64), 'mjd': ctx.real('mjd', 0, 64), 'tobs': ctx.real('tobs', 1, 64), 'fname': '/a/b.inf'}
    d = {k: v for k, v in vals.items() if ctx.choose('has_' + k, [True, False])}
    d['extra'] = {'a': [1, 2, {'b': None}], 'c': 'text'}
    d['n'] = 7
    d['nothing'] = None
    keep = dict(d)
    m = M(d)
    ctx.check(set(d) == set(keep), 'the argument is not modified')
    ctx.check(set(m) == {'source_name', 'skycoord', 'dm', 'mjd', 'tobs', 'fname', 'extra', 'n', 'nothing'}, 'keys', repr(sorted(m)))
    for t in (m, M.from_dict(m.to_dict()), M(m)):
        for k, v in vals.items():
            if k in keep:
                same_value(ctx, t[k], v, 'value of ' + k)
            else:
                ctx.check(t[k] is None, 'missing values are None')
        ctx.check(t['skycoord'] is None and t['n'] == 7 and t['nothing'] is None and t['extra'] == {'a': [1, 2, {'b': None}], 'c': 'text'}, 'extra values')
        ctx.check(isinstance(t, dict) and isinstance(t, M), 'type')
    t = M(m)
    t['dm'] = 99.0
    ctx.check(m['dm'] is None or ctx.is_sym(m['dm']) or m['dm'] != 99.0, 'copies are independent')
    t = M({'source_name': '', 'fname': ''})
    ctx.check(t['source_name'] == '' and t['fname'] == '', 'empty texts are kept')
    e = M()
    ctx.check(all(v is None for v in e.values()) and M()['dm'] is None, 'empty metadata')


@harness('R34', bounds='5 kinds of invalid items')
def metadata_refusals(ctx):
    """items which break the schema are refused"""
    M = ctx.R.Metadata
    bad = [{'source_name': 3}, {'fname': 2.5}, {'skycoord': '00:00:00'}, {'skycoord': (1.0, 2.0)}, {'extra': object()}, {'extra': {1, 2}}, {'source_name': b'x'}]
    k = ctx.choose('k', list(range(len(bad))))
    ctx.must_raise(lambda: M(bad[k]), 'invalid items are refused')
    from astropy.coordinates import SkyCoord
    c = SkyCoord(10, 20, unit='deg')
    ctx.check(M({'skycoord': c})['skycoord'] is c, 'coordinates are kept')


# ---------------------------------------------------------------- R35
def layouts(ctx, X, dtype):
    """the same numbers in various memory layouts"""
    a = ctx.farr(X, dtype)
    lay = ctx.choose('layout', ['1d', '2d', 'transposed', 'fortran', 'sliced', 'reversed', '3d', 'empty'])
    if lay == '1d':
        return a
    if lay == '2d':
        return a.reshape(3, 4)
    if lay == 'transposed':
        return a.reshape(3, 4).T
    if lay == 'fortran':
        return np.asfortranarray(a.reshape(3, 4)) if not hasattr(a, 'plain') else a.reshape(4, 3).T
    if lay == 'sliced':
        return a.reshape(3, 4)[::2, 1:]
    if lay == 'reversed':
        return a[::-1]
    if lay == '3d':
        return a.reshape(2, 3, 2)
    return a[:0]


def same_array(ctx, got, want, label):
    ctx.check(tuple(got.shape) == tuple(want.shape), label + ': shape', '%r, expected %r' % (got.shape, want.shape))
    ctx.check(str(got.dtype) == str(want.dtype), label + ': type', '%s, expected %s' % (got.dtype, want.dtype))
    ctx.same_all(list(zip(ctx.vals(got), ctx.vals(want))), label + ': values', tol=1e-9)


def through(ctx, obj, how):
    R = ctx.R
    if how == 'text':
        return R.mod('riptide.serialization').from_json(R.mod('riptide.serialization').to_json(obj))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.json')
        with open(f, 'w') as g:
            g.write('x' * 100000)
        R.save_json(f, obj)
        return R.load_json(f)


@harness('R35', quick=[dict(dtype=d) for d in ('float32', 'float64', 'int64')], thorough=[dict(dtype=d) for d in ('float32', 'float64', 'int64', 'int32', 'uint8')],
         bounds='arrays of up to 12 arbitrary elements in 8 memory layouts', budget_s=100)
def json_arrays(ctx):
    """arrays come back with their type, shape and values, whatever their memory layout"""
    t = ctx.cfg['dtype']
    X = ctx.vec('x', 12, -64, 64) if t[0] == 'f' else [ctx.int('k%d' % i, 0, 100) for i in range(12)]
    a = layouts(ctx, X, t)
    how = ctx.choose('how', ['text', 'file'])
    b = through(ctx, {'a': a, 'l': [a, {'x': a}], 'n': None, 's': 'str', 'i': 3}, how)
    ctx.check(set(b) == {'a', 'l', 'n', 's', 'i'} and b['n'] is None and b['s'] == 'str' and b['i'] == 3, 'structure', repr(b.keys()))
    for y in (b['a'], b['l'][0], b['l'][1]['x']):
        same_array(ctx, y, a, 'array')


@harness('R35', bounds='arrays of 10 types, both byte orders and 4 shapes, of fixed contents', budget_s=60)
def json_array_types(ctx):
    """arrays of any numeric type and byte order come back with type and values"""
    t = ctx.choose('dtype', ['>f4', '>f8', '<i2', '>i2', '>i8', '|b1', '<u2', '<f2', '<c8', '|i1'])
    shape = ctx.choose('shape', [(2, 3), (6,), (1, 6, 1), ()])
    v = [0, 1, 1, 0, 1, 1] if t == '|b1' else [0, 1, 100, -3 if t[1] != 'u' else 3, 7, 2]
    a = np.array(v if shape else v[2]).astype(t).reshape(shape)
    b = through(ctx, {'a': a, 'l': [a]}, 'text')
    for y in (b['a'], b['l'][0]):
        ctx.check(tuple(y.shape) == shape and str(np.dtype(y.dtype)) == str(a.dtype), 'array type', '%s' % y.dtype)
        ctx.check(np.asarray(y.tolist() if hasattr(y, 'tolist') else y).tolist() == a.tolist(), 'array values', repr(y))


@harness('R35', bounds='fixed objects: 150001 numbers, 6 sampling times, numbers that are not finite', budget_s=60)
def json_exact(ctx):
    """nothing is rounded, however long the array"""
    R = ctx.R
    how = ctx.choose('how', ['text', 'file'])
    n = 150001
    a = (np.arange(n) * 7 % 1009) / 3.0 + 1e5
    b = through(ctx, {'a': a}, how)['a']
    ctx.check(tuple(b.shape) == (n,) and str(b.dtype) == 'float64', 'array')
    V = ctx.vals(b)
    ctx.check(all(V[i] == (i * 7 % 1009) / 3.0 + 1e5 for i in range(0, n, 331)), 'values of a long array')
    for dt, k in ((64e-6, 3), (0.1, 3), (0.7, 12), (7.3, 9), (0.0001, 13), (1e-9, 5)):
        t = through(ctx, R.TimeSeries(ctx.farr([1.0] * k), dt, metadata={'dm': 0.1, 'x': dt}), how)
        ctx.check(t.tsamp == dt and t.metadata['x'] == dt and t.metadata['dm'] == 0.1 and t.metadata['tobs'] == k * dt, 'times', repr(t.tsamp))
    v = {'p': float('inf'), 'm': -float('inf'), 'q': float('nan'), 'f': np.float64(0.1), 'g': np.float32(0.1), 'h': np.float32(1.17e-38)}
    b = through(ctx, v, how)
    ctx.check(b['p'] == v['p'] and b['m'] == v['m'] and b['q'] != b['q'], 'numbers that are not finite', repr(b))
    ctx.check(all(b[k] == float(v[k]) for k in 'fgh'), 'NumPy numbers', repr(b))


@harness('R35', budget_s=100, bounds='a series of 4 samples, a periodogram of 3 x 2 trials and a candidate of 2 x 3 bins with arbitrary contents')
def json_objects(ctx):
    """TimeSeries, Periodogram, Candidate and metadata survive JSON"""
    import pandas
    from astropy.coordinates import SkyCoord
    R = ctx.R
    how = ctx.choose('how', ['text', 'file'])
    sky = SkyCoord(123.25, -45.5, unit='deg') if ctx.choose('sky', [True, False]) else None
    dm, dt = ctx.real('dm', 0, 64), ctx.real('tsamp', 1e-3, 16)
    md = R.Metadata({'dm': dm, 'source_name': 'J1', 'skycoord': sky, 'extra': {'a': [1, 2.5, None]}})
    ts = R.TimeSeries(ctx.farr(ctx.vec('x', 4)), dt, metadata=md)
    pg = R.Periodogram(np.asarray([1, 2]), ctx.farr(ctx.vec('p', 3, 0.5, 8), 'float64'), np.asarray([4, 4, 5]), ctx.arr('s', (3, 2), -16, 16), metadata=ts.metadata)
    df = pandas.DataFrame({'period': [1.5, 2.5], 'dm': [0.0, 10.0], 'width': [1, 3], 'snr': [8.25, 9.5]}, columns=['period', 'dm', 'width', 'snr'])
    c = R.Candidate({'period': dt, 'dm': dm, 'width': 3}, ts.metadata, df, ctx.arr('b', (2, 3), -16, 16))
    o = through(ctx, {'all': [ts, pg, c]}, how)['all']
    ctx.check(len(o) == 3 and [type(x) for x in o] == [R.TimeSeries, R.Periodogram, R.Candidate], 'types', repr([type(x) for x in o]))
    t, p, d = o
    same_array(ctx, t.data, ts.data, 'samples')
    ctx.close(t.tsamp, dt, 'sampling time', tol=1e-9)
    for n in ('widths', 'periods', 'foldbins', 'snrs'):
        same_array(ctx, getattr(p, n), getattr(pg, n), n)
    same_array(ctx, d.subints, c.subints, 'sub-integrations')
    ctx.check(set(d.params) == {'period', 'dm', 'width'} and d.params['width'] == 3, 'candidate parameters')
    ctx.close_all([(d.params['period'], dt), (d.params['dm'], dm)], 'candidate parameters', tol=1e-9)
    ctx.check(list(d.peaks.columns) == list(df.columns) and d.peaks.shape == df.shape and [list(map(float, r)) for r in d.peaks.values] ==
              [list(map(float, r)) for r in df.values], 'peaks of the candidate', repr(d.peaks))
    for m in (t.metadata, p.metadata, d.tsmeta):
        ctx.close(m['dm'], dm, 'metadata dm', tol=1e-9)
        ctx.close(m['tobs'], 4 * dt, 'metadata tobs', tol=1e-6)
        ctx.check(m['source_name'] == 'J1' and m['extra'] == {'a': [1, 2.5, None]} and m['fname'] is None, 'metadata', repr(m))
        if sky is None:
            ctx.check(m['skycoord'] is None, 'coordinates')
        else:
            ctx.check(abs(m['skycoord'].icrs.ra.deg - 123.25) < 1e-9 and abs(m['skycoord'].icrs.dec.deg + 45.5) < 1e-9, 'coordinates', repr(m['skycoord']))
    ctx.check(ts.nsamp == 4 and set(c.params) == {'period', 'dm', 'width'}, 'the objects are left as they were')
    ctx.check(all(getattr(x, 'version', None) for x in o), 'objects carry a version')


@harness('R35', bounds='arbitrary coordinates in ICRS, arbitrary NumPy scalars')
def json_scalars(ctx):
    """NumPy numbers and coordinates survive JSON"""
    R = ctx.R
    from astropy.coordinates import SkyCoord
    import astropy.units as u
    v = {'f': np.float64(0.1), 'g': np.float32(0.5), 'i': np.int64(-3), 'u': np.uint8(200), 'h': np.uint64(2 ** 63 + 5), 'l': [np.int32(4), {'x': np.float32(2.25)}]}
    b = through(ctx, v, ctx.choose('how', ['text', 'file']))
    ctx.check(b == {'f': 0.1, 'g': 0.5, 'i': -3, 'u': 200, 'h': 2 ** 63 + 5, 'l': [4, {'x': 2.25}]}, 'NumPy scalars', repr(b))
    ctx.check(isinstance(b['i'], int) and isinstance(b['f'], float), 'types of NumPy scalars')
    try:
        t = R.mod('riptide.serialization').to_json([np.bool_(True), {'x': np.bool_(False)}])
    except (TypeError, ValueError):
        pass
    else:
        t = R.mod('riptide.serialization').from_json(t)
        ctx.check(t[0] is True and t[1]['x'] is False, 'NumPy booleans come back or are refused', repr(t))
    a, d = ctx.real('ra', 0, 359), ctx.real('dec', -89, 89)
    SC = R.mod('riptide.serialization').SkyCoord
    if hasattr(a, 't'):
        sky = SC(a, d, unit='deg', frame='icrs')
    else:
        sky = SkyCoord(a * u.deg, d * u.deg, frame='icrs')
    s = through(ctx, [sky], 'text')[0]
    ctx.close_all([(s.icrs.ra.deg, a), (s.icrs.dec.deg, d)], 'coordinates', tol=1e-9)
    g = SkyCoord(100.0, -10.0, unit='deg', frame='galactic')
    h = through(ctx, g, 'text')
    ctx.check(abs(h.galactic.l.deg - 100.0) < 1e-6 and abs(h.galactic.b.deg + 10.0) < 1e-6, 'coordinates of another frame', repr(h))


@harness('R35', bounds='tables of floats, integers and strings', budget_s=60)
def json_tables(ctx):
    """tables come back with their columns, in order, and their values"""
    import pandas
    n = ctx.choose('rows', [0, 1, 3])
    cols = ctx.choose('cols', [['b', 'a', 'c'], ['snr'], list('zyxwvutsrqponmlkjihg'), [3, 0, 12]])
    kind = ctx.choose('kind', ['float', 'int'])
    V = [[(i * 7 + j * 3) % 5 * (0.5 if kind == 'float' else 1) for j in range(len(cols))] for i in range(n)]
    df = pandas.DataFrame(np.asarray(V, dtype=kind).reshape(n, len(cols)), columns=cols)
    e = through(ctx, {'t': df}, 'text')['t']
    ctx.check(list(e.columns) == cols and e.shape == df.shape, 'columns', repr(e.columns))
    ctx.check(e.values.tolist() == V, 'values', repr(e.values))
    ctx.check(df.shape == (n, len(cols)), 'the table is left as it was')


@harness('R35', bounds='tables with missing values, texts and both, of up to 3 rows', budget_s=60)
def json_mixed_tables(ctx):
    """tables with texts and missing values come back as they were; what cannot be restored is refused"""
    import pandas
    n = ctx.choose('rows', [1, 3])
    kind = ctx.choose('kind', ['none', 'text', 'both', 'mixed', 'nan'])
    row = {'none': [1.5, None, 8.25], 'text': [1.5, 'a', 'b "c"'], 'both': [2, None, 'x'], 'mixed': [1, 2.5, 'x'], 'nan': [1.5, float('nan'), 2.0]}[kind]
    cols = ['period', 'dm', 'snr']
    df = pandas.DataFrame.from_dict([dict(zip(cols, row)) for _ in range(n)])[cols]
    e = through(ctx, {'t': df}, ctx.choose('how', ['text', 'file']))['t']
    ctx.check(list(e.columns) == cols and e.shape == (n, 3), 'columns', repr(e.columns))
    null = lambda v: v is None or v != v
    ctx.check(all((null(x) and null(y)) or x == y for r in e.values.tolist() for x, y in zip(r, row)), 'values', repr(e.values))
    ctx.check([bool(null(x)) for x in df.values.tolist()[0]] == [null(x) for x in row], 'the table is left as it was')
    J = ctx.R.mod('riptide.serialization')

    class Other(object):
        def to_dict(self):
            return {'x': 1}
    bad = [np.array([(1, 2.5)], dtype=[('a', 'i4'), ('b', 'f8')]), pandas.Series([1.5, 2.5]), 1j, b'x', {1, 2}, np.datetime64('2020-01-01'), Other(), ctx.R.Metadata]
    for o in bad:
        for w in (o, {'a': [o]}):
            ctx.must_raise(lambda: J.to_json(w), 'what cannot be restored is refused when saving')
    try:
        t = J.to_json({'a': np.array([1, None, 'x'], dtype=object)})
    except (TypeError, ValueError):
        return
    ctx.check(list(J.from_json(t)['a']) == [1, None, 'x'], 'arrays of python objects come back or are refused', t)


@harness('R35', bounds='a series of 6 samples with arbitrary contents', budget_s=100)
def json_loaded_in_place(ctx):
    """what was loaded can be processed in place as the original can, without reaching other objects"""
    R = ctx.R
    J = R.mod('riptide.serialization')
    t = R.TimeSeries(ctx.arr('x', 6, -16, 16), 0.5, metadata={'dm': 2.0})
    s = J.to_json({'t': t, 'a': t.data})
    b, c = J.from_json(s), J.from_json(s)
    X = ctx.vals(t.data)
    b['a'][0] = 99.0
    ctx.same_all(list(zip(ctx.vals(b['t'].data), X)), 'other arrays keep their values', tol=1e-9)
    op = ctx.choose('op', ['deredden', 'normalise', 'downsample'])
    if op == 'normalise':
        ctx.assume(sum(X) != 6 * X[0])
    f = {'deredden': lambda o: o.deredden(1.5, minpts=3, inplace=True), 'normalise': lambda o: o.normalise(inplace=True),
         'downsample': lambda o: o.downsample(2.0, inplace=True)}[op]
    f(b['t'])
    f(t)
    ctx.same_all(list(zip(ctx.vals(b['t'].data), ctx.vals(t.data))), 'processing in place gives the same', tol=1e-6)
    ctx.same_all(list(zip(ctx.vals(c['t'].data), X)), 'objects loaded separately keep their values', tol=1e-9)
