P('T11', 'Normalisation produces z-scores without touching anything else',
  'TimeSeries.normalise() returns a series whose samples are (x - mean) / std of the whole series, for any data of non-zero variance and '
  'independently of their offset and scale, in single precision. Without inplace=True the source series is unchanged; with it nothing is '
  'returned and the series itself is replaced. Sampling time and metadata are kept, and an array supplied by the user is not modified '
  'unless the series shares it by design.',
  ['inputs'], 'All sample values, lengths and both modes.', 'Tests check one random series of a fixed length.',
  ['riptide/time_series.py'], [('z-scores in double precision', 'riptide/time_series.py normalise')], ['TimeSeries.data, tsamp, metadata'],
  'Symbolic data of 2..5 samples (8 thorough), a symbolic outlier among up to 6 samples, a symbolic scale at large offsets; real arithmetic.')

P('T12', 'Dereddening subtracts the fast running median of the requested width',
  'TimeSeries.deredden(width, minpts) subtracts from the data their fast running median, whose window is the requested width converted to '
  'the nearest number of samples, with at least minpts scrunched points in the window. A window that does not fit is refused '
  'and the series left unchanged. Length, sampling time and metadata are kept and only inplace=True changes the source.',
  ['inputs'], 'All data values, lengths, widths, sampling times and minpts.',
  'Tests only check that the call works; rounding of the width and the interpolation edges need specific values.',
  ['riptide/time_series.py', 'riptide/running_medians.py'],
  [('width in samples', 'riptide/time_series.py deredden'), ('scrunch, median, interpolate', 'riptide/running_medians.py fast_running_median')],
  ['TimeSeries.data'], 'Symbolic data for listed (n, width, tsamp, minpts) of 4..10 samples; every real width from 0 to 16 sampling times on 12 fixed samples.')

P('T13', 'Time series bookkeeping stays consistent through any sequence of operations',
  'After any sequence of copy, normalise, deredden, downsample (in place or not) and fold, a TimeSeries holds one-dimensional single '
  'precision data, its length and the "tobs" metadata equal nsamp * tsamp, and other metadata are preserved. Downsampling multiplies '
  'tsamp by exactly the factor and yields floor(n / factor) integrated samples. Operations that are not in place never alter their source, and results '
  'never share metadata or (when copy=True) data with it.',
  ['histories', 'inputs'], 'Every sequence of operations, factor, sampling time and input type.',
  'Tests check single operations; stale attributes need a particular sequence of two or more.',
  ['riptide/time_series.py', 'riptide/metadata.py'],
  [('in place updates', 'riptide/time_series.py downsample'), ('construction and copies', 'riptide/time_series.py TimeSeries.__init__, copy')],
  ['TimeSeries.data, nsamp, tsamp, length, tobs, metadata'],
  'Every sequence of 3 operations (4 thorough) on fixed data; symbolic data, factor and sampling time for single operations of up to 9 samples.',
  state=[('TimeSeries', 'data, sampling time and metadata of a series', 'riptide/time_series.py')])

P('T14', 'Folding integrates the data in phase bins and conserves the signal',
  'TimeSeries.fold(period, bins, subints) gives, for row k and bin j, the integral of the data over that phase bin in the periods of '
  'sub-integration k, scaled by 1/sqrt(m * samples per bin) for m whole periods, so that the sum of the rows is the folded profile. Exactly the requested '
  'number of rows is returned (one per whole period when subints is None, 1D for a single row). Periods longer than the data, bins shorter than '
  'a sample and more sub-integrations than whole periods are refused; the series is unchanged.',
  ['inputs'], 'All data, periods, numbers of bins and of sub-integrations.', 'Tests check the shape of a few folds.',
  ['riptide/folding.py', 'riptide/libffa.py'],
  [('phase binning', 'riptide/folding.py fold'), ('sub-integrations', 'riptide/folding.py downsample_vertical, exact_factor')],
  ['return value of TimeSeries.fold'],
  'Symbolic data for 11 listed foldings of 15..33 samples; every real period and subints in -1..8 for 12 and 14 samples; every pair of '
  'periods and subints up to 40.')

P('T15', 'Simulated signals have the requested amplitude, shape, phase and noise',
  'generate_signal() returns amplitude times a unit-norm von Mises pulse train of the requested period, initial phase and duty cycle (FWHM), '
  'plus white noise of exactly the requested standard deviation, none when it is 0. TimeSeries.generate() makes the same signal from a length '
  'and period in seconds, at the nearest number of samples, and records it in its metadata.',
  ['inputs'], 'All amplitudes, noise levels and samples, lengths, periods, phases and duty cycles.', 'Tests check lengths and a few values.',
  ['riptide/libffa.py', 'riptide/time_series.py'], [('von Mises pulses', 'riptide/libffa.py generate_signal'), ('units', 'riptide/time_series.py generate')],
  ['return value of generate_signal and TimeSeries.generate'],
  'Symbolic amplitude, noise level, noise samples and length; listed periods, phases and duty cycles of up to 12 samples.')
