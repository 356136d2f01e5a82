P('S16', 'ffa_search searches the dereddened, normalised series with the right trials',
  'ffa_search() subtracts the running median (unless deredden=False), then normalises (unless already_normalised=True), and returns that '
  'series with its periodogram: the native search of exactly those samples between period_min and period_max, capped to the data length / '
  'fpmin, with bins_min to bins_max bins and width trials generated for bins_min. The source series is left unchanged and its metadata '
  'reach the periodogram.',
  ['inputs', 'configurations'], 'All data, parameters and combinations of options.',
  'Tests run two searches and look at the top S/N.', ['riptide/search.py', 'riptide/ffautils.py', 'riptide/periodogram.py'],
  [('order of the stages', 'riptide/search.py ffa_search')], ['return value of ffa_search'],
  'Arbitrary scale and offset of fixed series of up to 30 samples for the combinations of options; arbitrary data of up to 26 samples (33 thorough); '
  'arbitrary period_min or period_max on 16 samples.')

P('S17', 'Boxcar width trials follow the documented geometric sequence',
  'The trial widths for n bins are 1, then max(w + 1, floor(wtsp * w)) after w, up to and including max(1, floor(ducy_max * n)): they are '
  'strictly increasing, none is skipped, and all are narrower than n bins when ducy_max < 1.',
  ['inputs'], 'Every number of bins, maximum duty cycle and step factor.', 'Tests use the default values only.',
  ['riptide/ffautils.py'], [('sequence of widths', 'riptide/ffautils.py generate_width_trials')], ['Periodogram.widths'],
  'Every number of bins from 2 to 12 (33 thorough), real duty cycles in (0, 1), factors in (1, 4]; 100, 240 and 1040 bins with wtsp 1.5.')

P('S18', 'Peaks are the brightest trials of each cluster above the fitted threshold',
  'find_peaks() reports, for every width trial, exactly one peak per friends-of-friends cluster (radius clrad / tobs in frequency) of the '
  'trials whose S/N exceeds both smin and the threshold: a polynomial of degree polydeg in log(f) fitted to median + nstd * IQR / 1.349 of '
  'segments of width segwidth / tobs, or smin when there are fewer than minseg segments. Each peak carries the parameters '
  'of the brightest trial of its cluster, and peaks are sorted by decreasing S/N.',
  ['inputs'], 'All S/N values, thresholds, radii and numbers of trials.', 'Tests check the brightest peak of a simulated pulsar.',
  ['riptide/peak_detection.py', 'riptide/clustering.py', 'riptide/periodogram.py'],
  [('segments and control points', 'riptide/peak_detection.py segment_stats'), ('fit', 'riptide/peak_detection.py fit_threshold'),
   ('selection and clustering', 'riptide/peak_detection.py find_peaks_single, find_peaks')], ['return value of find_peaks'],
  'Symbolic S/N and threshold for up to 5 trials (6 thorough) and 2 widths with the constant threshold; one arbitrary S/N, scale and offset for '
  '10..14 trials (40 thorough) with a fitted one; NumPy least squares is evaluated as the linear map it is.')

P('S19', 'Periodogram objects expose consistent frequencies and lossless dictionaries',
  'The frequencies of a Periodogram are the inverse of its periods element by element, tobs is the length of the searched series from the '
  'metadata, and to_dict / from_dict keep widths, periods, fold bins, S/N and metadata. Missing metadata give an empty Metadata.',
  ['inputs'], 'All contents.', 'Tests do not build periodograms by hand.', ['riptide/periodogram.py'],
  [('accessors', 'riptide/periodogram.py Periodogram')], ['attributes of Periodogram'], 'Symbolic contents of up to 5 trials and 3 widths.')

P('P20', 'One-dimensional clustering is exactly friends-of-friends',
  'cluster1d(x, r) partitions the indices of x in the connected components of the relation |x_i - x_j| <= r, each point in exactly one '
  'non-empty cluster, for unsorted input and for sequences already sorted in either direction; no points give no clusters and the input is unchanged.',
  ['inputs'], 'Every set of points and radius.', 'There is no direct test; ties and gaps equal to the radius need specific points.',
  ['riptide/clustering.py'], [('gaps larger than the radius', 'riptide/clustering.py cluster1d')], ['return value of cluster1d'],
  'Every set of up to 4 points (5 thorough), every monotonic sequence of up to 6 (9 thorough), every radius.')
