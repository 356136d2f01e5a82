P('P21', 'DM trials are selected as sparsely as coverage of the range allows',
  'select_dms() returns, in increasing order, a subset of the available trial DMs within [dm_start, dm_end], from the first to the last of '
  'them. Steps leave no part of the range uncovered that available trials could cover (each trial covers the DMs around it for which the '
  'dispersion error stays within max(wmin, intra-channel smearing)), and no trial is selected where a farther one would do. '
  'Without any trial in range it raises ValueError.',
  ['inputs'], 'Every set of trial DMs in any order, range, observing band and width.', 'There is no direct test; the pipeline tests use one list of DMs.',
  ['riptide/pipeline/dmiter.py'], [('greedy selection', 'riptide/pipeline/dmiter.py select_dms')], ['return value of select_dms'],
  'Every set of 3 trials (4 thorough) in any order and 4..5 sorted ones (7 thorough), arbitrary limits and width, 4 observing bands.')

P('P22', 'The DM iterator visits the selected files with the right range and metadata',
  'DMIterator selects trial DMs between the requested limits (blank means unlimited), lowered to dmsinb_max / |sin b|, and yields the file of each '
  'selected trial exactly once, by increasing DM, in chunks of the requested size. The observing band is the one of the '
  'files when they hold it and agree, otherwise the configured one; tobs_median and tsamp_max are the median length and the largest '
  'sampling time of all the input files. No files, disagreeing positions, and no known band are refused.',
  ['inputs', 'configurations'], 'Every set of files, limits, cap and chunk size.', 'Tests run the pipeline on one set of files without cap.',
  ['riptide/pipeline/dmiter.py'], [('range and selection', 'riptide/pipeline/dmiter.py DMIterator.__init__'),
   ('iteration', 'riptide/pipeline/dmiter.py DMIterator.iterate_filenames')], ['attributes and methods of DMIterator'],
  '3 files (4 thorough) of arbitrary DMs, lengths and sampling times, arbitrary limits and cap, chunks of 1, 2 and 5.')

P('P23', 'Search ranges partition the period axis and are checked against the data',
  'get_search_range(P) is the range with period_min <= P < period_max, the one of the shortest periods below all of them and the one of the '
  'longest above, however the ranges are listed. wmin() is the smallest period_min / bins_min. Ranges that do not follow each other in order of period without gap or overlap, or whose '
  'period_min / bins_min or period_min / candidate bins is below the largest sampling time, are refused when the pipeline is prepared, others accepted.',
  ['inputs', 'configurations'], 'Every period and list of ranges.', 'Tests check a few wrong configurations.',
  ['riptide/pipeline/pipeline.py', 'riptide/pipeline/config_validation.py'],
  [('lookup', 'riptide/pipeline/pipeline.py Pipeline.get_search_range'), ('validation', 'riptide/pipeline/config_validation.py validate_ranges')],
  ['return value of get_search_range and wmin', 'exceptions of validate_ranges'],
  '1..3 ranges (5 thorough) with arbitrary boundaries, arbitrary period and sampling time.')

P('P24', 'The harmonic test compares phase, DM and S/N with the closest fraction',
  'htest(F, H) finds the fraction p/q closest to H.freq / F.freq (denominator of the fast-to-slow ratio at most denom_max) and declares a '
  'harmonic exactly when the phase drift over tobs in units of the fast signal\'s duty cycle, the dispersion delay difference across the '
  'band in units of the narrower pulse, and |H.snr - F.snr / sqrt(p q)| are all within their limits. '
  'The fraction is that of H relative to F whichever is faster; an empty band or a null length is refused.',
  ['inputs'], 'Every pair of candidates, limits, length and band.', 'Tests check a few pairs of made-up candidates.',
  ['riptide/pipeline/harmonic_testing.py'], [('distances', 'riptide/pipeline/harmonic_testing.py hdiag'), ('test', 'riptide/pipeline/harmonic_testing.py htest')],
  ['return value of htest, hdiag'],
  'Every frequency ratio up to 3, denominators up to 5 (8 thorough), arbitrary S/N, duty cycles, DMs, lengths and limits.')

P('P25', 'Harmonics are attached to the brightest matching fundamental, ranks by S/N',
  'flag_harmonics() ranks the clusters by decreasing S/N of their brightest peak and, taking pairs in that order, flags the fainter of two clusters '
  'that pass the harmonic test as a harmonic of the brighter one unless either is a harmonic already. No harmonic is the parent of '
  'another; parent, fraction and ranks appear in the cluster summaries, zeros standing for a fundamental.',
  ['inputs', 'histories'], 'Every set of clusters.', 'Tests run one simulated pulsar.',
  ['riptide/pipeline/pipeline.py', 'riptide/pipeline/peak_cluster.py', 'riptide/pipeline/harmonic_testing.py'],
  [('pairs by decreasing S/N', 'riptide/pipeline/pipeline.py Pipeline.flag_harmonics'), ('flags', 'riptide/pipeline/peak_cluster.py PeakCluster')],
  ['rank, parent_fundamental, hfrac and summary_dict of the clusters'],
  '3 clusters (4 thorough), four sets of frequencies, arbitrary S/N or DMs (both thorough).')

P('P26', 'Candidate filters keep exactly the clusters that pass, brightest first',
  'apply_candidate_filters() keeps exactly the clusters whose centre has dm >= dm_min and snr >= snr_min (when given), that are not flagged '
  'harmonics if remove_harmonics is set, and of these the max_number brightest when limited. Filters apply in that order, unset '
  'filters do nothing and the list of all clusters is unchanged.',
  ['inputs', 'configurations'], 'Every set of clusters and combination of filters.', 'Tests never enable most filters.',
  ['riptide/pipeline/pipeline.py'], [('filters', 'riptide/pipeline/pipeline.py Pipeline.apply_candidate_filters')], ['clusters_filtered of the pipeline'],
  '3..4 clusters, arbitrary S/N, DMs and thresholds, every set of harmonics.')

P('P27', 'Peaks of all DMs are clustered in frequency without loss or duplication',
  'cluster_peaks() groups the peaks of all DM trials by friends-of-friends in frequency with radius = configured radius / median length of '
  'the data; each peak belongs to exactly one cluster, whose centre is its brightest peak. Cluster tables have one row per cluster in '
  'decreasing S/N with the parameters of the centre, the rank, the number of peaks and the harmonic relation.',
  ['inputs'], 'Every set of peaks.', 'Tests run one simulated pulsar.',
  ['riptide/pipeline/pipeline.py', 'riptide/pipeline/peak_cluster.py', 'riptide/clustering.py'],
  [('clustering', 'riptide/pipeline/pipeline.py Pipeline.cluster_peaks'), ('tables', 'riptide/pipeline/peak_cluster.py clusters_to_dataframe')],
  ['clusters of the pipeline', 'clusters_to_dataframe'], 'Up to 4 peaks (6 thorough), arbitrary frequencies, S/N and radius.')

P('P28', 'Pipeline configurations are accepted exactly when valid',
  'A Pipeline accepts a configuration exactly when every section and field documented in example.yaml is present with a value of its documented '
  'type and domain (null where allowed) and nothing unknown is present. Otherwise construction fails before any data are read. '
  'Accepted values are used unchanged.',
  ['configurations'], 'Every value of every field.', 'Tests try a few wrong values.',
  ['riptide/pipeline/config_validation.py', 'riptide/pipeline/config/example.yaml'],
  [('schema', 'riptide/pipeline/config_validation.py validate_pipeline_config')], ['Pipeline constructor'],
  'Each of 32 numeric fields with every real and integer in [-8, 8] plus other types; structure by cases.')

P('P29', 'The worker pool searches every file over every range, with no peak lost',
  'WorkerPool.process_fname_list() loads each file, dereddens and normalises it once with the configured window, searches it over each of the '
  'configured ranges with that range\'s own search and peak-finding parameters, and returns the peaks of all files and ranges, grouped in the order of the files '
  'whatever the number of processes and the order in which they finish. Files of a later call do not see state of an earlier one.',
  ['inputs', 'schedules', 'configurations'], 'Every list of files, number of processes and completion order.',
  'Tests run two processes on a few files and look at the brightest peak.',
  ['riptide/pipeline/worker_pool.py'], [('parallel map', 'riptide/pipeline/worker_pool.py WorkerPool.process_fname_list'),
   ('per-file search', 'riptide/pipeline/worker_pool.py WorkerPool.process_ts')], ['return value of process_fname_list'],
  '3 files of 40 samples, one of arbitrary scale and offset, or every S/N threshold; two ranges; 1..4 processes, in-order and reverse completion; process pools run in-process with '
  'isolated copies.')

P('P30', 'Candidates hold, fold and store what the pipeline found',
  'A candidate built from a cluster has the parameters of its brightest peak, the table of all its peaks, the metadata of the series, and that series '
  'folded at the peak\'s period in the requested bins and sub-integrations (every period when the number is None or exceeds those available). '
  'Its DM curve is the best S/N of each trial DM in increasing order and its profile the sum of the sub-integrations. Saved as candidate_NNNN.json (NNNN = '
  'rank) it loads back identical, and any candidate can be plotted.',
  ['inputs', 'configurations'], 'Every cluster, series, number of bins and sub-integrations.', 'Tests write one candidate.',
  ['riptide/candidate.py', 'riptide/pipeline/pipeline.py', 'riptide/folding.py'],
  [('construction', 'riptide/candidate.py Candidate.from_pipeline_output'), ('writing', 'riptide/pipeline/pipeline.py CandidateWriter')],
  ['attributes and files of candidates'], 'Series of 12..13 arbitrary samples (18 thorough), clusters of 3..4 peaks; files and plots by cases with fixed contents.')

P('P31', 'rseek reports the brightest peak of every group of the documented search',
  'rseek dereddens and normalises the series with the given running median, searches it with the given parameters and prints and returns one row per friends-of-friends '
  'group (radius clrad / tobs) of peaks above smin: its brightest peak, rows in decreasing S/N. It returns nothing without peaks; all documented '
  'options are honoured.',
  ['inputs', 'configurations'], 'Every threshold, radius and option.', 'Tests check the brightest row of one simulated file.',
  ['riptide/apps/rseek.py'], [('program', 'riptide/apps/rseek.py run_program')], ['return value and output of run_program'],
  'One series of 40 samples, every threshold from 1/2 to 8, every radius from 0.01 to 2.')

P('P36', 'A pipeline run reports every peak, cluster and candidate it found',
  'Pipeline.process() searches exactly the selected files and writes peaks.csv (every peak, by increasing period), clusters.csv (every cluster, '
  'by decreasing S/N) and, for the clusters that pass the filters and no others, candidates.csv and one candidate file per rank, each folded from the '
  'file of the cluster\'s own DM with the bins and sub-integrations of the range of its period. Results do not depend on the order of the input '
  'files, the number of processes, their completion order or earlier runs.',
  ['inputs', 'schedules', 'configurations', 'histories'], 'Every set of files and configuration.', 'Tests check that the brightest candidate of one run is right.',
  ['riptide/pipeline/pipeline.py', 'riptide/pipeline/worker_pool.py', 'riptide/pipeline/dmiter.py'],
  [('stages', 'riptide/pipeline/pipeline.py Pipeline.process'), ('products', 'riptide/pipeline/pipeline.py Pipeline.save_products')],
  ['files written by Pipeline.process'],
  '3 files of 40 samples, two ranges; arbitrary scale and offset, clustering radius, DM or S/N threshold, in-order and reverse completion, earlier runs with and without peaks.')
