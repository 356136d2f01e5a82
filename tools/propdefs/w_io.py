P('R32', 'SIGPROC time series are read exactly, malformed headers refused',
  'Every key of a SIGPROC header is decoded with its type and value whatever the order, standard and user-supplied keys alike; an unknown key, a wrong '
  'start flag or a truncated header raises an error. Coordinates packed as hhmmss.s and ddmmss.s give the right position, including negative '
  'declinations near zero. Samples of single-channel 32-bit float and 8-bit signed or unsigned files are loaded exactly, with sampling time and metadata '
  '(dm, mjd, tobs, source name); other formats are refused.',
  ['inputs'], 'Every header and sample value.', 'Tests read a few small files.',
  ['riptide/reading/sigproc.py', 'riptide/time_series.py', 'riptide/metadata.py'],
  [('header', 'riptide/reading/sigproc.py read_sigproc_header'), ('series', 'riptide/time_series.py TimeSeries.from_sigproc')],
  ['SigprocHeader', 'TimeSeries.from_sigproc', 'Metadata.from_sigproc'], 'Headers with 44 keys in 3 orders; every truncation point; 5 samples (12 thorough) of every value; every position.')

P('R33', 'PRESTO, raw binary and NumPy series are read exactly',
  'Every line of a PRESTO .inf file (Radio, X-ray, Gamma; any number of on/off pairs) is decoded with its type and value, incomplete or unsupported '
  'headers raise an error, and TimeSeries.from_presto_inf() holds the single precision samples of the .dat file next to the header with sampling time, dm, '
  'mjd, position and length. from_binary() and from_npy_file() hold exactly the samples of their file for the given type.',
  ['inputs'], 'Every header and sample value.', 'Tests read a few small files.',
  ['riptide/reading/presto.py', 'riptide/time_series.py', 'riptide/metadata.py'],
  [('header', 'riptide/reading/presto.py PrestoInf'), ('series', 'riptide/time_series.py TimeSeries.from_presto_inf')],
  ['PrestoInf', 'TimeSeries.from_presto_inf, from_binary, from_npy_file'], '3..6 samples of every value, arbitrary numbers in every field, every line missing.')

P('R34', 'Metadata keep what they are given and refuse invalid reserved items',
  'A Metadata object holds every given item, None for missing reserved keys (source_name, skycoord, dm, mjd, tobs, fname), and never modifies the '
  'caller\'s dictionary. A dm or mjd which is not a float >= 0, a tobs which is not a float > 0, other reserved items of the wrong type, and items that cannot be '
  'serialised are refused.',
  ['inputs'], 'Every item.', 'Tests try a few values.', ['riptide/metadata.py'], [('schema', 'riptide/metadata.py Metadata')], ['Metadata'],
  'dm, mjd and tobs of every value in [-1024, 1024] and other types; every combination of present keys.')

P('R35', 'Everything saved as JSON loads back identical',
  'save_json / load_json and to_json / from_json return plain JSON values, NumPy numbers, arrays (type, shape and values, whatever the memory layout), tables '
  '(columns in order, missing values and texts included), sky positions, and TimeSeries, Periodogram and Candidate objects with their metadata, all equal to the '
  'originals, nested in lists and dictionaries as well, and what was loaded can be modified and processed in place like the original. Saving leaves the object unchanged; what '
  'cannot be restored (records, python objects in arrays, objects of other classes) is refused when saving.',
  ['inputs'], 'Every content, type and memory layout.', 'Tests round-trip a few contiguous arrays.',
  ['riptide/serialization.py', 'riptide/metadata.py', 'riptide/time_series.py', 'riptide/periodogram.py', 'riptide/candidate.py'],
  [('encoder', 'riptide/serialization.py JSONEncoder'), ('decoder', 'riptide/serialization.py object_hook')], ['load_json, from_json'],
  'Arrays of up to 12 arbitrary elements in 8 memory layouts; objects with arbitrary contents; tables by cases.')
