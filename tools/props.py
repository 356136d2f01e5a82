"""Source of properties.jsonl and MANIFEST.json: run this file after editing it."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, note=note, state=state or []))


CPP = 'riptide/cpp/'

P('F01', 'The FFA transform sums periods along near-straight phase paths',
  'Row s of the FFA transform of m folded periods is the sum of all m input rows, each used exactly once and rotated to the left by a '
  'whole number of bins. The rotation of row i starts at 0 for the first input row, reaches s for the last one, never decreases with i, and '
  'deviates from the straight line s*i/(m-1) by no more than the rounding of a binary tree of that depth allows. The transform is the same '
  'for a 2D input and for a 1D series cut in periods (the incomplete last period dropped), and leaves its input unchanged.',
  ['inputs', 'programs'], 'All data values and every number of rows and columns.',
  'Tests compare a few fixed inputs with a Python re-implementation; they do not cover every shape or the all-data linearity.',
  [CPP + 'transforms.hpp', CPP + 'kernels.hpp', CPP + 'block.hpp', CPP + 'python_bindings.cpp', 'riptide/libffa.py'],
  [('recursive merge of head and tail halves', CPP + 'transforms.hpp merge, transform'), ('rotate and add', CPP + 'kernels.hpp fused_rollback_add'),
   ('cutting a series in periods', 'riptide/libffa.py ffa1')], ['return value of ffa2, ffa1'],
  'Compiled IR of the native code executed with symbolic data for listed shapes up to 33 rows; real arithmetic instead of float32 data.')

P('F02', 'Trial frequencies and periods label the rows of the transform',
  'For a series of N samples cut in periods of p samples there is exactly one trial frequency per row of the transform: '
  '(1/p - s/(m-1)/p^2)/dt for row s, or 1/(p dt) when there is a single row; the trial period is its inverse. '
  'Anything but integers N >= p > 1 and dt > 0 is refused.',
  ['inputs'], 'Every N, p and dt.', 'Tests check a handful of (N, p, dt) triples.',
  ['riptide/libffa.py'], [('linear frequency spacing', 'riptide/libffa.py ffafreq'), ('inverse', 'riptide/libffa.py ffaprd')],
  ['return value of ffafreq, ffaprd'], 'Symbolic N, dt over stated ranges, every p up to 9 (14 thorough).')

P('F03', 'Boxcar S/N is the best matched filter response over all phases',
  'The S/N of a folded profile at boxcar width w equals the largest circular correlation of the profile with the zero-mean, unit-norm '
  'boxcar of w bins, divided by the noise standard deviation, for every profile, width and shape of input. '
  'Widths outside 1..bins-1, an empty list of widths and non-positive noise levels are refused. The input is not modified.',
  ['inputs'], 'All profiles, width lists 1 <= w < bins and noise levels.', 'Tests compare random profiles with a reference; an error at a '
  'wrap-around phase or for a particular width order needs a specific profile.',
  [CPP + 'snr.hpp', CPP + 'kernels.hpp', 'riptide/libffa.py'],
  [('prefix sums and maximum difference', CPP + 'snr.hpp snr1, snr2'), ('argument checks', CPP + 'snr.hpp check_trial_widths, check_stdnoise'),
   ('reshaping', 'riptide/libffa.py boxcar_snr')], ['return value of boxcar_snr'],
  'Compiled IR with symbolic profiles for listed shapes; real arithmetic with a tolerance of 2e-3.')

P('F04', 'Downsampling by a real factor integrates the signal exactly',
  'Downsampling n samples by any real factor 1 < f <= n yields floor(n/f) samples, the k-th being the integral of the piecewise-constant '
  'input over [k f, (k+1) f]. Every other factor is refused and the input is left unchanged.',
  ['inputs'], 'Every real factor, every input value and length.', 'Tests use a few factors; errors sit at factors that divide the length '
  'or put a boundary exactly on a sample edge.', [CPP + 'downsample.hpp', 'riptide/libffa.py'],
  [('edge weights', CPP + 'downsample.hpp downsample'), ('factor check', CPP + 'downsample.hpp check_downsampling_factor')],
  ['return value of downsample'], 'Compiled IR: symbolic factor for every length up to 6 (10 thorough), and symbolic data for listed factors.')

P('F05', 'The running median is exact, with edge padding',
  'The running median of width w replaces every sample by the median of the w samples centred on it, samples beyond either end being equal '
  'to the first or last sample. Widths that are even, non-positive or not smaller than the data are refused, and the input is not modified.',
  ['inputs'], 'All data orders (ties included), lengths and odd widths.', 'Tests compare random data with a reference for a few lengths; '
  'the incremental sorted window has order-dependent branches that random data need not reach.',
  [CPP + 'running_median.hpp', 'riptide/running_medians.py'],
  [('sorted window updated incrementally', CPP + 'running_median.hpp')], ['return value of running_median'],
  'Compiled IR, every ordering of the data for lengths up to 6 (7 thorough), and longer ramps with an arbitrary outlier.')

P('F06', 'The fast running median follows its stated approximation',
  'The fast running median averages blocks of max(1, int(width / min_points)) samples, takes the running median of min_points blocks, and '
  'interpolates linearly between block centres to the original resolution; without reduction it is the exact running median of the requested '
  'width. An even min_points and a window that does not fit are refused; the output has the length of the input, which is not modified.',
  ['inputs'], 'All data, widths and numbers of points.', 'Tests compare a smooth signal within a loose tolerance.',
  ['riptide/running_medians.py'], [('scrunch, median, interpolate', 'riptide/running_medians.py fast_running_median')],
  ['return value of fast_running_median'], 'Python source and compiled IR executed symbolically; listed (n, width, min_points), all data.')

P('F07', 'A periodogram tries exactly the planned periods',
  'A search from period_min to period_max with bins_min to bins_max phase bins tries, in increasing order, the periods of every FFA transform '
  'of the series downsampled by geometrically increasing factors: the first is period_min, each lies below period_max and below the first '
  'period of the next number of bins, and each is labelled with its number of phase bins. The search stops by itself where periods no longer '
  'fit twice in the data, and invalid ranges are refused.',
  ['inputs', 'configurations'], 'Every series length, sampling time, period range and bin range.',
  'Tests run one range on one series; off-by-one errors in the plan need particular lengths or limits.',
  [CPP + 'periodogram.hpp', 'riptide/search.py'],
  [('search plan', CPP + 'periodogram.hpp periodogram, periodogram_length, ceilshift'), ('range check', CPP + 'periodogram.hpp periodogram_check_arguments')],
  ['periods and foldbins of the periodogram'], 'Compiled IR with symbolic period_max (or period_min, or tsamp) for listed sizes.')

P('F08', 'Periodogram S/N are those of the transform at the stated factor',
  'The S/N reported for a trial period, at each trial width, is the boxcar S/N of the corresponding row of the FFA transform of the series '
  'downsampled by the factor of that trial, normalised by the expected noise of that transform; the series itself is used when that factor '
  'is one. Rows appear in the order of the trial periods and the series is not modified.',
  ['inputs', 'configurations'], 'All data values; every trial of a search.', 'Tests look at the brightest peak of one simulated pulsar.',
  [CPP + 'periodogram.hpp', CPP + 'snr.hpp', CPP + 'transforms.hpp'],
  [('search loop', CPP + 'periodogram.hpp periodogram')], ['snrs of the periodogram'],
  'Compiled IR with symbolic data, listed series lengths (up to 40, 81 thorough) and ranges; compared with the public building blocks.')

P('F09', 'S/N are normalised by the noise level after downsampling and folding',
  'The noise level that normalises the S/N of a trial is that of unit-variance white noise after downsampling by the real factor f and '
  'folding: the square root of the number of periods times the mean sum of squared downsampling weights, f for integer factors and f - 1/3 '
  'when the phase of the sample boundaries is spread evenly.',
  ['inputs'], 'Every real downsampling factor and series length.', 'No test looks at the noise level; errors at near-integer factors only '
  'change S/N values at particular periods.', [CPP + 'downsample.hpp', CPP + 'periodogram.hpp'],
  [('variance formula', CPP + 'downsample.hpp downsampled_variance')], ['snrs of the periodogram'],
  'Compiled IR with a symbolic factor from 1 to 6.25 (8.25 thorough) and small series.')

P('F10', 'Native functions are memory safe and treat array layouts alike',
  'No public array function reads or writes outside its arrays or returns undefined values, whatever the shape of its arguments: wrong '
  'dimensions, empty arrays and out-of-range widths raise an error. A non-contiguous view is refused or gives the result of a contiguous '
  'copy, other numeric types give the result of their single-precision conversion, and circular rotations and prefix sums are exact for '
  'every shift and length.',
  ['inputs'], 'Every shape, stride, type, shift and length.', 'Tests use well-formed contiguous float32 input.',
  [CPP + 'python_bindings.cpp', CPP + 'kernels.hpp', CPP + 'block.hpp'],
  [('checks at the boundary', CPP + 'python_bindings.cpp'), ('kernels', CPP + 'kernels.hpp')], ['return values and exceptions of the native functions'],
  'Every load and store of the executed IR is bounds-checked and definedness-checked; arrays of up to 16 elements.')

for _f in sorted(glob.glob(os.path.join(HERE, 'tools', 'propdefs', '*.py'))):
    exec(compile(open(_f).read(), _f, 'exec'))

TRUST = (' Trusted: the IR executor and NumPy stand-ins (validated on every run against the real extension on solver-chosen and random inputs), '
         'z3. Counterexamples are replayed on the real code before being reported.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); import engine.core"', 'checks': []}
    for p in PROPS:
        cmd = '/opt/venv/bin/python check.py %s --tier ' % p['id']
        m['checks'].append({'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                            'technique': 'symbolic execution of the real code with z3', 'level': 'model_checking',
                            'level_note': p['note'] + TRUST})
    m['not_applicable'] = []
    m['notes'] = 'No hooks in /repo. See DESIGN.md.'
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
