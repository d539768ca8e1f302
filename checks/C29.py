from vp import sym
EXPLANATION = ('Cython translates the binding modules of the current tree to C; that C is executed symbolically with a small stand-in for the interpreter and numpy '
               '(harness/pyrt.h). Methods are called through their entry in the type, with symbolic numbers, and what they store and give back is compared.')
ASSUMPTIONS = ['the stand-in for CPython and numpy behaves as they do, for the operations the modules use', 'reference counts and memory of Python objects are not judged',
               'not-a-number is outside; the mark -1 with an error set is told from a value -1 as the generated code does',
               'the C functions a wrapper calls are replaced by ones that note their arguments and give arbitrary results, where they have properties of their own']
T = lambda n, b, r, **k: sym(n, 'c29_targ.c', entry='h_' + n, pyx='tracking_framebuf', bounds=b, reach=r, **k)
JOBS = [T('target', 'all values', ['set', 'made']), T('array', '3 targets, index -2..5', ['inside', 'outside']), T('sort', '3 targets', ['sorted']),
        T('frame', '2 cameras, 2 particles, 3 targets', ['none', 'target'])]
P = lambda n, b, r, **k: sym(n, 'c29_par.c', entry='h_' + n, pyx='parameters', bounds=b, reach=r, **k)
JOBS += [P('tracking', 'all values', ['set']), P('volume', 'all values', ['set']), P('media', 'all values', ['set']), P('targ', 'all values', ['set']), P('seq', 'all values', ['set']),
         P('control', 'all values', ['set']), P('shape', 'sequences of 0..6', ['refused']), P('layers', '1..3 layers', ['layers']),
         P('kw', 'all values', ['tracking', 'sequence', 'volume', 'target', 'control', 'media']), P('equal', 'any one value differs', ['equal']), P('names', '3 cameras', ['names'])]
K = lambda n, b, r, **k: sym(n, 'c29_cal.c', entry='h_' + n[4:], pyx='calibration', bounds=b, reach=r, **k)
JOBS += [K('cal_fields', 'all values', ['set']), K('cal_kw', 'all values, any one left out', ['kw']), K('cal_shape', 'arrays of 1..5', ['refused']),
         K('cal_files', 'with and without added parameters and fallback', ['files'], override=['read_calibration', 'write_calibration'])]
OV = ['pixel_to_metric', 'metric_to_pixel', 'correct_brown_affin', 'distort_brown_affin', 'dist_to_flat']
X = lambda n, b, r, **k: sym(n, 'c29_trafo.c', entry='h_' + n, pyx='transforms', bounds=b, reach=r, override=OV, **k)
JOBS += [X('rows', '0..3 rows, next to each other or not, result array absent, given, or the input', ['rows']), X('wrong', '1..2 rows, 1..3 columns', ['wrong'])]
