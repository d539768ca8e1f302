from vp import sym
EXPLANATION = ('Each reader runs on a file written word by word in the documented order with every number symbolic, and on the same file missing, cut '
               'after any word, or with any number replaced by text.')
ASSUMPTIONS = ['cuts happen between words (a number cut in its digits is another number)', 'malloc succeeds', 'real values printed with full precision']
R = ['whole', 'missing', 'cut', 'word']
J = lambda n, b, r=R, **k: sym(n, 'c24.c', entry='h_' + n, bounds=b, reach=r, **k)
A = ', all values, every damage'
JOBS = [J('track', '9 values' + A), J('volume', '12 values' + A), J('sequence', '1..4 cameras' + A), J('control', '1..4 cameras' + A),
        J('long_names', 'names of 1, 239, 240, 241, 700 characters', ['sequence', 'control']), J('bad_cams', 'all negative numbers of cameras', ['end']), J('target', '13 values' + A),
        J('target_write', '13 values', ['written', 'not writable']), J('orient', '12 values' + A), J('sortgrid', '1 value' + A), J('calblock', '1..3 points' + A),
        J('man_ori', '4 points, 2 of 3 cameras, all picked numbers 0..5', ['end'], defs=['NP=4']), J('man_ori_damage', '3..5 points, 3 cameras' + A, R + ['few']), J('man_ori_block', 'block missing, empty or cut', ['end'])]
