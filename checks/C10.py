from vp import sym
EXPLANATION = ('The proposed matches are symbolic in members and score, the targets in their usage marks; the result is compared with the '
               'greedy definition. The use across quadruplets, triplets and pairs is decided in C12.')
ASSUMPTIONS = ['target numbers in range', 'scores are exact reals (no NaN)']
J = lambda n, nc, t, tier='quick', fixed=0: sym('take%d_%d_%d%s' % (n, nc, t, '_f%d' % fixed if fixed else ''), 'c10.c', entry='h_take',
    defs=['N=%d' % n, 'NC=%d' % nc, 'T=%d' % t] + (['FIXED=%d' % fixed] if fixed else []), tier=tier, reach=['some'],
    bounds='0..%d matches of %d cameras with %d targets, all members and usage marks symbolic, scores %s' % (n, nc, t, 'in a fixed order' if fixed else 'symbolic'))
JOBS = [J(2, 4, 2), J(3, 2, 2), J(2, 2, 3), J(4, 2, 2, fixed=3), J(3, 3, 2, 'thorough', fixed=2), J(4, 2, 2, 'thorough')]
