from vp import sym
EXPLANATION = 'Vectors and matrices are symbolic (all entries), compared with the textbook definition.'
ASSUMPTIONS = ['doubles are exact reals', 'matrix inverse: no leading principal minor vanishes (the elimination does not exchange rows)']
J = lambda n, b, **k: sym(n, 'c04.c', entry=k.pop('entry', 'h_' + n), nra=k.pop('nra', True), bounds=b, **k)
JOBS = [
    J('linear', 'all vectors |x|<=1e4'), J('norms', 'all vectors |x|<=1e4', reach=['end', 'zero']),
    J('cmp', 'all vectors, eps 0..100'),
    J('normal', 'm<=3 rows, n<=2 of 3 columns, all entries'), J('matmul', 'm<=3, n<=2, k<=2, padding 0..1, all entries'),
    J('inverse', '2x2, row length 2..3, all entries', defs=['D=2']),
    J('inverse_dense', '4x4, dense constants plus one symbolic row', entry='h_inverse_sparse', defs=['D=4', 'DENSE=1']),
    J('inverse3', '3x3, row length 3..4, all entries', entry='h_inverse', defs=['D=3'], query_ms=60000, tier='thorough'),
    J('inverse_sparse', '6x6 diagonal plus one symbolic row', defs=['D=6']),
    J('normal_deep', 'm<=5, n<=4 of 6, all entries', entry='h_normal', defs=['M=5', 'NN=4', 'L=6']),
    J('matmul_deep', 'm<=5, n<=4, all entries', entry='h_matmul', defs=['M=5', 'NN=4', 'L=6']),
]
