from vp import sym
EXPLANATION = ('The distortion is compared with the documented formula for symbolic points and parameters. The inverse is decided '
               'through the fixed points of the model: for 8 points and every parameter set that maps the point onto itself the '
               'correction must return it; plus exactness without Brown terms and convergence with one parameter symbolic.')
ASSUMPTIONS = ['doubles are exact reals; sin/cos uninterpreted apart from sin^2+cos^2=1',
               'convergence of the correction is only examined for 2 points and one radial parameter at a time']
def J(n, b, **k): return sym(n, 'c02.c', entry='h_' + n, bounds=b, nra=True, **k)
JOBS = [J('formula', '|x|,|y|<=20, all seven parameters symbolic'), J('formula_center', 'all parameters symbolic'),
        J('no_distortion', '|x|,|y|<=20, any tolerance'), J('affine_only', '|x|,|y|<=20, scale .5..2, shear with cos>.5'),
        J('fixed_points', '8 points x 4 scale/shear combinations, all Brown parameter sets that fix the point', force_const=True),
        sym('fixed_points_tol', 'c02.c', entry='h_fixed_points', bounds='the same with a relative tolerance of 1e-3', nra=True, force_const=True, defs=['FPTOL=1e-3']),
        J('converges', '2 points, k1 symbolic, relative effect up to 0.4 %'),
        sym('converges_deep', 'c02.c', entry='h_converges', bounds='2 points, one of k1,k2,k3 symbolic, up to 1.6 %', nra=True, defs=['NPAR=3', 'VMAX=.015625'], tier='thorough')]
