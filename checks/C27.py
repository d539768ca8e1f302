from vp import sym
EXPLANATION = ('orient and raw_orient run with stand-ins for the projection, its exterior derivatives and the solution of the normal equations, so that every iteration has an '
               'arbitrary correction vector; compared are the parameters afterwards for flag patterns, the design matrix, misclosures and weights handed to the '
               'solution, and the result without convergence. num_deriv_exterior runs with a linear projection.')
ASSUMPTIONS = ['doubles are exact reals (adding and subtracting a step leaves rounding natively)', 'two iterations with arbitrary corrections, the second small, then none; or none that ever vanishes',
               'the normal equations and their inverse are decided in C04', 'derivatives over the distortion parameters: for a camera without distortion and shear (the code uses the distorted point in them)']
OV = ['img_coord', 'num_deriv_exterior', 'ata', 'matinv', 'atl']
J = lambda n, b, e=None, ov=OV, **k: sym(n, 'c27.c', entry='h_' + (e or n), bounds=b, override=ov, **k)
C = 'corrections +-2 and +-2e-5'
JOBS = [J('flags', 'no flag or any single one, 1 point, ' + C, defs=['TOGGLE=0'], reach=['interface', 'end']), J('flags_on', 'all flags or all but one, ' + C, 'flags', defs=['TOGGLE=2047'], reach=['interface', 'end']),
        J('glass', '25 glass normals, any two corrections', nra=True), J('fail', '80 iterations, first correction symbolic'),
        J('rows', '4 points with target, without or with another, useflag 0..3, any positions', defs=['NFIX=4']), J('weights', '1 point, each flag', 'rows', defs=['NFIX=1', 'ONEFLAG=1']),
        J('columns', '4 directions, radius 0..34'), J('glass_rows', '7 glass normals'),
        J('exact', '2 points anywhere, camera with distortion, all flags or one', ov=['img_coord', 'num_deriv_exterior', 'ata', 'matinv'], defs=['NFIX=2']),
        J('raw', '1..12 points, ' + C), J('raw_fail', '4 points, 20 iterations'), sym('deriv', 'c27d.c', entry='h_deriv', bounds='any position, angles and steps', override=['img_coord'])] + [
        J('flags_%d' % i, 'flag combinations %d..%d' % (256 * i, 256 * i + 255), 'flags', defs=['M0=%d' % (256 * i), 'M1=%d' % (256 * i + 255)], tier='thorough', reach=['end']) for i in range(8)]
