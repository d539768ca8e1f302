from vp import sym
EXPLANATION = ('Change of frame and back, projection with an arbitrary refraction factor, points of traced rays, and the radial shift. The shift is decided on '
               'rational angles: the incidence angle and those in the layers are Pythagorean, depths and thicknesses are symbolic and constrained so that the '
               'iteration ends after one or two steps (or alternates for ever); the result must be the one of the refraction formula.')
ASSUMPTIONS = ['doubles are exact reals', 'glass normals: 6 rational directions at distance 25', 'projection: 6 rational rotations with any point and camera position, or any rotation matrix with one point and camera',
               'shift: the iteration that takes more than two steps is not followed (apart from one that never ends)']
J = lambda n, b, e=None, **k: sym(n, 'c06.c', entry='h_' + (e or n), nra=True, bounds=b, **k)
A = ['SMAX=3', 'FMIN=2']
OV = ['multimed_r_nlay']
JOBS = [J('frame', 'camera, point +-200, thickness .5..10, factor .5..2, 6 glass normals'),
        J('project', 'any point and camera, 2 glass normals x 6 rotations, factor 4/3', override=OV, defs=['NORMAL_D', 'GE=1']),
        J('project_all', 'any point and camera, 6 glass normals x 6 rotations, factors 2/3, 1, 4/3', 'project', override=OV, defs=['NORMAL_D'] + A, tier='thorough'),
        J('project_rot', 'any matrix, one point and camera, 6 glass normals', 'project', defs=['FIXED=1', 'ANYROT=1'], override=OV),
        J('medium', 'any point'), J('ray', 'any camera position, 0..100 along the ray, 6 rays, 2 glass normals', defs=['NORMAL_D', 'GE=1']),
        J('ray_all', 'the same with 6 glass normals and 3 scales', 'ray', defs=['NORMAL_D'] + A, tier='thorough'),
        J('distorted', 'any point below the camera, k1, xh, yh symbolic', defs=['GE=0']),
        J('shift', '6 angles, 1..3 layers, 2 heights, any depth and thickness', force_const=True),
        J('shift2', '3 pairs of angles, 2 layers in both orders, any depth and thickness', force_const=True), J('cycle', 'any depth and thickness', force_const=True),
        J('under', 'any indices and depth'), J('table', 'any entry, including none', override=['get_mmf_from_mmlut'], reach=['table', 'iteration', 'end'])]
