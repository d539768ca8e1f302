from vp import sym
EXPLANATION = 'Rays built around a known common perpendicular; averaging over camera pairs with arbitrary rays and used/unused patterns.'
ASSUMPTIONS = ['doubles are exact reals', 'averaging: ray_tracing is replaced by arbitrary vertices with fixed directions (rays: C05)',
               'skew: one direction symbolic, the other from 4 fixed ones; rays not parallel', 'at least two cameras used']
JOBS = [sym('skew', 'c13.c', entry='h_skew', bounds='first direction, offsets and distance symbolic, 4 second directions', nra=True),
        sym('position', 'c13.c', entry='h_position', bounds='2..4 cameras, every used pattern, arbitrary ray vertices', override=['ray_tracing']),
        sym('dumbbell', 'c13.c', entry='h_dumbbell', bounds='1..2 dumbbells, length 1..30, two coordinates of one end symbolic',
            nra=True, override=['point_position'])]
