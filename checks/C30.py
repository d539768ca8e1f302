from vp import sym
EXPLANATION = 'The window computed for arbitrary corner projections (every corner in turn anywhere relative to the others), all velocity limits and points.'
ASSUMPTIONS = ['doubles are exact reals', 'img_coord is replaced by arbitrary projections (C06)', 'at most one corner differs from the others at a time',
               'lower velocity limits are negative, upper ones positive']
JOBS = [sym('window', 'c30.c', entry='h_quader', override=['img_coord'], bounds='1..2 cameras, all 8 corners')]
