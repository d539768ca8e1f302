from vp import sym
EXPLANATION = ('Limits, prediction and acceleration for all symbolic vectors; the angle for all parallel, opposite and zero displacements '
               'and for a symbolic displacement in four planes against the definition. Then the tracking steps with symbolic limits: exactly the '
               'candidates that satisfy them are kept, with their documented fitness.')
ASSUMPTIONS = ['doubles are exact reals; acos is an uninterpreted strictly decreasing function onto 0..pi with acos(1)=0']
JOBS = [sym('bounds', 'c23.c', entry='h_bounds', bounds='all positions and limits', reach=['inside', 'outside']),
        sym('predict', 'c23.c', entry='h_predict', bounds='all positions'),
        sym('acc', 'c23.c', entry='h_acc', bounds='components within +-10', nra=True),
        sym('parallel', 'c23.c', entry='h_parallel', bounds='components and factor within +-10', nra=True, reach=['zero', 'parallel', 'opposite']),
        sym('angle', 'c23.c', entry='h_angle', bounds='four planes, any direction and lengths', nra=True)]

OV = ['sorted_candidates_in_volume', 'assess_new_position', 'point_position', 'angle_acc', 'point_to_pixel']
L = lambda name, b, defs, fn='h_forward', reach=['end', 'linked'], **kw: sym(name, 'c22.c', entry=fn, defs=['NC1=1', 'LIMITS'] + defs, override=OV, reach=reach,
    bounds='one particle, limits, angles and accelerations symbolic, ' + b, **kw)
JOBS += [L('link', 'two candidates with predecessor', []), L('link_new', 'two candidates without predecessor', ['PREVMASK=0']),
         L('link_add', 'one candidate, particle added after the next frame', ['ADD=1', 'QA=1', 'NCAND=1']),
         L('link_add_next', 'particle added in the next frame', ['ADD=1', 'QB=1', 'NCAND=1']),
         L('link_back', 'two candidates backwards, particle added', ['ADD=1', 'QB=1'], fn='h_backward', reach=['end', 'linked', 'added'])]
