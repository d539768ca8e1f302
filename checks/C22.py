from vp import sym
EXPLANATION = ('trackcorr_c_loop and trackback_c run on frames of two particles with every acceptance decision symbolic (angle and acceleration of '
               'each candidate, number of unused targets found, velocity limits); candidates, fitness order, links, added particles and counts are '
               'compared with the documented rules. The list operations are decided for all entries.')
ASSUMPTIONS = ['candidate search, triangulation, projection and angle are symbolic tables (C13, C20, C21, C23, C30 decide them)',
               'the frames read are consistent: links mutual, particle numbers of targets inside the frame', 'doubles and floats are exact reals',
               'particles stand on a line in general direction, so that their distances are rational']
OV = ['sorted_candidates_in_volume', 'assess_new_position', 'point_position', 'angle_acc', 'point_to_pixel']
B = '2 particles per frame, up to 2 candidates each with up to 1 continuation, '
F = lambda name, b, defs=[], tier='quick', reach=['end'], **kw: sym(name, 'c22.c', entry='h_forward', defs=defs, override=OV, reach=reach, tier=tier, bounds=B + b, **kw)
G = lambda name, b, defs=[], tier='quick', reach=['end', 'linked'], **kw: sym(name, 'c22.c', entry='h_backward', defs=defs, override=OV, reach=reach, tier=tier,
    bounds='2 particles per frame, 4 frames, ' + b, **kw)
JOBS = [sym('list', 'c22.c', entry='h_list', bounds='any filling of the list, all values', reach=['end']),
        F('forward', 'no predecessors', ['PREVMASK=0'], reach=['end', 'linked', 'contested']),
        sym('three', 'c22.c', entry='h_forward', defs=['PREVMASK=0', 'PATHS=3', 'NCAND=1', 'SAME=1'], override=OV, reach=['end', 'linked', 'contested'],
            bounds='3 particles with the same candidate, no predecessors'),
        F('pred', 'one with a predecessor and one candidate', ['PREVMASK=2', 'LASTCAND=1'], reach=['end', 'linked', 'contested']),
        F('add_next', '1 particle, unused targets in the next frame', ['NC1=1', 'ADD=1', 'QB=1'], reach=['end', 'linked']),
        F('add_second', '1 particle, 1 candidate, unused targets in the frame after', ['NC1=1', 'ADD=1', 'QA=1', 'NCAND=1'], reach=['end', 'linked']),
        F('counts', 'counts when a link is taken over', ['PREVMASK=0', 'LASTCAND=1', 'TAKEOVER'], reach=['contested']),
        G('back', 'no earlier links'), G('back_join', 'joined to an existing path, one candidate for the second particle', ['OLDPREV=1', 'LASTCAND=1']),
        G('back_taken', 'one particle linked already', ['TAKEN=1', 'OLDPREV=2']),
        G('back_add', '1 particle, unused targets', ['NC1=1', 'ADD=1', 'QB=1'], reach=['end', 'linked', 'added']),
        F('both_pred', 'both with predecessors', ['PREVMASK=3'], tier='thorough', reach=['end', 'linked', 'contested']),
        F('add_both', '1 particle, unused targets in both frames', ['NC1=1', 'ADD=1', 'QA=1', 'QB=1'], tier='thorough', reach=['end', 'linked']),
        G('back_join2', 'joined to existing paths', ['OLDPREV=3'], tier='thorough')]
