from vp import sym
EXPLANATION = ('Whole forward and backward runs over short sequences with every acceptance decision symbolic: numbers of the frames in the buffer, read '
               'and written, agreement of the written links. Frames that are full or unreadable, and the set-up of a run.')
ASSUMPTIONS = ['at least 3 frames forward and 4 backward', 'candidate search, projection and angle are symbolic tables',
               'reading and writing frames are stand-ins that record their numbers (C17 to C19 decide them)', 'doubles are exact reals']
OV = ['sorted_candidates_in_volume', 'assess_new_position', 'point_position', 'angle_acc', 'point_to_pixel']
RO = ['sorted_candidates_in_volume', 'assess_new_position', 'angle_acc', 'point_to_pixel']
F = lambda name, b, defs=[], tier='quick', reach=['end'], **kw: sym(name, 'c22.c', entry='h_forward', defs=['NC1=1'] + defs, override=OV, reach=reach, tier=tier, bounds=b, **kw)
JOBS = [F('full', 'a full frame after the next', ['ADD=1', 'QA=1', 'NCAND=1', 'ROOM=2']), F('full_next', 'a full next frame', ['ADD=1', 'QB=1', 'ROOM=2']),
        F('unread', 'an unreadable next frame', ['ADD=1', 'QB=1', 'UNREAD=1']), F('unread2', 'an unreadable frame after the next', ['ADD=1', 'QA=1', 'NCAND=1', 'UNREAD=2']),
        sym('back_full', 'c22.c', entry='h_backward', defs=['NC1=1', 'ADD=1', 'QB=1', 'ROOM=2'], override=OV, bounds='a full earlier frame'),
        sym('run', 'c31.c', entry='h_run', override=RO, bounds='3 to 6 frames of one particle'),
        sym('runback', 'c31.c', entry='h_runback', override=RO, bounds='4 to 6 frames of one particle, any forward links', defs=['MAXLEN=5']),
        sym('new', 'c31.c', entry='h_new', override=['ray_tracing'], bounds='1 camera, 2 of 4 image corners symbolic'),
        sym('beyond', 'c31.c', entry='h_run', override=RO, defs=['BEYOND', 'MAXLEN=4'], bounds='3 and 4 frames', reach=[]),
        sym('unread_frame', 'c31.c', entry='h_unread', bounds='a missing frame after one with up to 2 targets', reach=[]),
        F('room1', 'room for one particle in the frame after the next', ['ADD=1', 'QA=1', 'ROOM=3'], tier='thorough'),
        sym('run_deep', 'c31.c', entry='h_run', override=RO, defs=['MAXLEN=10'], bounds='3 to 10 frames', tier='thorough'),
        sym('runback_deep', 'c31.c', entry='h_runback', override=RO, bounds='4 to 7 frames', defs=['MAXLEN=7'], tier='thorough')]
