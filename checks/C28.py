from vp import sym
EXPLANATION = 'The nearest-target search on symbolic target lists and the assignment for reference points with arbitrary projections.'
ASSUMPTIONS = ['doubles are exact reals', 'the radius is taken per axis, as the code does', 'img_coord is replaced by arbitrary projections (C06)',
               'assignment: one projection symbolic at a time']
JOBS = [sym('nearest', 'c28.c', entry='h_nearest', defs=['NT=2'], nra=True, reach=['end', 'found'], bounds='0..2 targets, everything symbolic'),
        sym('nearest_column', 'c28.c', entry='h_nearest', defs=['NT=3', 'COLUMN=1'], nra=True, reach=['end', 'found'], bounds='0..3 targets in a column'),
        sym('nearest_column5', 'c28.c', entry='h_nearest', defs=['NT=5', 'COLUMN=1'], nra=True, tier='thorough', bounds='0..5 targets in a column'),
        sym('grid', 'c28.c', entry='h_grid', defs=['NT=4'], nra=True, override=['img_coord'], reach=['end', 'assigned'], bounds='0..3 reference points, 4 targets, two of them in corners of the image')]
