from vp import sym
EXPLANATION = ('Small pictures with symbolic grey values, threshold and discontinuity limit: every target reported is a region (or a union of '
               'regions) grown by definition, and every region is in one target only; symbolic limits; all accesses bounds-checked.')
ASSUMPTIONS = ['doubles are exact reals', '6x5 pictures with up to five bright pixels from a menu; search areas from a menu (also larger than the image)',
               'whether touching regions are unified is not judged, only that they touch nothing twice', 'allocation succeeds']
JOBS = [sym('fit', 'c15.c', entry='h_fit', defs=['NFREE=2', 'SMALL=1'], reach=['end', 'several', 'unified'], bounds='10 pictures, 2 symbolic pixels, any threshold and discontinuity'),
        sym('fit3', 'c15.c', entry='h_fit', defs=['NFREE=3', 'SMALL=1', 'FROM=0', 'TO=7'], reach=['end', 'several', 'unified'], bounds='8 pictures, 3 symbolic pixels', tier='thorough'),
        sym('profile', 'c15.c', entry='h_profile', reach=['end', 'several', 'unified'], bounds='10 pictures, any threshold and discontinuity, 5 areas'),
        sym('limits', 'c15.c', entry='h_limits', reach=['end', 'some'], bounds='10 pictures, any limits, 5 areas'),
        sym('many', 'c15.c', entry='h_many', bounds='a 130x130 picture with 4096 targets, symbolic threshold')]
