from vp import sym
EXPLANATION = ('Small pictures with symbolic grey values, threshold and discontinuity limit against an independent definition of the regions; '
               'symbolic limits; centres with one symbolic pixel; all accesses bounds-checked.')
ASSUMPTIONS = ['doubles are exact reals', '6x5 pictures with up to five symbolic pixels from a menu of ten; search areas from a menu (also larger than the image)',
               'when nothing qualifies, one dummy target is expected (documented in the code)', 'the target buffer is as large as the number of targets',
               'allocation succeeds']
P = lambda i, **k: sym('rec%d' % i, 'c14.c', entry='h_rec', defs=['FROM=%d' % i, 'TO=%d' % i], reach=['end', 'none'], free_div=True,
                       bounds='picture %d: all bright pixels, threshold and discontinuity symbolic, 2 areas' % i, **k)
JOBS = [P(i) for i in range(10)]
JOBS += [sym('limits', 'c14.c', entry='h_limits', reach=['end', 'none', 'several'], bounds='10 pictures, any limits, 6 areas'),
         sym('centre', 'c14.c', entry='h_centre', bounds='10 pictures, one pixel and the threshold symbolic')]
