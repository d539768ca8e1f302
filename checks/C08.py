from vp import sym
EXPLANATION = ('Targets at symbolic places around nine segments with symbolic tolerance; symbolic limits against all size classes; symbolic '
               'sensor and segment for the rejection; long and overfull lists; the segment itself for any ray.')
ASSUMPTIONS = ['doubles are exact reals', 'segments from a menu of nine (rational unit normals, reversed, a point, vertical)',
               'points and vertical segments: targets closer than 1e-6 to the tolerance are left out (the code tilts the line by 1e-10)',
               'sensor: correct_brown_affin is replaced by a known shift (C02 decides the real one)',
               'segment: ray_tracing and flat_image_coord are replaced by arbitrary results (C05, C06)', 'targets have positive sizes']
J = lambda n, **k: sym(n, 'c08.c', override=['correct_brown_affin'], **k)
JOBS = [J('band', entry='h_band', defs=['NT=2'], nra=True, reach=['end', 'all'], bounds='2 targets, 9 segments, positions and tolerance symbolic'),
        J('band3', entry='h_band', defs=['NT=3'], nra=True, reach=['end', 'all'], bounds='3 targets', tier='thorough'),
        J('quality', entry='h_quality', reach=['end', 'accepted'], bounds='81 size classes, all limits symbolic'),
        J('sensor', entry='h_sensor', nra=True, reach=['end', 'rejected'], bounds='everything symbolic, 4 sensor sizes'),
        J('full', entry='h_full', bounds='199..202 qualifying targets'),
        J('long', entry='h_long', bounds='lists of 31, 1000, 8190 targets, 27 places each'),
        J('long_all', entry='h_long', defs=['NLEN=9'], tier='thorough', bounds='ten lists of 31..20000 targets, 27 places each'),
        sym('segment', 'c08.c', entry='h_segment', override=['ray_tracing', 'flat_image_coord'], nra=True, bounds='any vertex, 4 directions, any layer heights')]
