from vp import sym
EXPLANATION = ('The ray of an image point is compared with the laws of refraction in multiplied form (n1^2 sin^2 = n2^2 sin^2, coplanarity as a determinant, same side, '
               'unit length, glass distances) at both interfaces. Camera position, image scale, glass thickness and the three indices are symbolic. The image direction, '
               'camera rotation and glass normal are rational configurations in jobs ray*, and the start direction is any unit vector in jobs any*.')
ASSUMPTIONS = ['doubles are exact reals', 'the image ray meets the glass (cosine below -0.05), the camera is in air, no total reflection (1 % margin)', 'one glass layer']
B = 'index 1..3, thickness .5..10, glass distance 20..80, position +-200, image scale 1..100, '
R = lambda n, a, b, **k: sym(n, 'c05.c', entry='h_ray', nra=True, defs=['KS=%d' % a, 'KE=%d' % b] + k.pop('defs', []), bounds=B + 'configurations %d..%d of 6 image directions/rotations x 6 glass normals' % (a, b), **k)
JOBS = [R('ray', 0, 5), R('ray_b', 6, 11), R('ray_c', 12, 17), R('ray_d', 18, 35, tier='thorough'), R('equal', 6, 11, defs=['EQUAL=1']), R('equal_b', 0, 35, defs=['EQUAL=1'], tier='thorough')] + [
        sym('any_%d' % g, 'c05.c', entry='h_any', nra=True, defs=['G0=%d' % g], bounds='any unit start direction, glass normal %d of 6, indices 1..3' % g, tier='quick' if g < 1 else 'thorough') for g in range(6)]
