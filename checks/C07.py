from vp import sym
EXPLANATION = 'Look-up of an arbitrary point in an arbitrary table (contents, origin, cell width, size), and construction of the table.'
ASSUMPTIONS = ['doubles are exact reals', 'construction: the corner rays are vertical at arbitrary x, and the factor at a node is an '
               'arbitrary linear function (the real factor is decided in C06)', 'glass perpendicular to Z at distance 50 for the construction']
JOBS = [sym('lookup', 'c07.c', entry='h_lookup', bounds='tables up to 3x3, cell width 1..3, any point within +-30', nra=True,
            reach=['inside', 'outside', 'end']),
        sym('build', 'c07.c', entry='h_build', bounds='imaged radius < 3.9, depth 40..45, second call with a larger volume',
            override=['multimed_r_nlay', 'ray_tracing'], reach=['hit', 'end']),
        sym('lookup_deep', 'c07.c', entry='h_lookup', bounds='tables up to 5x4', nra=True, defs=['NR=5', 'NZ=4'], tier='thorough')]
