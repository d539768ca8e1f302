from vp import sym
EXPLANATION = ('The whole search runs on symbolic matching lists (which targets are candidates of each other, how many targets each camera '
               'has, the required minimum); members, counts, groups, usage and target numbers of the result are compared with the definition.')
ASSUMPTIONS = ['nmax is reduced so that the capacity arithmetic meets full frames (the source is compiled with a smaller constant)',
               'the matching lists are symbolic here; how they are made is decided in C08 and in job pairs', 'malloc succeeds']
INC = {'correspondences.c': 'small_nmax.h'}
J = lambda name, nc, b, d=(), **k: sym(name, 'c12.c', entry='h_corr', defs=['NMAX=2', 'NC=%d' % nc] + list(d), libinc=INC, override=['match_pairs'],
                                       reach=['several'], bounds=b, **k)
JOBS = [J('two', 2, '2 cameras, 0..2 targets each, all lists', ['FREE=63', 'COUNTS=1']),
        J('three', 3, '3 cameras, 2 targets each, 10 edges free', ['FREE=9']), J('three_all', 3, '3 cameras, 2 targets each, all lists', ['FREE=63'], tier='thorough'),
        J('three_counts', 3, '3 cameras, 0..2 targets each, half the edges free', ['COUNTS=1']),
        J('four_a', 4, '4 cameras, 2 targets each, 8 edges free', ['ROW=43']), J('four_b', 4, '4 cameras, 2 targets each, 8 edges free', ['ROW=54']),
        J('four_counts', 4, '4 cameras, 0..2 targets each, 4 edges free', ['COUNTS=1', 'ROW=33']),
        sym('pairs', 'c12.c', entry='h_pairs', defs=['NMAX=2'], override=['epi_mm', 'find_candidate'], bounds='2..4 cameras, 0..2 targets'),
        sym('alloc', 'c12.c', entry='h_alloc', defs=['NMAX=2'], libinc=INC, bounds='1..4 cameras, 0..2 targets')]
