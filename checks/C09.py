from vp import sym
EXPLANATION = ('The matching lists are symbolic: which pairs are candidates of each other, in which order, and which targets are used; the '
               'proposals are compared with a direct search for cliques. Scores: one clique with symbolic correlations and distances.')
ASSUMPTIONS = ['no target occurs twice in one matching list', 'two targets per camera', 'doubles are exact reals',
               'four cameras: 12 of the 24 edges free, the others follow one of three patterns']
J = lambda name, entry, nc, b, d=(), **k: sym(name, 'c09.c', entry=entry, defs=['NC=%d' % nc] + list(d), reach=k.pop('reach', ['several']), bounds=b, **k)
JOBS = [sym('score', 'c09.c', entry='h_score', nra=True, reach=['accepted', 'refused'], bounds='one clique in 2..4 cameras, any correlations, distances and minimum'),
        J('two2', 'h_two', 2, '2 cameras, all lists', ['FREE=63']), J('two3', 'h_two', 3, '3 cameras, all lists', ['FREE=63']),
        J('three3', 'h_three', 3, '3 cameras, all lists', ['FREE=63']), J('four', 'h_four', 4, '4 cameras, 12 edges free'),
        J('two_cap', 'h_two', 3, '3 cameras, room for 2', ['CAP=2', 'CUT=1']), J('three_cap', 'h_three', 3, '3 cameras, room for 2', ['CAP=2', 'CUT=1']),
        J('four_cap', 'h_four', 4, '4 cameras, room for 2', ['CAP=2', 'CUT=1', 'ROW=43'])]
for n, e in (('two4', 'h_two'), ('three4', 'h_three')):
    JOBS += [J(n + 'a', e, 4, '4 cameras, 8 edges free', ['ROW=43']), J(n + 'b', e, 4, '4 cameras, 8 edges free', ['ROW=54']),
             J(n, e, 4, '4 cameras, 12 edges free', tier='thorough')]
