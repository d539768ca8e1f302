from vp import sym
EXPLANATION = ('Window limits and usability with all coordinates symbolic, ranking of up to 6 targets with symbolic positions, and long '
               'lists (up to 20000 targets) where the searched target lies at and around every eighth of the list.')
ASSUMPTIONS = ['doubles are exact reals; distances are compared through their squares', 'target lists are sorted by y (documented)',
               'ranking: targets in one or three columns', 'the long lists have equally spaced y']
JOBS = [sym('window', 'c20.c', entry='h_window', bounds='0..2 targets, everything symbolic', nra=True),
        sym('rank', 'c20.c', entry='h_rank', bounds='6 targets on one column', defs=['N=6'], reach=['end', 'full']),
        sym('rank_columns', 'c20.c', entry='h_rank', bounds='4 targets on three columns', defs=['N=4', 'FAN=1'], nra=True, reach=['end', 'full']),
        sym('long', 'c20.c', entry='h_long', bounds='lists of 31, 1000 and 8190 targets, 27 places each'),
        sym('long_all', 'c20.c', entry='h_long', bounds='ten lists of 31..20000 targets, 27 places each', defs=['NLEN=9'], tier='thorough')]
