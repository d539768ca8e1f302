from vp import sym
EXPLANATION = 'Each sort runs on a symbolic array (all keys symbolic, ties included) of every length up to the bound.'
ASSUMPTIONS = ['keys are integers in -9..9 held in doubles/floats: the sorts only compare keys, so this covers every order type '
               'of up to 19 distinct values, hence every order type (with ties) within the length bounds',
               'long arrays: only some keys are symbolic, the others a fixed pattern',
               'NaN keys are outside the claim']
JOBS = []
for e in ['target_y', 'coord2d_x', 'con', 'index_by_value']:
    JOBS.append(sym('sort_' + e, 'sort.c', entry='h_' + e, defs=['N=6'], bounds='every length 0..6, all keys symbolic'))
    JOBS.append(sym('sort_long_' + e, 'sort.c', entry='h_' + e, defs=['N=24', 'FREE=2'], bounds='length 24, 2 symbolic keys'))
    JOBS.append(sym('sort_deep_' + e, 'sort.c', entry='h_' + e, defs=['N=7'], tier='thorough',
                    bounds='every length 0..7, all keys symbolic'))
