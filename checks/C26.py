from vp import sym
EXPLANATION = ('Files written in the documented order with every number symbolic are read in every combination of present files, then missing, cut and '
               'malformed; symbolic calibrations are written, compared with the format, and read back.')
ASSUMPTIONS = ['a number printed with d decimals reads back within half a unit of the last decimal', 'cuts happen between numbers', 'the disk does not fill up',
               'the rotation matrix of given angles is decided in C03']
J = lambda n, b, r: sym(n, 'c26.c', entry='h_' + n, bounds=b, reach=r)
JOBS = [J('read', 'all values, added file and fallback present or not', ['added', 'fallback', 'defaults']), J('damaged', 'every cut and spoilt number of each file', ['missing', 'cut', 'word']),
        J('write', 'all values within +-1e6, with and without added parameters', ['added', 'without']), J('replace', 'old files present; either file not creatable', ['replaced', 'failed'])]
