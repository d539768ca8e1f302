from vp import sym
EXPLANATION = ('Reader and writer are each run against the documented formats with every index, number and position and the frame number symbolic; '
               'whole frames make the round trip; then missing, cut and malformed files of each kind.')
ASSUMPTIONS = ['a number printed with d decimals reads back within half a unit of the last decimal', 'cuts happen between numbers '
               '(a number cut in its digits is another valid number)', 'the disk does not fill up', 'names shorter than 240 characters']
B = 'up to 2 particles, all indices and priorities, |x| <= 1e6, all frame numbers'
J = lambda n, b, **k: sym(k.pop('name', n), 'c18.c', entry='h_' + n, bounds=b, **k)
JOBS = [J('read', B, reach=['read']), J('write', B, reach=['written', 'no prio']),
        J('read', 'no particles', name='empty', defs=['LO=0', 'HI=0'], reach=['read']),
        J('frame', '2 cameras, 1 new particle over 2 old, next frame kept', reach=['end']),
        J('damaged', 'up to 2 particles, each file: missing, every cut, every word spoilt', reach=['missing', 'cut', 'word']),
        J('frame_damaged', '2 cameras, target files missing or cut'), J('nodir', 'each of the four files'),
        J('read', 'up to 4 particles', name='read_deep', defs=['N=4'], tier='thorough'), J('write', 'up to 4 particles', name='write_deep', defs=['N=4'], tier='thorough'),
        J('damaged', 'up to 4 particles', name='damaged_deep', defs=['N=4'], tier='thorough')]
