from vp import sym
EXPLANATION = ('The reader is run on files written in the documented format and the writer\'s files are read back by the documented format, with every '
               'field and the frame number symbolic; then missing, cut and malformed files.')
ASSUMPTIONS = ['a number printed with d decimals reads back within half a unit of the last decimal', 'cuts happen between numbers '
               '(a number cut in its digits is another valid number)', 'the disk does not fill up', 'names shorter than 240 characters']
B = 'lists of up to 2 targets, all field values (|x|,|y| <= 1e6), all frame numbers'
JOBS = [sym('read', 'c17.c', entry='h_read', bounds=B, reach=['read']), sym('write', 'c17.c', entry='h_write', bounds=B, reach=['written']),
        sym('roundtrip', 'c17.c', entry='h_roundtrip', bounds=B, reach=['end']),
        sym('damaged', 'c17.c', entry='h_damaged', bounds='up to 2 targets, every cut, every word spoilt, negative counts', reach=['missing', 'cut', 'word', 'count']),
        sym('nodir', 'c17.c', entry='h_nodir', bounds='up to 1 target'),
        sym('roundtrip_deep', 'c17.c', entry='h_roundtrip', defs=['N=5'], bounds='up to 5 targets', tier='thorough'),
        sym('damaged_deep', 'c17.c', entry='h_damaged', defs=['N=4'], bounds='up to 4 targets', tier='thorough')]
