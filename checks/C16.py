from vp import sym
EXPLANATION = 'Every pixel of small images symbolic (all 256 values), every size up to the bound including degenerate ones, outputs compared with the pixel formulas.'
ASSUMPTIONS = ['doubles are exact reals', '3x3 filters from a menu of eight (negative, fractional, large, summing to zero)',
               'splitting an odd number of lines leaves the middle line unspecified', 'at the edges the blur may round down twice',
               'preparation: two pixels symbolic; the steps themselves are decided by the other jobs', 'allocation succeeds']
JOBS = [sym('filter3', 'c16.c', entry='h_filter3', bounds='1..4 x 1..4 pixels, 8 filters', reach=['end', 'pixel'], defs=['MX=4', 'MY=4']),
        sym('lowpass', 'c16.c', entry='h_lowpass', bounds='1..5 x 1..4 pixels', reach=['end', 'pixel'], defs=['MX=5', 'MY=4']),
        sym('blur', 'c16.c', entry='h_blur', bounds='all sizes up to 9 pixels, span 0..2', reach=['end', 'refused'], defs=['MX=4', 'MY=4']),
        sym('blur_large', 'c16.c', entry='h_blur', bounds='3..6 x 3..6 pixels, two of them symbolic (36 places), span 0..2', reach=['end'], defs=['MX=6', 'MY=6', 'LARGE=1']),
        sym('split', 'c16.c', entry='h_split', bounds='1..3 x 1..5 pixels', defs=['MX=3', 'MY=4']),
        sym('simple', 'c16.c', entry='h_simple', bounds='1..3 x 1..2 pixels'),
        sym('prepare', 'c16.c', entry='h_prepare', reach=['end', 'damaged'], bounds='3..4 x 3..4 pixels, span 0..1, field 0..2, filter 0..2', defs=['MX=4', 'MY=4', 'FREE=2'])]
