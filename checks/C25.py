from vp import cbmc
EXPLANATION = ('Every comparison is decided bit-precisely by CBMC for two objects whose fields are all symbolic, against the field-by-field '
               'definition, in both orders and against itself.')
ASSUMPTIONS = ['doubles are numbers within +-1e6 (no NaN)', 'the layers of mm_np beyond the first are equal (documented as not compared)',
               'names share a prefix and differ in at most two characters']
J = lambda n, **k: cbmc(k.pop('name', n), 'c25.c', entry='h_' + n, bounds=k.pop('bounds', 'all field values'), unwind=k.pop('unwind', 16), reach=['equal', 'different'], **k)
JOBS = [J(n) for n in ('exterior', 'interior', 'glass', 'addpar', 'calib', 'target', 'corres', 'track_par', 'volume_par', 'target_par', 'mm_np')]
JOBS += [J('path', unwind=83)]
for l in (0, 5, 230):
    JOBS += [J(n, name='%s_%d' % (n, l), defs=['LEN=%d' % l], unwind=242, bounds='all field values; 1..2 cameras; names of %d..%d characters' % (l, l + 2))
             for n in ('sequence_par', 'control_par')]
