from vp import sym, cbmc
EXPLANATION = ('The merge is decided bit-precisely by CBMC for 1 to 4 cameras with every used slot symbolic: the result is compared with a '
               'direct count of the cameras that saw each particle.')
ASSUMPTIONS = ['one camera lists a particle at most once (targets carry distinct particle numbers)',
               'particle numbers 0..K (they are only compared with each other)']
M = lambda nc, k, used, tier='quick', **kw: cbmc('merge%d%s' % (nc, '' if used == 4 else '_%d' % used), 'c21.c', entry='h_merge', tier=tier,
    bounds='%d cameras, %d of 4 slots per camera symbolic, particle numbers 0..%d' % (nc, used, k),
    defs=['NC=%d' % nc, 'K=%d' % k, 'USED=%d' % used], unwind=17, **kw)
JOBS = [M(1, 5, 4), M(2, 9, 4), M(3, 4, 2), M(4, 3, 1), M(4, 2, 2), M(3, 3, 4, 'thorough', budget_s=1500), M(4, 2, 3, 'thorough', budget_s=1500)]
L = lambda name, nc, k, lists, tier='quick', **kw: cbmc(name, 'c21.c', entry='h_merge', tier=tier, unwind=17,
    bounds='%d cameras with full lists, %d slots symbolic, particle numbers 0..%d' % (nc, lists.count('S'), k),
    defs=['NC=%d' % nc, 'K=%d' % k, 'LISTS=' + lists], **kw)
JOBS += [L('full3', 3, 6, '0,1,2,3,S,S,S,4,5,S,S,S'), L('full4', 4, 6, '0,1,2,3,0,1,2,S,0,S,S,S,S,S,5,4')]
JOBS += [sym('reset_copy', 'c21.c', entry='h_reset_copy', bounds='0..3 records, 1..4 cameras')]
