from vp import cbmc, sym
EXPLANATION = ('CBMC runs every history of moving, reading and writing with symbolic operations, frame numbers and results against an abstract window; '
               'the symbolic executor checks release and room of every buffer shape.')
ASSUMPTIONS = ['the frame file routines are replaced by recorders (they are decided in C18)', 'malloc succeeds']
H = lambda l, steps, **k: cbmc('history_%d%s' % (l, k.pop('x', '')), 'c19.c', entry='h_history', defs=['L=%d' % l, 'STEPS=%d' % steps], unwind=max(l, 3) + 3, hunwind=max(l, steps) + 2,
                          override=['read_frame', 'write_frame'], bounds='buffer of %d frames, every history of %d operations' % (l, steps), reach=['end', 'back'], **k)
JOBS = [H(1, 4), H(2, 6), H(3, 7), H(4, 9), H(5, 12, x='_deep', tier='thorough'), H(4, 16, x='_deep', tier='thorough'),
        sym('free', 'c19.c', entry='h_free', bounds='1..5 frames, 1..4 cameras, 1..3 targets, up to 6 moves')]
