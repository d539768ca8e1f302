"""Path-forking symbolic executor for LLVM IR (python + z3).

int   : python int (two's complement, signed canonical) or SInt (z3 Int + interval)
i1    : python bool or z3 Bool
double: Fraction (exact mode) / float (float mode, and inf/nan) or z3 Real
ptr   : (Obj, offset)
Everything undefined is UNDEF; branching on it, asserting it or dereferencing it is an error."""
import math
import re
import struct
import sys
import time
from fractions import Fraction

import z3

sys.setrecursionlimit(100000)
Z = Fraction(0)
ONE = Fraction(1)


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()
ZERO = 0


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Stop(Exception):
    pass


class BudgetOut(Exception):
    pass


class Obj:
    __slots__ = ('id', 'size', 'cells', 'fills', 'alive', 'kind', 'name', 'ro')

    def __init__(self, id, size, kind, name=''):
        self.id = id
        self.size = size
        self.cells = {}
        self.fills = []
        self.alive = True
        self.kind = kind
        self.name = name
        self.ro = False

    def __repr__(self):
        return '<%s %s %d bytes>' % (self.kind, self.name or self.id, self.size)


NULLOBJ = Obj(0, 0, 'null', 'NULL')
NULL = (NULLOBJ, 0)


class SInt:
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'SInt(%s,[%s,%s])' % (self.e, self.lo, self.hi)


AR = z3.ArithRef
_RV = {}
_IV = {}
MEMO = {}


def rv(f):
    """concrete double -> z3 real"""
    r = _RV.get(f)
    if r is None:
        g = Fraction(f) if f.__class__ is float else f
        r = _RV[f] = z3.RealVal(str(g))
    return r


def iv(x):
    r = _IV.get(x)
    if r is None:
        r = _IV[x] = z3.IntVal(x)
    return r


_CONC = (int, Fraction, float, bool, str)


def memo(op, a, b, mk, w=0):
    """expression building is deterministic in its operands: build once, reuse on every re-execution"""
    k = (op, a.__class__, a if a.__class__ in _CONC else id(a), b.__class__, b if b.__class__ in _CONC else id(b), w)
    r = MEMO.get(k)
    if r is None:
        if len(MEMO) > 400000:
            MEMO.clear()
        r = MEMO[k] = (mk(), a, b)
    return r[0]


SQUARES = {}
_VARS = {}


def var(sort, name):
    r = _VARS.get((sort, name))
    if r is None:
        r = _VARS[(sort, name)] = z3.Int(name) if sort == 'i' else z3.Real(name)
    return r


def svar(name, lo, hi):
    r = _VARS.get(('s', name, lo, hi))
    if r is None:
        v = var('i', name)
        r = _VARS[('s', name, lo, hi)] = SInt(v, lo, hi)
    return r


class Tok:
    """a printed symbolic number in a file"""
    __slots__ = ('kind', 'val', 'width', 'prec', 'conv', 'read', 'flags')

    def __init__(self, kind, val, width, prec, conv, flags=''):
        self.kind = kind
        self.val = val
        self.width = width
        self.prec = prec
        self.conv = conv
        self.flags = flags
        self.read = None


class FileH:
    __slots__ = ('path', 'items', 'pos', 'mode', 'open', 'eof', 'dirty')


class Engine:
    def __init__(self, mod, src, kvals, opts):
        self.mod = mod
        self.opts = opts
        self.fpmode = opts.get('fp', 'exact')
        self.timeout = opts.get('query_ms', 20000)
        self.feas_timeout = opts.get('feas_ms', 2000)
        self.budget = opts.get('budget_s', 600)
        self.max_paths = opts.get('max_paths', 10 ** 9)
        self.enum_limit = opts.get('enum_limit', 300)
        self.step_limit = opts.get('step_limit', 2000000)
        self.nra = opts.get('nra', False)
        self.force_on = opts.get('force_const', False)
        self.t0 = time.time()
        self.stats = dict(paths=0, completed=0, infeasible=0, assumed_out=0, queries=0, solver_s=0.0, asserts=0, proved=0,
                          undecided=0, trivially_true=0, undecided_feas=0, blocks=0, concretised=0, forks=0)
        self.reached = set()
        self.samples = []
        self.remaining = []
        self.split_after = opts.get('split_after')
        self.funcs_seen = set()
        self.candidates = []
        self.cand_keys = {}
        self.undecided_msgs = {}
        self.unsupported = {}
        self.solver = z3.Solver()
        self.cur_ms = None
        self.trail = []
        self.pos = 0
        self.forced = opts.get('prefix') or []
        self.forced_n = len(self.forced)
        self.model = None
        self.model_ok = False
        self.pending = []
        self.K = []
        for v in kvals:
            if self.fpmode == 'exact' and not (math.isinf(v) or math.isnan(v)):
                self.K.append(Fraction(v).limit_denominator(10 ** 12) if self.opts.get('nice_consts', True) and
                              float(Fraction(v).limit_denominator(10 ** 12)) == v else Fraction(v))
            else:
                self.K.append(v)
        g = {'UNDEF': UNDEF, 'NULL': NULL, 'ZERO': 0, 'G': {}, 'F': {}, 'X': {}, 'E': self}
        for i, v in enumerate(self.K):
            g['K%d' % i] = v
        self.ns = g
        exec(compile(src, '<ir>', 'exec'), g)
        X = g['X']
        import irlibc
        self.libc = irlibc
        for name, fn in mod.funcs.items():
            ov = 'vp_override_' + name
            if ov in mod.funcs:
                g['F'][name] = g[mod.funcs[ov]['pyname']]
            else:
                g['F'][name] = g[fn['pyname']]
        for name in set(mod.declared):
            X[name] = irlibc.lookup(name)
        self.stmts = None

    # ------------------------------------------------------------------ path management
    def reset_path(self):
        self.nobj = 1
        self.nfresh = 0
        self.pos = 0
        self.inputs = []
        self.steps = 0
        self.fs = {}
        self.nametoks = []
        self.live_bytes = 0
        self.fhs = {}
        self.nfh = 0
        self.trig = {}
        self.sqrts = {}
        self.fconst = {}
        self.closes = []
        self.monos = {}
        self.sqrt_of = {}
        self.divs = {}
        self.unk_path = False
        self.stack = []
        G = self.ns['G']
        G.clear()
        for name in self.mod.funcs:
            o = Obj(self.nobj, 0, 'func', name)
            self.nobj += 1
            G['@' + name] = (o, 0)
        for name in self.mod.declared:
            o = Obj(self.nobj, 0, 'func', name)
            self.nobj += 1
            G['@' + name] = (o, 0)
        for name, (ty, p) in self.mod.globals.items():
            o = Obj(self.nobj, self.mod.size(ty), 'global', name)
            self.nobj += 1
            G[name] = (o, 0)
        for name, (ty, p) in self.mod.globals.items():
            o = G[name][0]
            if p is None:
                o.fills.append((0, o.size, 0))
                if name in ('@stderr', '@stdout', '@stdin'):
                    o.cells[0] = ((self.new(0, 'file', name), 0), 8, 'p')
                continue
            i0 = p.i
            self.init_global(o, 0, ty, p)
            p.i = i0

    def init_global(self, o, off, ty, p):
        while ty[0] == 'named':
            ty = self.mod.types[ty[1]]
        x = p.peek()
        if x == 'zeroinitializer':
            p.next()
            o.fills.append((off, off + self.mod.size(ty), 0))
            return
        if x in ('undef', 'poison'):
            p.next()
            return
        if ty[0] == 'arr':
            if x.startswith('c"'):
                s = p.next()[2:-1]
                b = bytearray()
                i = 0
                while i < len(s):
                    if s[i] == '\\':
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                    else:
                        b.append(ord(s[i]))
                        i += 1
                for j, ch in enumerate(b):
                    o.cells[off + j] = (ch - 256 if ch > 127 else ch, 1, 'i8')
                return
            p.expect('[')
            for j in range(ty[1]):
                if j:
                    p.expect(',')
                p.type()
                self.init_global(o, off + j * self.mod.size(ty[2]), ty[2], p)
            p.expect(']')
            return
        if ty[0] == 'st':
            p.expect('{')
            for j, ft in enumerate(ty[1]):
                if j:
                    p.expect(',')
                p.type()
                self.init_global(o, off + self.mod.layout(ty)[2][j], ft, p)
            p.expect('}')
            return
        import irparse
        c = irparse.Compiler(self.mod)
        c.kvals = []
        c.regs = {}
        txt = c.const(p, ty)
        env = dict(self.ns)
        for i, v in enumerate(c.kvals):
            env['K%d' % i] = v if self.fpmode == 'float' else Fraction(v)
        val = eval(txt, env)
        o.cells[off] = (val, self.mod.size(ty), self.kind_of(ty))

    def kind_of(self, ty):
        return {'i': 'i%d' % (ty[1] if ty[0] == 'i' else 0), 'f64': 'd', 'f32': 'f', 'ptr': 'p'}[ty[0]]

    def check_time(self):
        if time.time() - self.t0 > self.budget:
            raise BudgetOut()

    def explore(self, entry):
        """DFS over all paths by re-execution"""
        fn = self.ns['F'][entry]
        complete = True
        while True:
            self.reset_path()
            self.stats['paths'] += 1
            try:
                self.check_time()
                if self.stats['paths'] > self.max_paths:
                    raise BudgetOut()
                fn(self)
                self.end_of_path()
                self.stats['completed'] += 1
            except PathEnd:
                pass
            except Unsupported as u:
                k = str(u)
                self.unsupported[k] = self.unsupported.get(k, 0) + 1
            except Stop:
                complete = False
                break
            except BudgetOut:
                complete = False
                break
            except RecursionError:
                self.unsupported['python recursion'] = 1
            if not self.backtrack():
                break
            if self.split_after and time.time() - self.t0 > self.split_after:
                self.remaining = self.split_prefixes() + [[d['tag'] for d in self.trail]]
                break
        self.complete = complete
        return complete

    def end_of_path(self):
        pass

    def backtrack(self):
        while self.trail:
            d = self.trail[-1]
            if d['alts']:
                tag, con = d['alts'].pop(0)
                if d['pushed']:
                    self.solver.pop()
                self.solver.push()
                d['pushed'] = True
                d['tag'] = tag
                self.solver.add(con)
                self.model = None
                return True
            if d['pushed']:
                self.solver.pop()
            self.trail.pop()
        return False

    def split_prefixes(self):
        """remaining work as prefixes for worker processes"""
        out = []
        for i, d in enumerate(self.trail):
            for (tag, con) in d['alts']:
                out.append([t['tag'] for t in self.trail[:i]] + [tag])
        return out

    def decide(self, feasible, constraint):
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            return d['tag']
        if self.pos < self.forced_n:
            tag = self.forced[self.pos]
            self.solver.push()
            c = constraint(tag)
            self.solver.add(c)
            self.model = None
            self.trail.append(dict(tag=tag, alts=[], pushed=True))
            self.pos += 1
            return tag
        self.check_time()
        opts = feasible()
        if not opts:
            self.stats['infeasible'] += 1
            raise PathEnd()
        if len(opts) == 1:
            self.trail.append(dict(tag=opts[0], alts=[], pushed=False))
            self.pos += 1
            return opts[0]
        self.stats['forks'] += len(opts) - 1
        alts = [(t, constraint(t)) for t in opts[1:]]
        self.solver.push()
        c = constraint(opts[0])
        self.solver.add(c)
        self.note_model(c)
        self.trail.append(dict(tag=opts[0], alts=alts, pushed=True))
        self.pos += 1
        return opts[0]

    def live(self):
        return self.pos >= len(self.trail)

    def note_model(self, c):
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def add(self, c):
        if self.pos < len(self.trail):
            return
        self.solver.add(c)
        self.note_model(c)

    def check(self, *extra, ms=None):
        t = time.time()
        self.stats['queries'] += 1
        ms = ms or self.feas_timeout
        if ms != self.cur_ms:
            self.solver.set('timeout', ms)
            self.cur_ms = ms
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t
        return r

    def get_model(self):
        if self.model is None:
            if self.check() == z3.sat:
                self.model = self.solver.model()
        return self.model

    def branch(self, c):
        if c is UNDEF:
            self.violate('uninit', 'branch depends on an uninitialised value')
        if c.__class__ is bool:
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False

        def feas():
            if self.nra:
                return self.feas_nra(c)
            m = self.get_model()
            side = None
            if m is not None:
                v = m.eval(c, model_completion=True)
                if z3.is_true(v):
                    side = True
                elif z3.is_false(v):
                    side = False
            if side is None:
                out = []
                for s, e in ((True, c), (False, z3.Not(c))):
                    r = self.check(e)
                    if r == z3.unknown:
                        self.stats['undecided_feas'] += 1
                        self.unk_path = True
                    if r != z3.unsat:
                        out.append(s)
                return out
            other = z3.Not(c) if side else c
            r = self.check(other)
            if r == z3.unsat:
                return [side]
            if r == z3.unknown:
                self.stats['undecided_feas'] += 1
            return [side, not side]
        return self.decide(feas, lambda t: c if t else z3.Not(c))

    def feas_nra(self, c):
        out = []
        for s, e in ((True, c), (False, z3.Not(c))):
            r = self.check(e)
            if r == z3.unknown:
                self.stats['undecided_feas'] += 1
            if r != z3.unsat:
                out.append(s)
        return out

    # ------------------------------------------------------------------ violations
    def violate(self, kind, msg, cond=None, fatal=True):
        """the current path (with cond) breaks something: record a candidate"""
        key = (kind, msg)
        n = self.cand_keys.get(key, 0)
        if n < self.opts.get('cands_per_key', 4):
            r, m = self.solve_for_model(cond)
            if r == z3.sat:
                self.cand_keys[key] = n + 1
                self.candidates.append(dict(kind=kind, msg=msg, inputs=self.extract(self.improve(cond, m)), stack=list(self.stack)))
                if self.opts.get('stop_first') or len(self.candidates) >= self.opts.get('max_cands', 12):
                    raise Stop()
            elif r == z3.unknown:
                self.stats['undecided'] += 1
                self.undecided_msgs[msg] = self.undecided_msgs.get(msg, 0) + 1
            else:
                self.stats['infeasible'] += 1
        if fatal:
            raise PathEnd()

    def improve(self, cond, m):
        """a model of the same violation that survives rounding: values apart by more than the native tolerance, round inputs"""
        t0 = time.time()
        lim = self.opts.get('improve_s', 8)
        cs = [cond] if cond is not None else []

        def trym(extra):
            r = self.check(*(cs + extra), ms=1500)
            if r == z3.sat:
                return self.solver.model()
            if r == z3.unknown and self.nra:
                s = z3.SolverFor('QF_NRA')
                s.set('timeout', 2000)
                s.add(*self.solver.assertions())
                s.add(*(cs + extra))
                if s.check() == z3.sat:
                    return s.model()
            return None
        try:
            strong = []
            for c, x, y, tol, kind in self.closes[-40:]:
                if z3.is_false(m.eval(c, model_completion=True)):
                    d = rv(Fraction(tol) * 4 if tol else Fraction(1, 10 ** 6))
                    strong.append(z3.Or(x - y > d, y - x > d) if kind == 'eq' else x - y > d)
            for st in ([strong] if len(strong) < 2 else [strong, [z3.Or(*strong)]]):
                if st:
                    m2 = trym(st)
                    if m2 is not None:
                        m = m2
                        cs += st
                        break
            fixed = []
            for (k, n, e) in self.inputs:
                if time.time() - t0 > lim:
                    break
                if k != 'vp_double' or not isinstance(e, AR):
                    continue
                v = m.eval(e, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                if not z3.is_rational_value(v):
                    continue
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                done = False
                for q in (4, 64, 4096):
                    g = Fraction(round(f * q), q)
                    if g == f:
                        fixed.append(e == rv(g))
                        done = True
                        break
                    m2 = trym(fixed + [e == rv(g)])
                    if m2 is not None:
                        m = m2
                        fixed.append(e == rv(g))
                        done = True
                        break
                    if time.time() - t0 > lim:
                        break
                if not done:
                    pass
        except z3.Z3Exception:
            pass
        return m

    def solve_for_model(self, cond=None):
        extra = [] if cond is None else [cond]
        r = self.check(*extra, ms=self.timeout)
        if r == z3.sat:
            return r, self.solver.model()
        if r == z3.unsat:
            return r, None
        return self.hard(cond)

    def hard(self, cond):
        """fresh non-incremental solvers (nlsat) for what the incremental one gave up on"""
        cs = list(self.solver.assertions())
        if cond is not None:
            cs.append(cond)
        t = time.time()
        last = z3.unknown
        for mk in (lambda: z3.SolverFor('QF_NRA'), lambda: z3.Tactic('qfnra-nlsat').solver(),
                   lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            try:
                s = mk()
                s.set('timeout', self.timeout)
                s.add(*cs)
                self.stats['queries'] += 1
                r = s.check()
                if r != z3.unknown:
                    self.stats['solver_s'] += time.time() - t
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception as e:
                last = z3.unknown
        self.stats['solver_s'] += time.time() - t
        return z3.unknown, None

    def specialise(self, cond):
        """give up generality: fix most real inputs to nice values and look for a counterexample"""
        import random
        rnd = random.Random(12345)
        reals = [(n, e) for (k, n, e) in self.inputs if k == 'vp_double' and isinstance(e, AR)]
        if not reals:
            return None
        for attempt in range(self.opts.get('spec_tries', 10)):
            keep = rnd.randrange(0, min(3, len(reals)) + 1)
            idx = set(rnd.sample(range(len(reals)), keep))
            eqs = []
            for i, (n, e) in enumerate(reals):
                if i in idx:
                    continue
                lo, hi = self.ranges.get(n, (-10, 10))
                lo = max(Fraction(lo), Fraction(-50))
                hi = min(Fraction(hi), Fraction(50))
                q = rnd.choice([2, 4, 8])
                v = Fraction(round(float(lo + (hi - lo) * Fraction(rnd.random())) * q), q)
                v = min(max(v, lo), hi)
                eqs.append(e == rv(v))
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', min(3000, self.timeout))
            s.add(*self.solver.assertions())
            s.add(cond)
            s.add(*eqs)
            self.stats['queries'] += 1
            t = time.time()
            r = s.check()
            self.stats['solver_s'] += time.time() - t
            if r == z3.sat:
                return s.model()
        return None

    ranges = {}

    def refine_trig(self, cond):
        """more models for a counterexample that rests on free sin/cos values: the angles keep the model's values and
        sin/cos are enclosed tightly around them, or (small angles) between their Taylor polynomials"""
        ang = []
        for (k, n, e) in self.inputs:
            if k == 'vp_double' and isinstance(e, AR):
                t = self.trig.get(self.key(e))
                if t is not None:
                    ang.append((e, t[0], t[1]))
        if not ang:
            return []
        r, m0 = self.solve_for_model(cond)
        if r != z3.sat:
            return []
        val = []
        for e, s_, c_ in ang:
            v = m0.eval(e, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            if not z3.is_rational_value(v):
                return []
            val.append(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        out = []
        tol = Fraction(1, 10 ** 13)
        for mode in ('fix', 'taylor', 'taylor2'):
            eqs = []
            for (e, s_, c_), v in zip(ang, val):
                if mode != 'fix' and abs(v) <= Fraction(1, 2):
                    x = e
                    lo = 0 if mode == 'taylor' else Fraction(1, 100)
                    x2 = x * x
                    p1, q1 = 1 - x2 / 6, 1 - x2 / 6 + x2 * x2 / 120
                    eqs += [x >= rv(Fraction(lo)), x <= rv(Fraction(1, 2)), s_ >= x * p1, s_ <= x * q1,
                            c_ >= 1 - x2 / 2, c_ <= 1 - x2 / 2 + x2 * x2 / 24, s_ * s_ + c_ * c_ == 1]
                else:
                    fl = Fraction(float(v))
                    sv, cv = Fraction(math.sin(float(v))), Fraction(math.cos(float(v)))
                    eqs += [e == rv(fl), s_ >= rv(sv - tol), s_ <= rv(sv + tol), c_ >= rv(cv - tol), c_ <= rv(cv + tol)]
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', 4000)
            s.add(*self.solver.assertions())
            s.add(cond)
            s.add(*eqs)
            self.stats['queries'] += 1
            t = time.time()
            r = s.check()
            self.stats['solver_s'] += time.time() - t
            if r == z3.sat:
                out.append(s.model())
        return out

    def extract(self, m, raw=False):
        out = []
        for (k, n, e) in self.inputs:
            v = self.model_val(m, e)
            t = self.trig.get(self.key(e)) if k == 'vp_double' and isinstance(e, AR) and not raw else None
            if t is not None:          # sin and cos are free in the encoding: an angle that has the model's values
                try:
                    a = math.atan2(float(self.model_val(m, t[0])), float(self.model_val(m, t[1])))
                    lo, hi = self.ranges.get(n, (-10, 10))
                    a = a + 2 * math.pi * round((float(v) - a) / (2 * math.pi))
                    for b in (a, a + 2 * math.pi, a - 2 * math.pi):
                        if lo <= b <= hi:
                            v = repr(b)
                            break
                except ValueError:
                    pass
            out.append((k, n, v))
        return out

    def model_val(self, m, e):
        if isinstance(e, SInt):
            v = m.eval(e.e, model_completion=True)
            return str(v.as_long())
        if isinstance(e, AR):
            v = m.eval(e, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            if z3.is_rational_value(v):
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                return repr(float(f))
            if z3.is_int_value(v):
                return str(v.as_long())
            return '0'
        if isinstance(e, Fraction):
            return repr(float(e))
        return str(e)

    def vassert(self, c, msg):
        self.stats['asserts'] += 1
        if c is UNDEF:
            self.violate('uninit', 'assertion depends on an uninitialised value: ' + msg)
        if c.__class__ is not bool:
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if c is True:
            self.stats['trivially_true'] += 1
            return
        if c is False:
            self.violate('assert', msg)
        if not self.live() or self.pos < self.forced_n:
            return
        nc = z3.Not(c)
        self.check_time()
        if self.nra:
            nc2 = self.prep(nc)
            if z3.is_false(nc2):
                self.stats['proved'] += 1
                return
            r = self.check(nc, ms=self.opts.get('first_ms', 2000))
            m = self.solver.model() if r == z3.sat else None
            if r == z3.unknown:
                r, m = self.hard(nc2)
        else:
            r = self.check(nc, ms=self.timeout)
            m = self.solver.model() if r == z3.sat else None
            if r == z3.unknown:
                r, m = self.hard(nc)
        if r == z3.unsat:
            self.stats['proved'] += 1
            return
        if r == z3.unknown:
            m = self.specialise(nc)
            if m is None:
                self.stats['undecided'] += 1
                self.undecided_msgs[msg] = self.undecided_msgs.get(msg, 0) + 1
                return
        key = ('assert', msg)
        n = self.cand_keys.get(key, 0)
        if n < self.opts.get('cands_per_key', 4):
            self.cand_keys[key] = n + 1
            self.candidates.append(dict(kind='assert', msg=msg, inputs=self.extract(self.improve(nc, m)), stack=list(self.stack)))
            if n < 2:
                for m2 in self.refine_trig(nc):
                    self.candidates.append(dict(kind='assert', msg=msg, inputs=self.extract(m2, True), stack=list(self.stack)))
            if self.opts.get('margin'):
                pass
            if self.opts.get('stop_first') or len(self.candidates) >= self.opts.get('max_cands', 12):
                raise Stop()
        # go on under the assumption that it held
        self.add(c)
        if self.check() == z3.unsat:
            raise PathEnd()
        self.model = None

    def prep(self, c):
        return z3.simplify(c, som=True)

    def assume(self, c):
        if c is UNDEF:
            raise Unsupported('assume on undefined')
        if c.__class__ is bool:
            if not c:
                self.stats['assumed_out'] += 1
                raise PathEnd()
            return
        if not self.live():
            return
        self.solver.add(c)
        self.note_model(c)
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                self.stats['assumed_out'] += 1
                raise PathEnd()
            if r == z3.sat:
                self.model = self.solver.model()

    # ------------------------------------------------------------------ misc runtime
    def enter(self, name):
        self.funcs_seen.add(name)
        self.stack.append(name)
        if len(self.stack) > 2000:
            self.violate('stack', 'unbounded recursion')

    def leave(self, fr):
        self.stack.pop()
        for o in fr:
            o.alive = False

    def tick(self):
        self.steps += 1
        self.stats['blocks'] += 1
        if self.steps > self.step_limit:
            self.stats['step_limit'] = self.stats.get('step_limit', 0) + 1
            raise Unsupported('step limit: a loop did not end within the bound')

    def unreachable(self):
        raise PathEnd()

    def new(self, size, kind, name=''):
        o = Obj(self.nobj, size, kind, name)
        self.nobj += 1
        return o

    def alloca(self, size, n, fr):
        n = self.concrete_int(n)
        o = self.new(size * n, 'stack', self.stack[-1] if self.stack else '')
        fr.append(o)
        return (o, 0)

    def byval(self, p, size, fr):
        o = self.new(size, 'stack', 'byval')
        fr.append(o)
        self.memcpy((o, 0), p, size)
        return (o, 0)

    def callptr(self, p, args):
        if p is UNDEF or p[0].kind != 'func':
            self.violate('mem', 'call through an invalid function pointer')
        return self.ns['F'][p[0].name](self, *args)

    # ------------------------------------------------------------------ memory
    def chk(self, p, size, what):
        """returns (obj, concrete offset); raises a violation on a bad access"""
        if p is UNDEF:
            self.violate('uninit', what + ' through an uninitialised pointer')
        if p.__class__ is not tuple:
            if p == 0:
                p = NULL
            else:
                raise Unsupported('%s through integer %r' % (what, p))
        o, off = p
        if o is NULLOBJ:
            self.violate('mem', 'NULL pointer %s' % what)
        if not o.alive:
            self.violate('mem', '%s of freed or out-of-scope memory' % what)
        if off.__class__ is not int:
            off = self.resolve(o, off, size, what)
        if off < 0 or off + size > o.size:
            self.violate('mem', 'out-of-bounds %s in %s' % (what, self.where()))
        return o, off

    def where(self):
        for f in reversed(self.stack):
            if not f.startswith('vp_') and not f.startswith('h_'):
                return f
        return self.stack[-1] if self.stack else '?'

    def resolve(self, o, off, size, what):
        if off is UNDEF:
            self.violate('uninit', what + ' at an uninitialised offset')
        # out of bounds?
        if self.live():
            if off.lo < 0 or off.hi + size > o.size:
                bad = z3.Or(off.e < 0, off.e + size > o.size)
                r = self.check(bad, ms=self.timeout)
                if r == z3.sat:
                    self.violate('mem', 'out-of-bounds %s in %s' % (what, self.where()), bad, fatal=False)
                elif r == z3.unknown:
                    self.stats['undecided'] += 1
                self.add(z3.Not(bad))
                self.model = None
        return self.enum(off)

    def enum(self, x):
        """fork over every feasible value of a symbolic integer"""
        if x.__class__ is int:
            return x
        e = x.e

        def feas():
            vals = []
            self.solver.push()
            try:
                while True:
                    r = self.check(ms=self.timeout)
                    if r != z3.sat:
                        if r == z3.unknown:
                            raise Unsupported('enumeration of an index undecided')
                        break
                    v = self.solver.model().eval(e, model_completion=True).as_long()
                    vals.append(v)
                    self.solver.add(e != v)
                    if len(vals) > self.enum_limit:
                        raise Unsupported('more than %d values for a symbolic index' % self.enum_limit)
            finally:
                self.solver.pop()
            return sorted(vals)
        return self.decide(feas, lambda t: e == t)

    def concrete_int(self, x):
        if x.__class__ is int:
            return x
        if x is UNDEF:
            self.violate('uninit', 'uninitialised value decides control flow')
        return self.enum(x)

    def pick(self, x):
        """one feasible concrete value (incomplete: counted in stats)"""
        if x.__class__ is int or x.__class__ is Fraction or x.__class__ is float:
            return x
        e = x.e if isinstance(x, SInt) else x

        def feas():
            m = self.get_model()
            if m is None:
                raise Unsupported('no model to concretise')
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v):
                v = v.as_long()
            elif z3.is_rational_value(v):
                v = Fraction(v.numerator_as_long(), v.denominator_as_long())
            else:
                raise Unsupported('algebraic concretisation')
            self.stats['concretised'] += 1
            self._pick = True
            return [str(v)]
        live = self.pos >= len(self.trail) and self.pos >= self.forced_n
        t = self.decide(feas, lambda t: e == (int(t) if isinstance(x, SInt) else rv(Fraction(t))))
        if live:
            # decide() does not push single options: add the equation here
            c = e == (iv(int(t)) if isinstance(x, SInt) else rv(Fraction(t)))
            self.solver.add(c)
            self.note_model(c)
        return int(t) if isinstance(x, SInt) else Fraction(t)

    def forced_const(self, x):
        """x when it can take several values here, else its only value (option force_const)"""
        if x.__class__ in _CONC or not self.force_on:
            return x
        k = x.get_id()
        r = self.fconst.get(k)
        if r is None:
            def feas():
                m = self.get_model()
                if m is None:
                    return ['n']
                v = m.eval(x, model_completion=True)
                if not z3.is_rational_value(v):
                    return ['n']
                return [str(Fraction(v.numerator_as_long(), v.denominator_as_long()))] if self.check(x != v) == z3.unsat else ['n']
            t = self.decide(feas, lambda t: z3.BoolVal(True))
            r = self.fconst[k] = (x if t == 'n' else Fraction(t), x)
        return r[0]

    def load(self, p, size, kind):
        o, off = self.chk(p, size, 'read')
        c = o.cells.get(off)
        if c is not None and c[1] == size:
            return self.conv(c[0], c[2], kind)
        return self.load_slow(o, off, size, kind)

    def conv(self, v, k0, k):
        if k0 == k or v is UNDEF:
            return v
        if k == 'p':
            return NULL if v.__class__ is int and v == 0 else v
        if k == 'd' and v.__class__ is int:
            if v == 0:
                return Z if self.fpmode == 'exact' else 0.0
            x = struct.unpack('<d', struct.pack('<q', v))[0]
            return x if self.fpmode == 'float' or math.isnan(x) or math.isinf(x) else Fraction(x)
        if k == 'f' and v.__class__ is int:
            if v == 0:
                return Z if self.fpmode == 'exact' else 0.0
            x = struct.unpack('<f', struct.pack('<i', v))[0]
            return x if self.fpmode == 'float' or math.isnan(x) or math.isinf(x) else Fraction(x)
        if k[0] == 'i' and k0[0] == 'i':
            return v
        if k[0] == 'i' and k0 == 'd' and v.__class__ in (float, Fraction):
            return struct.unpack('<q', struct.pack('<d', float(v)))[0]
        if k[0] == 'i' and k0 == 'f' and v.__class__ in (float, Fraction):
            return struct.unpack('<i', struct.pack('<f', float(v)))[0]
        return v    # opaque move of the same bits

    def byte_at(self, o, off):
        for back in range(0, 8):
            c = o.cells.get(off - back)
            if c is not None:
                if c[1] > back:
                    v = c[0]
                    if v is UNDEF:
                        return UNDEF
                    if v.__class__ in (float, Fraction):
                        if c[1] == 8:
                            b = struct.pack('<d', float(v))
                        else:
                            b = struct.pack('<f', float(v))
                        return b[back]
                    if v.__class__ is tuple and v[0] is NULLOBJ:
                        return 0
                    if v.__class__ is int:
                        return (v >> (8 * back)) & 255
                    if isinstance(v, SInt):
                        w = c[1] * 8
                        e = v.e
                        if v.lo < 0:
                            e = e % (1 << w)
                        return SInt((e / (1 << (8 * back))) % 256, 0, 255)
                    raise Unsupported('byte access into a symbolic value')
                break
        for (s, t, v) in reversed(o.fills):
            if s <= off < t:
                return UNDEF if v is None else v
        return UNDEF

    def load_slow(self, o, off, size, kind):
        bs = [self.byte_at(o, off + i) for i in range(size)]
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(b.__class__ is int for b in bs):
            v = int.from_bytes(bytes(bs), 'little', signed=True)
            return self.conv(v, 'i', kind)
        if kind[0] != 'i':
            raise Unsupported('reassembling a symbolic %s from bytes' % kind)
        e = iv(0)
        for i, b in enumerate(bs):
            e = e + (b.e if isinstance(b, SInt) else iv(b)) * (1 << (8 * i))
        return self.norm(SInt(e, 0, (1 << (8 * size)) - 1), 8 * size)

    def store(self, p, v, size, kind):
        if p.__class__ is tuple and p[1].__class__ is int and p[0].alive:
            o, off = p
            c = o.cells.get(off)
            if c is not None and c[1] == size and not o.ro:
                o.cells[off] = (v, size, kind)
                return
        o, off = self.chk(p, size, 'write')
        if o.ro:
            self.violate('frame', 'write to memory that must stay unchanged (%s) in %s' % (o.name, self.where()))
        if o.kind == 'global' and '.str' in o.name:
            self.violate('mem', 'write to a string literal')
        self.clear(o, off, off + size)
        o.cells[off] = (v, size, kind)

    def clear(self, o, s, t):
        """drop [s,t) from the cells, keeping the bytes outside it"""
        cells = o.cells
        if not cells:
            return
        if t - s > 4 * len(cells) + 64:
            keys = [k for k in cells if s - 8 < k < t]
        else:
            keys = [k for k in range(s - 7, t) if k in cells]
        for k in keys:
            v, sz, kd = cells[k]
            if k + sz <= s:
                continue
            if k >= s and k + sz <= t:
                del cells[k]
                continue
            keep = [(q, self.byte_at(o, q)) for q in range(k, k + sz) if not (s <= q < t)]
            del cells[k]
            for q, b in keep:
                if b.__class__ is int and b > 127:
                    b -= 256
                cells[q] = (b, 1, 'i8')

    def memset(self, p, b, n):
        n = self.concrete_int(n)
        if n == 0:
            return
        o, off = self.chk(p, n, 'write')
        if b.__class__ is not int:
            if b is UNDEF:
                b = None
            else:
                for i in range(n):
                    self.store((o, off + i), b, 1, 'i8')
                return
        self.clear(o, off, off + n)
        if off == 0 and n == o.size:
            o.fills = []
        o.fills.append((off, off + n, None if b is None else b & 255))

    def memcpy(self, d, s, n):
        n = self.concrete_int(n)
        if n == 0:
            return
        so, soff = self.chk(s, n, 'read')
        do, doff = self.chk(d, n, 'write')
        if do.ro:
            self.violate('frame', 'write to memory that must stay unchanged (%s) in %s' % (do.name, self.where()))
        if so is do and soff == doff:
            return
        cells = so.cells
        if n > 4 * len(cells) + 64:
            keys = sorted(k for k in cells if soff - 8 < k < soff + n)
        else:
            keys = [k for k in range(soff - 7, soff + n) if k in cells]
        new = {}
        for k in keys:
            v, sz, kd = cells[k]
            if k + sz <= soff:
                continue
            if k >= soff and k + sz <= soff + n:
                new[k - soff + doff] = cells[k]
            else:
                for q in range(max(k, soff), min(k + sz, soff + n)):
                    b = self.byte_at(so, q)
                    new[q - soff + doff] = (b - 256 if b.__class__ is int and b > 127 else b, 1, 'i8')
        fills = [(max(a, soff) - soff + doff, min(b, soff + n) - soff + doff, v) for (a, b, v) in so.fills
                 if a < soff + n and b > soff]
        self.clear(do, doff, doff + n)
        do.cells.update(new)
        if doff == 0 and n == do.size:
            do.fills = fills
        elif fills or do.fills:
            do.fills.append((doff, doff + n, None))
            do.fills.extend(fills)

    def malloc(self, n, zero=False):
        n = self.concrete_int(n)
        o = self.new(n, 'heap', self.where())
        self.live_bytes += n
        if zero:
            o.fills.append((0, n, 0))
        return (o, 0)

    def free(self, p):
        if p is UNDEF:
            self.violate('uninit', 'free of an uninitialised pointer')
        if p.__class__ is int and p == 0:
            return
        o, off = p
        if o is NULLOBJ:
            return
        if o.kind != 'heap' or off != 0:
            self.violate('mem', 'free of a pointer that is not a heap block')
        if not o.alive:
            self.violate('mem', 'double free')
        o.alive = False
        self.live_bytes -= o.size

    def cstr(self, p, limit=4096):
        """concrete C string"""
        o, off = self.chk(p, 1, 'read')
        out = []
        while True:
            v = self.load((o, off), 1, 'i8')
            if v is UNDEF:
                self.violate('uninit', 'string with uninitialised characters')
            if v.__class__ is not int:
                v = self.enum(v)
            if v == 0:
                return ''.join(out)
            out.append(chr(v & 255))
            off += 1

    def put_cstr(self, p, s, nul=True):
        o, off = p if p.__class__ is tuple else NULL
        for i, ch in enumerate(s):
            c = ord(ch)
            self.store((o, off + i), c - 256 if c > 127 else c, 1, 'i8')
        if nul:
            self.store((o, off + len(s)), 0, 1, 'i8')

    # ------------------------------------------------------------------ pointers
    def gep(self, p, c, dyn):
        if p is UNDEF:
            return UNDEF
        if p.__class__ is int:
            p = NULL if p == 0 else self._bad('pointer from integer')
        o, off = p
        off = self.ioff(off, c)
        for v, sc in dyn:
            if v is UNDEF:
                return (o, UNDEF)
            if v.__class__ is int:
                off = self.ioff(off, v * sc)
            else:
                if off.__class__ is int:
                    off = SInt(v.e * sc + off, v.lo * sc + off, v.hi * sc + off)
                elif off is not UNDEF:
                    off = SInt(off.e + v.e * sc, off.lo + v.lo * sc, off.hi + v.hi * sc)
        return (o, off)

    def _bad(self, s):
        raise Unsupported(s)

    def ioff(self, off, c):
        if off is UNDEF:
            return UNDEF
        if c == 0:
            return off
        if off.__class__ is int:
            return off + c
        return SInt(off.e + c, off.lo + c, off.hi + c)

    def pcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.__class__ is int:
            a = NULL if a == 0 else a
        if b.__class__ is int:
            b = NULL if b == 0 else b
        if a[0] is b[0]:
            x, y = a[1], b[1]
            if x.__class__ is int and y.__class__ is int:
                return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                        'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
            return self.icmp(pred.replace('u', 's') if pred[0] == 'u' else pred, x, y, 64)
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        x, y = a[0].id, b[0].id
        return {'u': x < y, 's': x < y}[pred[0]] if pred[1:] in ('lt', 'le') else x > y

    # ------------------------------------------------------------------ integers
    def wrap(self, r, w, nsw):
        if nsw and w >= 32:
            self.violate('ovf', 'signed integer overflow in %s' % self.where())
        r &= (1 << w) - 1
        return r - (1 << w) if r >> (w - 1) else r

    def toS(self, x):
        if x.__class__ is int:
            return SInt(iv(x), x, x)
        if x.__class__ is bool:
            return SInt(iv(int(x)), int(x), int(x))
        return x

    def norm(self, s, w):
        """signed canonical form"""
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if s.lo >= lo and s.hi <= hi:
            return s
        m = 1 << w
        if s.lo >= 0 and s.hi < m:
            return SInt(z3.If(s.e > hi, s.e - m, s.e), lo, hi)
        return SInt((s.e - lo) % m + lo, lo, hi)

    def unorm(self, s, w):
        m = 1 << w
        if s.lo >= 0 and s.hi < m:
            return s
        if s.lo >= -(m >> 1) and s.hi < (m >> 1):
            return SInt(z3.If(s.e < 0, s.e + m, s.e), 0, m - 1)
        return SInt(s.e % m, 0, m - 1)

    def iarith(self, op, a, b, w, nsw):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        ac, bc = a.__class__, b.__class__
        if ac is tuple or bc is tuple:
            if op == 'sub' and ac is tuple and bc is tuple:
                if a[0] is b[0] and a[1].__class__ is int and b[1].__class__ is int:
                    return a[1] - b[1]
                raise Unsupported('pointer difference')
            if op == 'add':
                if ac is tuple:
                    return self.gep(a, 0, ((b, 1),))
                return self.gep(b, 0, ((a, 1),))
            if op == 'sub' and bc is int:
                return (a[0], self.ioff(a[1], -b))
            raise Unsupported('integer arithmetic on a pointer')
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if ac is int and bc is int:
            if op in ('sdiv', 'srem', 'udiv', 'urem'):
                if b == 0:
                    self.violate('div0', 'integer division by zero in %s' % self.where())
                if op[0] == 'u':
                    a &= (1 << w) - 1
                    b &= (1 << w) - 1
                    r = a // b if op == 'udiv' else a % b
                else:
                    q = abs(a) // abs(b)
                    if (a < 0) != (b < 0):
                        q = -q
                    r = q if op == 'sdiv' else a - q * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'ashr':
                r = a >> b
            elif op == 'lshr':
                r = (a & ((1 << w) - 1)) >> b
            else:
                r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
            if not lo <= r <= hi:
                return self.wrap(r, w, False)
            return r
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr') or \
                (bc is int and b != 0 and not nsw):
            r = memo(op, a, b, lambda: self.iarith2(op, a, b, w), w)
        else:
            r = self.iarith2(op, a, b, w)
        if r.__class__ is int:
            return r
        if r.lo >= lo and r.hi <= hi:
            return r
        if nsw and w >= 32:
            if self.live():
                bad = z3.Or(r.e < lo, r.e > hi)
                q = self.check(bad)
                if q == z3.sat:
                    self.violate('ovf', 'signed integer overflow in %s' % self.where(), bad, fatal=False)
                self.add(z3.Not(bad))
            return memo('nsw', r, w, lambda: SInt(r.e, max(lo, r.lo), min(hi, r.hi)))
        return memo('norm', r, w, lambda: self.norm(r, w))

    def boolof(self, x):
        """the Bool behind a 0/1 integer"""
        if x.__class__ is int:
            return z3.BoolVal(x == 1)
        e = x.e
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c, t, f = e.children()
            if z3.is_int_value(t) and z3.is_int_value(f):
                if t.as_long() == 1 and f.as_long() == 0:
                    return c
                if t.as_long() == 0 and f.as_long() == 1:
                    return z3.Not(c)
        return e == 1

    def is01(self, x):
        return x in (0, 1) if x.__class__ is int else x.lo >= 0 and x.hi <= 1

    def iarith2(self, op, a, b, w):
        a0, b0 = a, b
        if op in ('and', 'or', 'xor') and self.is01(a) and self.is01(b):
            if op == 'and' and (a0.__class__ is int or b0.__class__ is int):
                if a0.__class__ is int:
                    a0, b0 = b0, a0
                return a0 if b0 == 1 else 0
            if op == 'or' and (a0.__class__ is int or b0.__class__ is int):
                if a0.__class__ is int:
                    a0, b0 = b0, a0
                return 1 if b0 == 1 else a0
            A, B = self.boolof(a), self.boolof(b)
            r = z3.And(A, B) if op == 'and' else z3.Or(A, B) if op == 'or' else z3.Xor(A, B)
            return SInt(z3.If(r, iv(1), iv(0)), 0, 1)
        a = self.toS(a)
        b = self.toS(b)
        if op == 'add':
            if b0.__class__ is int and b0 == 0:
                return a0
            r = SInt(a.e + b.e, a.lo + b.lo, a.hi + b.hi)
        elif op == 'sub':
            if b0.__class__ is int and b0 == 0:
                return a0
            r = SInt(a.e - b.e, a.lo - b.hi, a.hi - b.lo)
        elif op == 'mul':
            if a0.__class__ is int and a0 == 1:
                return b0
            if b0.__class__ is int and b0 == 1:
                return a0
            if (a0.__class__ is int and a0 == 0) or (b0.__class__ is int and b0 == 0):
                return 0
            ps = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
            r = SInt(a.e * b.e, min(ps), max(ps))
        elif op in ('sdiv', 'srem', 'udiv', 'urem'):
            if op[0] == 'u':
                a, b = self.unorm(a, w), self.unorm(b, w)
            else:
                a, b = self.norm(a, w), self.norm(b, w)
            if b.lo <= 0 <= b.hi:
                if self.branch(b.e == 0):
                    self.violate('div0', 'integer division by zero in %s' % self.where())
            if a.lo < 0 and b.lo >= 0 and b0.__class__ is int:
                k = ('nonneg', a.e.get_id())
                m = self.divs.get(k)
                if m is None:
                    m = self.divs[k] = (self.live() and self.check(a.e < 0) == z3.unsat, a.e)
                if m[0]:
                    a = SInt(a.e, 0, a.hi)
            if a.lo >= 0 and b.lo >= 0:
                q = a.e / b.e
                if op.endswith('div'):
                    r = SInt(q, 0, a.hi)
                else:
                    r = SInt(a.e % b.e, 0, min(a.hi, b.hi))
            else:
                ua = z3.If(a.e < 0, -a.e, a.e)
                ub = z3.If(b.e < 0, -b.e, b.e)
                q = ua / ub
                q = z3.If((a.e < 0) != (b.e < 0), -q, q)
                M = max(abs(a.lo), abs(a.hi))
                if op.endswith('div'):
                    r = SInt(q, -M, M)
                else:
                    r = SInt(a.e - q * b.e, -M, M)
        elif op == 'and' and (b0.__class__ is int or a0.__class__ is int):
            if a0.__class__ is int:
                a, b, b0 = b, a, a0
            if b0 >= 0 and (b0 & (b0 + 1)) == 0:
                if a.lo >= 0 and a.hi <= b0:
                    return a
                r = SInt(a.e % (b0 + 1), 0, b0)
            elif b0 == -2:
                r = SInt(a.e - a.e % 2, a.lo - 1, a.hi)
            else:
                return self.bitop(op, a, self.toS(b0), w)
        elif op == 'xor' and b0.__class__ is int and b0 == -1:
            r = SInt(-a.e - 1, -a.hi - 1, -a.lo - 1)
        elif op == 'shl' and b0.__class__ is int:
            r = SInt(a.e * (1 << b0), a.lo * (1 << b0), a.hi * (1 << b0))
        elif op == 'ashr' and b0.__class__ is int:
            a = self.norm(a, w)
            r = SInt(a.e / (1 << b0), a.lo >> b0, a.hi >> b0)
        elif op == 'lshr' and b0.__class__ is int:
            a = self.unorm(a, w)
            r = SInt(a.e / (1 << b0), a.lo >> b0, a.hi >> b0)
        else:
            return self.bitop(op, a, b, w)
        return r

    def bitop(self, op, a, b, w):
        A = z3.Int2BV(a.e, w)
        B = z3.Int2BV(b.e, w)
        r = {'and': A & B, 'or': A | B, 'xor': A ^ B, 'shl': A << B, 'ashr': A >> B, 'lshr': z3.LShR(A, B)}[op]
        return SInt(z3.BV2Int(r, is_signed=True), -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def icmp(self, pred, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 1:
            if a.__class__ is bool and b.__class__ is bool:
                return (a == b) if pred == 'eq' else (a != b)
            A = z3.BoolVal(a) if a.__class__ is bool else a
            B = z3.BoolVal(b) if b.__class__ is bool else b
            return (A == B) if pred == 'eq' else (A != B)
        if a.__class__ is tuple or b.__class__ is tuple:
            return self.pcmp(pred, a, b)
        if a.__class__ is int and b.__class__ is int:
            if pred[0] == 'u':
                a &= (1 << w) - 1
                b &= (1 << w) - 1
            k = pred if pred in ('eq', 'ne') else pred[1:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k]
        return memo(pred, a, b, lambda: self.icmp2(pred, a, b, w), w)

    def icmp2(self, pred, a, b, w):
        a = self.toS(a)
        b = self.toS(b)
        if pred[0] == 'u':
            a, b = self.unorm(a, w), self.unorm(b, w)
        else:
            a, b = self.norm(a, w), self.norm(b, w)
        k = pred if pred in ('eq', 'ne') else pred[1:]
        if k in ('eq', 'ne') and a.lo >= 0 and b.lo >= 0 and a.hi <= 1 and b.hi <= 1:
            if a.lo == a.hi:
                a, b = b, a
            A = self.boolof(a)
            if b.lo == b.hi:
                return A if (b.lo == 1) == (k == 'eq') else z3.Not(A)
            B = self.boolof(b)
            return (A == B) if k == 'eq' else z3.Xor(A, B)
        if k == 'eq':
            if a.hi < b.lo or b.hi < a.lo:
                return False
            return a.e == b.e
        if k == 'ne':
            if a.hi < b.lo or b.hi < a.lo:
                return True
            return a.e != b.e
        if k == 'lt':
            if a.hi < b.lo:
                return True
            if a.lo >= b.hi:
                return False
            return a.e < b.e
        if k == 'le':
            if a.hi <= b.lo:
                return True
            if a.lo > b.hi:
                return False
            return a.e <= b.e
        if k == 'gt':
            if a.lo > b.hi:
                return True
            if a.hi <= b.lo:
                return False
            return a.e > b.e
        if a.lo >= b.hi:
            return True
        if a.hi < b.lo:
            return False
        return a.e >= b.e

    def sext(self, v, w):
        if v is UNDEF or v.__class__ is int or v.__class__ is tuple:
            return v
        if v.__class__ is float or v.__class__ is Fraction or isinstance(v, AR):
            return v
        return self.norm(v, w)

    def zext(self, v, a, b):
        if v is UNDEF or v.__class__ is tuple:
            return v
        if a == 1:
            if v.__class__ is bool:
                return int(v)
            return memo('zb', v, 0, lambda: SInt(z3.If(v, iv(1), iv(0)), 0, 1))
        if v.__class__ is int:
            return v & ((1 << a) - 1)
        return self.unorm(v, a)

    def trunc(self, v, a, b):
        if v is UNDEF or v.__class__ is tuple:
            return v
        if b == 1:
            if v.__class__ is int:
                return bool(v & 1)
            if v.lo >= 0 and v.hi <= 1:
                return v.e == 1
            return v.e % 2 == 1
        if v.__class__ is int:
            v &= (1 << b) - 1
            return v - (1 << b) if v >> (b - 1) else v
        return self.norm(v, b)

    def zb(self, x):
        return z3.BoolVal(x) if x.__class__ is bool else x

    def bool_and(self, a, b):
        if a is False or b is False:
            return False
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a is True:
            return b
        if b is True:
            return a
        return z3.And(a, b)

    def bool_or(self, a, b):
        if a is True or b is True:
            return True
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a is False:
            return b
        if b is False:
            return a
        return z3.Or(a, b)

    def bool_xor(self, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.__class__ is bool and b.__class__ is bool:
            return a != b
        if b is True:
            return z3.Not(a)
        if a is True:
            return z3.Not(b)
        if b is False:
            return a
        if a is False:
            return b
        return z3.Xor(a, b)

    def select(self, c, a, b, kind):
        if a is b:
            return a
        if c is UNDEF:
            self.violate('uninit', 'selection depends on an uninitialised value')
        if kind == 'i1':
            if a is UNDEF or b is UNDEF:
                return a if self.branch(c) else b
            if a is True and b is False:
                return c
            if b is False:
                return self.bool_and(c, a)
            if a is True:
                return self.bool_or(c, b)
            return z3.If(c, self.zb(a), self.zb(b))
        if a is UNDEF or b is UNDEF or kind == 'ptr' or self.opts.get('fork_select'):
            return a if self.branch(c) else b
        if kind == 'i':
            if a.__class__ is tuple or b.__class__ is tuple:
                return a if self.branch(c) else b
            x, y = self.toS(a), self.toS(b)
            return SInt(z3.If(c, x.e, y.e), min(x.lo, y.lo), max(x.hi, y.hi))
        if self.special(a) or self.special(b) or self.nra:
            return a if self.branch(c) else b
        return z3.If(c, self.R(a), self.R(b))

    # ------------------------------------------------------------------ reals
    def special(self, x):
        return x.__class__ is float and (math.isinf(x) or math.isnan(x))

    def R(self, x):
        c = x.__class__
        if c is Fraction or c is float:
            return rv(x)
        return x

    def fadd(self, a, b):
        ca, cb = a.__class__, b.__class__
        if ca is Fraction and cb is Fraction:
            return a + b
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ca is float or cb is float:
            return self.ffloat('+', a, b)
        if ca is Fraction and a == 0:
            return b
        if cb is Fraction and b == 0:
            return a
        return memo('+', a, b, lambda: self.R(a) + self.R(b))

    def fsub(self, a, b):
        ca, cb = a.__class__, b.__class__
        if ca is Fraction and cb is Fraction:
            return a - b
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ca is float or cb is float:
            return self.ffloat('-', a, b)
        if cb is Fraction and b == 0:
            return a
        if ca is AR and cb is AR and a.eq(b):
            return Z
        return memo('-', a, b, lambda: self.R(a) - self.R(b))

    def fmul(self, a, b):
        ca, cb = a.__class__, b.__class__
        if ca is Fraction and cb is Fraction:
            return a * b
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ca is float or cb is float:
            return self.ffloat('*', a, b)
        if ca is Fraction:
            if a == 0:
                return Z
            if a == 1:
                return b
        if cb is Fraction:
            if b == 0:
                return Z
            if b == 1:
                return a
        if self.force_on and ca is not Fraction and cb is not Fraction:
            a2, b2 = self.forced_const(a), self.forced_const(b)
            if a2 is not a or b2 is not b:
                return self.fmul(a2, b2)
        r = memo('*', a, b, lambda: self.R(a) * self.R(b))
        if a is b:
            SQUARES[id(r)] = (r, a)
        return r

    def fdiv(self, a, b):
        ca, cb = a.__class__, b.__class__
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ca is float or cb is float:
            return self.ffloat('/', a, b)
        if cb is Fraction:
            if b == 0:
                if ca is Fraction:
                    return float('nan') if a == 0 else (float('inf') if a > 0 else float('-inf'))
                if self.branch(a == 0):
                    return float('nan')
                return float('inf') if self.branch(a > 0) else float('-inf')
            if ca is Fraction:
                return a / b
            if b == 1:
                return a
            return a * rv(1 / b)
        if self.force_on:
            b2 = self.forced_const(b)
            if b2 is not b:
                return self.fdiv(a, b2)
        if self.opts.get('free_div'):         # the quotient may be anything
            return self.fresh('q')
        if self.branch(b == 0):
            if ca is Fraction:
                return float('nan') if a == 0 else (float('inf') if a > 0 else float('-inf'))
            if self.branch(a == 0):
                return float('nan')
            return float('inf') if self.branch(a > 0) else float('-inf')
        if ca is Fraction and a == 0:
            return Z
        key = (self.R(a).get_id(), b.get_id())
        q = self.divs.get(key)
        if q is None:
            A = self.R(a)
            v = self.fresh('q')
            self.add(v * b == A)
            q = (v, A, b)
            self.divs[key] = q
        return q[0]

    def frem(self, a, b):
        return self.libc.m_fmod(self, (a, b), ())

    def fneg(self, a):
        if a is UNDEF:
            return UNDEF
        if a.__class__ is AR:
            return memo('neg', a, 0, lambda: -a)
        return -a

    def ffloat(self, op, a, b):
        """at least one python float: IEEE when both are concrete"""
        if self.conc(a) and self.conc(b):
            if self.fpmode == 'exact' and not self.special(a) and not self.special(b):
                a, b = Fraction(a), Fraction(b)
                if op == '/' and b == 0:
                    return float('nan') if a == 0 else math.copysign(float('inf'), a)
                return {'+': a.__add__, '-': a.__sub__, '*': a.__mul__, '/': a.__truediv__}[op](b)
            a, b = float(a), float(b)
            try:
                return {'+': a.__add__, '-': a.__sub__, '*': a.__mul__, '/': a.__truediv__}[op](b)
            except ZeroDivisionError:
                if a == 0 or math.isnan(a):
                    return float('nan')
                return math.copysign(float('inf'), a) * math.copysign(1, b)
        if self.special(a) or self.special(b):
            s, other = (a, b) if self.special(a) else (b, a)
            if math.isnan(s):
                return s
            if op == '+':
                return s
            if op == '-':
                return s if s is a else -s
            if op == '/' and s is b:
                return Z if self.fpmode == 'exact' else 0.0
            # inf * symbolic, inf / symbolic
            if self.branch(other == 0):
                return float('nan') if op == '*' else s
            return s if self.branch(other > 0) else -s
        fa = Fraction(a) if a.__class__ is float else a
        fb = Fraction(b) if b.__class__ is float else b
        return {'+': self.fadd, '-': self.fsub, '*': self.fmul, '/': self.fdiv}[op](fa, fb)

    def conc(self, x):
        return x.__class__ is float or x.__class__ is Fraction

    def f32round(self, x):
        if x.__class__ is float or x.__class__ is Fraction:
            f = float(x)
            try:
                g = struct.unpack('<f', struct.pack('<f', f))[0]
            except OverflowError:
                g = math.copysign(float('inf'), f)
            if self.fpmode == 'float' or self.special(g):
                return g
            return Fraction(g) if not self.opts.get('f32_exact') else x
        return x

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        k = pred[1:]
        if pred in ('true', 'false'):
            return pred == 'true'
        ca, cb = self.conc(a), self.conc(b)
        if ca and cb:
            nan = (a.__class__ is float and math.isnan(a)) or (b.__class__ is float and math.isnan(b))
            if pred == 'ord':
                return not nan
            if pred == 'uno':
                return nan
            if nan:
                return pred[0] == 'u'
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k]
        if self.special(a) or self.special(b):
            s = a if self.special(a) else b
            if math.isnan(s):
                if pred == 'ord':
                    return False
                if pred == 'uno':
                    return True
                return pred[0] == 'u'
            x = a if self.special(a) else 0
            y = b if self.special(b) else 0
            if pred in ('ord', 'uno'):
                return pred == 'ord'
            return {'eq': False, 'ne': True, 'lt': x < y, 'le': x < y, 'gt': x > y, 'ge': x > y}[k]
        if pred == 'ord':
            return True
        if pred == 'uno':
            return False
        sa, sb = self.sqrt_of.get(id(a)), self.sqrt_of.get(id(b))
        if sa is not None and (sb is not None or (cb and b >= 0)):
            return self.fcmp(pred, sa[1], sb[1] if sb is not None else b * b)
        if sb is not None and ca and a >= 0:
            return self.fcmp(pred, a * a, sb[1])
        return memo('f' + k, a, b, lambda: CMP[k](self.R(a), self.R(b)))

    def fresh(self, base):
        self.nfresh += 1
        return var('r', '%s!%d' % (base, self.nfresh))

    def fresh_int(self, base):
        self.nfresh += 1
        return var('i', '%s!%d' % (base, self.nfresh))

    def fptosi(self, x, w):
        if x is UNDEF:
            return UNDEF
        if self.conc(x):
            if self.special(x):
                self.violate('conv', 'conversion of inf/nan to an integer in %s' % self.where(), fatal=False)
                return -(1 << (w - 1))
            r = int(x)
            if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                self.violate('conv', 'float-to-integer conversion out of range in %s' % self.where(), fatal=False)
                return self.wrap(r, w, False)
            return r
        if self.opts.get('fork_fptosi'):
            return self.fork_int(x)
        k = ('fptosi', x.get_id())
        m = self.divs.get(k)
        if m is None:
            e = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            v = self.fresh_int('t')
            self.add(v == e)
            m = self.divs[k] = (v, x)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return SInt(m[0], lo, hi)

    def fork_int(self, x):
        """fork over the truncated value of a symbolic real"""
        def con(k):
            k = int(k)
            if k == 0:
                return z3.And(x > -1, x < 1)
            if k > 0:
                return z3.And(x >= k, x < k + 1)
            return z3.And(x > k - 1, x <= k)

        def feas():
            vals = []
            self.solver.push()
            try:
                while True:
                    r = self.check(ms=self.timeout)
                    if r == z3.unknown:
                        raise Unsupported('truncation of a real undecided')
                    if r != z3.sat:
                        break
                    v = self.solver.model().eval(x, model_completion=True)
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    k = int(f)
                    vals.append(k)
                    self.solver.add(z3.Not(con(k)))
                    if len(vals) > self.enum_limit:
                        raise Unsupported('more than %d truncated values' % self.enum_limit)
            finally:
                self.solver.pop()
            return sorted(vals)
        return self.decide(feas, con)

    def fptoui(self, x, w):
        if x is UNDEF:
            return UNDEF
        if self.conc(x):
            if self.special(x) or not -1 < x < (1 << w):
                self.violate('conv', 'float-to-unsigned conversion out of range in %s' % self.where(), fatal=False)
                r = 0 if self.special(x) else int(x)
                return self.wrap(r, w, False)
            return self.wrap(int(x), w, False)
        if self.live():
            bad = z3.Or(x <= -1, x >= (1 << w))
            if self.check(bad) == z3.sat:
                self.violate('conv', 'float-to-unsigned conversion out of range in %s' % self.where(), bad, fatal=False)
        v = self.fresh_int('t')
        self.add(v == z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
        return self.norm(SInt(v, -(1 << w), 1 << w), w)

    def sitofp(self, x, w):
        if x is UNDEF:
            return UNDEF
        if x.__class__ is bool:
            x = -int(x)
        if x.__class__ is int:
            return Fraction(x) if self.fpmode == 'exact' else float(x)
        return memo('si2fp', x, 0, lambda: z3.ToReal(self.norm(x, w).e), w)

    def uitofp(self, x, w):
        if x is UNDEF:
            return UNDEF
        if x.__class__ is bool:
            x = int(x)
        if x.__class__ is int:
            x &= (1 << w) - 1
            return Fraction(x) if self.fpmode == 'exact' else float(x)
        if not isinstance(x, SInt):
            x = self.zext(x, w, 32)
        return z3.ToReal(self.unorm(x, w).e)

    # transcendental -------------------------------------------------------
    def key(self, x):
        if self.conc(x):
            return ('c', Fraction(x))
        s = z3.simplify(x, som=True)
        self.keep.append(s)
        return ('s', s.get_id())

    keep = []

    def sincos(self, x):
        """pair (sin x, cos x)"""
        if x is UNDEF:
            return UNDEF, UNDEF
        if self.special(x):
            return float('nan'), float('nan')
        if self.conc(x) and self.fpmode == 'float':
            return math.sin(x), math.cos(x)
        if self.conc(x) and x == 0:
            return Z, ONE
        k = self.key(x)
        if k in self.trig:
            return self.trig[k][:2]
        # odd/even symmetry
        kn = self.key(-x)
        if kn in self.trig:
            s, c = self.trig[kn][:2]
            r = (-s, c)
            self.trig[k] = r
            return r
        s, c = self.fresh('sin'), self.fresh('cos')
        self.add(s * s + c * c == 1)
        self.add(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
        if self.conc(x):
            for v, f in ((s, math.sin(float(x))), (c, math.cos(float(x)))):
                self.add(v >= rv(Fraction(f) - Fraction(1, 10 ** 9)))
                self.add(v <= rv(Fraction(f) + Fraction(1, 10 ** 9)))
        self.trig[k] = (s, c, x)
        return s, c

    def set_sincos(self, a, s, c):
        self.trig[self.key(a)] = (s, c, a)

    def sqrt(self, x):
        if x is UNDEF:
            return UNDEF
        if self.conc(x):
            if self.special(x) or x < 0:
                return float('nan') if not (x == float('inf')) else x
            if self.fpmode == 'float':
                return math.sqrt(x)
            x = Fraction(x)
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            if self.opts.get('sqrt_concrete_float', False):
                return Fraction(math.sqrt(x))
            xx = rv(x)
            k = ('c', x)
        else:
            if self.force_on:
                x2 = self.forced_const(x)
                if x2 is not x:
                    return self.sqrt(x2)
            sq = SQUARES.get(id(x))
            if sq is not None and sq[0] is x:
                return sq[1] if self.branch(sq[1] >= 0) else -sq[1]
            xx = x
            k = self.key(x)
        if k in self.sqrts:
            return self.sqrts[k]
        if not self.conc(x):
            if self.branch(xx < 0):
                return float('nan')
        r = self.fresh('sqrt')
        self.add(r >= 0)
        self.add(r * r == xx)
        if self.conc(x):
            f = Fraction(math.sqrt(x))
            self.add(r >= rv(f - Fraction(1, 10 ** 9)))
            self.add(r <= rv(f + Fraction(1, 10 ** 9)))
        self.sqrts[k] = r
        self.sqrt_of[id(r)] = (r, x)
        return r
