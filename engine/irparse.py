"""LLVM-18 textual IR -> Python source.  Only the subset clang -O0 + mem2reg + simplifycfg emits for C
without vectors.  Every IR function becomes one Python function over an engine `E` (see irsym.py)."""
import re
from fractions import Fraction
import struct as _struct

TOK = re.compile(r'''
   (?P<str>c"(?:[^"])*")
 | (?P<name>[%@](?:"[^"]*"|[-\w.$]+))
 | (?P<num>-?0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<qstr>"[^"]*")
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<punct>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1
            continue
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('cannot tokenize %r' % s[i:i + 40])
        out.append(m.group(0))
        i = m.end()
    return out


class T:
    """types are tuples: ('i',n) ('f64',) ('f32',) ('ptr',) ('void',) ('arr',n,t) ('st',(..)) ('named',name)"""


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.declared = set()
        self._lay = {}

    # ---- layout
    def size(self, t):
        return self.layout(t)[0]

    def align(self, t):
        return self.layout(t)[1]

    def layout(self, t):
        r = self._lay.get(t)
        if r is None:
            r = self._layout(t)
            self._lay[t] = r
        return r

    def _layout(self, t):
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            return (b, b, None)
        if k == 'f64' or k == 'ptr':
            return (8, 8, None)
        if k == 'f32':
            return (4, 4, None)
        if k == 'arr':
            s, a, _ = self.layout(t[2])
            return (s * t[1], a, None)
        if k == 'named':
            return self.layout(self.types[t[1]])
        if k == 'st':
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                s, a, _ = self.layout(f)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        raise TypeError(t)


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = ('ptr',)
        elif x == 'double':
            t = ('f64',)
        elif x == 'float':
            t = ('f32',)
        elif x == 'void':
            t = ('void',)
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = ('st', tuple(fs))
        elif x[0] == '%':
            t = ('named', x)
        elif x == 'x86_fp80':
            t = ('f80',)
        elif x == 'metadata':
            t = ('meta',)
        else:
            raise SyntaxError('type? %s in %s' % (x, ' '.join(self.t)))
        return t


def isint(v):
    if v in ('UNDEF', 'ZERO'):
        return 'False' if v == 'UNDEF' else 'True'
    if re.fullmatch(r'\(?-?\d+\)?', v):
        return 'True'
    return '%s.__class__ is int' % v


ATTR_WORDS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext', 'immarg',
              'returned', 'inreg', 'nofree', 'readnone', 'nest', 'swiftself', 'noreturn', 'writable', 'dead_on_unwind'}


def skip_attrs(p):
    """returns byval type if present"""
    bv = None
    while True:
        x = p.peek()
        if x in ATTR_WORDS:
            p.next()
        elif x == 'align':
            p.next()
            p.next()
        elif x in ('byval', 'sret', 'elementtype'):
            p.next()
            p.expect('(')
            t = p.type()
            p.expect(')')
            if x == 'byval':
                bv = t
        elif x in ('dereferenceable', 'dereferenceable_or_null', 'range', 'memory', 'captures', 'allocsize'):
            p.next()
            d = 0
            while True:
                y = p.next()
                if y == '(':
                    d += 1
                if y == ')':
                    d -= 1
                    if d == 0:
                        break
        else:
            return bv


def fconst(s, ty):
    if s.startswith('0x'):
        h = s[2:]
        if h[0] in 'KLMHR':
            raise SyntaxError(s)
        v = _struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    else:
        v = float(s)
    return v


class Compiler:
    def __init__(self, mod):
        self.m = mod

    # --- constants: returns python expression text
    def const(self, p, ty):
        """parse a value of type ty; returns ('reg',name) or ('py', text)"""
        x = p.next()
        k = ty[0]
        if x[0] == '%':
            return self.reg(x)
        if x[0] == '@':
            return 'G[%r]' % x
        if x in ('undef', 'poison'):
            return 'UNDEF'
        if x == 'zeroinitializer':
            return 'ZERO'
        if x == 'null':
            return 'NULL'
        if x == 'true':
            return 'True'
        if x == 'false':
            return 'False'
        if x == 'getelementptr':
            p.eat('inbounds')
            p.expect('(')
            t = p.type()
            p.expect(',')
            pt = p.type()
            base = self.const(p, pt)
            idx = []
            while p.eat(','):
                p.eat('inrange')
                it = p.type()
                idx.append(int(p.next()))
            p.expect(')')
            off = self.gep_const(t, idx)
            return '(%s[0], %s[1]+%d)' % (base, base, off)
        if x in ('ptrtoint', 'inttoptr', 'bitcast'):
            p.expect('(')
            t = p.type()
            v = self.const(p, t)
            p.expect('to')
            p.type()
            p.expect(')')
            return v
        if k == 'i':
            v = int(x)
            return self.iconst(v, ty[1])
        if k in ('f64', 'f32'):
            v = fconst(x, ty)
            return self.fconst(v)
        raise SyntaxError('const %s %s' % (x, ty))

    def iconst(self, v, w):
        if w == 1:
            return 'True' if v else 'False'
        v &= (1 << w) - 1
        if v >= 1 << (w - 1):
            v -= 1 << w
        return '(%d)' % v if v < 0 else str(v)

    def fconst(self, v):
        n = 'K%d' % len(self.kvals)
        for i, (kv) in enumerate(self.kvals):
            if repr(kv) == repr(v):
                return 'K%d' % i
        self.kvals.append(v)
        return n

    def gep_const(self, t, idx):
        off = idx[0] * self.m.size(t)
        for i in idx[1:]:
            while t[0] == 'named':
                t = self.m.types[t[1]]
            if t[0] == 'st':
                off += self.m.layout(t)[2][i]
                t = t[1][i]
            else:
                off += i * self.m.size(t[2])
                t = t[2]
        return off

    def reg(self, x):
        r = self.regs.get(x)
        if r is None:
            r = 'r%d' % len(self.regs)
            self.regs[x] = r
        return r

    # --- function
    def compile_func(self, fn):
        self.regs = {}
        params = [self.reg(n) for (_, n, _) in fn['params']]
        blocks = fn['blocks']  # list of (label, [line tokens])
        bid = {b[0]: i for i, b in enumerate(blocks)}
        # phis
        phis = {}  # block -> list of (reg, ty, {pred: valuetext})
        body = {}
        for label, lines in blocks:
            ph = []
            rest = []
            for toks in lines:
                if len(toks) > 2 and toks[1] == '=' and toks[2] == 'phi':
                    p = P(toks)
                    dst = self.reg(p.next())
                    p.next()
                    p.next()
                    ty = p.type()
                    inc = {}
                    while True:
                        p.expect('[')
                        v = self.const(p, ty)
                        p.expect(',')
                        l = p.next()
                        p.expect(']')
                        inc[l] = v
                        if not p.eat(','):
                            break
                    ph.append((dst, ty, inc))
                else:
                    rest.append(toks)
            phis[label] = ph
            body[label] = rest
        out = []
        fname = fn['pyname']
        out.append('def %s(E, %s):' % (fname, ', '.join(params + ['VA=()'])))
        out.append('  FR = []')
        out.append('  E.enter(%r)' % fn['name'])
        for (ty, n, bv) in fn['params']:
            if bv is not None:
                out.append('  %s = E.byval(%s, %d, FR)' % (self.reg(n), self.reg(n), self.m.size(bv)))
        out.append('  bb = 0')
        out.append('  while True:')
        code = {}
        for label, _ in blocks:
            lines = []
            for toks in body[label]:
                self.instr(toks, lines, label, phis, bid)
            if not lines:
                lines.append('pass')
            code[bid[label]] = lines

        def emit(lo, hi, ind):
            if hi - lo == 1:
                for l in code[lo]:
                    out.append(' ' * ind + l)
                return
            mid = (lo + hi) // 2
            out.append(' ' * ind + 'if bb < %d:' % mid)
            emit(lo, mid, ind + 1)
            out.append(' ' * ind + 'else:')
            emit(mid, hi, ind + 1)
        out.append('    E.tick()')
        emit(0, len(blocks), 4)
        return '\n'.join(out)

    def goto(self, target, frm, phis, bid):
        ls = []
        ph = phis[target]
        if ph:
            dst = [d for d, _, _ in ph]
            src = [inc[frm] for _, _, inc in ph]
            pairs = [(d, s) for d, s in zip(dst, src) if d != s]
            if pairs:
                if len(pairs) == 1:
                    ls.append('%s = %s' % pairs[0])
                else:
                    ls.append('%s = %s' % (', '.join(d for d, _ in pairs), ', '.join(s for _, s in pairs)))
        ls.append('bb = %d; continue' % bid[target])
        return ls

    def instr(self, toks, L, label, phis, bid):
        p = P(toks)
        dst = None
        if p.peek(1) == '=':
            dst = self.reg(p.next())
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        m = self.m
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                L.extend(self.goto(p.next(), label, phis, bid))
                return
            p.type()
            c = self.const(p, ('i', 1))
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            if c in ('True', 'False'):
                L.extend(self.goto(a if c == 'True' else b, label, phis, bid))
                return
            L.append('if (%s if %s.__class__ is bool else E.branch(%s)):' % (c, c, c))
            L.extend(' ' + x for x in self.goto(a, label, phis, bid))
            L.append('else:')
            L.extend(' ' + x for x in self.goto(b, label, phis, bid))
            return
        if op == 'switch':
            ty = p.type()
            v = self.const(p, ty)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            L.append('tmp = %s if %s else E.concrete_int(%s)' % (v, isint(v), v))
            first = True
            while not p.eat(']'):
                ct = p.type()
                cv = self.const(p, ct)
                p.expect(',')
                p.expect('label')
                t = p.next()
                L.append('%s tmp == %s:' % ('if' if first else 'elif', cv))
                L.extend(' ' + x for x in self.goto(t, label, phis, bid))
                first = False
            L.extend(self.goto(d, label, phis, bid))
            return
        if op == 'ret':
            ty = p.type()
            if ty[0] == 'void':
                L.append('E.leave(FR); return None')
            else:
                v = self.const(p, ty)
                L.append('E.leave(FR); return %s' % v)
            return
        if op == 'unreachable':
            L.append('E.unreachable()')
            return
        if op == 'alloca':
            ty = p.type()
            n = '1'
            if p.eat(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = self.const(p, nt)
            L.append('%s = E.alloca(%d, %s, FR)' % (dst, m.size(ty), n))
            return
        if op == 'load':
            p.eat('volatile')
            ty = p.type()
            p.expect(',')
            p.type()
            a = self.const(p, ('ptr',))
            k = self.kind(ty)
            sz = m.size(ty)
            L.append('tmp = %s' % a)
            L.append('try:')
            L.append(' tv = tmp[0].cells[tmp[1]]')
            L.append(' %s = tv[0] if tv[1] == %d and tv[2] == %r else E.load(tmp, %d, %r)' % (dst, sz, k, sz, k))
            L.append('except Exception: %s = E.load(tmp, %d, %r)' % (dst, sz, k))
            return
        if op == 'store':
            p.eat('volatile')
            ty = p.type()
            v = self.const(p, ty)
            p.expect(',')
            p.type()
            a = self.const(p, ('ptr',))
            L.append('E.store(%s, %s, %d, %r)' % (a, v, m.size(ty), self.kind(ty)))
            return
        if op == 'getelementptr':
            p.eat('inbounds')
            p.eat('nuw')
            t = p.type()
            p.expect(',')
            p.type()
            base = self.const(p, ('ptr',))
            coff = 0
            dyn = []
            first = True
            while p.eat(','):
                it = p.type()
                v = self.const(p, it)
                const = re.fullmatch(r'\(?-?\d+\)?', v) is not None
                if first:
                    sc = m.size(t)
                    first = False
                else:
                    while t[0] == 'named':
                        t = m.types[t[1]]
                    if t[0] == 'st':
                        i = int(v)
                        coff += m.layout(t)[2][i]
                        t = t[1][i]
                        continue
                    sc = m.size(t[2])
                    t = t[2]
                if const:
                    coff += int(v.strip('()')) * sc
                else:
                    dyn.append((v, sc))
            L.append('tmp = %s' % base)
            if not dyn:
                L.append('%s = (tmp[0], tmp[1]+%d) if tmp[1].__class__ is int else E.gep(tmp, %d, ())' % (dst, coff, coff))
            else:
                cond = ' and '.join(['tmp[1].__class__ is int'] + ['%s.__class__ is int' % v for v, _ in dyn])
                expr = ' + '.join(['tmp[1]'] + (['%d' % coff] if coff else []) + ['%s*%d' % (v, s) for v, s in dyn])
                L.append('%s = (tmp[0], %s) if %s else E.gep(tmp, %d, (%s,))' % (
                    dst, expr, cond, coff, ', '.join('(%s,%d)' % d for d in dyn)))
            return
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr'):
            nsw = False
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                if p.next() == 'nsw':
                    nsw = True
            ty = p.type()
            a = self.const(p, ty)
            p.expect(',')
            b = self.const(p, ty)
            w = ty[1]
            if w == 1:
                L.append('%s = E.bool_%s(%s, %s)' % (dst, op, a, b))
                return
            if op in ('add', 'sub', 'mul'):
                s = {'add': '+', 'sub': '-', 'mul': '*'}[op]
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                L.append('if %s and %s:' % (isint(a), isint(b)))
                L.append(' %s = %s %s %s' % (dst, a, s, b))
                L.append(' if not %d <= %s <= %d: %s = E.wrap(%s, %d, %r)' % (lo, dst, hi, dst, dst, w, nsw))
                L.append('else: %s = E.iarith(%r, %s, %s, %d, %r)' % (dst, op, a, b, w, nsw))
            else:
                L.append('%s = E.iarith(%r, %s, %s, %d, %r)' % (dst, op, a, b, w, nsw))
            return
        if op == 'icmp':
            p.eat('samesign')
            pred = p.next()
            ty = p.type()
            a = self.const(p, ty)
            p.expect(',')
            b = self.const(p, ty)
            if ty[0] == 'ptr':
                L.append('%s = E.pcmp(%r, %s, %s)' % (dst, pred, a, b))
                return
            s = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}.get(pred)
            if s and ty[1] > 1:
                L.append('%s = %s %s %s if %s and %s else E.icmp(%r, %s, %s, %d)' % (
                    dst, a, s, b, isint(a), isint(b), pred, a, b, ty[1]))
            else:
                L.append('%s = E.icmp(%r, %s, %s, %d)' % (dst, pred, a, b, ty[1]))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in FM:
                p.next()
            ty = p.type()
            a = self.const(p, ty)
            p.expect(',')
            b = self.const(p, ty)
            L.append('%s = E.%s(%s, %s)' % (dst, op, a, b) if ty == ('f64',) else
                     '%s = E.f32round(E.%s(%s, %s))' % (dst, op, a, b))
            return
        if op == 'fneg':
            while p.peek() in FM:
                p.next()
            ty = p.type()
            L.append('%s = E.fneg(%s)' % (dst, self.const(p, ty)))
            return
        if op == 'fcmp':
            while p.peek() in FM:
                p.next()
            pred = p.next()
            ty = p.type()
            a = self.const(p, ty)
            p.expect(',')
            b = self.const(p, ty)
            L.append('%s = E.fcmp(%r, %s, %s)' % (dst, pred, a, b))
            return
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext', 'ptrtoint',
                  'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t1 = p.type()
            v = self.const(p, t1)
            p.expect('to')
            t2 = p.type()
            if op == 'sext' and t1[1] > 1:
                L.append('%s = %s if %s else E.sext(%s, %d)' % (dst, v, isint(v), v, t1[1]))
            elif op in ('sext', 'zext', 'trunc'):
                L.append('%s = E.%s(%s, %d, %d)' % (dst, op, v, t1[1], t2[1]))
            elif op in ('fptosi', 'fptoui'):
                L.append('%s = E.%s(%s, %d)' % (dst, op, v, t2[1]))
            elif op in ('sitofp', 'uitofp'):
                L.append('%s = E.%s(%s, %d)' % (dst, op, v, t1[1]))
            elif op == 'fptrunc':
                L.append('%s = E.f32round(%s)' % (dst, v))
            else:
                L.append('%s = %s' % (dst, v))
            return
        if op == 'select':
            while p.peek() in FM:
                p.next()
            p.type()
            c = self.const(p, ('i', 1))
            p.expect(',')
            t1 = p.type()
            a = self.const(p, t1)
            p.expect(',')
            p.type()
            b = self.const(p, t1)
            L.append('%s = (%s if %s else %s) if %s.__class__ is bool else E.select(%s, %s, %s, %r)' % (
                dst, a, c, b, c, c, a, b, t1[0] if t1 != ('i', 1) else 'i1'))
            return
        if op == 'freeze':
            ty = p.type()
            L.append('%s = %s' % (dst, self.const(p, ty)))
            return
        if op == 'call':
            while p.peek() in FM or p.peek() in ('fastcc', 'ccc'):
                p.next()
            skip_attrs(p)
            rt = p.type()
            if p.eat('('):  # function type
                d = 1
                while d:
                    y = p.next()
                    d += (y == '(') - (y == ')')
            callee = p.next()
            p.expect('(')
            args = []
            tys = []
            if not p.eat(')'):
                while True:
                    at = p.type()
                    if at == ('meta',):
                        # debug intrinsics: ignore the whole call
                        return
                    skip_attrs(p)
                    args.append(self.const(p, at))
                    tys.append(at)
                    if p.eat(')'):
                        break
                    p.expect(',')
            if callee[0] == '%':
                L.append('%sE.callptr(%s, (%s))' % ((dst + ' = ') if dst else '', self.reg(callee),
                                                   ''.join(a + ', ' for a in args)))
                return
            name = callee[1:].strip('"')
            if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or \
               name.startswith('llvm.experimental'):
                return
            self.calls.add(name)
            if name in self.m.funcs:
                f = self.m.funcs[name]
                np = len(f['params'])
                L.append('%sF[%r](E%s)' % ((dst + ' = ') if dst else '', name, ''.join(', ' + a for a in args[:np])))
            else:
                kinds = tuple(self.kind(t) for t in tys)
                L.append('%sX[%r](E, (%s), %r)' % ((dst + ' = ') if dst else '', name,
                                                  ''.join(a + ', ' for a in args), kinds))
            return
        raise SyntaxError('instruction %s: %s' % (op, ' '.join(toks)))

    def kind(self, ty):
        k = ty[0]
        if k == 'i':
            return 'i%d' % ty[1]
        if k == 'f64':
            return 'd'
        if k == 'f32':
            return 'f'
        if k == 'ptr':
            return 'p'
        return 'agg'


FM = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        s = lines[i]
        if s.startswith('%') and ' = type ' in s:
            p = P(tokenize(s))
            name = p.next()
            p.next()
            p.next()
            if p.peek() == 'opaque':
                m.types[name] = ('st', ())
            else:
                m.types[name] = p.type()
        elif s.startswith('@'):
            p = P(tokenize(s))
            name = p.next()
            p.expect('=')
            ext = False
            while p.peek() in ('private', 'unnamed_addr', 'local_unnamed_addr', 'constant', 'global', 'external', 'internal',
                               'dso_local', 'common', 'hidden', 'linkonce_odr', 'weak'):
                if p.next() == 'external':
                    ext = True
            ty = p.type()
            m.globals[name] = (ty, None if ext else p)
        elif s.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', s)
            m.declared.add(mm.group(1))
        elif s.startswith('define'):
            hdr = s
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', hdr)
            name = mm.group(1).strip('"')
            # parse params
            depth = 0
            j = mm.end() - 1
            k = j
            while True:
                if hdr[k] == '(':
                    depth += 1
                elif hdr[k] == ')':
                    depth -= 1
                    if depth == 0:
                        break
                k += 1
            p = P(tokenize(hdr[j:k + 1]))
            p.expect('(')
            params = []
            va = False
            cnt = 0
            if not p.eat(')'):
                while True:
                    if p.eat('...'):
                        va = True
                    else:
                        ty = p.type()
                        bv = skip_attrs(p)
                        if p.peek() and p.peek()[0] == '%':
                            pn = p.next()
                        else:
                            pn = '%' + str(cnt)
                        cnt += 1
                        params.append((ty, pn, bv))
                    if p.eat(')'):
                        break
                    p.expect(',')
            i += 1
            blocks = []
            cur = None
            while lines[i] != '}':
                l = lines[i]
                if l and not l.startswith(' '):
                    lab = l.split(':')[0]
                    if lab.startswith(';'):
                        i += 1
                        continue
                    cur = ('%' + lab, [])
                    blocks.append(cur)
                elif l.strip():
                    if cur is None:
                        cur = ('%' + str(cnt), [])
                        blocks.append(cur)
                    if l.strip().startswith('switch') :
                        while ']' not in lines[i]:
                            i += 1
                            l += ' ' + lines[i]
                    toks = tokenize(l)
                    # cut metadata tail
                    for q in range(len(toks)):
                        if toks[q].startswith('!'):
                            toks = toks[:q]
                            while toks and toks[-1] == ',':
                                toks.pop()
                            break
                    cur[1].append(toks)
                i += 1
            m.funcs[name] = {'name': name, 'params': params, 'blocks': blocks, 'va': va,
                             'pyname': 'F_' + re.sub(r'\W', '_', name)}
        i += 1
    return m


def compile_module(m):
    """returns (source text, kvals, {func: set(callees)})"""
    c = Compiler(m)
    c.kvals = []
    src = []
    callees = {}
    for name, fn in m.funcs.items():
        c.calls = set()
        src.append(c.compile_func(fn))
        callees[name] = c.calls
    return '\n'.join(src), c.kvals, callees
