"""libc and harness primitives for the symbolic executor."""
import math
import re
from fractions import Fraction

import z3
from irsym import (var, svar, memo, UNDEF, NULL, NULLOBJ, SInt, Tok, FileH, Unsupported, PathEnd, Z, ONE, AR, rv, iv)

WS = ' \t\n\r\v\f'


# ---------------------------------------------------------------- harness primitives
def vp_int(E, a, k):
    name, lo, hi = a
    n = E.cstr(name)
    if lo.__class__ is not int:
        lo = E.concrete_int(lo)
    if hi.__class__ is not int:
        hi = E.concrete_int(hi)
    if lo == hi:
        E.inputs.append(('vp_int', n, str(lo)))
        return lo
    if lo > hi:
        raise PathEnd()
    s = svar('%s#%d' % (n, len(E.inputs)), lo, hi)
    if E.live():
        E.add(z3.And(s.e >= lo, s.e <= hi))
    E.inputs.append(('vp_int', n, s))
    return s


def vp_u8(E, a, k):
    n = E.cstr(a[0])
    s = svar('%s#%d' % (n, len(E.inputs)), 0, 255)
    if E.live():
        E.add(z3.And(s.e >= 0, s.e <= 255))
    E.inputs.append(('vp_u8', n, s))
    return s


def vp_double(E, a, k):
    n = E.cstr(a[0])
    lo, hi = a[1], a[2]
    if E.conc(lo) and E.conc(hi) and lo == hi:
        E.inputs.append(('vp_double', n, repr(float(lo))))
        return lo
    v = var('r', '%s#%d' % (n, len(E.inputs)))
    if E.live():
        E.add(z3.And(v >= E.R(lo), v <= E.R(hi)))
    if E.conc(lo) and E.conc(hi):
        E.ranges[n] = (Fraction(lo), Fraction(hi))
    E.inputs.append(('vp_double', n, v))
    return v


def vp_fpint(E, a, k):
    n = E.cstr(a[0])
    lo, hi = a[1], a[2]
    if lo == hi:
        E.inputs.append(('vp_fpint', n, str(lo)))
        return E.sitofp(lo, 32)
    s = svar('%s#%d' % (n, len(E.inputs)), lo, hi)
    if E.live():
        E.add(z3.And(s.e >= lo, s.e <= hi))
    E.inputs.append(('vp_fpint', n, s))
    return memo('si2fp', s, 0, lambda: z3.ToReal(s.e), 32)


def tobool(E, c):
    if c is UNDEF or c.__class__ is bool:
        return c
    if c.__class__ is int:
        return c != 0
    if isinstance(c, SInt):
        return memo('tobool', c, 0, lambda: tobool2(c))
    return c


def tobool2(c):
    if True:
        e = c.e
        # If(cond,1,0) != 0  ->  cond
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            a, b = e.arg(1), e.arg(2)
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long() != 0, b.as_long() != 0
                if x and not y:
                    return e.arg(0)
                if y and not x:
                    return z3.Not(e.arg(0))
                return x
        return e != 0


def vp_assume(E, a, k):
    E.assume(tobool(E, a[0]))


def vp_assert(E, a, k):
    E.vassert(tobool(E, a[0]), E.cstr(a[1]))


def vp_reach(E, a, k):
    lab = E.cstr(a[0])
    if lab not in E.reached:
        r, m = (E.check(ms=E.timeout), None)
        if r == z3.sat:
            E.reached.add(lab)
            E.samples.append((lab, E.extract(E.solver.model())))
        elif r == z3.unsat:
            raise PathEnd()


def vp_close(E, a, k):
    x, y = a[0], a[1]
    if E.conc(x) and E.conc(y):
        tol = a[2]
        if E.special(x) or E.special(y):
            return int(x == y)
        if E.fpmode == 'float':
            return int(abs(x - y) <= tol)
        return int(abs(x - y) <= tol) if E.conc(tol) and not E.special(tol) else int(x == y)
    r = E.fcmp('oeq', x, y)
    if r is not UNDEF and r.__class__ is not bool:
        E.closes.append((r, E.R(x), E.R(y), a[2] if E.conc(a[2]) and not E.special(a[2]) else 0, 'eq'))
    return r if r is UNDEF else E.zext(r, 1, 32)


def vp_le(E, a, k):
    if E.conc(a[0]) and E.conc(a[1]) and E.fpmode == 'float':
        return int(a[0] <= a[1] + a[2])
    r = E.fcmp('ole', a[0], a[1])
    if r is not UNDEF and r.__class__ is not bool:
        E.closes.append((r, E.R(a[0]), E.R(a[1]), a[2] if E.conc(a[2]) and not E.special(a[2]) else 0, 'le'))
    return r if r is UNDEF else E.zext(r, 1, 32)


def vp_is_symbolic(E, a, k):
    return 1


def vp_initialised(E, a, k):
    p, n = a
    n = E.concrete_int(n)
    o, off = E.chk(p, max(n, 1), 'read')
    i = 0
    while i < n:
        c = o.cells.get(off + i)
        if c is not None:
            if c[0] is UNDEF:
                return 0
            i += c[1]
            continue
        if E.byte_at(o, off + i) is UNDEF:
            return 0
        i += 1
    return 1


def vp_readonly(E, a, k):
    """mark the object behind a pointer as not to be written"""
    a[0][0].ro = bool(a[1])


def vp_scratch_path(E, a, k):
    E.put_cstr(a[0], '/scratch/' + E.cstr(a[1]))


def vp_pick(E, a, k):
    return E.enum(a[0]) if a[0].__class__ is not int else a[0]


def vp_open_files(E, a, k):
    return sum(1 for f in E.fhs.values() if f.open)


def fs_name(E, path):
    if path not in E.fs and E.nametoks:
        return name_resolve(E, path)
    return path


def vp_live_bytes(E, a, k):
    return E.live_bytes


def vp_unlink(E, a, k):
    E.fs.pop(fs_name(E, E.cstr(a[0])), None)
    return 0


def vp_numbers(E, a, k):
    """how many whitespace separated words a file holds"""
    its = E.fs.get(fs_name(E, E.cstr(a[0])))
    if its is None:
        return -1
    n = 0
    inw = False
    separate_all(E, its)
    for it in its:
        w = not (it.__class__ is str and it in WS)
        if w and not inw:
            n += 1
        inw = w
    return n


def vp_words_keep(E, a, k):
    """truncate a file after its first n words"""
    path = fs_name(E, E.cstr(a[0]))
    n = E.concrete_int(a[1])
    its = E.fs.get(path)
    if its is None:
        return -1
    out = []
    cnt = 0
    inw = False
    separate_all(E, its)
    for it in its:
        w = not (it.__class__ is str and it in WS)
        if w and not inw:
            cnt += 1
            if cnt > n:
                break
        inw = w
        out.append(it)
    E.fs[path][:] = out
    return 0


def vp_word_replace(E, a, k):
    """replace word k of a file"""
    path = fs_name(E, E.cstr(a[0]))
    n = E.concrete_int(a[1])
    t = E.cstr(a[2])
    its = E.fs.get(path)
    if its is None:
        return -1
    out = []
    cnt = -1
    inw = False
    done = False
    separate_all(E, its)
    for it in its:
        w = not (it.__class__ is str and it in WS)
        if w and not inw:
            cnt += 1
        inw = w
        if w and cnt == n:
            if not done:
                out.extend(t)
                done = True
            continue
        out.append(it)
    E.fs[path][:] = out
    return 0 if done else -1


# ---------------------------------------------------------------- memory and strings
def c_malloc(E, a, k):
    return E.malloc(a[0])


def c_calloc(E, a, k):
    return E.malloc(E.concrete_int(a[0]) * E.concrete_int(a[1]), True)


def c_free(E, a, k):
    E.free(a[0])


def c_realloc(E, a, k):
    p = a[0]
    n = E.concrete_int(a[1])
    q = E.malloc(n)
    if p.__class__ is int or p[0] is NULLOBJ:
        return q
    if not p[0].alive:
        E.violate('mem', 'realloc of freed memory')
    E.memcpy(q, p, min(n, p[0].size))
    E.free(p)
    return q


def c_memcpy(E, a, k):
    E.memcpy(a[0], a[1], a[2])
    return a[0]


def c_memset(E, a, k):
    E.memset(a[0], a[1], a[2])
    return a[0]


def c_memcmp(E, a, k):
    n = E.concrete_int(a[2])
    if n == 0:
        return 0
    so, s = E.chk(a[0], n, 'read')
    to, t = E.chk(a[1], n, 'read')
    i = 0
    while i < n:
        c = so.cells.get(s + i)
        d = to.cells.get(t + i)
        if c is not None and d is not None and c[1] == d[1] and i + c[1] <= n and c[1] > 1:
            x, y = c[0], d[0]
            if x is UNDEF or y is UNDEF:
                E.violate('uninit', 'memcmp of uninitialised bytes')
            if x.__class__ is tuple or y.__class__ is tuple:
                r = E.pcmp('eq', x, y)
            elif E.conc(x) or isinstance(x, AR) or E.conc(y) or isinstance(y, AR):
                r = E.fcmp('oeq', E.conv(x, c[2], 'd'), E.conv(y, d[2], 'd'))
            else:
                r = E.icmp('eq', x, y, 8 * c[1])
            if not E.branch(r):
                return 1
            i += c[1]
            continue
        x = E.byte_at(so, s + i)
        y = E.byte_at(to, t + i)
        if x is UNDEF or y is UNDEF:
            E.violate('uninit', 'memcmp of uninitialised bytes')
        r = E.icmp('eq', x, y, 8)
        if not E.branch(r):
            if x.__class__ is int and y.__class__ is int:
                return 1 if (x & 255) > (y & 255) else -1
            return 1
        i += 1
    return 0


def c_strlen(E, a, k):
    return len(E.cstr(a[0]))


def c_strcpy(E, a, k):
    E.put_cstr(a[0], E.cstr(a[1]))
    return a[0]


def c_strncpy(E, a, k):
    n = E.concrete_int(a[2])
    s, ended = cstrn(E, a[1], n)
    if ended:
        E.put_cstr(a[0], s + '\0' * (n - len(s)), nul=False)
    else:
        E.put_cstr(a[0], s, nul=False)
    return a[0]


def cstrn(E, p, n):
    o, off = p
    out = ''
    for i in range(n):
        v = E.load((o, off + i), 1, 'i8')
        if v is UNDEF:
            E.violate('uninit', 'string with uninitialised characters')
        if v.__class__ is not int:
            v = E.enum(v)
        if v == 0:
            return out, True
        out += chr(v & 255)
    return out, False


def c_strncat(E, a, k):
    s = E.cstr(a[0])
    t, _ = cstrn(E, a[1], E.concrete_int(a[2]))
    E.put_cstr((a[0][0], a[0][1] + len(s)), t)
    return a[0]


def c_strcat(E, a, k):
    s = E.cstr(a[0])
    E.put_cstr((a[0][0], a[0][1] + len(s)), E.cstr(a[1]))
    return a[0]


def c_strcmp(E, a, k):
    s, t = E.cstr(a[0]), E.cstr(a[1])
    return (s > t) - (s < t)


def c_strncmp(E, a, k):
    n = E.concrete_int(a[2])
    s, t = cstrn(E, a[0], n)[0], cstrn(E, a[1], n)[0]
    return (s > t) - (s < t)


def c_strchr(E, a, k):
    s = E.cstr(a[0])
    ch = E.concrete_int(a[1])
    i = s.find(chr(ch & 255)) if ch else len(s)
    return NULL if i < 0 else (a[0][0], a[0][1] + i)


def c_strstr(E, a, k):
    i = E.cstr(a[0]).find(E.cstr(a[1]))
    return NULL if i < 0 else (a[0][0], a[0][1] + i)


def c_strrchr(E, a, k):
    s = E.cstr(a[0])
    i = s.rfind(chr(E.concrete_int(a[1]) & 255))
    return NULL if i < 0 else (a[0][0], a[0][1] + i)


def c_strdup(E, a, k):
    s = E.cstr(a[0])
    p = E.malloc(len(s) + 1)
    E.put_cstr(p, s)
    return p


def c_atoi(E, a, k):
    m = re.match(r'\s*([+-]?\d+)', E.cstr(a[0]))
    return int(m.group(1)) if m else 0


def c_abs(E, a, k):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    if x.__class__ is int:
        return abs(x)
    M = max(abs(x.lo), abs(x.hi))
    return SInt(z3.If(x.e < 0, -x.e, x.e), 0, M)


def c_exit(E, a, k):
    E.violate('exit', 'the library ended the process')


# ---------------------------------------------------------------- math
def m_fabs(E, a, k):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    if E.conc(x):
        return abs(x)
    if E.nra or E.opts.get('fork_select'):
        return x if E.branch(x >= 0) else -x
    return z3.If(x >= 0, x, -x)


def m_sqrt(E, a, k):
    return E.sqrt(a[0])


def m_sin(E, a, k):
    return E.sincos(a[0])[0]


def m_cos(E, a, k):
    return E.sincos(a[0])[1]


def m_tan(E, a, k):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    if E.conc(x) and (E.fpmode == 'float' or E.special(x)):
        return math.tan(x) if not E.special(x) else float('nan')
    s, c = E.sincos(x)
    return E.fdiv(s, c)


def angle(E, name, lo, hi):
    v = E.fresh(name)
    E.add(z3.And(v >= rv(Fraction(lo).limit_denominator(10 ** 12) - (Fraction(1, 10 ** 9) if lo else 0)),
                 v <= rv(Fraction(hi).limit_denominator(10 ** 12) + Fraction(1, 10 ** 9))))
    return v


def cached(E, tag, x, mk):
    k = (tag,) + E.key(x)
    if k not in E.divs:
        v = E.divs[k] = mk()
        lst = E.monos.setdefault(tag, [])
        X = E.R(x)
        for (x2, v2) in lst:       # the function is strictly monotone
            E.add(z3.And((X == x2) == (v == v2), (X < x2) == ((v > v2) if tag == 'acos' else (v < v2))))
        lst.append((X, v))
    return E.divs[k]


def exact_sqrt(x):
    """the root of a rational square, else None"""
    x = Fraction(x)
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fraction(n, d) if n * n == x.numerator and d * d == x.denominator else None


def m_asin(E, a, k):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    x = E.forced_const(x)
    if E.conc(x):
        if E.special(x) or abs(x) > 1:
            return float('nan')
        if x == 0:
            return x
        if E.fpmode == 'float':
            return math.asin(x)
    elif E.branch(z3.Or(x > 1, x < -1)):
        return float('nan')

    def mk():
        v = angle(E, 'asin', -math.pi / 2, math.pi / 2)
        c = exact_sqrt(1 - x * x) if E.conc(x) else None
        if c is not None:
            E.add(v > 0 if x > 0 else v < 0)
            E.set_sincos(v, x, c)
            return v
        c = E.fresh('cosasin')
        X = E.R(x)
        E.add(z3.And(c >= 0, c * c == 1 - X * X))
        E.add(z3.And((v > 0) == (X > 0), (v < 0) == (X < 0)))
        E.set_sincos(v, x, c)
        return v
    return cached(E, 'asin', x, mk)


def m_acos(E, a, k):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    if E.conc(x):
        if E.special(x) or abs(x) > 1:
            return float('nan')
        if x == 1:
            return Z if E.fpmode == 'exact' else 0.0
        if E.fpmode == 'float':
            return math.acos(x)
    elif E.branch(z3.Or(x > 1, x < -1)):
        return float('nan')

    def mk():
        v = angle(E, 'acos', 0, math.pi)
        s = E.fresh('sinacos')
        X = E.R(x)
        E.add(z3.And(s >= 0, s * s == 1 - X * X))
        E.add((v == 0) == (X == 1))
        E.add(z3.Implies(X == -1, v >= rv(Fraction(math.pi) - Fraction(1, 10 ** 9))))
        E.set_sincos(v, s, x)
        return v
    return cached(E, 'acos', x, mk)


def m_atan(E, a, k):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    x = E.forced_const(x)
    if E.conc(x):
        if E.special(x):
            return math.atan(x)
        if x == 0:
            return x
        if E.fpmode == 'float':
            return math.atan(x)

    def mk():
        v = angle(E, 'atan', -math.pi / 2, math.pi / 2)
        h = exact_sqrt(1 + x * x) if E.conc(x) else None
        if h is not None:
            E.add(v > 0 if x > 0 else v < 0)
            E.set_sincos(v, x / h, 1 / h)
            return v
        c = E.fresh('cosatan')
        X = E.R(x)
        s = c * X
        E.add(z3.And(c > 0, c <= 1, c * c * (1 + X * X) == 1))
        E.add(z3.And((v > 0) == (X > 0), (v < 0) == (X < 0)))
        E.set_sincos(v, s, c)
        return v
    return cached(E, 'atan', x, mk)


def m_atan2(E, a, k):
    y, x = a
    if y is UNDEF or x is UNDEF:
        return UNDEF
    if E.conc(y) and E.conc(x):
        if E.fpmode == 'float':
            return math.atan2(y, x)
        if y == 0 and x >= 0:
            return Z
    r = E.sqrt(E.fadd(E.fmul(x, x), E.fmul(y, y)))
    if E.branch(E.fcmp('oeq', r, Z)):
        return Z
    v = angle(E, 'atan2', -math.pi, math.pi)
    Y = E.R(y)
    E.add(z3.And(z3.Implies(v > 0, Y >= 0), z3.Implies(v < 0, Y <= 0)))
    E.set_sincos(v, E.fdiv(y, r), E.fdiv(x, r))
    return v


def m_pow(E, a, k):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if E.conc(y) and not E.special(y) and float(y).is_integer() and abs(y) <= 12:
        n = int(y)
        if E.conc(x) and E.fpmode == 'float':
            return math.pow(x, n)
        r = ONE if E.fpmode == 'exact' else 1.0
        for _ in range(abs(n)):
            r = E.fmul(r, x)
        return r if n >= 0 else E.fdiv(ONE, r)
    if E.conc(y) and y == 0.5:
        return E.sqrt(x)
    if E.conc(x) and E.conc(y):
        return mk_f(E, math.pow(x, y))
    raise Unsupported('pow')


def mk_f(E, f):
    return Fraction(f) if E.fpmode == 'exact' and not (math.isinf(f) or math.isnan(f)) else f


def m_fmod(E, a, k):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if E.conc(x) and E.conc(y):
        return mk_f(E, math.fmod(x, y)) if E.fpmode == 'float' else (x - y * int(x / y))
    # result r: x = k*y + r, |r| < |y|, sign of x
    if not E.conc(y):
        raise Unsupported('fmod by a symbolic value')
    kk = E.fresh_int('fmodk')
    r = E.fresh('fmod')
    X, Y = E.R(x), abs(Fraction(y))
    E.add(X == z3.ToReal(kk) * rv(Y) + r)
    E.add(z3.If(X >= 0, z3.And(r >= 0, r < rv(Y)), z3.And(r <= 0, r > rv(-Y))))
    return r


def m_floor(E, a, k):
    x = a[0]
    if E.conc(x):
        return mk_f(E, float(math.floor(x)))
    return z3.ToReal(z3.ToInt(x))


def m_ceil(E, a, k):
    x = a[0]
    if E.conc(x):
        return mk_f(E, float(math.ceil(x)))
    return -z3.ToReal(z3.ToInt(-x))


def m_round(E, a, k):
    x = a[0]
    if E.conc(x):
        f = math.floor(abs(x) + Fraction(1, 2))
        return mk_f(E, float(f if x >= 0 else -f))
    h = rv(Fraction(1, 2))
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))


def m_fmax(E, a, k):
    c = E.fcmp('oge', a[0], a[1])
    return a[0] if E.branch(c) else a[1]


def m_fmin(E, a, k):
    c = E.fcmp('ole', a[0], a[1])
    return a[0] if E.branch(c) else a[1]


def m_hypot(E, a, k):
    return E.sqrt(E.fadd(E.fmul(a[0], a[0]), E.fmul(a[1], a[1])))


def m_fma(E, a, k):
    return E.fadd(E.fmul(a[0], a[1]), a[2])


def i_smin(E, a, k):
    c = E.icmp('sle', a[0], a[1], 32)
    return E.select(c, a[0], a[1], 'i') if c.__class__ is not bool else (a[0] if c else a[1])


def i_smax(E, a, k):
    c = E.icmp('sge', a[0], a[1], 32)
    return E.select(c, a[0], a[1], 'i') if c.__class__ is not bool else (a[0] if c else a[1])


def m_isnan(E, a, k):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    return int(x.__class__ is float and math.isnan(x))


def m_isfinite(E, a, k):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    return int(not E.special(x))


# ---------------------------------------------------------------- printing
FMT = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|L|z|j|t)?([diouxXeEfFgGcspn%])')


def format_items(E, fmt, args, kinds):
    """list of characters and Toks"""
    items = []
    pos = 0
    ai = 0
    for m in FMT.finditer(fmt):
        items.extend(fmt[pos:m.start()])
        pos = m.end()
        flags, width, prec, _, conv = m.groups()
        if conv == '%':
            items.append('%')
            continue
        if width == '*':
            width = E.concrete_int(args[ai])
            ai += 1
        if prec == '*':
            prec = E.concrete_int(args[ai])
            ai += 1
        if ai >= len(args):
            E.violate('printf', 'format with too few arguments')
        v = args[ai]
        kd = kinds[ai] if ai < len(kinds) else '?'
        ai += 1
        w = int(width) if width is not None else 0
        if v is UNDEF:
            E.violate('uninit', 'an uninitialised value is printed')
        if conv in 'sc':
            if conv == 's':
                if kd != 'p':
                    E.violate('printf', '%s of a non-pointer')
                t = E.cstr(v)
                if prec is not None:
                    t = t[:int(prec)]
            else:
                t = chr(E.concrete_int(v) & 255)
            items.extend(('%' + flags.replace('#', '') + (str(w) if w else '') + 's') % t)
            continue
        if conv in 'diouxX':
            if kd in ('d', 'f'):
                E.violate('printf', 'integer conversion of a floating point value')
            if v.__class__ is int:
                if conv in 'uoxX' and v < 0:
                    v += 1 << 32
                items.extend(('%' + flags + (str(w) if w else '') + ('.' + prec if prec else '') +
                              (conv if conv != 'u' else 'd')) % v)
            else:
                items.append(Tok('i', v, w, None, conv, flags))
            continue
        if conv in 'eEfFgG':
            if kd not in ('d', 'f'):
                E.violate('printf', 'floating conversion of an integer')
            p = 6 if prec is None else int(prec)
            if E.conc(v):
                items.extend(fmt_float(v, flags, w, p, conv))
            else:
                items.append(Tok('r', v, w, p, conv, flags))
            continue
        raise Unsupported('conversion %' + conv)
    items.extend(fmt[pos:])
    return items


def fmt_float(v, flags, w, p, conv):
    if v.__class__ is Fraction:
        f = float(v)
    else:
        f = v
    return ('%' + flags + (str(w) if w else '') + '.%d' % p + conv) % f


def c_fprintf(E, a, k):
    h = a[0]
    f = fh(E, h)
    items = format_items(E, E.cstr(a[1]), a[2:], k[2:])
    if f is None:
        return 1
    write_items(E, f, items)
    return len(items)


def write_items(E, f, items):
    if not f.open:
        E.violate('mem', 'write to a closed file')
    if f.mode[0] == 'r' and '+' not in f.mode:
        return
    f.items.extend(items)


def c_printf(E, a, k):
    return 1


def c_puts(E, a, k):
    return 1


def c_sprintf(E, a, k):
    items = format_items(E, E.cstr(a[1]), a[2:], k[2:])
    s = ''.join(x if x.__class__ is str else name_tok(E, x) for x in items)
    E.put_cstr(a[0], s)
    return len(s)


# a symbolic integer printed into a string: one marker character per distinct (value, format), then fillers up to the
# longest text it can print as
MARKS = '\x01\x02\x03\x04\x05\x06\x07\x0e\x0f\x10\x11\x12\x13\x14'
FILL = '\x1f'
MARKED = re.compile('[' + MARKS + ']' + FILL + '*')


def name_tok(E, t):
    if t.kind != 'i' or t.val.hi - t.val.lo <= E.enum_limit:
        return conc_tok(E, t)
    for i, o in enumerate(E.nametoks):
        if o.flags == t.flags and o.width == t.width and o.val.e.eq(t.val.e):
            break
    else:
        i = len(E.nametoks)
        if i >= len(MARKS):
            return conc_tok(E, t)
        E.nametoks.append(t)
    n = max(len(('%' + t.flags + (str(t.width) if t.width else '') + 'd') % v) for v in (t.val.lo, t.val.hi))
    return MARKS[i] + FILL * (n - 1)


def name_resolve(E, path):
    """makes the numbers in file names concrete (one value per sign and number of digits: the formats used print
    all values of such a class alike), in `path` and in the names of the existing files"""
    def conc(m):
        t = E.nametoks[MARKS.index(m.group(0)[0])]
        v = t.val.e
        cls = [v < -999, v < 0, v == 0] + [v < 10 ** i for i in range(1, 10)]
        for c in cls:
            if E.branch(c):
                break
        return ('%' + t.flags + (str(t.width) if t.width else '') + 'd') % E.pick(t.val)
    new = {}
    for q in sorted(E.fs):
        new[MARKED.sub(conc, q)] = E.fs[q]
    E.fs.clear()
    E.fs.update(new)
    return MARKED.sub(conc, path)


def c_snprintf(E, a, k):
    n = E.concrete_int(a[1])
    items = format_items(E, E.cstr(a[2]), a[3:], k[3:])
    s = ''.join(x if x.__class__ is str else conc_tok(E, x) for x in items)
    if n:
        E.put_cstr(a[0], s[:n - 1])
    return len(s)


def conc_tok(E, t):
    if t.kind == 'i':
        if t.val.hi - t.val.lo <= E.enum_limit:
            v = E.enum(t.val)
        else:
            v = E.pick(t.val)
        return ('%' + t.flags + (str(t.width) if t.width else '') + 'd') % v
    v = E.pick(t.val)
    return fmt_float(v, t.flags, t.width, t.prec, t.conv)


# ---------------------------------------------------------------- files
def fh(E, h):
    if h is UNDEF:
        E.violate('uninit', 'uninitialised FILE pointer')
    if h.__class__ is int or h[0] is NULLOBJ:
        E.violate('mem', 'stdio call on a NULL FILE')
    f = E.fhs.get(h[0].id)
    return f


def c_fopen(E, a, k):
    if a[0].__class__ is int or a[0] is UNDEF or a[0][0] is NULLOBJ:
        if a[0] is UNDEF:
            E.violate('uninit', 'fopen of an uninitialised name')
        E.violate('mem', 'fopen(NULL)')
    path = E.cstr(a[0])
    mode = E.cstr(a[1])
    if mode[0] == 'r':
        if path not in E.fs and E.nametoks:
            path = name_resolve(E, path)
        if path not in E.fs:
            return NULL
    else:
        if not path.startswith('/scratch/') or '/nodir/' in path:
            if path.startswith('/'):
                return NULL
        if mode[0] == 'w' or path not in E.fs:
            E.fs[path] = []
    o = E.new(0, 'file', path)
    f = FileH()
    f.path = path
    f.items = E.fs[path]
    f.pos = 0
    f.mode = mode
    f.open = True
    f.eof = False
    E.fhs[o.id] = f
    return (o, 0)


def c_fclose(E, a, k):
    f = fh(E, a[0])
    if f is None:
        return 0
    if not f.open:
        E.violate('mem', 'file closed twice')
    f.open = False
    return 0


def c_feof(E, a, k):
    f = fh(E, a[0])
    return int(f.eof)


def c_rewind(E, a, k):
    f = fh(E, a[0])
    f.pos = 0
    f.eof = False
    return 0


def c_fgetc(E, a, k):
    f = rd(E, a[0])
    c = peekc(E, f)
    if c is None:
        f.eof = True
        return -1
    f.pos += 1
    return ord(c)


def c_ungetc(E, a, k):
    f = rd(E, a[1])
    f.pos -= 1
    return a[0]


def rd(E, h):
    f = fh(E, h)
    if f is None:
        raise Unsupported('reading from a standard stream')
    if not f.open:
        E.violate('mem', 'read from a closed file')
    return f


def peekc(E, f):
    """next character (expands a token into characters)"""
    if f.pos >= len(f.items):
        return None
    it = f.items[f.pos]
    if it.__class__ is not str:
        s = conc_tok(E, it)
        # concretised for this path: replace in place
        f.items[f.pos:f.pos + 1] = list(s)
        if not s:
            return peekc(E, f)
        it = f.items[f.pos]
    return it


def skip_ws(E, f):
    while f.pos < len(f.items):
        it = f.items[f.pos]
        if it.__class__ is str and it in WS:
            f.pos += 1
        else:
            return True
    return False


def c_fgets(E, a, k):
    n = E.concrete_int(a[1])
    f = rd(E, a[2])
    out = ''
    while len(out) < n - 1:
        c = peekc(E, f)
        if c is None:
            f.eof = True
            break
        out += c
        f.pos += 1
        if c == '\n':
            break
    if not out:
        return NULL
    E.put_cstr(a[0], out)
    return a[0]


SC = re.compile(r'\s+|%(\*)?(\d+)?(hh|h|ll|l|L)?([diouxXeEfgGcsn%]|\[\^?\]?[^\]]*\])|[^%\s]')


def c_fscanf(E, a, k):
    f = rd(E, a[0])
    return scan(E, f, E.cstr(a[1]), a[2:])


def c_sscanf(E, a, k):
    f = FileH()
    f.path = ''
    f.items = list(E.cstr(a[0]))
    f.pos = 0
    f.mode = 'r'
    f.open = True
    f.eof = False
    return scan(E, f, E.cstr(a[1]), a[2:])


NUM = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|[+-]?(inf(inity)?|nan)', re.I)


def scan(E, f, fmt, args):
    n = 0
    ai = 0
    for m in SC.finditer(fmt):
        d = m.group(0)
        if d[0] in WS:
            if not skip_ws(E, f):
                f.eof = True
            continue
        if d[0] != '%' or m.group(4) == '%':
            if m.group(4) == '%':
                skip_ws(E, f)
            c = peekc(E, f)
            if c is None:
                f.eof = True
                return n if n else -1
            if c != d[-1]:
                return n
            f.pos += 1
            continue
        star, width, ln, conv = m.groups()
        width = int(width) if width else 0
        if conv == 'n':
            E.store(args[ai], f.pos, 4, 'i32')
            ai += 1
            continue
        if conv == 'c':
            cnt = width or 1
            got = ''
            while len(got) < cnt:
                c = peekc(E, f)
                if c is None:
                    break
                got += c
                f.pos += 1
            if len(got) < cnt:
                f.eof = True
                return n if n else -1
            if not star:
                E.put_cstr(args[ai], got, nul=False)
                ai += 1
                n += 1
            continue
        if conv[0] == '[':
            neg = conv[1] == '^'
            st = set(expand(conv[2:-1] if neg else conv[1:-1]))
            got = ''
            while not width or len(got) < width:
                c = peekc(E, f)
                if c is None:
                    f.eof = True
                    break
                if (c in st) == neg:
                    break
                got += c
                f.pos += 1
            if not got:
                return n if (n or f.pos < len(f.items)) else -1
            if not star:
                E.put_cstr(args[ai], got)
                ai += 1
                n += 1
            continue
        if not skip_ws(E, f):
            f.eof = True
            return n if n else -1
        if conv == 's':
            got = ''
            while not width or len(got) < width:
                c = peekc(E, f)
                if c is None or c in WS:
                    if c is None:
                        f.eof = True
                    break
                got += c
                f.pos += 1
            if not star:
                E.put_cstr(args[ai], got)
                ai += 1
                n += 1
            continue
        isint = conv in 'diuoxX'
        it = f.items[f.pos]
        if it.__class__ is Tok:
            separate(E, f, f.pos + 1)
            it = f.items[f.pos]
        if it.__class__ is Tok:
            nxt = f.items[f.pos + 1] if f.pos + 1 < len(f.items) else '\n'
            clean = nxt.__class__ is str and nxt in WS
            ok = clean
            if ok and it.kind == 'r' and isint:
                ok = False
            if ok and width:
                ok = fits(E, it, width)
            if ok:
                v = tok_value(E, it)
                if isint:
                    put(E, args[ai] if not star else None, v, ln, True)
                else:
                    put(E, args[ai] if not star else None, z3.ToReal(v.e) if isinstance(v, SInt) else v, ln, False)
                f.pos += 1
                if f.pos >= len(f.items):
                    f.eof = True
                if not star:
                    ai += 1
                    n += 1
                continue
            peekc(E, f)
            skip_ws(E, f)      # the text of the number starts with its blanks
        # characters
        i = f.pos
        s = ''
        while i < len(f.items) and (not width or len(s) < width):
            separate(E, f, i)
            if f.items[i].__class__ is not str or f.items[i] in WS:
                break
            s += f.items[i]
            i += 1
        if i < len(f.items) and f.items[i].__class__ is not str and (not width or len(s) < width):
            # digits directly followed by a symbolic number
            p0 = f.pos
            f.pos = i
            peekc(E, f)
            f.pos = p0
            i = f.pos
            s = ''
            while i < len(f.items) and f.items[i].__class__ is str and f.items[i] not in WS and \
                    (not width or len(s) < width):
                s += f.items[i]
                i += 1
        mm = re.match(r'[+-]?\d+', s) if isint else NUM.match(s)
        if not mm:
            return n
        f.pos += mm.end()
        if f.pos >= len(f.items):
            f.eof = True
        if isint:
            v = int(mm.group(0))
            if not -(1 << 31) <= v < (1 << 31):
                v = (v + (1 << 31)) % (1 << 32) - (1 << 31)
        else:
            t = mm.group(0)
            x = float(t)
            v = Fraction(x) if E.fpmode == 'exact' and not (math.isinf(x) or math.isnan(x)) else x
            if E.fpmode == 'exact' and v.__class__ is Fraction:
                v = Fraction(t) if len(t) < 40 else v
        put(E, args[ai] if not star else None, v, ln, isint)
        if not star:
            ai += 1
            n += 1
    return n


def expand(s):
    out = ''
    i = 0
    while i < len(s):
        if i + 2 < len(s) and s[i + 1] == '-':
            out += ''.join(chr(c) for c in range(ord(s[i]), ord(s[i + 2]) + 1))
            i += 3
        else:
            out += s[i]
            i += 1
    return out


def put(E, p, v, ln, isint):
    if p is None:
        return
    if isint:
        sz = {'h': 2, 'hh': 1, 'l': 8, 'll': 8}.get(ln, 4)
        E.store(p, v, sz, 'i%d' % (8 * sz))
    else:
        if ln in ('l', 'L'):
            E.store(p, v, 8, 'd')
        else:
            E.store(p, E.f32round(v), 4, 'f')


class Items:
    pass


def separate_all(E, its):
    f = Items()
    f.items = its
    i = 1
    while i < len(its):
        separate(E, f, i)
        i += 1


def separate(E, f, i):
    """a symbolic number printed directly behind other text: split off the leading blank its field has when the number
    is narrower than the field, else make it concrete"""
    if i >= len(f.items) or f.items[i].__class__ is not Tok or i == 0:
        return
    before = f.items[i - 1]
    if before.__class__ is str and before in WS:
        return
    t = f.items[i]
    short = False
    if t.width > 1 and not (set(t.flags or '') & set('-0')):
        short = fits(E, t, t.width - 1)
    if short:
        f.items.insert(i, ' ')
    else:
        if t.width > 1:                 # the field is certainly full, by a number that starts with a digit
            d = t.width if t.kind == 'i' else t.width - 1 - t.prec
            v = t.val.e if t.kind == 'i' else t.val
            if d < 1 or not E.branch(v >= 10 ** (d - (t.kind == 'i'))):
                E.branch(v >= 0)
        f.items[i:i + 1] = list(conc_tok(E, t))
        if before.__class__ is Tok and f.items[i] not in WS and f.items[i] not in '+-':      # its digits run on
            f.items[i - 1:i] = list(conc_tok(E, before))


def fits(E, t, width):
    """does the printed number take at most `width` characters?"""
    if t.kind == 'i':
        lo, hi = -(10 ** (width - 1)) + 1, 10 ** width - 1
        c = z3.And(t.val.e >= lo, t.val.e <= hi)
        if t.val.lo >= lo and t.val.hi <= hi:
            return True
        return E.branch(c)
    d = width - 1 - t.prec
    if d < 1:
        return False
    c = z3.And(t.val > -(10 ** (d - 1)) + 1, t.val < 10 ** d - 1)
    return E.branch(c)


def tok_value(E, t):
    if t.kind == 'i':
        return t.val
    if t.conv in 'gGeE':
        if t.read is None:
            if t.conv in 'gG' and t.prec >= 15 or t.conv in 'eE' and t.prec >= 16:
                t.read = t.val
            else:
                r = E.fresh('read')
                v = t.val
                rel = Fraction(1, 2 * 10 ** (t.prec - (1 if t.conv in 'gG' else 0)))
                av = z3.If(v >= 0, v, -v)
                E.add(z3.And(r - v <= rv(rel) * av, v - r <= rv(rel) * av))
                t.read = r
        return t.read
    if t.read is None:
        r = E.fresh('read')
        h = rv(Fraction(1, 2 * 10 ** t.prec))
        E.add(z3.And(r - t.val <= h, t.val - r <= h))
        t.read = r
    return t.read


def c_ret0(E, a, k):
    return 0


def c_setlocale(E, a, k):
    return NULL


TABLE = {}
for _n, _f in list(globals().items()):
    if callable(_f) and _n[:3] in ('vp_',):
        TABLE[_n] = _f
TABLE.update({
    'malloc': c_malloc, 'calloc': c_calloc, 'free': c_free, 'realloc': c_realloc,
    'memcpy': c_memcpy, 'memmove': c_memcpy, 'memset': c_memset, 'memcmp': c_memcmp,
    'llvm.memcpy.p0.p0.i64': c_memcpy, 'llvm.memmove.p0.p0.i64': c_memcpy, 'llvm.memset.p0.i64': c_memset,
    'strlen': c_strlen, 'strcpy': c_strcpy, 'strncpy': c_strncpy, 'strcat': c_strcat, 'strncat': c_strncat,
    'strcmp': c_strcmp, 'strncmp': c_strncmp, 'strchr': c_strchr, 'strrchr': c_strrchr, 'strdup': c_strdup,
    'strstr': c_strstr, 'atoi': c_atoi, 'abs': c_abs, 'llvm.abs.i32': c_abs, 'exit': c_exit, 'abort': c_exit,
    'fabs': m_fabs, 'llvm.fabs.f64': m_fabs, 'fabsf': m_fabs, 'llvm.fabs.f32': m_fabs, 'sqrt': m_sqrt, 'sqrtf': m_sqrt,
    'llvm.sqrt.f64': m_sqrt, 'sin': m_sin,
    'cos': m_cos, 'tan': m_tan, 'asin': m_asin, 'acos': m_acos, 'atan': m_atan, 'atan2': m_atan2, 'pow': m_pow,
    'llvm.pow.f64': m_pow,
    'fmod': m_fmod, 'floor': m_floor, 'ceil': m_ceil, 'round': m_round, 'fmax': m_fmax, 'fmin': m_fmin,
    'llvm.floor.f64': m_floor, 'llvm.ceil.f64': m_ceil, 'llvm.round.f64': m_round, 'llvm.maxnum.f64': m_fmax,
    'llvm.minnum.f64': m_fmin, 'hypot': m_hypot, 'fma': m_fma, 'llvm.fma.f64': m_fma, 'llvm.fmuladd.f64': m_fma,
    'llvm.smin.i32': i_smin, 'llvm.smax.i32': i_smax, '__isnan': m_isnan, 'isnan': m_isnan, '__finite': m_isfinite,
    'finite': m_isfinite,
    'fprintf': c_fprintf, 'printf': c_printf, 'puts': c_puts, 'putchar': c_puts, 'sprintf': c_sprintf,
    'snprintf': c_snprintf, 'fopen': c_fopen, 'fclose': c_fclose, 'feof': c_feof, 'rewind': c_rewind,
    'fgetc': c_fgetc, 'getc': c_fgetc, 'ungetc': c_ungetc, 'fgets': c_fgets, 'fscanf': c_fscanf,
    '__isoc99_fscanf': c_fscanf, '__isoc23_fscanf': c_fscanf, 'sscanf': c_sscanf, '__isoc99_sscanf': c_sscanf,
    'fflush': c_ret0, 'setlocale': c_setlocale, 'ferror': c_ret0, 'perror': c_ret0,
})


def lookup(name):
    f = TABLE.get(name)
    if f is None:
        def missing(E, a, k, name=name):
            raise Unsupported('external function ' + name)
        return missing
    return f


def c_fputs(E, a, k):
    f = fh(E, a[1])
    if f is not None:
        write_items(E, f, list(E.cstr(a[0])))
    return 1


def c_fputc(E, a, k):
    f = fh(E, a[1])
    if f is not None:
        write_items(E, f, [chr(E.concrete_int(a[0]) & 255)])
    return 1


def c_fwrite(E, a, k):
    f = fh(E, a[3])
    n = E.concrete_int(a[1]) * E.concrete_int(a[2])
    if f is not None:
        s = ''
        o, off = E.chk(a[0], max(n, 1), 'read')
        for i in range(n):
            b = E.byte_at(o, off + i)
            if b is UNDEF or b.__class__ is not int:
                raise Unsupported('fwrite of symbolic bytes')
            s += chr(b)
        write_items(E, f, list(s))
    return E.concrete_int(a[2])


TABLE.update({'fputs': c_fputs, 'fputc': c_fputc, 'putc': c_fputc, 'fwrite': c_fwrite})
