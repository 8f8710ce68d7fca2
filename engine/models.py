"""Contracts ("models") for functions outside the code under proof: verifier intrinsics, libm, the C++
runtime, and the parts of the standard library whose bodies are loops over symbolic lengths.
Every entry here is part of the trusted base and is listed in the evidence."""
import re
from fractions import Fraction
import z3
from sym import *
import sym
import ring

USED = {}


def used(ex, name):
    ex.trusted.add(name)


def cstr(ex, st, p):
    p = ex.topt(p)
    o = st.mem[p.o]
    out = []
    k = p.f
    while True:
        c = o.cells.get(k)
        if c is None or c[1] == 0:
            break
        out.append(chr(c[1]))
        k += 1
    return ''.join(out)


def uniq(ex, st, name):
    c = st.ghost.get('names', {})
    c = dict(c)
    n = c.get(name, 0)
    c[name] = n + 1
    st.ghost['names'] = c
    return name if n == 0 else '%s#%d' % (name, n)


# ------------------------------------------------------------------ verifier intrinsics
def m_real(ex, st, fr, ins, a, work):
    n = uniq(ex, st, cstr(ex, st, a[0]))
    v = z3.Real(n)
    ex.inputs[n] = v
    return v


def m_long(ex, st, fr, ins, a, work):
    n = uniq(ex, st, cstr(ex, st, a[0]))
    v = z3.Int(n)
    lo, hi = a[1], a[2]
    ex.inputs[n] = v
    le, ll, lh = ex.asS(lo, 64)
    he, hl, hh = ex.asS(hi, 64)
    ex.assume(st, z3.And(v >= le, v <= he))
    return SI(v, ll, hh)


def m_size(ex, st, fr, ins, a, work):
    n = uniq(ex, st, cstr(ex, st, a[0]))
    v = z3.Int(n)
    ex.inputs[n] = v
    le, ll, lh = ex.asU(a[1], 64)
    he, hl, hh = ex.asU(a[2], 64)
    ex.assume(st, z3.And(v >= le, v <= he))
    return SI(v, ll, hh)


def m_bool(ex, st, fr, ins, a, work):
    n = uniq(ex, st, cstr(ex, st, a[0]))
    v = z3.Bool(n)
    ex.inputs[n] = v
    return v


def m_assume(ex, st, fr, ins, a, work):
    c = ex.asbool(a[0])
    ex.assume(st, c)
    return None


def m_assert(ex, st, fr, ins, a, work):
    ex.oblige(st, ex.asbool(a[0]), cstr(ex, st, a[1]))
    return None


def m_eq(ex, st, fr, ins, a, work):
    x, y = ex.freal(a[0]), ex.freal(a[1])
    if isinstance(x, tuple) or isinstance(y, tuple):
        g = x == y
    elif isinstance(x, Fraction) and isinstance(y, Fraction):
        g = x == y
    else:
        g = R(x) == R(y)
    ex.oblige(st, g, cstr(ex, st, a[2]), 'eq', assume_after=True)
    return None


def m_le(ex, st, fr, ins, a, work):
    x, y = ex.freal(a[0]), ex.freal(a[1])
    if isinstance(x, tuple) or isinstance(y, tuple):
        raise Unsupported('vf_le of non-finite value')
    g = x <= y if isinstance(x, Fraction) and isinstance(y, Fraction) else R(x) <= R(y)
    ex.oblige(st, g, cstr(ex, st, a[2]), 'le')
    return None


def m_define(ex, st, fr, ins, a, work):
    """vf_define(name, e): a fresh name for the value e"""
    n = uniq(ex, st, cstr(ex, st, a[0]))
    v = z3.Real('def_' + n)
    st.path.append(v == R(ex.freal(a[1])))
    return v


def m_reach(ex, st, fr, ins, a, work):
    n = cstr(ex, st, a[0])
    ex.covers.setdefault(n, []).append(list(st.path))
    return None


def m_rewrite(ex, st, fr, ins, a, work):
    """vf_rewrite(array, i, v): where array[i] == v follows from the path, later reads of array[i] are written as v (nothing is assumed)"""
    o = st.mem[ex.regions[cstr(ex, st, a[0])]]
    i, v = ex.asU(a[1], 64)[0], ex.asU(a[2], 64)[0]
    t = z3.Select(o.fields[0].base, i if is_z3(i) else z3.IntVal(i))
    if is_z3(v) and not t.eq(v) and ex.entailed(st, t == v) is True:
        st.ghost['rewrites'] = dict(st.ghost.get('rewrites', {}))
        st.ghost['rewrites'][ex.idof(t)] = v
    return None


def m_flag(ex, st, fr, ins, a, work):
    st.ghost[cstr(ex, st, a[0])] = cstr(ex, st, a[1])
    if st.ghost[cstr(ex, st, a[0])] == '0':
        st.ghost[cstr(ex, st, a[0])] = None
    return None


def m_entailed(ex, st, fr, ins, a, work):
    return ex.entailed(st, ex.asbool(a[0]))


# ------------------------------------------------------------------ math
def rv(v):
    return v


def nonneg(t):
    """structurally non-negative"""
    if z3.is_rational_value(t):
        return t.numerator_as_long() >= 0
    if z3.is_add(t):
        return all(nonneg(c) for c in t.children())
    if z3.is_mul(t):
        ch = t.children()
        if len(ch) == 2 and ch[0].eq(ch[1]):
            return True
        return all(nonneg(c) for c in ch)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        if nonneg(t.arg(1)) and nonneg(t.arg(2)):
            return True
        c = t.arg(0)   # |x| and max(0,x)
        if z3.is_ge(c) and z3.is_rational_value(c.arg(1)) and c.arg(1).numerator_as_long() == 0 and c.arg(0).eq(t.arg(1)):
            return nonneg(t.arg(2)) or (z3.is_app_of(t.arg(2), z3.Z3_OP_UMINUS) and t.arg(2).arg(0).eq(t.arg(1)))
        return False
    return z3.is_app(t) and t.decl().name() == 'u_sqrt'


def square_root(x):
    """t with t*t = x identically, for monomials"""
    import math
    try:
        Rg = ring.Ring()
        n, d = Rg.conv(x)
    except ring.TooBig:
        return None
    if d != ring.Ring.ONE or len(n) != 1:
        return None
    (m, c), = n.items()
    if c < 0 or any(e % 2 for v, e in m) or not m:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    t = z3.RealVal(Fraction(a, b)) if (a, b) != (1, 1) else None
    for v, e in m:
        for _ in range(e // 2):
            t = Rg.names[v] if t is None else t * Rg.names[v]
    return t


def m_sqrt(ex, st, fr, ins, a, work):
    x = ex.freal(a[0])
    used(ex, 'sqrt: s>=0 and s*s=x for x>=0')
    if isinstance(x, Fraction):
        import math
        if x >= 0:
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
    if isinstance(x, tuple):
        return x
    x = R(x)
    t = square_root(x)
    if t is not None:
        if nonneg(t) or ex.entailed(st, t >= 0):
            return t
        if ex.entailed(st, t <= 0):
            return -t
    s = ufn('sqrt')(x)
    if not st.ghost.get('sqrtneg_ok'):
        ex.oblige(st, True if nonneg(x) else x >= 0, 'square root of a non-negative number', 'safety')
        ex.add_fact(st, z3.And(s >= 0, s * s == x))
    else:
        ex.add_fact(st, z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
    return s


def m_fabs(ex, st, fr, ins, a, work):
    x = ex.freal(a[0])
    if isinstance(x, Fraction):
        return abs(x)
    if isinstance(x, tuple):
        return ('inf', 1) if x[0] == 'inf' else x
    return z3.If(R(x) >= 0, R(x), -R(x))


def m_fmax(ex, st, fr, ins, a, work):
    x, y = ex.freal(a[0]), ex.freal(a[1])
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return max(x, y)
    if isinstance(x, tuple):
        return (x if x[1] > 0 else y) if len(x) > 1 else y
    if isinstance(y, tuple):
        return (y if y[1] > 0 else x) if len(y) > 1 else x
    return z3.If(R(x) >= R(y), R(x), R(y))


def m_fmin(ex, st, fr, ins, a, work):
    x, y = ex.freal(a[0]), ex.freal(a[1])
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return min(x, y)
    if isinstance(x, tuple):
        return (x if x[1] < 0 else y) if len(x) > 1 else y
    if isinstance(y, tuple):
        return (y if y[1] < 0 else x) if len(y) > 1 else x
    return z3.If(R(x) <= R(y), R(x), R(y))


PI_LO = Fraction(3141592653589793, 10**15)
PI_HI = Fraction(3141592653589794, 10**15)


def neg_of(x):
    """-x if x is structurally negative, else None"""
    if z3.is_app_of(x, z3.Z3_OP_UMINUS):
        return x.arg(0)
    if z3.is_mul(x) and z3.is_rational_value(x.arg(0)) and x.arg(0).numerator_as_long() < 0:
        c = z3.RealVal(-Fraction(x.arg(0).numerator_as_long(), x.arg(0).denominator_as_long()))
        return z3.simplify(c * z3.Product([x.arg(i) for i in range(1, x.num_args())]))
    return None


def small_multiple(x):
    """x = k*y for a small integer constant k"""
    xs = z3.simplify(x)
    if z3.is_mul(xs) and xs.num_args() == 2 and z3.is_rational_value(xs.arg(0)) and xs.arg(0).denominator_as_long() == 1:
        k = xs.arg(0).numerator_as_long()
        if abs(k) <= 4:
            return k, xs.arg(1)
    return None


def trig_pair(ex, st, x):
    """(sin x, cos x) as terms"""
    xs = z3.simplify(x)
    if z3.is_rational_value(xs) and xs.numerator_as_long() == 0:
        return z3.RealVal(0), z3.RealVal(1)
    nx = neg_of(xs)
    if nx is not None and not small_multiple(xs):
        s, c = trig_pair(ex, st, nx)
        return -s, c
    km = small_multiple(xs)
    if km and km[0] != 1 and 'noexpand' not in st.ghost:
        k, y = km
        s, c = trig_pair(ex, st, y)
        ak = abs(k)
        rs, rc = z3.RealVal(0), z3.RealVal(1)
        for _ in range(ak):
            rs, rc = rs * c + rc * s, rc * c - rs * s
        return (rs, rc) if k > 0 else (-rs, rc)
    if z3.is_app(xs) and xs.decl().name() == 'u_atan2' and z3.is_app(x) and x.num_args() == 2:
        b, a = x.arg(0), x.arg(1)
        n2 = a * a + b * b
        if ring.identity(n2 == 1):
            return b, a
    s, c = ufn('sin')(x), ufn('cos')(x)
    ex.add_fact(st, z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
    return s, c


def m_trig(name):
    def h(ex, st, fr, ins, a, work):
        used(ex, 'sin/cos: uninterpreted, with sin^2+cos^2=1, parity and integer multiple-angle formulas')
        if isinstance(a[0], Fraction) and a[0] == 0:
            return Fraction(0) if name == 'sin' else Fraction(1)
        x = R(ex.freal(a[0]))
        s, c = trig_pair(ex, st, x)
        return s if name == 'sin' else c
    return h


def m_acos(ex, st, fr, ins, a, work):
    used(ex, 'acos: cos(acos x)=x, 0 <= acos x <= pi on [-1,1]; argument range is an obligation')
    x = R(ex.freal(a[0]))
    r = ufn('acos')(x)
    ex.oblige(st, z3.And(x >= -1, x <= 1), 'acos argument within [-1,1]', 'safety')
    s, c = ufn('sin')(r), ufn('cos')(r)
    ex.add_fact(st, z3.And(c == x, s >= 0, s * s + c * c == 1, r >= 0, r <= R(PI_HI)))
    return r


def atan2_term(ex, st, y, x):
    t = ufn('atan2', 2)(y, x)
    s, c = ufn('sin')(t), ufn('cos')(t)
    n2 = x * x + y * y
    r = ufn('sqrt')(n2)
    ex.add_fact(st, z3.And(s * s + c * c == 1, r >= 0, r * r == n2, x == r * c, y == r * s, t <= R(PI_HI), t >= -R(PI_HI)))
    ex.add_fact(st, z3.Implies(n2 > 0, r > 0))
    ex.add_fact(st, s * x == c * y)
    ex.add_fact(st, z3.And(c * x >= 0, s * y >= 0))
    return t


def m_atan2(ex, st, fr, ins, a, work):
    used(ex, 'atan2: (x,y) = r (cos, sin) with r = |(x,y)|, in [-pi,pi]')
    return atan2_term(ex, st, R(ex.freal(a[0])), R(ex.freal(a[1])))


def m_clog(ex, st, fr, ins, a, work):
    used(ex, 'clog: (log|z|, atan2(z))')
    x, y = R(ex.freal(a[0])), R(ex.freal(a[1]))
    n2 = x * x + y * y
    ex.oblige(st, n2 > 0, 'clog of a non-zero number', 'safety')
    t = atan2_term(ex, st, y, x)
    return Agg([ufn('log')(ufn('sqrt')(n2)), t])


def m_exp(ex, st, fr, ins, a, work):
    used(ex, 'exp(k*log x)=x^k for integer constants k; exp > 0')
    x = ex.freal(a[0])
    if isinstance(x, Fraction) and x == 0:
        return Fraction(1)
    x = R(x)
    km = small_multiple(x)
    k, y = km if km else (1, x)
    if z3.is_app(y) and y.decl().name() == 'u_log':
        b = y.arg(0)
        r = z3.RealVal(1)
        for _ in range(abs(k)):
            r = r * b
        return r if k >= 0 else 1 / r
    e = ufn('exp')(x)
    ex.add_fact(st, e > 0)
    return e


def m_ufn(name, n):
    def h(ex, st, fr, ins, a, work):
        used(ex, '%s: uninterpreted' % name)
        xs = [R(ex.freal(v)) for v in a[:n]]
        return ufn(name, n)(*xs)
    return h


def m_pow(ex, st, fr, ins, a, work):
    x, y = ex.freal(a[0]), ex.freal(a[1])
    if isinstance(y, Fraction) and y.denominator == 1 and 0 <= y <= 8:
        r = Fraction(1)
        for _ in range(int(y)):
            r = ex.fop(st, 'fmul', r, x)
        return r
    if isinstance(y, Fraction) and y.denominator == 1 and -8 <= y < 0:
        ex.oblige(st, R(x) != 0, 'negative power of a non-zero number', 'safety')
        r = Fraction(1)
        for _ in range(-int(y)):
            r = ex.fop(st, 'fmul', r, x)
        return ex.fop(st, 'fdiv', Fraction(1), r)
    used(ex, 'pow: uninterpreted')
    return ufn('pow', 2)(R(x), R(y))


def m_floor(ex, st, fr, ins, a, work):
    x = ex.freal(a[0])
    if isinstance(x, Fraction):
        import math
        return Fraction(math.floor(x))
    return z3.ToReal(z3.ToInt(R(x)))


def m_ceil(ex, st, fr, ins, a, work):
    x = ex.freal(a[0])
    if isinstance(x, Fraction):
        import math
        return Fraction(math.ceil(x))
    return -z3.ToReal(z3.ToInt(-R(x)))


def m_round(ex, st, fr, ins, a, work):
    x = ex.freal(a[0])
    if isinstance(x, Fraction):
        import math
        return Fraction(math.floor(x + Fraction(1, 2))) if x >= 0 else Fraction(-math.floor(-x + Fraction(1, 2)))
    x = R(x)
    i = ex.as_int_term(z3.simplify(x))
    if i is not None:
        return x
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + Fraction(1, 2))), -z3.ToReal(z3.ToInt(-x + Fraction(1, 2))))


def m_fmod(ex, st, fr, ins, a, work):
    used(ex, 'fmod: x - b*trunc(x/b)')
    x, b = ex.freal(a[0]), ex.freal(a[1])
    x = R(x)
    b = R(b)
    ex.oblige(st, b != 0, 'fmod divisor non-zero', 'safety')
    k = ex.fresh('fmodk', 'int')
    r = ex.fresh('fmodr', 'real')
    ab = z3.If(b >= 0, b, -b)
    ex.add_fact(st, z3.And(x == z3.ToReal(k) * b + r, z3.If(x >= 0, z3.And(r >= 0, r < ab), z3.And(r <= 0, -r < ab))))
    return r


def m_isfpclass(ex, st, fr, ins, a, work):
    used(ex, 'floating point values are finite reals (no NaN/inf inputs)')
    mask = a[1]
    v = a[0]
    if isinstance(v, tuple):
        if v[0] == 'nan':
            return bool(mask & 3)
        return bool(mask & (0x200 if v[1] > 0 else 0x4))
    if mask & 0x1f8 == 0x1f8:
        return True
    if mask & 0x1f8 == 0:
        return False
    raise Unsupported('fp class %x' % mask)


def m_copysign(ex, st, fr, ins, a, work):
    x, y = R(ex.freal(a[0])), R(ex.freal(a[1]))
    ax = z3.If(x >= 0, x, -x)
    return z3.If(y >= 0, ax, -ax)


# ------------------------------------------------------------------ runtime
def m_new(ex, st, fr, ins, a, work):
    n = a[0]
    if isinstance(n, int):
        if n > (1 << 24):
            raise Unsupported('allocation size')
        o = ex.new_obj(st, 'cells', n, 'heap%d' % (ex.nobj + 1))
        o.heap = True
        return Ptr(o.id)
    if isinstance(n, SI):
        o = ex.new_obj(st, 'region', None, 'heap%d' % (ex.nobj + 1))
        o.heap = True
        o.fields = {}
        if n.mul:
            o.stride = n.mul[1]
            o.length = n.mul[0]
        else:
            o.stride = 1
            o.length = n.e
        return Ptr(o.id)
    raise Unsupported('operator new')


def m_delete(ex, st, fr, ins, a, work):
    p = ex.topt(a[0])
    if p.o is None:
        return None
    o = st.mem[p.o]
    if o.freed:
        ex.oblige(st, False, 'double free of %s' % o.name, 'safety')
        raise PathEnd()
    st.wobj(p.o).freed = True
    return None


def m_throw(ex, st, fr, ins, a, work):
    st.ghost['throwsite'] = dm(fr.fn.name)[:150]
    ex.throw(st)
    return CONTROL


def m_begin_catch(ex, st, fr, ins, a, work):
    return ex.topt(a[0])


def m_nop(ex, st, fr, ins, a, work):
    return None


def m_zero(ex, st, fr, ins, a, work):
    return 0


def m_one(ex, st, fr, ins, a, work):
    return 1


def m_memcpy(ex, st, fr, ins, a, work):
    n = a[2]
    if isinstance(n, SI):
        d = ex.topt(a[0])
        s = ex.topt(a[1])
        if st.mem[s.o].kind == 'region' and st.mem[d.o].kind == 'region' and n.mul:
            return region_copy(ex, st, d, s, n)
        raise Unsupported('memcpy with symbolic length')
    ex.copy_mem(st, a[0], a[1], n)
    return a[0]


def region_copy(ex, st, d, s, n):
    so = st.mem[s.o]
    do = st.wobj(d.o)
    k, stride = n.mul[0], n.mul[1]
    if stride != so.stride or s.f or d.f:
        raise Unsupported('strided region copy')
    if do.stride != stride and not do.fields:
        raise Unsupported('region copy stride')
    snap = so.clone(None)
    for f, fld in so.fields.items():
        src = fld.clone()
        old = do.fields.get(f)
        oldc = old.clone() if old is not None else None
        do.fields[f] = lazy_copy(ex, st, src, s.i, oldc, d.i, k)
    do.layout = do.layout or so.layout
    return None


def lazy_copy(ex, st, src, soff, old, doff, n):
    nf = Field(None, src.kind, src.lo, src.hi)
    helper = Obj(-1, 'region', None, 'copy')

    def rd(i):
        i = i if is_z3(i) else z3.IntVal(i)
        helper.fields = {0: src}
        j = z3.simplify(i - doff + soff)
        v = ex.region_read(st, helper, 0, j, 8, hook=False)
        inside = z3.And(i >= doff, i < doff + n)
        if old is None:
            return v
        helper.fields = {0: old}
        w = ex.region_read(st, helper, 0, i, 8, hook=False)
        return ex.merge(st, inside, v, w)
    nf.writes.append(('all', rd))
    return nf


def m_memset(ex, st, fr, ins, a, work):
    if isinstance(a[2], SI):
        raise Unsupported('memset with symbolic length')
    ex.set_mem(st, a[0], a[1], a[2])
    return a[0]


def m_memcmp(ex, st, fr, ins, a, work):
    raise Unsupported('memcmp')


def m_umul_ov(ex, st, fr, ins, a, work):
    w = 64
    if isinstance(a[0], int) and isinstance(a[1], int):
        r = a[0] * a[1]
        return Agg([r % (1 << 64), r >= (1 << 64)])
    return Agg([ex.int_op(st, 'mul', a[0], a[1], w, []), False])


def m_minmax_int(name):
    def h(ex, st, fr, ins, a, work):
        w = ex.tw(ins.ty)
        p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[name]
        c = ex.icmp(st, p, ins.ty, a[0], a[1])
        return ex.merge(st, c, a[0], a[1])
    return h


def m_abs_int(ex, st, fr, ins, a, work):
    w = ex.tw(ins.ty)
    e, lo, hi = ex.asS(a[0], w)
    if isinstance(e, int):
        return abs(e)
    ex.oblige(st, e > -(1 << (w - 1)), 'abs does not overflow', 'safety') if lo <= -(1 << (w - 1)) else None
    return SI(z3.If(e >= 0, e, -e), 0, max(abs(lo), abs(hi)))


def m_abort(ex, st, fr, ins, a, work):
    ex.oblige(st, False, 'abort/terminate is not reached', 'safety')
    raise PathEnd()


# ------------------------------------------------------------------ symbolic containers
def elem_layout(ex, mod, tyname):
    """flattened scalar layout [(off, type, size)] of an LLVM type"""
    out = []

    def rec(ty, off):
        t = mod.resolve(ty)
        if t[0] == 'struct':
            for i in range(len(t[2])):
                fo, ft = mod.field(t, i)
                rec(ft, off + fo)
        elif t[0] in ('array', 'vec'):
            s = mod.sizeof(t[2])
            for i in range(t[1]):
                rec(t[2], off + i * s)
        else:
            out.append((off, t, mod.sizeof(t)))
    rec(tyname, 0)
    return out


def sym_region(ex, st, name, kind, n, stride, lo=None, hi=None, tag=None):
    o = ex.new_obj(st, 'region', None, name)
    o.heap = True
    o.stride = stride
    o.length = n
    o.tag = tag
    if kind == 'int':
        arr = z3.Array(name, z3.IntSort(), z3.IntSort())
        o.fields = {0: Field(arr, 'int', lo, hi, tag=name)}
        o.layout = [(0, ('i', stride * 8), stride)]
    else:
        arr = z3.Array(name, z3.IntSort(), z3.RealSort())
        o.fields = {0: Field(arr, 'real', tag=name)}
        o.layout = [(0, ('double',), 8)]
    return o


def setvec(ex, st, vec, o, n):
    """write {begin,end,cap} of a std::vector"""
    M = ex.prog.mods[0]
    ex.store(st, vec, Ptr(o.id, 0, 0), M, PTR)
    ex.store(st, ex.ptr_add_bytes(st, vec, 8), Ptr(o.id, n, 0), M, PTR)
    ex.store(st, ex.ptr_add_bytes(st, vec, 16), Ptr(o.id, n, 0), M, PTR)


EIGEN = 'Eigen: whole-vector copy, copy construction and setConstant of a dynamic vector'


def m_eigen_copy(ex, st, fr, ins, a, work):
    """Matrix<T,-1,1>::operator=(const Matrix&) and copy construction"""
    M = ex.prog.mods[0]
    dst, src = ex.topt(a[0]), ex.topt(a[1])
    n = ex.load(st, ex.ptr_add_bytes(st, src, 8), M, ('i', 64))
    if not isinstance(n, SI):
        raise NotHandled()
    sp = ex.topt(ex.load(st, src, M, PTR))
    if sp.o is None:
        ex.oblige(st, n.e == 0, 'a vector without storage is empty', 'safety')
        ex.store(st, dst, NULL, M, PTR)
        ex.store(st, ex.ptr_add_bytes(st, dst, 8), 0, M, ('i', 64))
        return dst
    so = st.mem[sp.o]
    if so.kind != 'region' or sp.i != 0:
        raise NotHandled()
    o = ex.new_obj(st, 'region', None, so.name)
    o.heap = True
    o.stride, o.length, o.tag, o.layout = so.stride, n.e, so.tag, so.layout
    o.fields = {f: x.clone() for f, x in so.fields.items()}
    for x in o.fields.values():
        x.tag = None
    ex.store(st, dst, Ptr(o.id, 0, 0), M, PTR)
    ex.store(st, ex.ptr_add_bytes(st, dst, 8), n, M, ('i', 64))
    ex.trusted.add(EIGEN)
    return dst


VEC = 'std::vector<T>: copy construction and assignment copy all elements into storage of their own'


def m_veccopy(ex, st, fr, ins, a, work):
    """std::vector<T>::operator=(const vector&) and copy construction, from a symbolic array"""
    M = ex.prog.mods[0]
    dst, src = ex.topt(a[0]), ex.topt(a[1])
    b = ex.load(st, src, M, PTR)
    e = ex.load(st, ex.ptr_add_bytes(st, src, 8), M, PTR)
    if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.o is None or st.mem[b.o].kind != 'region' or b.i != 0 or b.o != e.o or b.f != e.f:
        raise NotHandled()
    if dst.o == src.o and ex.entailed(st, z3.BoolVal(dst.i is src.i and dst.f == src.f)):
        return dst
    so = st.mem[b.o]
    o = ex.new_obj(st, 'region', None, so.name)
    o.heap = True
    o.stride, o.length, o.tag, o.layout = so.stride, e.i if is_z3(e.i) else z3.IntVal(e.i), so.tag, so.layout
    o.fields = {f: x.clone() for f, x in so.fields.items()}
    setvec(ex, st, dst, o, e.i)
    ex.trusted.add(VEC)
    return dst


def const_reals(v):
    if isinstance(v, tuple):   # not a number: nothing is known
        return z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.RealSort()), 'undefined')
    return z3.K(z3.IntSort(), sym.R(v))


def m_eigen_const(ex, st, fr, ins, a, work):
    M = ex.prog.mods[0]
    dst = ex.topt(a[0])
    n = ex.load(st, ex.ptr_add_bytes(st, dst, 8), M, ('i', 64))
    if not isinstance(n, SI):
        raise NotHandled()
    sp = ex.topt(ex.load(st, dst, M, PTR))
    if sp.o is None:
        ex.oblige(st, n.e == 0, 'a vector without storage is empty', 'safety')
        return dst
    o = st.wobj(sp.o)
    dim = re.match(r'.{0,40}geometrycentral::Vector([23])', dm(ins.a[0][1]))
    if dim:
        dim = int(dim.group(1))
        src = ex.topt(a[1])
        cs = [ex.load(st, ex.ptr_add_bytes(st, src, 8 * k), M, ('double',)) for k in range(dim)]
        o.stride = 8 * dim
        o.fields = {8 * k: Field(const_reals(cs[k]), 'real') for k in range(dim)}
        o.layout = [(8 * k, ('double',), 8) for k in range(dim)]
        for k in range(dim):
            ex.log_write(st, sp.o, 8 * k, 8, None)
        ex.trusted.add(EIGEN)
        return dst
    v = ex.load(st, ex.topt(a[1]), M, ('double',) if 'double' in dm(ins.a[0][1])[:60] else ('i', 64))
    real = not isinstance(v, (int, SI)) or isinstance(v, bool)
    o.fields = {0: Field(z3.K(z3.IntSort(), sym.R(v) if real else ex.asU(v, 64)[0]), 'real' if real else 'int', None if real else 0, None if real else (1 << 64) - 1)}
    o.layout = [(0, ('double',) if real else ('i', 64), 8)]
    ex.log_write(st, sp.o, 0, 8, None)
    ex.trusted.add(EIGEN)
    return dst


def m_list_hook(ex, st, fr, ins, a, work):
    """std::list: insert this node before pos"""
    M = ex.prog.mods[0]
    n, pos = ex.topt(a[0]), ex.topt(a[1])
    prev = ex.topt(ex.load(st, ex.ptr_add_bytes(st, pos, 8), M, PTR))
    ex.store(st, n, pos, M, PTR)
    ex.store(st, ex.ptr_add_bytes(st, n, 8), prev, M, PTR)
    ex.store(st, prev, n, M, PTR)
    ex.store(st, ex.ptr_add_bytes(st, pos, 8), n, M, PTR)
    ex.trusted.add('std::list node insertion and removal')
    return None


def m_list_unhook(ex, st, fr, ins, a, work):
    M = ex.prog.mods[0]
    n = ex.topt(a[0])
    nx = ex.topt(ex.load(st, n, M, PTR))
    pv = ex.topt(ex.load(st, ex.ptr_add_bytes(st, n, 8), M, PTR))
    ex.store(st, pv, nx, M, PTR)
    ex.store(st, ex.ptr_add_bytes(st, nx, 8), pv, M, PTR)
    return None


def m_mapc(ex, st, fr, ins, a, work):
    return m_map(ex, st, fr, ins, a, work, 1)


def m_map(ex, st, fr, ins, a, work, stride=8):
    """vf_map_sizes(vec, name, n, f, ctx): vec becomes an array of n elements with element j equal to f(ctx, j) (evaluated in the current state)"""
    vec, name = ex.topt(a[0]), uniq(ex, st, cstr(ex, st, a[1]))
    e, l, h = ex.asU(a[2], 64)
    o = sym_region(ex, st, name, 'int', e if is_z3(e) else z3.IntVal(e), stride, 0, (1 << 64) - 1 if stride == 8 else 1)
    snap = st.fork()
    f, ctx = a[3].name, a[4]
    o.fields[0].writes.append(('spec', lambda j: ex.eval_fn(snap, f, [ctx, SI(j, 0, (1 << 64) - 1) if is_z3(j) else j])))
    setvec(ex, st, vec, o, e)
    ex.regions[name] = o.id
    return None


def m_reserve(ex, st, fr, ins, a, work):
    """vf_reserve_sizes(vec, name, cap): an empty vector with room for cap elements"""
    vec, name = ex.topt(a[0]), uniq(ex, st, cstr(ex, st, a[1]))
    e, l, h = ex.asU(a[2], 64)
    o = sym_region(ex, st, name, 'int', e if is_z3(e) else z3.IntVal(e), 8, 0, (1 << 64) - 1)
    setvec(ex, st, vec, o, e)
    ex.store(st, ex.ptr_add_bytes(st, vec, 8), Ptr(o.id, 0, 0), ex.prog.mods[0], PTR)
    ex.regions[name] = o.id
    return None


def m_symvec(kind, stride, lo, hi):
    def h(ex, st, fr, ins, a, work):
        vec, name, n = a
        name = uniq(ex, st, cstr(ex, st, name))
        e, l, hh = ex.asU(n, 64)
        o = sym_region(ex, st, name, kind, e, stride, lo, hi)
        setvec(ex, st, ex.topt(vec), o, e)
        ex.regions[name] = o.id
        return None
    return h


def m_symvecs(ex, st, fr, ins, a, work):
    """vf_sym_vecs(vec, name, n, dim): vec (of Vector2 / Vector3) gets n elements with arbitrary coordinates"""
    vec, name, n, dim = a
    name = uniq(ex, st, cstr(ex, st, name))
    e, l, hh = ex.asU(n, 64)
    o = vec_region(ex, st, name, e if is_z3(e) else z3.IntVal(e), dim, [z3.Array('%s.%s' % (name, 'xyzw'[k]), z3.IntSort(), z3.RealSort()) for k in range(dim)])
    setvec(ex, st, ex.topt(vec), o, e)
    ex.regions[name] = o.id
    return None


def vec_region(ex, st, name, n, dim, bases):
    o = ex.new_obj(st, 'region', None, name)
    o.heap = True
    o.stride, o.length, o.tag = 8 * dim, n, name
    o.fields = {8 * k: Field(bases[k], 'real', tag=name) for k in range(dim)}
    o.layout = [(8 * k, ('double',), 8) for k in range(dim)]
    return o


def m_oldvec(ex, st, fr, ins, a, work):
    vec, name = a
    src = st.mem[ex.regions[cstr(ex, st, name)]]
    o = ex.new_obj(st, 'region', None, src.name + '@old')
    o.heap = True
    o.stride, o.length, o.tag, o.layout = src.stride, src.length, src.tag, src.layout
    f = src.fields[0]
    o.fields = {0: Field(f.base, f.kind, f.lo, f.hi, tag=f.tag)}
    setvec(ex, st, ex.topt(vec), o, src.length)
    return None


def m_havoc(ex, st, fr, ins, a, work):
    """vf_havoc_*(vec, name): the array behind vec has arbitrary contents from here on, known as name"""
    vec, name = ex.topt(a[0]), cstr(ex, st, a[1])
    M = ex.prog.mods[0]
    b = ex.load(st, vec, M, PTR)
    o = st.wobj(b.o)
    f = o.fields[0]
    o.fields[0] = Field(z3.Array(name, z3.IntSort(), z3.RealSort() if f.kind == 'real' else z3.IntSort()), f.kind, f.lo, f.hi, tag=name)
    ex.regions[name] = b.o
    ex.log_write(st, b.o, 0, o.stride, None)
    return None


def m_replace(ex, st, fr, ins, a, work):
    """vf_replace(fn, stub, skip): from the (skip+1)-th call on, calls of fn run stub (the contract of fn) instead of its body"""
    r = dict(st.ghost.get('replace', {}))
    r[cstr(ex, st, a[0])] = (a[1].name, a[2])
    st.ghost['replace'] = r
    return None


TRIP = re.compile(r'^void std::vector<Eigen::Triplet<(double|std::complex<double>), int>, .*>::emplace_back<(.*)>\((.*)\)$')


def triplet_args(ex, st, d, av):
    """arguments of the stub for an emplace_back of a triplet: list, row, column, real and imaginary part"""
    m = TRIP.match(d)
    if not m:
        return None
    ts = [t.strip().replace(' const', '').replace('const ', '').rstrip('&').strip() for t in m.group(3).split(',')]
    if len(ts) != 3:
        return None
    M = ex.prog.mods[0]
    out = [av[0]]
    for t, a in zip(ts[:2], av[1:3]):
        w = {'unsigned long': 64, 'long': 64, 'unsigned int': 32, 'int': 32}.get(t)
        if w is None:
            raise Unsupported('triplet of ' + t)
        v = ex.load(st, ex.topt(a), M, ('i', w))
        if w == 32:
            e, lo, hi = (ex.asS if t == 'int' else ex.asU)(v, 32)
            v = SI(e, lo, hi) if sym.is_z3(e) else e
        out.append(v)
    p, t = ex.topt(av[3]), ts[2]
    if t == 'double':
        out += [ex.load(st, p, M, ('double',)), Fraction(0)]
    elif t in ('std::complex<double>', 'geometrycentral::Vector2'):
        out += [ex.load(st, p, M, ('double',)), ex.load(st, ex.ptr_add_bytes(st, p, 8), M, ('double',))]
    else:
        raise Unsupported('triplet of ' + t)
    return out


def m_triplets(ex, st, fr, ins, a, work):
    """vf_triplets(stub): std::vector<Eigen::Triplet>::emplace_back(i, j, v) runs stub(list, i, j, re v, im v)"""
    st.ghost['triplets'] = a[0].name
    return None


def m_first(ex, st, fr, ins, a, work):
    """vf_first(key, v): the first value ever given for key, on any path; a constant"""
    if not isinstance(a[0], int) or not isinstance(a[1], int):
        raise Unsupported('vf_first of symbolic values')
    d = ex.__dict__.setdefault('first_values', {})
    return d.get(a[0], a[1]) if ex.dry else d.setdefault(a[0], a[1])


def m_vecctor(kind, stride, lo, hi):
    """std::vector<T>::vector(n): n value-initialised elements (contract of the standard library)"""
    def h(ex, st, fr, ins, a, work):
        if isinstance(a[1], int):
            raise NotHandled()
        k = st.ghost.get('nvec', 0) + 1
        st.ghost['nvec'] = k
        name = 'vec%d' % k
        e, l, hh = ex.asU(a[1], 64)
        ex.oblige(st, e < (1 << 60), 'vector size is representable', 'safety')
        o = sym_region(ex, st, name, kind, e, stride, lo, hi)
        o.fields[0].base = z3.K(z3.IntSort(), z3.RealVal(0) if kind == 'real' else z3.IntVal(0))
        setvec(ex, st, ex.topt(a[0]), o, e)
        ex.regions[name] = o.id
        ex.trusted.add('std::vector<T>::vector(n) creates n zero elements')
        return None
    return h


def m_vecfill(kind, stride, lo, hi):
    """std::vector<T>::vector(n, x): n copies of x (contract of the standard library)"""
    mk = m_vecctor(kind, stride, lo, hi)

    def h(ex, st, fr, ins, a, work):
        M = ex.prog.mods[0]
        v = ex.load(st, ex.topt(a[2]), M, ('i', stride * 8))
        e = ex.asU(v, stride * 8)[0]
        mk(ex, st, fr, ins, a, work)
        o = st.wobj(ex.load(st, ex.topt(a[0]), M, PTR).o)
        o.fields[0].base = z3.K(z3.IntSort(), e if is_z3(e) else z3.IntVal(e))
        ex.trusted.add('std::vector<T>::vector(n, x) creates n copies of x')
        return None
    return h


def m_remap(ex, st, fr, ins, a, work):
    """vf_remap_sizes(p, n, f, ctx): the n elements from p on become f(ctx, 0..n-1), evaluated in the current state"""
    p = ex.topt(a[0])
    e, l, h = ex.asU(a[1], 64)
    e = e if is_z3(e) else z3.IntVal(e)
    if p.o is None:
        ex.oblige(st, e == 0, 'null array is empty', 'safety')
        return None
    snap = st.fork()
    o = st.wobj(p.o)
    fl = o.fields[p.f].clone()
    o.fields[p.f] = fl
    f, ctx = a[2].name, a[3]
    p0 = p.i if is_z3(p.i) else z3.IntVal(p.i)

    def rd(j):
        j = j if is_z3(j) else z3.IntVal(j)
        k = z3.simplify(j - p0)
        new = ex.eval_fn(snap, f, [ctx, SI(k, 0, (1 << 64) - 1)])
        old = ex.region_read(snap, snap.mem[p.o], p.f, j, 8)
        return ex.merge(snap, z3.simplify(z3.And(k >= 0, k < e)), new, old)
    fl.writes = list(fl.writes) + [('spec', rd)]
    ex.log_write(st, o.id, p.f, 8, p0)
    return None


BITS = 'std::vector<bool>: element access reads and writes the indexed element'


def m_bitvecctor(ex, st, fr, ins, a, work):
    k = st.ghost.get('nvec', 0) + 1
    st.ghost['nvec'] = k
    name = 'vec%d' % k
    e, l, hh = ex.asU(a[1], 64)
    o = sym_region(ex, st, name, 'int', e if is_z3(e) else z3.IntVal(e), 1, 0, 1)
    o.fields[0].base = z3.K(z3.IntSort(), z3.IntVal(0))
    ex.store(st, ex.topt(a[0]), Ptr(o.id, 0, 0), ex.prog.mods[0], PTR)
    ex.regions[name] = o.id
    ex.trusted.add(BITS)
    return None


def m_symbits(ex, st, fr, ins, a, work):
    name = uniq(ex, st, cstr(ex, st, a[1]))
    e, l, hh = ex.asU(a[2], 64)
    o = sym_region(ex, st, name, 'int', e if is_z3(e) else z3.IntVal(e), 1, 0, 1)
    ex.store(st, ex.topt(a[0]), Ptr(o.id, 0, 0), ex.prog.mods[0], PTR)
    ex.regions[name] = o.id
    return None


def m_bitindex(ex, st, fr, ins, a, work):
    b = ex.load(st, ex.topt(a[0]), ex.prog.mods[0], PTR)
    if not isinstance(b, Ptr) or b.o is None or st.mem[b.o].kind != 'region' or st.mem[b.o].stride != 1:
        raise NotHandled()
    ex.trusted.add(BITS)
    e, l, hh = ex.asU(a[1], 64)
    p = Ptr(b.o, e, 0)
    ex.bounds(st, st.mem[b.o], p, 'access')
    if ins.ty[0] in ('i', 'int') or str(ins.ty) == "('i', 1)":
        return ex.load(st, p, ex.prog.mods[0], ('i', 8))
    return Agg([p, 1])


def m_bitget(ex, st, fr, ins, a, work):
    p = ex.load(st, ex.topt(a[0]), ex.prog.mods[0], PTR)
    if not isinstance(p, Ptr) or st.mem[p.o].kind != 'region' or st.mem[p.o].stride != 1:
        raise NotHandled()
    return ex.asbool(ex.load(st, p, ex.prog.mods[0], ('i', 8)))


def m_bitset(ex, st, fr, ins, a, work):
    p = ex.load(st, ex.topt(a[0]), ex.prog.mods[0], PTR)
    if not isinstance(p, Ptr) or st.mem[p.o].kind != 'region' or st.mem[p.o].stride != 1:
        raise NotHandled()
    ex.store(st, p, ex.bool_to_int(ex.asbool(a[1])), ex.prog.mods[0], ('i', 8))
    return a[0]


def m_resize(ex, st, fr, ins, a, work):
    """std::vector<size_t>::resize(n) on a symbolic array: the first elements stay (contract of the standard library; new elements arbitrary)"""
    M = ex.prog.mods[0]
    vec = ex.topt(a[0])
    b = ex.load(st, vec, M, PTR)
    if not isinstance(b, Ptr) or b.o is None or st.mem[b.o].kind != 'region' or 0 not in st.mem[b.o].fields or not st.mem[b.o].fields[0].tag:
        raise NotHandled()
    if b.i != 0:
        raise NotHandled()
    src = st.mem[b.o]
    e, lo, hi = ex.asU(a[1], 64)
    fin = ex.load(st, ex.ptr_add_bytes(st, vec, 8), M, PTR)
    if isinstance(fin, Ptr) and fin.o == b.o and ex.entailed(st, (e if is_z3(e) else z3.IntVal(e)) <= fin.i):
        ex.store(st, ex.ptr_add_bytes(st, vec, 8), Ptr(b.o, e, b.f), M, PTR)
        ex.trusted.add('std::vector<size_t>::resize keeps the existing elements')
        return None
    ex.oblige(st, (e if is_z3(e) else z3.IntVal(e)) >= (src.length if is_z3(src.length) else z3.IntVal(src.length)), 'resize does not shrink %s' % src.name, 'safety')
    o = ex.new_obj(st, 'region', None, src.name)
    o.heap = True
    o.stride, o.length, o.tag, o.layout = src.stride, e, src.tag, src.layout
    o.fields = {0: src.fields[0].clone()}
    setvec(ex, st, vec, o, e)
    st.wobj(b.o).freed = True
    ex.trusted.add('std::vector<size_t>::resize keeps the existing elements')
    return None


def m_forall(ex, st, fr, ins, a, work):
    """vf_forall(const char* arrayname, pred(ctx, size_t), ctx): assume pred(ctx,i) for all i, instantiated at
    every index at which the array `arrayname` (its initial contents) is read"""
    names = cstr(ex, st, a[0]).split(',')
    fn = a[1]
    ctx = a[2]
    x = z3.Int('all!%d' % ex.nvar)
    ex.nvar += 1
    s0 = st.fork()
    s0.path = []
    stack, ex.stack = ex.stack, []
    ex.ctx_solver.push()
    saved = ex.ctx_solver, ex.int_solver, ex.int_stack
    ex.ctx_solver, ex.int_solver, ex.int_stack = z3.Solver(), z3.Solver(), []
    ex.ctx_solver.set('timeout', 200)
    ex.int_solver.set('timeout', 200)
    try:
        v = ex.eval_fn(s0, fn.name, [ctx, SI(x, 0, (1 << 64) - 1)])
    finally:
        ex.ctx_solver, ex.int_solver, ex.int_stack = saved
        ex.ctx_solver.pop()
        ex.stack = stack
    v = ex.asbool(v)
    if v is True:
        return None
    body = z3.simplify(tobool(v))
    st.ghost['axioms'] = st.ghost.get('axioms', ()) + ((names, x, body),)
    return None


def axiom_hook(ex, st, o, fld, i):
    if not fld.tag:
        return
    ie = i if is_z3(i) else z3.IntVal(i)
    for k, (names, x, body) in enumerate(st.ghost.get('axioms', ())):
        if fld.tag in names:
            key = ('ax', k, ex.idof(ie))
            if key in st.facts:
                continue
            st.facts.add(key)
            inst = z3.simplify(z3.substitute(body, (x, ie)))
            if not z3.is_true(inst):
                st.path.append(inst)


def m_mark(ex, st, fr, ins, a, work):
    """vf_instantiate(array, index): instantiate the axioms attached to array at index"""
    name = cstr(ex, st, a[0])
    e, lo, hi = ex.asU(a[1], 64)
    f = Field(None, 'int', tag=name)
    axiom_hook(ex, st, None, f, e)
    return None


def install(ex):
    M = ex.models
    ex.trusted = set()
    ex.regions = {}
    ex.axiom_hooks.append(axiom_hook)

    def n(name, h):
        M.append((name, h))

    def rx(pat, h):
        M.append((re.compile(pat), h))
    n('vf_real', m_real)
    n('vf_long', m_long)
    n('vf_size', m_size)
    n('vf_bool', m_bool)
    n('vf_assume', m_assume)
    n('vf_assert', m_assert)
    n('vf_eq', m_eq)
    n('vf_le', m_le)
    n('vf_define', m_define)
    n('vf_reach', m_reach)
    n('vf_flag', m_flag)
    n('vf_entailed', m_entailed)
    n('vf_sym_indices', m_symvec('int', 8, 0, 1 << 44))
    n('vf_sym_sizes', m_symvec('int', 8, 0, (1 << 64) - 1))
    n('vf_sym_chars', m_symvec('int', 1, 0, 1))
    n('vf_sym_reals', m_symvec('real', 8, None, None))
    n('vf_sym_ints', m_symvec('int', 4, -(1 << 31), (1 << 31) - 1))
    n('_ZNSt8__detail15_List_node_base7_M_hookEPS0_', m_list_hook)
    n('_ZNSt8__detail15_List_node_base9_M_unhookEv', m_list_unhook)
    rx(r'^Eigen::Matrix<(double|unsigned long|bool|geometrycentral::Vector[23]), -1, 1, 0, -1, 1>::(operator=|Matrix)\(Eigen::Matrix<(double|unsigned long|bool|geometrycentral::Vector[23]), -1, 1, 0, -1, 1> const&\)', m_eigen_copy)
    rx(r'^Eigen::DenseBase<Eigen::Matrix<(double|unsigned long|geometrycentral::Vector[23]), -1, 1, 0, -1, 1> ?>::setConstant', m_eigen_const)
    n('vf_sym_vecs', m_symvecs)
    n('vf_rewrite', m_rewrite)
    rx(r'^geometrycentral::Vector[23]\* Eigen::internal::construct_elements_of_array<geometrycentral::Vector[23] ?>', lambda ex, st, fr, ins, a, work: a[0])
    n('vf_map_sizes', m_map)
    n('vf_reserve_sizes', m_reserve)
    n('vf_remap_sizes', m_remap)
    n('vf_map_chars', m_mapc)
    n('vf_forall', m_forall)
    n('vf_ite', lambda ex, st, fr, ins, a, work: ex.merge(st, ex.asbool(a[0]), a[1], a[2]))
    n('vf_old_sizes', m_oldvec)
    n('vf_old_chars', m_oldvec)
    n('vf_old_reals', m_oldvec)
    n('_ZNSt6vectorImSaImEE6resizeEm', m_resize)
    n('_ZNSt6vectorIcSaIcEE6resizeEm', m_resize)
    n('vf_instantiate', m_mark)
    n('vf_havoc_sizes', m_havoc)
    n('vf_havoc_chars', m_havoc)
    n('vf_havoc_reals', m_havoc)
    n('vf_replace', m_replace)
    n('vf_first', m_first)
    n('vf_triplets', m_triplets)
    n('vf_pick', lambda ex, st, fr, ins, a, work: ex.merge(st, ex.asbool(a[0]), a[1], a[2]))
    n('vf_sym_bits', m_symbits)
    for T, m_ in (('m', m_vecctor('int', 8, 0, (1 << 64) - 1)), ('c', m_vecctor('int', 1, 0, 1)), ('d', m_vecctor('real', 8, None, None))):
        n('_ZNSt6vectorI%sSaI%sEEC2EmRKS0_' % (T, T), m_)
    for T in 'mcd':
        n('_ZNSt6vectorI%sSaI%sEEaSERKS1_' % (T, T), m_veccopy)
        n('_ZNSt6vectorI%sSaI%sEEC2ERKS1_' % (T, T), m_veccopy)
    n('_ZNSt6vectorImSaImEEC2EmRKmRKS0_', m_vecfill('int', 8, 0, (1 << 64) - 1))
    n('_ZNSt6vectorIbSaIbEEC2EmRKS0_', m_bitvecctor)
    n('_ZNSt6vectorIbSaIbEEixEm', m_bitindex)
    n('_ZNSt6vectorIbSaIbEED2Ev', m_nop)
    n('_ZNKSt14_Bit_referencecvbEv', m_bitget)
    n('_ZNSt14_Bit_referenceaSEb', m_bitset)
    import loops
    n('vf_loop', loops.m_loop('plain'))
    n('vf_loop_keep', loops.m_loop('keep'))
    n('vf_loop_step', loops.m_loop('step'))
    n('vf_loop_outer', loops.m_loop('outer'))
    n('vf_loop_flags', loops.m_loop('flags'))
    n('vf_loop_pair', loops.m_loop('pair'))
    n('vf_loop_body', loops.m_loop('body'))
    n('vf_loop_inv', loops.m_loop('inv'))
    n('vf_loop_at', loops.m_loop('at'))
    n('vf_loop_count', loops.m_loop('count'))
    n('vf_loop_peel', loops.m_loop('peel'))
    n('vf_loop_array', loops.m_loop('array'))
    n('vf_loop_prefix', loops.m_loop('prefix'))
    n('vf_loop_prefix_reals', loops.m_loop('rprefix'))
    for nm in ('sqrt', 'llvm.sqrt.f64', 'sqrtf', 'llvm.sqrt.f32'):
        n(nm, m_sqrt)
    for nm in ('fabs', 'llvm.fabs.f64', 'llvm.fabs.f32'):
        n(nm, m_fabs)
    for nm in ('fmax', 'llvm.maxnum.f64'):
        n(nm, m_fmax)
    for nm in ('fmin', 'llvm.minnum.f64'):
        n(nm, m_fmin)
    for nm in ('sin', 'llvm.sin.f64'):
        n(nm, m_trig('sin'))
    for nm in ('cos', 'llvm.cos.f64'):
        n(nm, m_trig('cos'))
    n('acos', m_acos)
    n('atan2', m_atan2)
    n('atan', m_ufn('atan', 1))
    n('asin', m_ufn('asin', 1))
    n('tan', m_ufn('tan', 1))
    n('exp', m_exp)
    n('clog', m_clog)
    n('log', m_ufn('log', 1))
    n('llvm.exp.f64', m_exp)
    n('llvm.log.f64', m_ufn('log', 1))
    for nm in ('pow', 'llvm.pow.f64'):
        n(nm, m_pow)
    for nm in ('floor', 'llvm.floor.f64'):
        n(nm, m_floor)
    for nm in ('ceil', 'llvm.ceil.f64'):
        n(nm, m_ceil)
    for nm in ('round', 'llvm.round.f64'):
        n(nm, m_round)
    n('fmod', m_fmod)
    n('hypot', lambda ex, st, fr, ins, a, work: m_sqrt(ex, st, fr, ins, [ex.fop(st, 'fadd', ex.fop(st, 'fmul', a[0], a[0]), ex.fop(st, 'fmul', a[1], a[1]))], work))
    n('llvm.copysign.f64', m_copysign)
    n('llvm.is.fpclass.f64', m_isfpclass)
    n('llvm.is.fpclass.f32', m_isfpclass)
    for k in ('smax', 'smin', 'umax', 'umin'):
        for w in (32, 64):
            n('llvm.%s.i%d' % (k, w), m_minmax_int(k))
    n('abs', m_abs_int)
    n('llvm.abs.i32', m_abs_int)
    n('llvm.abs.i64', m_abs_int)
    n('labs', m_abs_int)
    for nm in ('_Znwm', '_Znam', 'malloc'):
        n(nm, m_new)
    for nm in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
        n(nm, m_delete)
    n('__cxa_allocate_exception', m_throw)
    n('__cxa_begin_catch', m_begin_catch)
    n('__cxa_end_catch', m_nop)
    n('__cxa_rethrow', m_throw)
    n('__cxa_guard_acquire', m_one)
    n('__cxa_guard_release', m_nop)
    n('__cxa_atexit', m_zero)
    n('__clang_call_terminate', m_abort)
    n('_ZSt9terminatev', m_abort)
    n('abort', m_abort)
    rx(r'^std::__throw_\w+\(', m_throw)
    for nm in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove'):
        n(nm, m_memcpy)
    for nm in ('llvm.memset.p0.i64', 'memset'):
        n(nm, m_memset)
    n('llvm.umul.with.overflow.i64', m_umul_ov)
    n('llvm.trap', m_abort)
    n('llvm.stacksave.p0', lambda *a: NULL)
    n('llvm.stackrestore.p0', m_nop)
    n('__libc_single_threaded', m_nop)
    rx(r'^(std::)?ostream& std::operator<<|^std::ostream::|std::basic_ostream', m_nop)
