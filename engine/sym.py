"""Symbolic executor / verification-condition generator over the LLVM IR of the real code.

Every callee is executed through its own body unless a contract (a "model") is registered for it.
Each control path of a contract driver yields obligations   path condition  ==>  goal   which the
back ends in prove.py have to discharge for all inputs.  Nothing is bounded: loops either have a
trip count fixed by constants of the source, or need an inductive invariant (loops.py)."""
import re, subprocess, sys
from fractions import Fraction
import z3
import ir
from ir import IRError, PTR, DOUBLE

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """the code uses something outside the verifier's reach: undecided, never a violation"""


class PathEnd(Exception):
    pass


class NotHandled(Exception):
    pass


UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()


class SI:
    """integer: value is congruent to e modulo 2^width, and lo <= e <= hi"""
    __slots__ = ('e', 'lo', 'hi', 'b', 'mul')

    def __init__(self, e, lo, hi, b=None, mul=None):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.b = b
        self.mul = mul

    def __repr__(self):
        return 'SI(%s)[%s,%s]' % (self.e, self.lo, self.hi)


class Ptr:
    __slots__ = ('o', 'i', 'f')  # object id, element index (int or z3 term), byte offset inside element

    def __init__(self, o, i=0, f=0):
        self.o = o
        self.i = i
        self.f = f

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.o, self.i, self.f)


NULL = Ptr(None, 0, 0)


class IntPtr:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Packed:
    """raw bytes made of several cells"""
    __slots__ = ('size', 'parts')

    def __init__(self, size, parts):
        self.size = size
        self.parts = parts  # [(off,size,value)]


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Raw:
    """a value stored with one type class and read with another of the same size"""
    __slots__ = ('v', 'size')

    def __init__(self, v, size):
        self.v = v
        self.size = size


class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'fills', 'stride', 'fields', 'length', 'name', 'freed', 'own',
                 'layout', 'ro', 'tag', 'ty', 'heap')

    def __init__(self, id, kind, size, name):
        self.id = id
        self.kind = kind
        self.size = size
        self.cells = {}
        self.fills = []
        self.name = name
        self.freed = False
        self.own = None
        self.stride = None
        self.fields = None
        self.length = None
        self.layout = None
        self.ro = False
        self.tag = None
        self.ty = None
        self.heap = False

    def clone(self, own):
        o = Obj(self.id, self.kind, self.size, self.name)
        o.cells = dict(self.cells)
        o.fills = list(self.fills)
        o.freed = self.freed
        o.stride = self.stride
        o.fields = {k: v.clone() for k, v in self.fields.items()} if self.fields is not None else None
        o.length = self.length
        o.layout = self.layout
        o.ro = self.ro
        o.tag = self.tag
        o.ty = self.ty
        o.heap = self.heap
        o.own = own
        return o


class Field:
    """one scalar field of an array region: SMT array + pending writes (newest last)"""
    __slots__ = ('base', 'writes', 'kind', 'lo', 'hi', 'tag', 'const')

    def __init__(self, base, kind, lo=None, hi=None, tag=None, const=None):
        self.base = base      # z3 array or None
        self.const = const    # default python/z3 value when base is None
        self.writes = []
        self.kind = kind      # 'int' | 'real' | 'val' (arbitrary python value, uniform)
        self.lo = lo
        self.hi = hi
        self.tag = tag

    def clone(self):
        f = Field(self.base, self.kind, self.lo, self.hi, self.tag, self.const)
        f.writes = list(self.writes)
        return f


class Frame:
    __slots__ = ('fn', 'regs', 'block', 'pc', 'prev', 'call', 'allocas', 'visits', 'id', 'depth', 'loops', 'unrolled', 'begun')

    def __init__(self, fn, depth):
        self.fn = fn
        self.regs = {}
        self.block = None
        self.pc = 0
        self.prev = None
        self.call = None      # the Instr in the caller
        self.allocas = []
        self.visits = {}
        self.depth = depth
        self.loops = {}
        self.unrolled = frozenset()
        self.begun = frozenset()

    def clone(self):
        f = Frame(self.fn, self.depth)
        f.regs = dict(self.regs)
        f.block = self.block
        f.pc = self.pc
        f.prev = self.prev
        f.call = self.call
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        f.loops = dict(self.loops)
        f.unrolled = self.unrolled
        f.begun = self.begun
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.path = []
        self.own = object()
        self.ghost = {}
        self.facts = set()
        self.globals = {}
        self.loopstack = []

    def fork(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.path = list(self.path)
        s.own = object()
        self.own = object()
        s.ghost = dict(self.ghost)
        s.facts = set(self.facts)
        s.globals = dict(self.globals)
        s.loopstack = [dict(l) for l in self.loopstack]
        return s

    def wobj(self, id):
        o = self.mem[id]
        if o.own is not self.own:
            o = o.clone(self.own)
            self.mem[id] = o
        return o


class Obligation:
    __slots__ = ('label', 'path', 'goal', 'kind', 'where', 'instances', 'ghost')

    def __init__(self, label, path, goal, kind, where):
        self.label = label
        self.path = path
        self.goal = goal
        self.kind = kind
        self.where = where


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def tobool(b):
    if b is True or b is False:
        return z3.BoolVal(b)
    return b


def bnot(b):
    if b is True:
        return False
    if b is False:
        return True
    if z3.is_not(b):
        return b.arg(0)
    return z3.Not(b)


def band(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def bor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def beq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    if a.eq(b):
        return True
    return a == b


_demangle_cache = {}


def demangle(names):
    need = [n for n in names if n not in _demangle_cache]
    if need:
        out = subprocess.run(['c++filt'], input='\n'.join(need) + '\n', capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(need, out):
            _demangle_cache[n] = d
    return [_demangle_cache[n] for n in names]


def dm(name):
    if name not in _demangle_cache:
        demangle([name])
    return _demangle_cache[name]


def fp_const(t):
    if t.startswith('0x'):
        if t[2] in 'KMLHR':
            if t[2] == 'K':
                bits = int(t[3:], 16)
                mant = bits & ((1 << 64) - 1)
                ex = (bits >> 64) & 0x7fff
                sg = -1 if bits >> 79 else 1
                if mant == 0:
                    return Fraction(0)
                return sg * Fraction(mant) * Fraction(2) ** (ex - 16383 - 63)
            raise Unsupported('fp constant ' + t)
        import struct
        d = struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0]
        if d != d:
            return ('nan',)
        if d in (float('inf'), float('-inf')):
            return ('inf', 1 if d > 0 else -1)
        return Fraction(d)
    return Fraction(t) if ('e' not in t and 'E' not in t) else Fraction(float(t))


def R(x):
    """real value -> z3 term"""
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, tuple):
        raise Unsupported('non-finite floating point constant in arithmetic')
    return x


def isconst_real(x):
    return isinstance(x, Fraction)


# uninterpreted real functions
RR = {}


def ufn(name, nargs=1):
    k = (name, nargs)
    if k not in RR:
        RR[k] = z3.Function('u_' + name, *([z3.RealSort()] * (nargs + 1)))
    return RR[k]


def parity(e):
    """parity of an integer term when it is syntactically even or odd"""
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_int_value(e):
        return e.as_long() % 2
    if k == z3.Z3_OP_MUL:
        for c in e.children():
            if z3.is_int_value(c) and c.as_long() % 2 == 0:
                return 0
        return None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        r = 0
        for c in e.children():
            p = parity(c)
            if p is None:
                return None
            r ^= p
        return r
    return None


class Executor:
    MAXVISIT = 400

    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = opts or {}
        self.nobj = 0
        self.nvar = 0
        self.obligations = []
        self.ended = []          # (kind, state)
        self.models = []         # (regex, handler)
        self.mcache = {}
        self.fnmodels = {}
        self.ctx_solver = z3.Solver()
        self.ctx_solver.set('timeout', 1500)
        self.stack = []          # assertions pushed
        self.int_solver = z3.Solver()
        self.int_solver.set('timeout', 1500)
        self.int_stack = []
        self.real_cache = {}
        self.stats = dict(instr=0, paths=0, feas=0, forks=0)
        self.called = {}
        self.covers = {}
        self.covers_seen = {}
        self.record = True
        self.inputs = {}
        self.axiom_hooks = []    # f(ex, st, field, idx)
        self.replaced = set()
        self.loop_specs = []     # loop contracts (loops.py)
        self.loops_done = set()
        self.assumptions = set()
        self.maxpaths = self.opts.get('maxpaths', 4000)
        self.div0_ok = 0
        self.feas_cache = {}
        self.alive = {}
        self.nodiv0 = True
        self.pure = 0
        self.dry = False
        self.pure_facts = []
        self.last_facts = []

    # ------------------------------------------------------------------ helpers
    def fresh(self, base, sort):
        self.nvar += 1
        nm = '%s!%d' % (base, self.nvar)
        if sort == 'int':
            return z3.Int(nm)
        if sort == 'real':
            return z3.Real(nm)
        if sort == 'bool':
            return z3.Bool(nm)
        return z3.Const(nm, sort)

    def fresh_int(self, base, w, lo=None, hi=None):
        e = self.fresh(base, 'int')
        if lo is None:
            lo, hi = 0, (1 << w) - 1
        return SI(e, lo, hi)

    def new_obj(self, st, kind, size, name):
        self.nobj += 1
        o = Obj(self.nobj, kind, size, name)
        o.own = st.own
        st.mem[o.id] = o
        return o

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return
        if z3.is_false(cs):
            raise PathEnd()
        st.path.append(c)

    def add_fact(self, st, c):
        """a fact valid in every model of the inputs (axiom instance / bound); no feasibility effect intended"""
        if c is True:
            return
        if self.pure:
            self.pure_facts.append(c)
        k = self.idof(c)
        if k in st.facts:
            return
        st.facts.add(k)
        st.path.append(c)

    def idof(self, t):
        """identity of a term; the term is kept alive because z3 reuses the ids of dead terms"""
        k = t.get_id()
        if k not in self.alive:
            self.alive[k] = t
        return k

    def real_part(self, c):
        """whether a real value occurs in c"""
        k = self.idof(c)
        r = self.real_cache.get(k)
        if r is None:
            if z3.is_real(c) or (z3.is_array(c) and c.sort().range() == z3.RealSort()):
                r = True
            else:
                r = any(self.real_part(x) for x in c.children()) if z3.is_app(c) else True
            self.real_cache[k] = r
        return r

    def check_sat(self, st, extra):
        """feasibility of path + extra: False only if proved infeasible. Where extra has nothing to do with real values, the facts about real
        values are left out."""
        self.stats['feas'] += 1
        if self.real_part(extra):
            s, stack, p = self.ctx_solver, self.stack, st.path
        else:
            s, stack, p = self.int_solver, self.int_stack, [c for c in st.path if not self.real_part(c)]
        # align
        k = 0
        n = min(len(stack), len(p))
        while k < n and stack[k] is p[k]:
            k += 1
        if len(stack) > k:
            s.pop(len(stack) - k)
            del stack[k:]
        for c in p[k:]:
            s.push()
            s.add(c)
            stack.append(c)
        s.push()
        s.add(extra)
        r = s.check()
        s.pop()
        self.last_unknown = r == z3.unknown
        return r != z3.unsat

    def entailed(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        if not self.check_sat(st, z3.Not(c)):
            return True
        if self.last_unknown:
            # the incremental solver gave up: once more, from scratch
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*st.path)
            s.add(z3.Not(c))
            r = s.check()
            self.stats['again'] = self.stats.get('again', 0) + 1
            return r == z3.unsat
        return False

    def oblige(self, st, goal, label, kind='assert', assume_after=True):
        if not self.record:
            if self.dry and goal is not True and assume_after:
                if goal is False:
                    raise PathEnd()
                st.path.append(goal)
            return
        if goal is True:
            g = z3.BoolVal(True)
        elif goal is False:
            g = z3.BoolVal(False)
        else:
            g = goal
        ob = Obligation(label, list(st.path), g, kind, self.where(st))
        self.obligations.append(ob)
        if assume_after and goal is not True:
            if goal is False:
                raise PathEnd()
            st.path.append(g)

    def where(self, st):
        return [dm(f.fn.name)[:120] for f in st.frames[-3:]]

    # ------------------------------------------------------------------ integers
    def cs(self, c, w):
        """canonical signed constant"""
        return c - (1 << w) if c >= (1 << (w - 1)) else c

    def ie(self, v, w):
        """(term-or-int, lo, hi) any congruent representative; constants signed"""
        if isinstance(v, SI):
            return v.e, v.lo, v.hi
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            c = self.cs(v, w)
            return c, c, c
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0)), 0, 1
        if v is UNDEF:
            e = self.fresh('undef', 'int')
            return e, 0, (1 << w) - 1
        raise Unsupported('integer expected, got %r' % (type(v),))

    def asU(self, v, w):
        if isinstance(v, int):
            return v, v, v
        e, lo, hi = self.ie(v, w)
        M = 1 << w
        if isinstance(e, int):
            e %= M
            return e, e, e
        if lo >= 0 and hi < M:
            return e, lo, hi
        if lo >= -M and hi < 2 * M:
            r = e
            if hi >= M:
                r = z3.If(e >= M, e - M, r)
            if lo < 0:
                r = z3.If(e < 0, e + M, r)
            return r, 0, M - 1
        return e % M, 0, M - 1

    def asS(self, v, w):
        e, lo, hi = self.ie(v, w)
        H = 1 << (w - 1)
        if isinstance(e, int):
            return e, e, e
        if lo >= -H and hi < H:
            return e, lo, hi
        if lo >= -3 * H and hi < 3 * H:
            r = e
            if hi >= H:
                r = z3.If(e >= H, e - 2 * H, r)
            if lo < -H:
                r = z3.If(e < -H, e + 2 * H, r)
            return r, -H, H - 1
        return (e + H) % (2 * H) - H, -H, H - 1

    def mk(self, e, lo, hi, w, mul=None):
        if isinstance(e, int):
            return e % (1 << w)
        if lo == hi:
            return lo % (1 << w)
        return SI(e, lo, hi, None, mul)

    def int_op(self, st, op, a, b, w, flags):
        if w == 1:
            return self.bool_op(op, a, b)
        if isinstance(a, IntPtr) or isinstance(b, IntPtr):
            return self.intptr_op(st, op, a, b, w)
        if isinstance(a, (Packed, Raw)) or isinstance(b, (Packed, Raw)):
            a = self.unpack_int(a, w)
            b = self.unpack_int(b, w)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = self.cs(a, w), self.cs(b, w)
            if op == 'add': return (a + b) % M
            if op == 'sub': return (a - b) % M
            if op == 'mul': return (a * b) % M
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.oblige(st, False, 'integer division by zero', 'safety')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op == 'sdiv': return int(abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)) % M
            if op == 'srem':
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (sa - q * sb) % M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) % M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sa >> b) % M
            raise Unsupported(op)
        if op in ('add', 'sub', 'mul'):
            x, xl, xh = self.ie(a, w)
            y, yl, yh = self.ie(b, w)
            if op == 'add':
                if isinstance(y, int) and y == 0: return a
                if isinstance(x, int) and x == 0: return b
                return self.mk(x + y, xl + yl, xh + yh, w)
            if op == 'sub':
                if isinstance(y, int) and y == 0: return a
                if is_z3(x) and is_z3(y) and x.eq(y): return 0
                mul = None
                return self.mk(x - y, xl - yh, xh - yl, w, mul)
            if isinstance(y, int):
                if y == 0: return 0
                if y == 1: return a
                return self.mk(x * y, min(xl * y, xh * y), max(xl * y, xh * y), w, (x, y, xl, xh))
            if isinstance(x, int):
                return self.int_op(st, op, b, a, w, flags)
            c = [xl * yl, xl * yh, xh * yl, xh * yh]
            return self.mk(x * y, min(c), max(c), w)
        if op in ('udiv', 'urem'):
            x, xl, xh = self.asU(a, w)
            y, yl, yh = self.asU(b, w)
            x = z3.IntVal(x) if isinstance(x, int) else x
            if not isinstance(y, int):
                self.oblige(st, y != 0, 'integer division by zero', 'safety')
            elif y == 0:
                self.oblige(st, False, 'integer division by zero', 'safety')
            if op == 'udiv':
                if isinstance(a, SI) and a.mul and isinstance(y, int) and a.mul[1] == y and a.mul[2] >= 0:
                    return self.mk(a.mul[0], a.mul[2], a.mul[3], w)
                return self.mk(x / y, 0, xh // max(1, yl), w)
            return self.mk(x % y, 0, min(xh, yh - 1 if yh > 0 else 0), w)
        if op in ('sdiv', 'srem'):
            if op == 'sdiv' and isinstance(a, SI) and a.mul and isinstance(b, int) and a.mul[1] == b:
                return self.mk(a.mul[0], a.mul[2], a.mul[3], w)
            x, xl, xh = self.asS(a, w)
            y, yl, yh = self.asS(b, w)
            x = z3.IntVal(x) if isinstance(x, int) else x
            if not isinstance(y, int):
                self.oblige(st, y != 0, 'integer division by zero', 'safety')
                if yl < 0:
                    raise Unsupported('signed division by a symbolic value that may be negative')
                q = x / y
                if xl < 0:
                    q = z3.If(x >= 0, x / y, -((-x) / y))
                bnd = max(abs(xl), abs(xh))
                if op == 'sdiv':
                    return self.mk(q, -bnd, bnd, w)
                return self.mk(x - q * y, -bnd, bnd, w)
            if y == 0:
                self.oblige(st, False, 'integer division by zero', 'safety')
            ay = abs(y)
            q = x / ay
            if xl < 0:
                q = z3.If(x >= 0, x / ay, -((-x) / ay))
            if y < 0:
                q = -q
            bnd = max(abs(xl), abs(xh)) // ay
            if op == 'sdiv':
                return self.mk(q, -bnd if (xl < 0 or y < 0) else 0, bnd, w)
            return self.mk(x - q * y, -(ay - 1) if xl < 0 else 0, ay - 1, w)
        if op in ('and', 'or', 'xor'):
            ba = a.b if isinstance(a, SI) else (bool(a) if isinstance(a, int) and a in (0, 1) else None)
            bb = b.b if isinstance(b, SI) else (bool(b) if isinstance(b, int) and b in (0, 1) else None)
            if ba is not None and bb is not None:
                r = band(ba, bb) if op == 'and' else bor(ba, bb) if op == 'or' else bnot(beq(ba, bb))
                return self.bool_to_int(r)
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if op == 'and':
                    if b == 0: return 0
                    if b == M - 1: return a
                    if b & (b + 1) == 0:
                        e, lo, hi = self.ie(a, w)
                        if lo >= 0 and hi <= b: return a
                        return self.mk(e % (b + 1), 0, b, w)
                    if b == M - 2:
                        e, lo, hi = self.asU(a, w)
                        return self.mk(e - e % 2, 0, hi, w)
                if op == 'or' and b == 0: return a
                if op == 'or' and b == 1:
                    e, lo, hi = self.asU(a, w)
                    return self.mk(z3.If(e % 2 == 0, e + 1, e), max(lo, 1), hi | 1, w)
                if op == 'xor':
                    if b == 0: return a
                    if b == M - 1:
                        e, lo, hi = self.ie(a, w)
                        return self.mk(-e - 1, -hi - 1, -lo - 1, w)
                    if b == 1:
                        e, lo, hi = self.asU(a, w)
                        par = parity(e)
                        if par is not None:
                            return self.mk(z3.simplify(e + 1 - 2 * par), lo + 1 - 2 * par, hi + 1 - 2 * par, w)
                        return self.mk(z3.If(e % 2 == 0, e + 1, e - 1), max(0, lo - 1), min(M - 1, hi + 1), w)
            f = z3.Function('bv%s%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
            x, _, _ = self.asU(a, w)
            y, _, _ = self.asU(b, w)
            x = z3.IntVal(x) if isinstance(x, int) else x
            y = z3.IntVal(y) if isinstance(y, int) else y
            r = f(x, y)
            st.path.append(z3.And(r >= 0, r < M))
            return SI(r, 0, M - 1)
        if op == 'shl' and isinstance(b, int):
            return self.int_op(st, 'mul', a, (1 << b) % M, w, flags)
        if op == 'lshr' and isinstance(b, int):
            return self.int_op(st, 'udiv', a, 1 << b, w, flags)
        if op == 'ashr' and isinstance(b, int):
            if isinstance(a, SI) and a.mul and a.mul[1] == (1 << b):
                return self.mk(a.mul[0], a.mul[2], a.mul[3], w)
            x, lo, hi = self.asS(a, w)
            return self.mk(x / (1 << b), lo >> b, hi >> b, w)
        raise Unsupported('integer op %s' % op)

    def unpack_int(self, v, w):
        if isinstance(v, Raw):
            v = v.v
            if isinstance(v, (int, SI)):
                return v
            raise Unsupported('bit pattern of a non-integer used as integer')
        if isinstance(v, Packed):
            tot = None
            lo = hi = 0
            for off, sz, x in v.parts:
                e, l, h = self.asU(x, sz * 8)
                k = 1 << (8 * off)
                t = e * k
                lo += l * k
                hi += h * k
                tot = t if tot is None else tot + t
            return self.mk(tot, lo, hi, w)
        return v

    def bool_op(self, op, a, b):
        a = self.asbool(a)
        b = self.asbool(b)
        if op == 'and': return band(a, b)
        if op == 'or': return bor(a, b)
        if op in ('xor', 'add', 'sub'): return bnot(beq(a, b))
        if op == 'mul': return band(a, b)
        raise Unsupported('i1 ' + op)

    def asbool(self, v):
        if isinstance(v, bool) or z3.is_bool(v):
            return v
        if isinstance(v, int):
            return v % 2 == 1
        if isinstance(v, SI):
            if v.b is not None:
                return v.b
            if v.lo >= 0 and v.hi <= 1:
                return v.e == 1
            return v.e % 2 == 1
        if v is UNDEF:
            return self.fresh('undefb', 'bool')
        raise Unsupported('bool of %r' % (v,))

    def bool_to_int(self, b):
        if isinstance(b, bool):
            return int(b)
        return SI(z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1, b)

    def intptr_op(self, st, op, a, b, w):
        if op == 'sub' and isinstance(a, IntPtr) and isinstance(b, IntPtr):
            return self.ptr_diff(st, a.p, b.p)
        if op == 'sub' and isinstance(a, IntPtr) and isinstance(b, int) and b == 0:
            return a
        if op == 'sub' and isinstance(a, IntPtr) and isinstance(b, (int, SI)):
            raise Unsupported('pointer arithmetic on integers')
        if op == 'add' and isinstance(a, IntPtr) and isinstance(b, int):
            return IntPtr(self.ptr_add_bytes(st, a.p, self.cs(b, w)))
        if op == 'and' and isinstance(b, int):
            # member-function-pointer virtual bit test
            return 0
        raise Unsupported('integer op %s on pointers' % op)

    def ptr_diff(self, st, p, q):
        if p.o is None and q.o is None:
            return p.f - q.f
        if p.o != q.o:
            raise Unsupported('difference of pointers to different objects')
        o = st.mem[p.o]
        if o.kind == 'cells':
            return (p.f - q.f) % (1 << 64)
        s = o.stride
        d = p.i - q.i if not (isinstance(p.i, int) and isinstance(q.i, int)) else p.i - q.i
        df = p.f - q.f
        if isinstance(d, int):
            return (d * s + df) % (1 << 64)
        B = 1 << 62
        if df == 0:
            d = z3.simplify(d)
            if z3.is_int_value(d):
                return (d.as_long() * s) % (1 << 64)
            lo = 0 if self.known_nonneg(st, d) else -B
            return SI(d * s, lo * s, B * s, None, (d, s, lo, B))
        return SI(d * s + df, -B * s, B * s)

    def known_nonneg(self, st, d):
        return self.entailed(st, d >= 0)

    def icmp(self, st, pred, ty, a, b):
        if ty == PTR or isinstance(a, (Ptr, Fn, IntPtr)) or isinstance(b, (Ptr, Fn, IntPtr)):
            return self.pcmp(st, pred, a, b)
        w = self.tw(ty)
        if w == 1:
            a = self.asbool(a)
            b = self.asbool(b)
            if pred == 'eq': return beq(a, b)
            if pred == 'ne': return bnot(beq(a, b))
            a = self.bool_to_int(a)
            b = self.bool_to_int(b)
            w = 8
        a = self.unpack_int(a, w)
        b = self.unpack_int(b, w)
        if pred in ('eq', 'ne'):
            if isinstance(a, SI) and a.b is not None and isinstance(b, int) and b in (0, 1):
                r = a.b if b == 1 else bnot(a.b)
                return r if pred == 'eq' else bnot(r)
            x, xl, xh = self.ie(a, w)
            y, yl, yh = self.ie(b, w)
            M = 1 << w
            if max(xh, yh) - min(xl, yl) >= M:
                x, xl, xh = self.asU(a, w)
                y, yl, yh = self.asU(b, w)
                # constants: signed canonical vs unsigned
            r = self.cmp(x, y, xl, xh, yl, yh, 'eq')
            return r if pred == 'eq' else bnot(r)
        if pred[0] == 'u':
            x, xl, xh = self.asU(a, w)
            y, yl, yh = self.asU(b, w)
        else:
            x, xl, xh = self.asS(a, w)
            y, yl, yh = self.asS(b, w)
        return self.cmp(x, y, xl, xh, yl, yh, pred[1:])

    def cmp(self, x, y, xl, xh, yl, yh, p):
        if p == 'eq':
            if xh < yl or yh < xl: return False
            if isinstance(x, int) and isinstance(y, int): return x == y
            if is_z3(x) and is_z3(y) and x.eq(y): return True
            return x == y
        if p == 'lt':
            if xh < yl: return True
            if xl >= yh: return False
            return x < y
        if p == 'le':
            if xh <= yl: return True
            if xl > yh: return False
            return x <= y
        if p == 'gt': return self.cmp(y, x, yl, yh, xl, xh, 'lt')
        if p == 'ge': return self.cmp(y, x, yl, yh, xl, xh, 'le')
        raise Unsupported(p)

    def topt(self, v):
        if isinstance(v, IntPtr):
            return v.p
        if isinstance(v, Raw):
            return self.topt(v.v)
        if isinstance(v, int) and v == 0:
            return NULL
        if isinstance(v, int):
            return Ptr(None, 0, v)
        return v

    def pcmp(self, st, pred, a, b):
        a = self.topt(a)
        b = self.topt(b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return e if pred == 'eq' else not e
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer comparison of %r %r' % (a, b))
        if pred in ('eq', 'ne'):
            if a.o != b.o:
                r = False
            elif a.o is None:
                r = a.f == b.f
            else:
                if a.f != b.f:
                    r = False
                else:
                    r = True if isinstance(a.i, int) and isinstance(b.i, int) and a.i == b.i else \
                        (False if isinstance(a.i, int) and isinstance(b.i, int) else (True if is_z3(a.i) and is_z3(b.i) and a.i.eq(b.i) else a.i == b.i))
            return r if pred == 'eq' else bnot(r)
        if a.o != b.o:
            if a.o is None or b.o is None:
                # null compares below everything
                x = 0 if a.o is None else 1
                y = 0 if b.o is None else 1
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
            raise Unsupported('ordering of unrelated pointers')
        if isinstance(a.i, int) and isinstance(b.i, int):
            x, y = (a.i, a.f), (b.i, b.f)
            return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
        if a.f != b.f:
            raise Unsupported('pointer order')
        return {'ult': a.i < b.i, 'ule': a.i <= b.i, 'ugt': a.i > b.i, 'uge': a.i >= b.i}[pred]

    # ------------------------------------------------------------------ reals
    def fop(self, st, op, a, b):
        if a is UNDEF:
            a = self.fresh('undef', 'real')
        if b is UNDEF:
            b = self.fresh('undef', 'real')
        if isinstance(a, tuple) or isinstance(b, tuple):
            return ('nan',) if op != 'fsub' and op != 'fadd' else (a if isinstance(a, tuple) else b)
        ca, cb = isconst_real(a), isconst_real(b)
        if ca and cb:
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0:
                    return self.div_zero(st, a, b)
                return a / b
        if op == 'fadd':
            if ca and a == 0: return b
            if cb and b == 0: return a
            return R(a) + R(b)
        if op == 'fsub':
            if cb and b == 0: return a
            if ca and a == 0: return -R(b)
            return R(a) - R(b)
        if op == 'fmul':
            if ca and a == 1: return b
            if cb and b == 1: return a
            if (ca and a == 0) or (cb and b == 0): return Fraction(0)
            return R(a) * R(b)
        if op == 'fdiv':
            if cb:
                if b == 0:
                    return self.div_zero(st, a, b)
                if b == 1: return a
                return R(a) * z3.RealVal(1 / b)
            if self.nodiv0 and not st.ghost.get('div0ok'):
                self.oblige(st, R(b) != 0, 'floating-point division by zero', 'safety')
            elif st.ghost.get('div0ok') == 'assume':
                st.path.append(R(b) != 0)
                self.assumptions.add('a floating-point divisor that the contract does not constrain is assumed non-zero')
            return R(a) / R(b)
        if op == 'frem':
            return ufn('fmod', 2)(R(a), R(b))
        raise Unsupported(op)

    def div_zero(self, st, a, b):
        self.oblige(st, False, 'floating-point division by zero', 'safety')
        raise PathEnd()

    def fcmp(self, pred, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if (isinstance(a, tuple) and a == ('nan',)) or (isinstance(b, tuple) and b == ('nan',)):
                return pred[0] == 'u' and pred != 'une' or pred == 'une' or pred == 'uno'
            # finite reals are assumed: compare with +-inf
            if isinstance(b, tuple) and not isinstance(a, tuple):
                big = b[1] > 0
                return {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False, 'ne': True}[pred[1:]]
            if isinstance(a, tuple) and not isinstance(b, tuple):
                big = a[1] > 0
                return {'lt': not big, 'le': not big, 'gt': big, 'ge': big, 'eq': False, 'ne': True}[pred[1:]]
            x, y = a[1], b[1]
            return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[pred[1:]]
        if pred == 'uno': return False
        if pred == 'ord': return True
        if pred == 'true': return True
        if pred == 'false': return False
        if isconst_real(a) and isconst_real(b):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[pred[1:]]
        a = R(a)
        b = R(b)
        if a.eq(b):
            return pred[1:] in ('le', 'ge', 'eq')
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[pred[1:]]

    def freal(self, v):
        if v is UNDEF:
            return self.fresh('undef', 'real')
        return v

    # ------------------------------------------------------------------ types
    def tw(self, ty):
        if ty[0] == 'i':
            return ty[1]
        raise Unsupported('int width of %r' % (ty,))

    # ------------------------------------------------------------------ pointers
    def ptr_add_bytes(self, st, p, n):
        if n == 0:
            return p
        if p.o is None:
            return Ptr(None, 0, p.f + n)
        o = st.mem[p.o]
        if o.kind == 'cells':
            return Ptr(p.o, 0, p.f + n)
        t = p.f + n
        k, f = divmod(t, o.stride)
        return Ptr(p.o, p.i + k if k else p.i, f)

    def ptr_add_elems(self, st, p, idx, size, w=64):
        """p + idx*size where idx may be symbolic"""
        if isinstance(idx, (Packed, Raw)):
            idx = self.unpack_int(idx, w)
        if isinstance(idx, bool):
            idx = int(idx)
        if isinstance(idx, int):
            return self.ptr_add_bytes(st, p, self.cs(idx, w) * size)
        if p.o is None:
            # only null + 0 is allowed
            self.oblige(st, self.asU(idx, 64)[0] == 0 if isinstance(idx, SI) else False, 'no arithmetic on a null pointer', 'safety')
            return p
        o = st.mem[p.o]
        if idx is UNDEF:
            raise Unsupported('undefined index')
        if o.kind == 'cells':
            v = self.concretize(st, idx, w, 0, max(0, o.size // max(1, size)) if o.size else 16)
            return self.ptr_add_bytes(st, p, v * size)
        if size == 0:
            return p
        # avoid sign normalisation: index terms that are canonical unsigned stay as they are
        if idx.lo >= 0:
            e, lo, hi = idx.e, idx.lo, idx.hi
        else:
            e, lo, hi = self.asS(idx, w)
        if size % o.stride == 0:
            k = size // o.stride
            return Ptr(p.o, z3.simplify(p.i + (e * k if k != 1 else e)) if not (isinstance(p.i, int) and p.i == 0 and k == 1) else e, p.f)
        # byte-level with a factor
        if idx.mul and (idx.mul[1] * size) % o.stride == 0:
            k = idx.mul[1] * size // o.stride
            return Ptr(p.o, z3.simplify(p.i + idx.mul[0] * k), p.f)
        if o.stride % size == 0 and size > 0:
            # inner array of the element: enumerate
            v = self.concretize(st, idx, w, 0, o.stride // size)
            return self.ptr_add_bytes(st, p, v * size)
        raise Unsupported('symbolic byte offset into array of stride %d' % o.stride)

    def concretize(self, st, v, w, lo, n):
        """fork over the possible values of a small symbolic integer; continues with one, schedules the others"""
        if isinstance(v, int):
            return self.cs(v, w)
        e, l, h = self.asS(v, w)
        lo = max(lo, l)
        hi = min(lo + n - 1 if n else lo, h)
        vals = []
        for c in range(lo, hi + 1):
            if len(vals) > 40:
                raise Unsupported('too many values to enumerate')
            if self.check_sat(st, e == c):
                vals.append(c)
        inr = z3.And(e >= lo, e <= hi) if not (l >= lo and h <= hi) else True
        if inr is not True:
            self.oblige(st, inr, 'index within object bounds', 'safety')
        if not vals:
            raise PathEnd()
        raise ForkValues([(c, e == c) for c in vals], v)

    # ------------------------------------------------------------------ memory
    def zero_of(self, mod, ty):
        t = mod.resolve(ty)
        if t[0] == 'i':
            return False if t[1] == 1 else 0
        if t == PTR:
            return NULL
        if t[0] in ('double', 'float', 'x86_fp80'):
            return Fraction(0)
        if t[0] == 'vec':
            return Agg([self.zero_of(mod, t[2]) for _ in range(t[1])])
        if t[0] == 'struct':
            return Agg([self.zero_of(mod, e) for e in t[2]])
        if t[0] == 'array':
            return Agg([self.zero_of(mod, t[2]) for _ in range(t[1])])
        raise Unsupported('zero of %r' % (t,))

    def fresh_of(self, mod, ty, base='any'):
        t = mod.resolve(ty)
        if t[0] == 'i':
            if t[1] == 1:
                return self.fresh(base, 'bool')
            return SI(self.fresh(base, 'int'), 0, (1 << t[1]) - 1)
        if t[0] in ('double', 'float', 'x86_fp80'):
            return self.fresh(base, 'real')
        if t[0] in ('vec', 'array'):
            return Agg([self.fresh_of(mod, t[2], base) for _ in range(t[1])])
        if t[0] == 'struct':
            return Agg([self.fresh_of(mod, e, base) for e in t[2]])
        return UNDEF

    def coerce(self, st, v, mod, ty, size):
        t = mod.resolve(ty)
        if isinstance(v, Raw) and t[0] != 'i':
            v = v.v
        if v is UNDEF:
            return v
        if t[0] == 'i':
            if t[1] == 1:
                return self.asbool(v)
            if isinstance(v, Ptr):
                return IntPtr(v)
            if isinstance(v, (int, SI, IntPtr, Packed)):
                return v
            if isinstance(v, Raw):
                return v if not isinstance(v.v, (int, SI)) else v.v
            if isinstance(v, bool) or z3.is_bool(v):
                return self.bool_to_int(v)
            return Raw(v, size)
        if t == PTR:
            if isinstance(v, (Ptr, Fn)):
                return v
            if isinstance(v, int):
                return self.topt(v)
            if isinstance(v, IntPtr):
                return v.p
            if isinstance(v, Packed):
                raise Unsupported('pointer from packed bytes')
            raise Unsupported('load pointer from %r' % (v,))
        if t[0] in ('double', 'float'):
            if isinstance(v, (Fraction, tuple)) or (is_z3(v) and z3.is_real(v)):
                return v
            if isinstance(v, int) and v == 0:
                return Fraction(0)
            raise Unsupported('load double from %r' % (type(v),))
        return v

    def store(self, st, p, v, mod, ty):
        t = mod.resolve(ty)
        p = self.topt(p)
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if t[0] in ('struct', 'array', 'vec'):
            n = len(t[2]) if t[0] == 'struct' else t[1]
            vals = v.v if isinstance(v, Agg) else [v] * n
            for i in range(n):
                off, et = mod.field(t, i)
                self.store(st, self.ptr_add_bytes(st, p, off), vals[i], mod, et)
            return
        size = mod.sizeof(t)
        if p.o is None:
            self.oblige(st, False, 'store through null pointer', 'safety')
            raise PathEnd()
        o = st.mem[p.o]
        if o.freed:
            self.oblige(st, False, 'store to freed memory (%s)' % o.name, 'safety')
            raise PathEnd()
        if o.kind == 'cells':
            if p.f < 0 or (o.size is not None and p.f + size > o.size):
                self.oblige(st, False, 'store out of bounds of %s' % o.name, 'safety')
                raise PathEnd()
            o = st.wobj(p.o)
            if isinstance(v, Packed):
                self.clear_cells(o, p.f, v.size)
                for off, sz, x in v.parts:
                    o.cells[p.f + off] = (sz, x)
                return
            self.put_cell(o, p.f, size, v)
            self.log_write(st, p.o, p.f, size, None)
            return
        # region
        self.bounds(st, o, p, 'store')
        o = st.wobj(p.o)
        if isinstance(v, Packed):
            for off, sz, x in v.parts:
                self.region_write(st, o, p.f + off, p.i, x, sz)
            return
        self.region_write(st, o, p.f, p.i, v, size)

    def log_write(self, st, oid, f, size, idx):
        for l in st.loopstack:
            l.setdefault('w', {})[(oid, f)] = size

    def put_cell(self, o, f, size, v):
        c = o.cells.get(f)
        if c is not None and c[0] == size:
            o.cells[f] = (size, v)
            return
        self.clear_cells(o, f, size)
        o.cells[f] = (size, v)

    def clear_cells(self, o, f, size):
        for k in [k for k, (s, _) in o.cells.items() if k < f + size and k + s > f]:
            s, v = o.cells[k]
            if k < f or k + s > f + size:
                # partial overlap: split if integer
                if isinstance(v, int):
                    for b in range(s):
                        if not (f <= k + b < f + size):
                            o.cells[k + b] = (1, (v >> (8 * b)) & 255)
                elif isinstance(v, Packed):
                    for off, sz, x in v.parts:
                        if not (k + off < f + size and k + off + sz > f):
                            o.cells[k + off] = (sz, x)
                else:
                    pass
            if k in o.cells and o.cells[k][0] == s and not (k < f and isinstance(v, int)):
                del o.cells[k]
            elif k in o.cells and k >= f:
                del o.cells[k]

    def bounds(self, st, o, p, what):
        if o.length is None:
            return
        L = o.length
        if isinstance(p.i, int) and isinstance(L, int):
            if not (0 <= p.i < L):
                self.oblige(st, False, '%s out of bounds of %s' % (what, o.name), 'safety')
                raise PathEnd()
            return
        if self.pure:
            return
        key = ('bnd', o.id, p.i if isinstance(p.i, int) else ('t', self.idof(p.i)), L if isinstance(L, int) else ('t', self.idof(L)))
        if key in st.facts:
            return
        st.facts.add(key)
        if not st.ghost.get('nobounds'):
            i = p.i
            self.oblige(st, z3.And(i >= 0, i < L) if not isinstance(i, int) else (L > i),
                        '%s within bounds of %s' % (what, o.name), 'safety')

    def idx_eq(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, int):
            a, b = b, a
        if is_z3(b) and a.eq(b):
            return True
        c = z3.simplify(a == b)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.pure:
            ck = (tuple(self.idof(x) for x in st.path), self.idof(c))
            r = self.feas_cache.get(ck)
            if r is None:
                if not self.check_sat(st, c):
                    r = False
                elif not self.check_sat(st, z3.Not(c)):
                    r = True
                else:
                    r = c
                self.feas_cache[ck] = r
            return r
        return c

    def region_read(self, st, o, f, i, size, hook=True):
        fld = o.fields.get(f)
        if fld is None:
            raise Unsupported('read of undeclared field %d of %s' % (f, o.name))
        if hook and fld.base is not None:
            for h in self.axiom_hooks:
                h(self, st, o, fld, i)
        # newest first
        conds = []
        res = None
        for wi, wv in reversed(fld.writes):
            if isinstance(wi, str):
                res = wv(i)
                for c in self.last_facts:
                    self.add_fact(st, c)
                break
            e = self.idx_eq(st, i, wi)
            if e is True:
                res = wv
                break
            if e is False:
                continue
            conds.append((e, wv))
        if res is None:
            if fld.base is not None:
                t = z3.Select(fld.base, i if is_z3(i) else z3.IntVal(i))
                rw = st.ghost.get('rewrites')
                if rw:
                    t = rw.get(self.idof(t), t)
                res = SI(t, fld.lo, fld.hi) if fld.kind == 'int' else t
                if fld.kind == 'int' and fld.lo is not None:
                    self.add_fact(st, z3.And(t >= fld.lo, t <= fld.hi))
            else:
                res = fld.const
        for e, wv in reversed(conds):
            res = self.merge(st, e, wv, res)
        return res

    def merge(self, st, c, a, b):
        """If(c,a,b) on values"""
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.f == b.f and (
                (isinstance(a.i, int) and isinstance(b.i, int) and a.i == b.i) or (is_z3(a.i) and is_z3(b.i) and a.i.eq(b.i))):
            return a
        if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.o is not None and a.f == b.f and st.mem[a.o].kind == 'region':
            return Ptr(a.o, z3.If(c, a.i if is_z3(a.i) else z3.IntVal(a.i), b.i if is_z3(b.i) else z3.IntVal(b.i)), a.f)
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            raise ForkCond(c)
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, bool) or z3.is_bool(a) or isinstance(b, bool) or z3.is_bool(b):
            a = self.asbool(a)
            b = self.asbool(b)
            return z3.If(c, tobool(a), tobool(b))
        if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
            if isinstance(a, int) and isinstance(b, int) and a == b: return a
            ea, al, ah = (a, a, a) if isinstance(a, int) else (a.e, a.lo, a.hi)
            eb, bl, bh = (b, b, b) if isinstance(b, int) else (b.e, b.lo, b.hi)
            ba = a.b if isinstance(a, SI) else (bool(a) if a in (0, 1) else None)
            bb = b.b if isinstance(b, SI) else (bool(b) if b in (0, 1) else None)
            nb = None
            if ba is not None and bb is not None:
                nb = z3.If(c, tobool(ba), tobool(bb))
            if is_z3(ea) and is_z3(eb) and ea.eq(eb): return a
            return SI(z3.If(c, ea if is_z3(ea) else z3.IntVal(ea), eb if is_z3(eb) else z3.IntVal(eb)), min(al, bl), max(ah, bh), nb)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise ForkCond(c)
        if isinstance(a, Agg):
            return Agg([self.merge(st, c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, (Fraction,)) or isinstance(b, Fraction) or z3.is_real(a):
            if isinstance(a, Fraction) and isinstance(b, Fraction) and a == b: return a
            if is_z3(a) and is_z3(b) and a.eq(b): return a
            return z3.If(c, R(a), R(b))
        raise ForkCond(c)

    def region_write(self, st, o, f, i, v, size):
        fld = o.fields.get(f)
        if fld is None:
            # fresh allocation: declare on first write
            kind = 'real' if isinstance(v, Fraction) or (is_z3(v) and z3.is_real(v)) else 'int' if isinstance(v, (int, SI)) else 'val'
            fld = Field(None, kind, const=UNDEF)
            o.fields[f] = fld
        if isinstance(v, bool) or z3.is_bool(v):
            v = self.bool_to_int(v)
        if fld.kind == 'int' and isinstance(v, SI) and fld.lo is not None and (v.lo < fld.lo or v.hi > fld.hi):
            e, lo, hi = self.asU(v, size * 8) if fld.lo >= 0 else self.asS(v, size * 8)
            v = SI(e, lo, hi, v.b)
        if fld.writes and not isinstance(fld.writes[-1][0], str):
            wi = fld.writes[-1][0]
            if (isinstance(wi, int) and isinstance(i, int) and wi == i) or (is_z3(wi) and is_z3(i) and wi.eq(i)):
                fld.writes[-1] = (i, v)
                self.log_write(st, o.id, f, size, i)
                return
        fld.writes.append((i, v))
        self.log_write(st, o.id, f, size, i)

    def load(self, st, p, mod, ty):
        t = mod.resolve(ty)
        p = self.topt(p)
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if t[0] in ('struct', 'array', 'vec'):
            n = len(t[2]) if t[0] == 'struct' else t[1]
            out = []
            for i in range(n):
                off, et = mod.field(t, i)
                out.append(self.load(st, self.ptr_add_bytes(st, p, off), mod, et))
            return Agg(out)
        size = mod.sizeof(t)
        if p.o is None:
            self.oblige(st, False, 'load through null pointer', 'safety')
            raise PathEnd()
        o = st.mem[p.o]
        if o.freed:
            self.oblige(st, False, 'load from freed memory (%s)' % o.name, 'safety')
            raise PathEnd()
        if o.kind == 'region':
            self.bounds(st, o, p, 'load')
            if p.f in o.fields or not o.layout:
                if p.f not in o.fields:
                    # memory nothing was written to: any value
                    if t == ('double',) or ty == 'double':
                        return self.fresh('uninit', 'real')
                    if size in (1, 4, 8) and t[0] == 'i':
                        v = self.fresh_int('uninit', size * 8)
                        st.path.append(z3.And(v.e >= 0, v.e <= v.hi))
                        return v
                    raise Unsupported('read of untyped region %s' % o.name)
                return self.coerce(st, self.region_read(st, o, p.f, p.i, size), mod, ty, size)
            # element read as raw bytes (struct passed in registers): pack
            parts = []
            for off, (sz, _) in sorted((k, (self.fsize(o, k), None)) for k in o.fields):
                if p.f <= off < p.f + size:
                    parts.append((off - p.f, sz, self.region_read(st, o, off, p.i, sz)))
            if parts:
                return Packed(size, parts)
            raise Unsupported('read of undeclared field of %s' % o.name)
        c = o.cells.get(p.f)
        if c is not None and c[0] == size:
            return self.coerce(st, c[1], mod, ty, size)
        return self.load_odd(st, o, p, mod, ty, t, size)

    def fsize(self, o, off):
        for k, tt, s in o.layout:
            if k == off:
                return s
        return 8

    def load_odd(self, st, o, p, mod, ty, t, size):
        f = p.f
        if f < 0 or (o.size is not None and f + size > o.size):
            self.oblige(st, False, 'load out of bounds of %s' % o.name, 'safety')
            raise PathEnd()
        ov = sorted((k, s, v) for k, (s, v) in o.cells.items() if k < f + size and k + s > f)
        if not ov:
            for lo, hi, byte in reversed(o.fills):
                if lo <= f and f + size <= hi:
                    if byte == 0:
                        return self.zero_of(mod, ty)
                    if t[0] == 'i':
                        return int.from_bytes(bytes([byte]) * size, 'little')
                    raise Unsupported('fill pattern')
            if o.tag == 'bytes':
                raise Unsupported('string constant access')
            v = self.fresh_of(mod, ty, 'uninit_' + re.sub(r'\W', '_', o.name)[:20])
            if t == PTR:
                if o.tag == 'extern':
                    return NULL
                return UNDEF
            o = st.wobj(p.o)
            o.cells[f] = (size, v)
            return v
        if len(ov) == 1 and ov[0][0] <= f and ov[0][0] + ov[0][1] >= f + size:
            k, s, v = ov[0]
            if isinstance(v, Packed):
                for off, sz, x in v.parts:
                    if k + off == f and sz == size:
                        return self.coerce(st, x, mod, ty, size)
                sub = [(k + off - f, sz, x) for off, sz, x in v.parts if k + off >= f and k + off + sz <= f + size]
                if sub:
                    return Packed(size, sub)
                raise Unsupported('partial packed load')
            if isinstance(v, Raw):
                v = v.v
            if isinstance(v, int):
                x = (v >> (8 * (f - k))) & ((1 << (8 * size)) - 1)
                return x if t[0] == 'i' else self.coerce(st, x, mod, ty, size)
            if isinstance(v, SI):
                e, lo, hi = self.asU(v, s * 8)
                sh = 1 << (8 * (f - k))
                x = e / sh if sh > 1 else e
                if hi // sh < (1 << (8 * size)):
                    return self.mk(x, 0, hi // sh, size * 8)
                return self.mk(x % (1 << (8 * size)), 0, (1 << (8 * size)) - 1, size * 8)
            if v is UNDEF:
                return UNDEF
            raise Unsupported('partial load of %r' % (type(v),))
        parts = []
        for k, s, v in ov:
            if k < f or k + s > f + size:
                raise Unsupported('misaligned load')
            parts.append((k - f, s, v))
        if all(isinstance(v, int) for _, _, v in parts) and sum(s for _, s, _ in parts) == size:
            return sum(v << (8 * k) for k, s, v in parts)
        return Packed(size, parts)

    def copy_mem(self, st, dst, src, n):
        dst = self.topt(dst)
        src = self.topt(src)
        if isinstance(n, SI):
            raise NotHandled('symbolic memcpy')
        if n == 0:
            return
        if dst.o is None or src.o is None:
            self.oblige(st, False, 'memcpy with null', 'safety')
            raise PathEnd()
        so = st.mem[src.o]
        do = st.mem[dst.o]
        if so.freed or do.freed:
            self.oblige(st, False, 'memcpy of freed memory', 'safety')
            raise PathEnd()
        vals = []
        if so.kind == 'cells':
            if so.size is not None and src.f + n > so.size or src.f < 0:
                self.oblige(st, False, 'memcpy reads out of bounds of %s' % so.name, 'safety')
                raise PathEnd()
            for k, (s, v) in so.cells.items():
                if k < src.f + n and k + s > src.f:
                    if k < src.f or k + s > src.f + n:
                        if isinstance(v, int):
                            for b in range(s):
                                if src.f <= k + b < src.f + n:
                                    vals.append((k + b - src.f, 1, (v >> (8 * b)) & 255))
                            continue
                        raise Unsupported('memcpy splits a cell')
                    vals.append((k - src.f, s, v))
            fills = [(max(lo, src.f) - src.f, min(hi, src.f + n) - src.f, b) for lo, hi, b in so.fills if lo < src.f + n and hi > src.f]
        else:
            if n > so.stride:
                k, rest = divmod(n, so.stride)
                if rest or src.f or not isinstance(k, int):
                    raise Unsupported('memcpy over several array elements')
                for e in range(k):
                    for off, tt, s in so.layout or []:
                        if off in so.fields:
                            vals.append((e * so.stride + off, s, self.region_read(st, so, off, src.i + e, s)))
            else:
                self.bounds(st, so, src, 'load')
                for off, tt, s in so.layout or []:
                    if src.f <= off < src.f + n and off in so.fields:
                        vals.append((off - src.f, s, self.region_read(st, so, off, src.i, s)))
            fills = []
        if do.kind == 'cells':
            if do.size is not None and dst.f + n > do.size or dst.f < 0:
                self.oblige(st, False, 'memcpy writes out of bounds of %s' % do.name, 'safety')
                raise PathEnd()
            do = st.wobj(dst.o)
            self.clear_cells(do, dst.f, n)
            do.fills = [x for x in do.fills if not (x[0] >= dst.f and x[1] <= dst.f + n)]
            for lo, hi, b in fills:
                do.fills.append((dst.f + lo, dst.f + hi, b))
            for off, s, v in vals:
                do.cells[dst.f + off] = (s, v)
                self.log_write(st, do.id, dst.f + off, s, None)
        else:
            if dst.f + n > do.stride:
                if dst.f or n % do.stride:
                    raise Unsupported('memcpy over several array elements')
                do = st.wobj(dst.o)
                for off, s, v in vals:
                    self.region_write(st, do, off % do.stride, dst.i + off // do.stride, v, s)
                return
            self.bounds(st, do, dst, 'store')
            do = st.wobj(dst.o)
            for off, s, v in vals:
                self.region_write(st, do, dst.f + off, dst.i, v, s)

    def set_mem(self, st, dst, byte, n):
        dst = self.topt(dst)
        if isinstance(n, SI) or not isinstance(byte, int):
            raise Unsupported('symbolic memset')
        if n == 0:
            return
        o = st.wobj(dst.o)
        if o.kind == 'region':
            raise Unsupported('memset on array region')
        self.clear_cells(o, dst.f, n)
        o.fills.append((dst.f, dst.f + n, byte & 255))
        for l in st.loopstack:
            l.setdefault('w', {})[(o.id, dst.f)] = n

    # ------------------------------------------------------------------ constants / globals
    def global_ptr(self, st, name, mod):
        f = self.prog.function(name)
        if f is not None:
            return Fn(name)
        key = name
        if key in st.globals:
            return Ptr(st.globals[key])
        g = self.prog.find_global(name, mod)
        if g is None:
            return Fn(name)  # external function
        m, gd = g
        if gd[0] == 'alias':
            return self.const(st, m, PTR, gd[1])
        _, ty, init, isconst = gd
        if m.resolve(ty)[0] == 'func':
            return Fn(name)
        o = self.new_obj(st, 'cells', m.sizeof(ty), '@' + name)
        st.globals[key] = o.id
        if init is not None:
            self.init_global(st, o, 0, m, ty, init)
            if not isconst:
                o.ro = False
        else:
            o.tag = 'extern'
            o.size = None
        return Ptr(o.id)

    def init_global(self, st, o, off, m, ty, v):
        t = m.resolve(ty)
        if v[0] == 'zero':
            o.fills.append((off, off + m.sizeof(t), 0))
            return
        if v[0] == 'cstr':
            o.tag = 'bytes' if not o.cells else o.tag
            b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda mm: chr(int(mm.group(1), 16)), v[1])
            for k, ch in enumerate(b):
                o.cells[off + k] = (1, ord(ch) & 255)
            return
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                fo, ft = m.field(t, i)
                self.init_global(st, o, off + fo, m, et, ev)
            return
        if v[0] == 'undef':
            return
        o.cells[off] = (m.sizeof(t), self.const(st, m, ty, v))

    def const(self, st, mod, ty, v):
        k = v[0]
        if k == 'int':
            t = mod.resolve(ty)
            if t[1] == 1:
                return bool(v[1] & 1)
            return v[1] % (1 << t[1])
        if k == 'fp':
            if ty[0] == 'float' and v[1].startswith('0x'):
                return fp_const(v[1])
            return fp_const(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            t = mod.resolve(ty)
            if t[0] in ('struct', 'array', 'vec'):
                n = len(t[2]) if t[0] == 'struct' else t[1]
                return Agg([UNDEF] * n)
            return UNDEF
        if k == 'zero':
            return self.zero_of(mod, ty)
        if k == 'glob':
            return self.global_ptr(st, v[1], mod)
        if k == 'agg':
            return Agg([self.const(st, mod, a, b) for a, b in v[1]])
        if k == 'cgep':
            base = self.const(st, mod, v[2][0], v[2][1])
            return self.gep(st, mod, v[1], base, [self.const(st, mod, a, b) for a, b in v[3]], [a for a, b in v[3]])
        if k == 'ccast':
            x = self.const(st, mod, v[2][0], v[2][1])
            return self.cast(st, mod, v[1], v[2][0], v[3], x)
        if k == 'cbin':
            a = self.const(st, mod, *v[2])
            b = self.const(st, mod, *v[3])
            return self.int_op(st, v[1], a, b, self.tw(v[2][0]), [])
        raise Unsupported('constant ' + k)

    def val(self, st, fr, ty, v):
        if v[0] == 'reg':
            return fr.regs[v[1]]
        return self.const(st, fr.fn.mod, ty, v)

    def gep(self, st, mod, sty, base, idx, itys):
        p = self.topt(base)
        if isinstance(p, Fn):
            raise Unsupported('gep on function')
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        p = self.ptr_add_elems(st, p, idx[0], mod.sizeof(sty), itys[0][1])
        t = sty
        for i, it in zip(idx[1:], itys[1:]):
            r = mod.resolve(t)
            if r[0] == 'struct':
                off, t = mod.field(r, i if isinstance(i, int) else int(i))
                p = self.ptr_add_bytes(st, p, off)
            elif r[0] in ('array', 'vec'):
                t = r[2]
                p = self.ptr_add_elems(st, p, i, mod.sizeof(t), it[1])
            else:
                raise Unsupported('gep into %r' % (r,))
        return p

    def cast(self, st, mod, op, t1, t2, v):
        if op in ('zext', 'sext', 'trunc'):
            w1 = self.tw(t1)
            w2 = self.tw(t2)
            if isinstance(v, (IntPtr,)):
                if op == 'trunc':
                    raise Unsupported('trunc of pointer')
                return v
            if op == 'trunc':
                if w2 == 1:
                    return self.asbool(v)
                v = self.unpack_int(v, w1)
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, int):
                    return v % (1 << w2)
                if v.lo >= 0 and v.hi < (1 << w2):
                    return v
                return SI(v.e, v.lo, v.hi, v.b if v.b is not None else None)
            if w1 == 1:
                b = self.asbool(v)
                if op == 'zext':
                    return self.bool_to_int(b)
                if isinstance(b, bool):
                    return ((1 << w2) - 1) if b else 0
                return SI(z3.If(b, z3.IntVal(-1), z3.IntVal(0)), -1, 0)
            v = self.unpack_int(v, w1)
            if op == 'zext':
                if isinstance(v, int):
                    return v
                if v is UNDEF:
                    return UNDEF
                if v.b is not None:
                    return v
                e, lo, hi = self.asU(v, w1)
                return self.mk(e, lo, hi, w2)
            if isinstance(v, int):
                return self.cs(v, w1) % (1 << w2)
            if v is UNDEF:
                return UNDEF
            if v.b is not None and w1 > 1:
                return v
            e, lo, hi = self.asS(v, w1)
            return self.mk(e, lo, hi, w2, v.mul if isinstance(v, SI) and lo == v.lo and hi == v.hi else None)
        if op in ('fptrunc', 'fpext'):
            return v
        if op == 'sitofp' or op == 'uitofp':
            w = self.tw(t1)
            if w == 1:
                v = self.bool_to_int(self.asbool(v))
                w = 8
            v = self.unpack_int(v, w)
            e, lo, hi = self.asS(v, w) if op == 'sitofp' else self.asU(v, w)
            if isinstance(e, int):
                return Fraction(e)
            return z3.ToReal(e)
        if op in ('fptosi', 'fptoui'):
            w = self.tw(t2)
            if isinstance(v, Fraction):
                return int(v) % (1 << w)
            if isinstance(v, tuple):
                raise Unsupported('nonfinite to int')
            H = 1 << (w - 1)
            lo, hi = (-H, H - 1) if op == 'fptosi' else (0, 2 * H - 1)
            x = v
            if v is UNDEF:
                return UNDEF
            x = z3.simplify(v)
            # exact conversion of an integer-valued real term
            ii = self.as_int_term(x)
            if ii is not None:
                e = ii
            elif op == 'fptosi':
                e = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            else:
                e = z3.ToInt(x)
            if not st.ghost.get('fp2int_ok'):
                self.oblige(st, z3.And(e >= lo, e <= hi), 'floating value fits the integer type', 'safety')
                return SI(e, lo, hi)
            return SI(e, -(1 << 80), 1 << 80)
        if op == 'ptrtoint':
            v = self.topt(v)
            if v.o is None if isinstance(v, Ptr) else False:
                return v.f
            return IntPtr(v)
        if op == 'inttoptr':
            return self.topt(v)
        if op == 'bitcast':
            if t1 == t2 or (t1 == PTR and t2 == PTR):
                return v
            if isinstance(v, Raw):
                return v.v
            return Raw(v, 8)
        raise Unsupported('cast ' + op)

    def as_int_term(self, x):
        """if the real term is integer valued by construction return an Int term"""
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            return x.arg(0)
        if z3.is_rational_value(x) and x.denominator_as_long() == 1:
            return z3.IntVal(x.numerator_as_long())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            a = self.as_int_term(x.arg(1))
            b = self.as_int_term(x.arg(2))
            if a is not None and b is not None:
                return z3.If(x.arg(0), a, b)
        if z3.is_add(x) or z3.is_sub(x):
            ch = [self.as_int_term(c) for c in x.children()]
            if all(c is not None for c in ch):
                r = ch[0]
                for c in ch[1:]:
                    r = r + c if z3.is_add(x) else r - c
                return r
        if z3.is_mul(x):
            ch = [self.as_int_term(c) for c in x.children()]
            if all(c is not None for c in ch):
                r = ch[0]
                for c in ch[1:]:
                    r = r * c
                return r
        if z3.is_app_of(x, z3.Z3_OP_UMINUS):
            a = self.as_int_term(x.arg(0))
            if a is not None:
                return -a
        return None

    # ------------------------------------------------------------------ run
    def run(self, fname, st=None, args=()):
        fn = self.prog.function(fname)
        if fn is None:
            raise Unsupported('no function ' + fname)
        st = st or State()
        self.push_call(st, fn, list(args), None)
        work = [st]
        while work:
            s = work.pop()
            self.explore(s, work)
            self.stats['paths'] += 1
            if self.stats['paths'] > self.maxpaths:
                raise Unsupported('more than %d paths' % self.maxpaths)

    def push_call(self, st, fn, args, instr):
        depth = len(st.frames)
        if depth > 220:
            raise Unsupported('call depth (recursion) in ' + dm(fn.name)[:80])
        fr = Frame(fn, depth)
        for (ty, nm, at), a in zip(fn.params, args):
            if 'byval' in at:
                o = self.new_obj(st, 'cells', fn.mod.sizeof(at['byval']), 'byval')
                self.copy_mem(st, Ptr(o.id), a, fn.mod.sizeof(at['byval']))
                a = Ptr(o.id)
            fr.regs[nm] = a
        if not fn.blocks:
            raise Unsupported('empty function')
        fr.block = fn.entry
        fr.call = instr
        st.frames.append(fr)
        self.called[fn.name] = self.called.get(fn.name, 0) + 1

    def explore(self, st, work):
        try:
            while st.frames:
                self.step(st, work)
        except PathEnd:
            return
        except Done:
            return

    def fork_on(self, st, work, conds, redo=True):
        """continue st with the first feasible cond, push clones for the others"""
        feas = []
        for c in conds:
            cc = c if c is not True else True
            if cc is False:
                continue
            if cc is True or self.check_sat(st, cc):
                feas.append(cc)
        if not feas:
            raise PathEnd()
        for c in feas[1:]:
            s2 = st.fork()
            if c is not True:
                s2.path.append(c)
            work.append(s2)
            self.stats['forks'] += 1
        if feas[0] is not True:
            st.path.append(feas[0])

    def step(self, st, work):
        fr = st.frames[-1]
        ins = fr.fn.block(fr.block)[fr.pc]
        self.stats['instr'] += 1
        try:
            self.exec(st, fr, ins, work)
        except ForkCond as f:
            # split on the condition and re-execute this instruction
            key = f.c
            st.ghost['decided'] = st.ghost.get('decided', ()) + ((self.idof(key), True, key),)
            s2 = None
            neg = z3.Not(key)
            sat_neg = self.check_sat(st, neg)
            sat_pos = self.check_sat(st, key)
            if sat_pos and sat_neg:
                s2 = st.fork()
                s2.path.append(neg)
                work.append(s2)
                st.path.append(key)
            elif sat_pos:
                st.path.append(key)
            elif sat_neg:
                st.path.append(neg)
            else:
                raise PathEnd()
        except ForkValues as f:
            first = True
            sts = []
            for c, cond in f.opts[1:]:
                s2 = st.fork()
                s2.path.append(cond)
                self.subst_value(s2, f.v, c)
                work.append(s2)
            st.path.append(f.opts[0][1])
            self.subst_value(st, f.v, f.opts[0][0])

    def subst_value(self, st, v, c):
        """replace the symbolic integer object v by the constant c in the current frame's registers and memory"""
        fr = st.frames[-1]
        hit = False
        for k, x in list(fr.regs.items()):
            if x is v or (isinstance(x, SI) and x.e.eq(v.e)):
                fr.regs[k] = c % (1 << 64) if c >= 0 else c % (1 << 64)
                hit = True
        if not hit:
            raise Unsupported('cannot specialise an index')

    def jump(self, st, fr, target):
        fr.prev = fr.block
        fr.block = target
        fr.pc = 0
        n = fr.visits.get(target, 0) + 1
        fr.visits[target] = n
        if self.loop_specs:
            import loops
            loops.on_jump(self, st, fr, target)
        if n > self.MAXVISIT:
            raise Unsupported('loop without invariant in %s (block %s)' % (dm(fr.fn.name)[:100], target))

    def exec(self, st, fr, ins, work):
        op = ins.op
        mod = fr.fn.mod
        if op == 'load':
            fr.regs[ins.dest] = self.load(st, self.val(st, fr, *ins.a), mod, ins.ty)
            fr.pc += 1
            return
        if op == 'store':
            (vt, v), (pt, pv) = ins.a
            self.store(st, self.val(st, fr, pt, pv), self.val(st, fr, vt, v), mod, vt)
            fr.pc += 1
            return
        if op == 'alloca':
            n = mod.sizeof(ins.ty)
            if ins.a:
                c = self.val(st, fr, *ins.a)
                if not isinstance(c, int):
                    raise Unsupported('variable-length alloca')
                n *= c
            o = self.new_obj(st, 'cells', n, '%' + str(ins.dest))
            o.ty = ins.ty
            fr.allocas.append(o.id)
            fr.regs[ins.dest] = Ptr(o.id)
            fr.pc += 1
            return
        if op == 'gep':
            base, idx = ins.a
            b = self.val(st, fr, *base)
            iv = [self.val(st, fr, *x) for x in idx]
            fr.regs[ins.dest] = self.gep(st, mod, ins.ty, b, iv, [x[0] for x in idx])
            fr.pc += 1
            return
        if op == 'br':
            self.jump(st, fr, ins.a[0])
            return
        if op == 'condbr':
            c = self.asbool(self.val(st, fr, *ins.a[0]))
            if is_z3(c):
                c2 = z3.simplify(c)
                if z3.is_true(c2): c = True
                elif z3.is_false(c2): c = False
            if c is True:
                self.jump(st, fr, ins.a[1])
                return
            if c is False:
                self.jump(st, fr, ins.a[2])
                return
            nc = z3.Not(c)
            pos = self.check_sat(st, c)
            neg = self.check_sat(st, nc)
            if pos and neg:
                if fr.visits.get(fr.block, 0) > self.opts.get('maxsym', 40):
                    raise Unsupported('loop with symbolic condition and no invariant in %s' % dm(fr.fn.name)[:100])
                s2 = st.fork()
                s2.path.append(nc)
                try:
                    self.jump(s2, s2.frames[-1], ins.a[2])
                    work.append(s2)
                except PathEnd:
                    pass
                self.stats['forks'] += 1
                st.path.append(c)
                self.jump(st, fr, ins.a[1])
            elif pos:
                self.jump(st, fr, ins.a[1])
            elif neg:
                self.jump(st, fr, ins.a[2])
            else:
                raise PathEnd()
            return
        if op == 'call' or op == 'invoke':
            self.do_call(st, fr, ins, work)
            return
        if op == 'ret':
            v = self.val(st, fr, *ins.a) if ins.a else None
            self.do_ret(st, fr, v)
            return
        if op in ('icmp',):
            a = self.val(st, fr, ins.ty, ins.a[0])
            b = self.val(st, fr, ins.ty, ins.a[1])
            fr.regs[ins.dest] = self.icmp(st, ins.x, mod.resolve(ins.ty), a, b)
            fr.pc += 1
            return
        if op == 'fcmp':
            a = self.freal(self.val(st, fr, ins.ty, ins.a[0]))
            b = self.freal(self.val(st, fr, ins.ty, ins.a[1]))
            fr.regs[ins.dest] = self.fcmp(ins.x, a, b)
            fr.pc += 1
            return
        if op in ir.BIN:
            a = self.val(st, fr, ins.ty, ins.a[0])
            b = self.val(st, fr, ins.ty, ins.a[1])
            if op[0] == 'f':
                if isinstance(a, Agg):
                    fr.regs[ins.dest] = Agg([self.fop(st, op, x, y) for x, y in zip(a.v, b.v)])
                else:
                    fr.regs[ins.dest] = self.fop(st, op, a, b)
            else:
                fr.regs[ins.dest] = self.int_op(st, op, a, b, self.tw(mod.resolve(ins.ty)), ins.x)
            fr.pc += 1
            return
        if op == 'fneg':
            a = self.freal(self.val(st, fr, ins.ty, ins.a))
            if isinstance(a, tuple):
                a = (a[0], -a[1]) if len(a) > 1 else a
            else:
                a = -a
            fr.regs[ins.dest] = a
            fr.pc += 1
            return
        if op == 'cast':
            v = self.val(st, fr, *ins.a)
            fr.regs[ins.dest] = self.cast(st, mod, ins.x, ins.a[0], ins.ty, v)
            fr.pc += 1
            return
        if op == 'select':
            c = self.asbool(self.val(st, fr, *ins.a[0]))
            a = self.val(st, fr, *ins.a[1])
            b = self.val(st, fr, *ins.a[2])
            if is_z3(c):
                if not self.check_sat(st, c): c = False
                elif not self.check_sat(st, z3.Not(c)): c = True
            fr.regs[ins.dest] = a if c is True else b if c is False else self.merge(st, c, a, b)
            fr.pc += 1
            return
        if op == 'phi':
            # all phis of the block simultaneously
            instrs = fr.fn.block(fr.block)
            vals = []
            k = fr.pc
            while instrs[k].op == 'phi':
                pi = instrs[k]
                for v, b in pi.a:
                    if b == fr.prev:
                        vals.append((pi.dest, self.val(st, fr, pi.ty, v)))
                        break
                else:
                    raise IRError('phi')
                k += 1
            for d, v in vals:
                fr.regs[d] = v
            fr.pc = k
            return
        if op == 'switch':
            (ty, v), d, cases = ins.a
            x = self.unpack_int(self.val(st, fr, ty, v), self.tw(mod.resolve(ty)))
            w = self.tw(mod.resolve(ty))
            if isinstance(x, int):
                for cv, lab in cases:
                    if cv % (1 << w) == x:
                        self.jump(st, fr, lab)
                        return
                self.jump(st, fr, d)
                return
            e, lo, hi = self.asS(x, w)
            opts = []
            rest = []
            for cv, lab in cases:
                opts.append((e == cv, lab))
                rest.append(e != cv)
            opts.append((z3.And(rest) if rest else True, d))
            feas = [(c, l) for c, l in opts if self.check_sat(st, c)]
            if not feas:
                raise PathEnd()
            for c, l in feas[1:]:
                s2 = st.fork()
                s2.path.append(c)
                try:
                    self.jump(s2, s2.frames[-1], l)
                    work.append(s2)
                except PathEnd:
                    pass
            st.path.append(feas[0][0])
            self.jump(st, fr, feas[0][1])
            return
        if op == 'extractvalue':
            v = self.val(st, fr, *ins.a)
            for i in ins.x:
                v = v.v[i]
            fr.regs[ins.dest] = v
            fr.pc += 1
            return
        if op == 'insertvalue':
            a = self.val(st, fr, *ins.a[0])
            e = self.val(st, fr, *ins.a[1])

            def ins_(a, idx):
                if not idx:
                    return e
                l = list(a.v)
                l[idx[0]] = ins_(l[idx[0]], idx[1:])
                return Agg(l)
            if a is UNDEF:
                a = self.const(st, mod, ins.ty, ('undef',))
            fr.regs[ins.dest] = ins_(a, ins.x)
            fr.pc += 1
            return
        if op == 'unreachable':
            raise PathEnd()
        if op == 'landingpad':
            fr.regs[ins.dest] = Agg([Ptr(st.ghost['exc']), 1])
            fr.pc += 1
            return
        if op == 'freeze':
            fr.regs[ins.dest] = self.val(st, fr, *ins.a)
            fr.pc += 1
            return
        if op == 'nop':
            fr.pc += 1
            return
        if op == 'extractelement':
            v = self.val(st, fr, *ins.a[0])
            i = self.val(st, fr, *ins.a[1])
            fr.regs[ins.dest] = v.v[i]
            fr.pc += 1
            return
        if op == 'insertelement':
            v = self.val(st, fr, *ins.a[0])
            e = self.val(st, fr, *ins.a[1])
            i = self.val(st, fr, *ins.a[2])
            if v is UNDEF:
                v = self.const(st, mod, ins.ty, ('undef',))
            l = list(v.v)
            l[i] = e
            fr.regs[ins.dest] = Agg(l)
            fr.pc += 1
            return
        if op == 'atomicrmw':
            pv = self.val(st, fr, *ins.a[0])
            x = self.val(st, fr, *ins.a[1])
            old = self.load(st, pv, mod, ins.ty)
            if ins.x in ('add', 'sub'):
                self.store(st, pv, self.int_op(st, ins.x, old, x, self.tw(ins.ty), []), mod, ins.ty)
            elif ins.x == 'xchg':
                self.store(st, pv, x, mod, ins.ty)
            else:
                raise Unsupported('atomicrmw ' + ins.x)
            fr.regs[ins.dest] = old
            fr.pc += 1
            return
        raise Unsupported('instruction ' + op)

    def do_ret(self, st, fr, v):
        for a in fr.allocas:
            o = st.mem.get(a)
            if o is not None:
                o = st.wobj(a)
                o.freed = True
                o.cells = {}
        st.frames.pop()
        if not st.frames:
            st.ghost['ret'] = v
            self.ended.append(('ret', st))
            raise Done()
        c = st.frames[-1]
        i = fr.call
        if i is None:
            # returned from a nested pure evaluation
            st.ghost['ret'] = v
            raise Done()
        if i.dest is not None:
            c.regs[i.dest] = v
        self.after_call(st, c, i)

    def after_call(self, st, fr, ins):
        if ins.op == 'invoke':
            self.jump(st, fr, ins.x[0])
        else:
            fr.pc += 1

    def throw(self, st):
        """unwind to the nearest frame whose pending call is an invoke with a catch clause"""
        st.ghost['threw'] = True
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.block(fr.block)[fr.pc]
            if ins.op == 'invoke':
                lp = fr.fn.block(ins.x[1])
                k = 0
                while lp[k].op == 'phi':
                    k += 1
                pad = lp[k]
                if pad.op == 'landingpad' and any(c[0] == 'catch' for c in pad.x):
                    o = self.new_obj(st, 'cells', 64, 'exception')
                    st.ghost['exc'] = o.id
                    if not any(c[0] == 'catch' and c[1][1][0] == 'null' for c in pad.x):
                        raise Unsupported('typed catch clause')
                    self.jump(st, fr, ins.x[1])
                    return
            for a in fr.allocas:
                if a in st.mem:
                    o = st.wobj(a)
                    o.freed = True
            st.frames.pop()
        self.ended.append(('throw', st))
        if not st.ghost.get('maythrow'):
            self.oblige_throw(st)
        raise Done()

    def oblige_throw(self, st):
        if self.record:
            self.obligations.append(Obligation('no exception escapes: ' + st.ghost.get('throwsite', ''), list(st.path), z3.BoolVal(False), 'safety', [st.ghost.get('throwsite', '')]))

    def do_call(self, st, fr, ins, work):
        callee, args = ins.a
        if callee[0] == 'reg':
            f = fr.regs[callee[1]]
            f = self.topt(f) if not isinstance(f, Fn) else f
            if not isinstance(f, Fn):
                if isinstance(f, Ptr) and f.o is None:
                    self.oblige(st, False, 'call through null function pointer', 'safety')
                    raise PathEnd()
                raise Unsupported('indirect call through %r in %s' % (f, dm(fr.fn.name)[:80]))
            name = f.name
        else:
            f = self.const(st, fr.fn.mod, PTR, callee)
            if not isinstance(f, Fn):
                raise Unsupported('call of non-function')
            name = f.name
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name == 'llvm.assume' or name.startswith('llvm.experimental.noalias'):
            fr.pc += 1
            return
        av = [self.val(st, fr, a[0], a[1]) for a in args]
        h = self.find_model(name)
        if h is not None:
            try:
                r = h(self, st, fr, ins, av, work)
                if r is not CONTROL:
                    if ins.dest is not None:
                        fr.regs[ins.dest] = r
                    self.after_call(st, fr, ins)
                return
            except NotHandled:
                pass
        rep = st.ghost.get('replace')
        if st.ghost.get('triplets') and 'Triplet' in name:
            import models
            t = models.triplet_args(self, st, dm(name), av)
            if t is not None:
                self.replaced.add('std::vector<Eigen::Triplet>::emplace_back')
                self.push_call(st, self.prog.function(st.ghost['triplets']), t, ins)
                return
        if rep:
            d = dm(name)
            for key, (stub, skip) in rep.items():
                if d.startswith(key if '(' in key or key.endswith('<') else key + '('):
                    if skip > 0:
                        rep = dict(rep)
                        rep[key] = (stub, skip - 1)
                        st.ghost['replace'] = rep
                    else:
                        name = stub
                        self.replaced.add(d)
                    break
        fn = self.prog.function(name)
        if fn is None:
            raise Unsupported('external function ' + dm(name)[:160])
        self.push_call(st, fn, av, ins)

    def find_model(self, name):
        if name in self.mcache:
            return self.mcache[name]
        d = dm(name)
        h = None
        for rx, fnc in self.models:
            if isinstance(rx, str):
                if rx == name:
                    h = fnc
                    break
            elif rx.search(d):
                h = fnc
                break
        self.mcache[name] = h
        return h

    # ------------------------------------------------------------------ pure evaluation
    def eval_fn(self, st, fname, args):
        """value of a side-effect free function on args as one merged value (no obligations recorded)"""
        fn = self.prog.function(fname) if isinstance(fname, str) else fname
        s0 = st.fork()
        s0.frames = []
        base = len(s0.path)
        rec = self.record
        self.record = False
        dry, self.dry = self.dry, False
        if not self.pure:
            self.pure_facts = []
        self.pure += 1
        hooks = self.axiom_hooks
        self.axiom_hooks = []
        results = []
        ended = self.ended
        self.ended = []
        np = self.stats['paths']
        try:
            self.push_call(s0, fn, list(args), None)
            work = [s0]
            while work:
                s = work.pop()
                try:
                    while s.frames:
                        self.step(s, work)
                except PathEnd:
                    continue
                except Done:
                    results.append((s.path[base:], s.ghost.get('ret')))
        finally:
            self.record = rec
            self.dry = dry
            self.pure -= 1
            if not self.pure:
                self.last_facts = self.pure_facts
                self.pure_facts = []
                for c in self.last_facts:
                    self.add_fact(st, c)
            self.axiom_hooks = hooks
            self.ended = ended
        if not results:
            return UNDEF
        val = results[-1][1]
        for pc, v in results[:-1]:
            c = z3.And(pc) if pc else True
            val = self.merge(st, c, v, val)
        return val


class Done(Exception):
    pass


class ForkCond(Exception):
    def __init__(self, c):
        self.c = c


class ForkValues(Exception):
    def __init__(self, opts, v):
        self.opts = opts
        self.v = v


CONTROL = object()
