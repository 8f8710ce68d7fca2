"""Decision procedure for identities between rational expressions: both sides are expanded to a quotient of
polynomials over atoms (variables and uninterpreted terms), sqrt atoms are reduced by s*s = x, cos^2 by 1-sin^2,
and the cross-multiplied difference must be the zero polynomial.  Denominators are non-zero by their own
obligations.  Sound: only algebraic identities of a commutative ring are used."""
from fractions import Fraction
import z3

MAXTERMS = 60000


class TooBig(Exception):
    pass


class Ring:
    def __init__(self, eqs=()):
        self.atoms = {}
        self.names = []
        self.red = {}      # atom index -> polynomial for atom^2
        self.memo = {}
        self.byfn = {}
        self.keep = []
        self.rat = {}      # atom index -> (n,d): atom^2 = n/d

    def atom(self, t):
        k = t.get_id()
        if k not in self.atoms:
            self.keep.append(t)
            i = self.congruent(t)
            if i is not None:
                self.atoms[k] = i
                self.keep.append(t)
                return i
            i = len(self.names)
            self.atoms[k] = i
            self.names.append(t)
            if z3.is_app(t) and t.num_args() == 1:
                nm = t.decl().name()
                if nm == 'u_sqrt':
                    n, d = self.conv(t.arg(0))
                    if d == {(): Fraction(1)}:
                        self.red[i] = n
                    else:
                        self.red[i] = None
                        self.rat[i] = (n, d)
                if nm == 'u_cos':
                    s = self.atom(z3.Function('u_sin', z3.RealSort(), z3.RealSort())(t.arg(0)))
                    self.red[i] = {(): Fraction(1), ((s, 2),): Fraction(-1)}
        return self.atoms[k]

    def congruent(self, t):
        """an existing atom f(args') with args' equal to the args of t as ring elements"""
        if not (z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(z3.is_real(c) for c in t.children())):
            return None
        key = t.decl().name()
        ch = [self.conv(c) for c in t.children()]
        for i, other in self.byfn.get(key, []):
            if all(self.same(a, b) for a, b in zip(ch, other)):
                return i
        self.byfn.setdefault(key, []).append((len(self.names), ch))
        return None

    def same(self, a, b):
        if a == b:
            return True
        if a[1] == b[1]:
            return self.is_zero(self.add(a[0], b[0], -1))
        return self.is_zero(self.add(self.mul(a[0], b[1]), self.mul(b[0], a[1]), -1))

    def mono_mul(self, a, b):
        d = dict(a)
        for v, e in b:
            d[v] = d.get(v, 0) + e
        return tuple(sorted(d.items()))

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            x = r.get(m, 0) + s * c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        if len(p) * len(q) > 4000000:
            raise TooBig()
        r = {}
        for a, c in p.items():
            for b, d in q.items():
                m = self.mono_mul(a, b)
                x = r.get(m, 0) + c * d
                if x:
                    r[m] = x
                else:
                    del r[m]
        if len(r) > MAXTERMS:
            raise TooBig()
        return self.reduce(r)

    def reduce(self, p):
        while True:
            hit = None
            for m in p:
                for v, e in m:
                    if e >= 2 and self.red.get(v) is not None:
                        hit = (m, v, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            out = {}
            for m, c in p.items():
                tgt = None
                for v, e in m:
                    if e >= 2 and self.red.get(v) is not None:
                        tgt = (v, e)
                        break
                if tgt is None:
                    x = out.get(m, 0) + c
                    if x:
                        out[m] = x
                    else:
                        out.pop(m, None)
                    continue
                v, e = tgt
                rest = tuple((a, b) for a, b in m if a != v)
                if e % 2:
                    rest = self.mono_mul(rest, ((v, 1),))
                q = {rest: c}
                for _ in range(e // 2):
                    q2 = {}
                    for a, ca in q.items():
                        for b, cb in self.red[v].items():
                            mm = self.mono_mul(a, b)
                            x = q2.get(mm, 0) + ca * cb
                            if x:
                                q2[mm] = x
                            else:
                                q2.pop(mm, None)
                    q = q2
                for a, ca in q.items():
                    x = out.get(a, 0) + ca
                    if x:
                        out[a] = x
                    else:
                        out.pop(a, None)
            p = out
            if len(p) > MAXTERMS:
                raise TooBig()

    ONE = {(): Fraction(1)}

    def conv(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._conv(t)
        self.memo[k] = (t, r)      # keeps t alive: z3 reuses the ids of dead terms
        return r

    def _conv(self, t):
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): f} if f else {}), self.ONE
        if z3.is_int_value(t):
            f = Fraction(t.as_long())
            return ({(): f} if f else {}), self.ONE
        if z3.is_add(t):
            return self.sum([(1, c) for c in t.children()])
        if z3.is_sub(t):
            ch = t.children()
            return self.sum([(1, ch[0])] + [(-1, c) for c in ch[1:]])
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            n, d = self.conv(t.arg(0))
            return {m: -c for m, c in n.items()}, d
        if z3.is_mul(t):
            n, d = self.ONE, self.ONE
            for c in t.children():
                a, b = self.conv(c)
                n = self.mul(n, a)
                d = self.mul(d, b)
            return n, d
        if z3.is_div(t):
            a, b = self.conv(t.arg(0))
            c, d = self.conv(t.arg(1))
            return self.mul(a, d), self.mul(b, c)
        if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)):
            e = t.arg(1).numerator_as_long()
            if t.arg(1).denominator_as_long() == 1 and 0 <= e < 10:
                n, d = self.ONE, self.ONE
                a, b = self.conv(t.arg(0))
                for _ in range(e):
                    n = self.mul(n, a)
                    d = self.mul(d, b)
                return n, d
        return {((self.atom(t), 1),): Fraction(1)}, self.ONE

    def sum(self, ts):
        n, d = {}, self.ONE
        for s, c in ts:
            a, b = self.conv(c)
            if b == d:
                n = self.add(n, a, s)
            else:
                n = self.add(self.mul(n, b), self.mul(a, d), s)
                d = self.mul(d, b)
        return n, d

    def equal(self, a, b):
        n1, d1 = self.conv(a)
        n2, d2 = self.conv(b)
        if d1 == d2:
            x = self.add(n1, n2, -1)
        else:
            x = self.add(self.mul(n1, d2), self.mul(n2, d1), -1)
        return self.is_zero(x)

    def is_zero(self, x):
        x = self.reduce(x)
        # eliminate squares of sqrt(n/d), outermost atoms first (multiplying through by d)
        for i in sorted(self.rat, reverse=True):
            if not x:
                return True
            n, d = self.rat[i]
            J = 0
            for m in x:
                for v, e in m:
                    if v == i:
                        J = max(J, e // 2)
            if J == 0:
                continue
            npow, dpow = [self.ONE], [self.ONE]
            for _ in range(J):
                npow.append(self.mul(npow[-1], n))
                dpow.append(self.mul(dpow[-1], d))
            buckets = {}
            for m, c in x.items():
                j, par = 0, 0
                for v, e in m:
                    if v == i:
                        j, par = e // 2, e % 2
                rest = tuple(t for t in m if t[0] != i)
                if par:
                    rest = self.mono_mul(rest, ((i, 1),))
                buckets.setdefault(j, {})[rest] = c
            out = {}
            for j, b in buckets.items():
                out = self.add(out, self.mul(self.mul(b, npow[j]), dpow[J - j]))
            x = self.reduce(out)
        return not x

    def canon(self, t):
        """hashable normal form of a polynomial-free-of-denominator term, or None"""
        n, d = self.conv(t)
        return n, d


def identity(goal):
    """True if goal is an equality of reals that is an algebraic identity"""
    if not z3.is_eq(goal) or not z3.is_real(goal.arg(0)):
        return False
    if has_ite(goal):
        return False
    try:
        return Ring().equal(goal.arg(0), goal.arg(1))
    except (TooBig, RecursionError):
        return False


def has_ite(t, seen=None):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        todo.extend(x.children())
    return False


def eq_substitutions(path):
    """equations  variable == term  of the path condition, oriented as substitutions"""
    subs = []
    for c in path:
        if z3.is_eq(c) and z3.is_real(c.arg(0)):
            for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_const(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(l, r):
                    subs.append((l, r))
                    break
    return subs


def occurs(v, t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


def identity_modulo(path, goal):
    """identity after substituting the variable definitions of the path"""
    subs = eq_substitutions(path)
    if not subs:
        return False
    g = goal
    for _ in range(min(8, len(subs))):
        g2 = z3.substitute(g, *subs)
        if g2.eq(g):
            break
        g = g2
    if g.eq(goal):
        return False
    return identity(g)
