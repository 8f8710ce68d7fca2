"""Ideal membership: the goal equation follows from the equations of the path condition (including  p1^2+..+pn^2 <= 0
=> p_i = 0) if its numerator reduces to zero modulo a Groebner basis of theirs (sympy).  Sound for any field."""
import signal
from fractions import Fraction
import z3
import ring


class Timeout(Exception):
    pass


def sos_bases(t):
    """t = sum of squares -> list of bases, else None"""
    ch = t.children() if z3.is_add(t) else [t]
    out = []
    for c in ch:
        if z3.is_mul(c) and c.num_args() == 2 and c.arg(0).eq(c.arg(1)):
            out.append(c.arg(0))
        elif z3.is_add(c):
            r = sos_bases(c)
            if r is None:
                return None
            out += r
        else:
            return None
    return out


def flat(c):
    if z3.is_and(c):
        for x in c.children():
            yield from flat(x)
    else:
        yield c


def equations(path):
    eqs = []
    for c0 in path:
        for c in flat(c0):
            if z3.is_eq(c) and z3.is_real(c.arg(0)):
                eqs.append(c.arg(0) - c.arg(1))
                continue
            neg = z3.is_not(c)
            a = c.arg(0) if neg else c
            t = None
            if neg and z3.is_gt(a) and is0(a.arg(1)): t = a.arg(0)
            if neg and z3.is_lt(a) and is0(a.arg(0)): t = a.arg(1)
            if not neg and z3.is_le(a) and is0(a.arg(1)): t = a.arg(0)
            if not neg and z3.is_ge(a) and is0(a.arg(0)): t = a.arg(1)
            if t is not None:
                b = sos_bases(t)
                if b:
                    eqs += b
    return eqs


def is0(t):
    return z3.is_rational_value(t) and t.numerator_as_long() == 0


def member(path, goal, timeout):
    if ring.has_ite(goal):
        return False
    eqs = [e for e in equations(path) if not ring.has_ite(e)]
    R = ring.Ring()
    try:
        polys = []
        for e in eqs:
            n, d = R.conv(e)
            n = R.reduce(n)
            if n and len(n) < 400:
                polys.append(n)
        if not polys:
            return False
        a, b = R.conv(goal.arg(0))
        c, d = R.conv(goal.arg(1))
        g = R.reduce(R.add(R.mul(a, d), R.mul(c, b), -1))
    except ring.TooBig:
        return False
    import sympy
    used = set()
    for p in polys + [g]:
        for m in p:
            used |= {v for v, e in m}
    for i in list(R.red):
        if i in used and R.red[i] is not None:
            q = dict(R.red[i])
            q = {k: -v for k, v in q.items()}
            m = ((i, 2),)
            q[m] = q.get(m, 0) + 1
            polys.append(q)
            for m in q:
                used |= {v for v, e in m}
    used = sorted(used, reverse=True)
    syms = {v: sympy.Symbol('a%d' % v) for v in used}

    def old(signum, frame):
        raise Timeout()
    prev = signal.signal(signal.SIGALRM, old)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        gens = [syms[v] for v in used]

        def P(p):
            d = {}
            for m, c in p.items():
                ex = dict(m)
                d[tuple(ex.get(v, 0) for v in used)] = sympy.Rational(c.numerator, c.denominator)
            return sympy.Poly(d, *gens, domain='QQ')
        ps = [P(p) for p in polys]
        gb = sympy.groebner(ps, *gens, order='grevlex', domain='QQ')
        return gb.contains(P(g).as_expr())
    except Timeout:
        return False
    except Exception:
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, prev)
