"""Discharge of proof obligations.  Back ends, in order: syntactic simplification, ring normalisation (ring.py),
z3 (in process), then a portfolio of z3 / cvc5 processes.  An obligation counts as discharged only if a back end
reports the negation unsatisfiable (or the identity to hold)."""
import os, re, subprocess, sys, time, tempfile
from fractions import Fraction
import z3
import ring


class Result:
    __slots__ = ('status', 'backend', 'time', 'model', 'detail')

    def __init__(self, status, backend, time, model=None, detail=''):
        self.status = status    # 'proved' | 'refuted' | 'unknown'
        self.backend = backend
        self.time = time
        self.model = model
        self.detail = detail


def free_atoms(t, cache={}):
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            elif x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add('f:' + x.decl().name())
            todo.extend(x.children())
    cache[k] = (t, out)
    return out


def relevant(path, goal):
    """cone of influence of the goal over shared variables"""
    want = set(free_atoms(goal))
    want = {w for w in want if not w.startswith('f:')}
    left = list(path)
    sel = []
    changed = True
    while changed:
        changed = False
        rest = []
        for c in left:
            fa = {w for w in free_atoms(c) if not w.startswith('f:')}
            if not fa or fa & want:
                sel.append(c)
                if not fa <= want:
                    want |= fa
                    changed = True
            else:
                rest.append(c)
        left = rest
    return sel


# ---------------------------------------------------------------------------------------------------------------
# Generalisation: maximal arithmetic chunks are replaced by variables, chunks with equal ring normal forms by the
# same variable.  Sound: the generalised obligation implies the original one.
ARITH = None


def is_arith(t):
    k = t.decl().kind() if z3.is_app(t) else None
    return k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER)


class Generaliser:
    def __init__(self, diff=False):
        self.diff = diff
        self.ring = ring.Ring()
        self.chunks = []     # (n, d, var)
        self.memo = {}

    def var_for(self, t):
        n, d = self.ring.conv(t)
        if not n:
            return z3.RealVal(0)
        if len(n) == 1 and () in n and d == ring.Ring.ONE:
            return z3.RealVal(n[()])
        for (m, e, v) in self.chunks:
            if d == e:
                x = self.ring.add(n, m, -1)
                y = self.ring.add(n, m, 1)
            else:
                a, b = self.ring.mul(n, e), self.ring.mul(m, d)
                x = self.ring.add(a, b, -1)
                y = self.ring.add(a, b, 1)
            if not x or self.ring.is_zero(x):
                return v
            if not y or self.ring.is_zero(y):
                return -v
        v = z3.Real('chunk!%d' % len(self.chunks))
        self.chunks.append((n, d, v))
        return v

    def gen(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r[1]
        if self.diff and z3.is_app(t) and t.num_args() == 2 and z3.is_real(t.arg(0)) and (z3.is_eq(t) or z3.is_le(t) or z3.is_lt(t) or z3.is_ge(t) or z3.is_gt(t)) and not ring.has_ite(t):
            v = self.var_for(t.arg(0) - t.arg(1))
            r = t.decl()(v, z3.RealVal(0))
        elif z3.is_real(t) and is_arith(t) and not ring.has_ite(t):
            r = self.var_for(t)
        elif z3.is_app(t) and t.num_args() and z3.is_real(t) and not t.decl().kind() == z3.Z3_OP_ITE and all(z3.is_real(c) for c in t.children()) and not is_arith(t) and not ring.has_ite(t):
            r = self.var_for(t) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else t
        elif z3.is_app(t) and t.num_args():
            ch = [self.gen(c) for c in t.children()]
            r = t.decl()(*ch) if not z3.is_and(t) and not z3.is_or(t) else (z3.And(ch) if z3.is_and(t) else z3.Or(ch))
            if is_arith(t):
                r = rebuild(t, ch)
        else:
            r = t
        self.memo[k] = (t, r)
        return r


def rebuild(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch) if len(ch) > 2 else ch[0] + ch[1]
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    return t.decl()(*ch)


def generalise(path, goal, diff=False):
    g = Generaliser(diff)
    try:
        return [g.gen(c) for c in path], g.gen(goal)
    except (ring.TooBig, RecursionError):
        return None


CLI = [
    (['z3-new', '-smt2'], 'z3-new', lambda t: '-T:%d' % t),
    (['cvc5', '--lang=smt2'], 'cvc5', lambda t: '--tlimit=%d' % (t * 1000)),
    (['z3', '-smt2'], 'z3', lambda t: '-T:%d' % t),
]


def cli(assertions, timeout):
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = s.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2', prefix='vf_')
    os.write(fd, txt.encode())
    os.close(fd)
    fd2, p2 = tempfile.mkstemp(suffix='.smt2', prefix='vf_')
    os.write(fd2, ('(set-logic ALL)\n' + txt).encode())
    os.close(fd2)
    procs = []
    try:
        for cmd, nm, tf in CLI:
            f = p2 if nm == 'cvc5' else p
            procs.append((nm, subprocess.Popen(cmd + [tf(timeout), f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        t0 = time.time()
        res = {}
        while time.time() - t0 < timeout + 2 and len(res) < len(procs):
            for nm, pr in procs:
                if nm in res:
                    continue
                if pr.poll() is not None:
                    out = pr.stdout.read().strip().split('\n')[0] if pr.stdout else ''
                    res[nm] = out
                    if out in ('unsat', 'sat'):
                        return out, nm
            time.sleep(0.02)
        return 'unknown', '; '.join('%s: %s' % kv for kv in sorted(res.items()))
    finally:
        for nm, pr in procs:
            if pr.poll() is None:
                pr.kill()
            pr.wait()
        os.unlink(p)
        os.unlink(p2)


def tsize(t, lim=200):
    n, todo = 0, [t]
    while todo and n < lim:
        x = todo.pop()
        n += 1
        todo.extend(x.children())
    return n


def nonlinear(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_mul(x) and sum(0 if z3.is_rational_value(c) or z3.is_int_value(c) else 1 for c in x.children()) > 1:
            return True
        if z3.is_div(x):
            return True
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('u_'):
            return True
        todo.extend(x.children())
    return False


def eval_model(m, inputs):
    out = {}
    for n, v in inputs.items():
        try:
            x = m.eval(v, model_completion=True)
            if z3.is_bool(x):
                out[n] = '1' if z3.is_true(x) else '0'
            elif z3.is_int_value(x):
                out[n] = str(x.as_long())
            elif z3.is_rational_value(x):
                out[n] = repr(x.numerator_as_long() / x.denominator_as_long())
            elif z3.is_algebraic_value(x):
                a = x.approx(20)
                out[n] = repr(a.numerator_as_long() / a.denominator_as_long())
        except Exception:
            pass
    return out


class Inc:
    """incremental z3 context shared by obligations with a common path prefix (integer obligations only)"""

    def __init__(self):
        self.s = z3.Solver()
        self.s.set('timeout', 1000)
        self.stack = []

    def refutes(self, path, ng):
        s = self.s
        k, n = 0, min(len(self.stack), len(path))
        while k < n and self.stack[k] is path[k]:
            k += 1
        if len(self.stack) > k:
            s.pop(len(self.stack) - k)
            del self.stack[k:]
        for c in path[k:]:
            s.push()
            s.add(c)
            self.stack.append(c)
        s.push()
        s.add(ng)
        r = s.check()
        s.pop()
        return r == z3.unsat


INC = None
REALS = {}


def has_real(t):
    k = t.get_id()
    if k in REALS:
        return REALS[k][1]
    r = any(z3.is_real(c) or has_real(c) for c in t.children()) if z3.is_app(t) else True
    REALS[k] = (t, r)
    return r


def discharge(ob, inputs, budget=60):
    global INC
    t0 = time.time()
    g = ob.goal
    if z3.is_true(g):
        return Result('proved', 'simplify', 0.0)
    gs = z3.simplify(g)
    if z3.is_true(gs):
        return Result('proved', 'simplify', time.time() - t0)
    pid = {c.get_id() for c in ob.path}
    if g.get_id() in pid or gs.get_id() in pid:
        return Result('proved', 'simplify', time.time() - t0)
    if z3.is_eq(g) and z3.is_real(g.arg(0)):
        if ring.identity(g):
            return Result('proved', 'ring', time.time() - t0)
        if ring.identity_modulo(ob.path, g):
            return Result('proved', 'ring', time.time() - t0)
    ng = z3.Not(g)
    if not has_real(g) and len(ob.path) > 20:
        if INC is None:
            INC = Inc()
        if INC.refutes(ob.path, ng):
            return Result('proved', 'z3', time.time() - t0)
    rel = relevant(ob.path, g)
    small = [c for c in ob.path if tsize(c) <= 40]
    if nonlinear(g) and tsize(g) <= 60 and len(small) < len(ob.path):
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(*relevant(small, g))
        s.add(ng)
        if s.check() == z3.unsat:
            return Result('proved', 'z3', time.time() - t0)
    if nonlinear(g):
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(*rel)
        s.add(ng)
        r = s.check()
        if r == z3.unsat:
            return Result('proved', 'z3', time.time() - t0)
        for diff in (False, True):
            gg = generalise(rel, g, diff)
            if gg is None:
                continue
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*gg[0])
            s.add(z3.Not(gg[1]))
            if s.check() == z3.unsat:
                return Result('proved', 'ring+z3', time.time() - t0)
        if r == z3.unknown and z3.is_eq(g) and z3.is_real(g.arg(0)):
            import ideal
            if ideal.member(rel, g, min(20, budget)):
                return Result('proved', 'groebner', time.time() - t0)
    for asserts, ms in ((rel, 2000), (ob.path, 4000)) if len(rel) < len(ob.path) else ((ob.path, 4000),):
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*asserts)
        s.add(ng)
        r = s.check()
        if r == z3.unsat:
            return Result('proved', 'z3', time.time() - t0)
        if r == z3.sat and len(asserts) == len(ob.path):
            return Result('refuted', 'z3', time.time() - t0, eval_model(s.model(), inputs), 'sat')
    left = budget
    r, nm = cli(rel + [ng], min(left, 20))
    if r == 'unsat':
        return Result('proved', nm, time.time() - t0)
    if len(rel) < len(ob.path) or r == 'unknown':
        r2, nm2 = cli(ob.path + [ng], left)
        if r2 == 'unsat':
            return Result('proved', nm2, time.time() - t0)
        r, nm = r2, nm2
    if r == 'sat':
        model = None
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*ob.path)
        s.add(ng)
        if s.check() == z3.sat:
            model = eval_model(s.model(), inputs)
        return Result('refuted', nm, time.time() - t0, model, 'sat')
    return Result('unknown', 'portfolio', time.time() - t0, None, nm)


def reachable(paths, timeout=3000, budget=20):
    """is one of the paths satisfiable?  'sat' | 'unsat' | 'unknown' """
    t0 = time.time()
    hard = []
    for p in sorted(paths, key=len):
        if time.time() - t0 > budget:
            return 'unknown'
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*p)
        r = s.check()
        if r == z3.sat:
            return 'sat'
        if r == z3.unknown:
            hard.append(p)
    st = 'unsat'
    for p in hard:
        left = budget - (time.time() - t0)
        if left < 2:
            return 'unknown'
        r, _ = cli(p, min(15, int(left)))
        if r == 'sat':
            return 'sat'
        if r != 'unsat':
            st = 'unknown'
    return st
