"""Loop rule: a loop of a function named by a loop contract is verified by induction, never unrolled.

At the first arrival at the loop header everything an iteration may change (found by executing the body from an
arbitrary state until the set is stable) becomes arbitrary, subject to the loop invariant; the invariant consists of
  - the array clauses of the contract:   array[j] == spec(ctx, i, j) for all j   (i: number of the iteration),
  - the value clauses of the contract:   pred(ctx, value, value at entry) for every integer variable that satisfies it
    (candidates that are not inductive are dropped, so a clause not needed does no harm),
  - built-in candidates: a variable does not fall below its entry value; an iterator stays within its array.
Each clause is an obligation at entry and at the end of an arbitrary iteration.  Partial correctness: termination is
not proved."""
import z3
from fractions import Fraction
import sym
from sym import SI, Ptr, Field, PathEnd, Done, Unsupported, UNDEF, is_z3, dm, tobool, NotHandled


def succs(blk):
    t = blk[-1]
    if t.op == 'br':
        return [t.a[0]]
    if t.op == 'condbr':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [l for _, l in t.a[2]]
    if t.op == 'invoke':
        return [t.x[0], t.x[1]]
    return []


_cfg = {}


def natural_loops(fn):
    """header -> set of blocks"""
    if fn.name in _cfg:
        return _cfg[fn.name]
    bl = list(fn.blocks)
    S = {b: [s for s in succs(fn.block(b))] for b in bl}
    P = {b: [] for b in bl}
    for b in bl:
        for s in S[b]:
            P[s].append(b)
    reach = []
    seen = set()
    stack = [fn.entry]
    while stack:
        b = stack.pop()
        if b in seen:
            continue
        seen.add(b)
        reach.append(b)
        stack += S[b]
    dom = {b: set(seen) for b in seen}
    dom[fn.entry] = {fn.entry}
    ch = True
    while ch:
        ch = False
        for b in reach:
            if b == fn.entry:
                continue
            ps = [dom[p] for p in P[b] if p in seen]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    L = {}
    for b in seen:
        for h in S[b]:
            if h in dom[b]:
                body = L.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += [p for p in P[x] if p in seen]
    _cfg[fn.name] = L
    return L


def body_start(fn, L, h):
    """the block whose last branch enters the body of loop h: the one that may leave the loop, or the head"""
    b = h
    for _ in range(50):
        t = fn.block(b)[-1]
        if t.op == 'invoke':
            b2 = t.x[0]
        elif t.op == 'br':
            b2 = t.a[0]
        elif t.op in ('condbr', 'switch') and any(s not in L[h] for s in succs(fn.block(b))):
            return b
        else:
            return h
        if b2 not in L[h] or b2 == h:
            return h
        b = b2
    return h


class Info:
    """an active loop of one frame"""
    def __init__(self):
        self.dry = None        # list collecting the states at back edges
        self.header = None
        self.base = None       # state after the havoc (for frame comparison)
        self.entry = None
        self.W = None
        self.cands = None
        self.specs = None
        self.head = None       # values at the head
        self.counter = None
        self.bounds = {}
        self.newfields = {}
        self.ctr = None        # ghost variable counting the iterations (vf_loop_count)


def match(ex, fn):
    d = dm(fn.name)
    return [s for s in ex.loop_specs if s['fn'] in d]


def on_jump(ex, st, fr, target):
    specs = match(ex, fr.fn)
    if not specs:
        return
    L = natural_loops(fr.fn)
    for h in list(fr.loops):
        if target not in L[h]:
            d = fr.loops.pop(h)
            fr.begun = fr.begun - {h}
            if d.dry is not None:
                raise PathEnd()      # a dry run follows only the iterations
    h = fr.prev
    for x in fr.loops:                 # the body begins where the first condition has been decided
        if x not in fr.begun and h != x and target != x and target in L[x] and h == body_start(fr.fn, L, x):
            h = x
            break
    if h in fr.loops and h in L and target in L[h] and target != h and h not in fr.begun and fr.prev == body_start(fr.fn, L, h):
        fr.begun = fr.begun | {h}
        d = fr.loops[h]
        if d.dry is None and not ex.dry:
            begin_body(ex, st, d)
        else:                        # the condition and inner loops may rely on what the clause records
            try:
                begin_body(ex, st, d if d.dry is None else d.parent)
            except Unsupported:      # not all candidates are known yet
                pass
    if target not in L:
        return
    if any(sp['ord'] for sp in specs):
        outer = [x for x in fr.fn.blocks if x in L and not any(x in b for h, b in L.items() if h != x)]
        nth = str(outer.index(target) + 1) if target in outer else None
        if nth is None:      # fn#k.j: the j-th loop inside the k-th outermost loop
            for k, o in enumerate(outer):
                inner = [x for x in fr.fn.blocks if x in L and x in L[o] and x != o]
                if target in inner:
                    nth = '%d.%d' % (k + 1, inner.index(target) + 1)
        specs = [sp for sp in specs if sp['ord'] in (None, nth)]
        if not specs:
            return
    if any(sp['kind'] == 'outer' for sp in specs) and any(target in b for h, b in L.items() if h != target):
        return
    if fr.prev in L[target] and target in fr.loops:
        info = fr.loops[target]
        if info.ctr is not None:
            o = st.wobj(info.ctr)
            n = o.cells[0][1]
            o.cells[0] = (8, SI(n.e + 1, 0, (1 << 64) - 1) if isinstance(n, SI) else n + 1)
        if info.dry is not None:
            info.dry.append(st)
            raise PathEnd()
        arrive(ex, st, fr, info)
        raise PathEnd()
    if target in fr.unrolled:
        return
    if any(sp['kind'] == 'peel' for sp in specs) and ('peeled', target) not in fr.unrolled:
        fr.unrolled = fr.unrolled | {('peeled', target)}    # the first iteration is executed before the rule applies
        return
    try:
        enter(ex, st, fr, target, specs)
    except NoRule:
        # a loop over a linked structure: executed, not cut
        fr.unrolled = fr.unrolled | {target}


class NoRule(Exception):
    pass


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, Fraction, bool)):
        return a == b
    if isinstance(a, SI):
        return same(a.e, b.e)
    if isinstance(a, Ptr):
        return a.o == b.o and a.f == b.f and same(a.i, b.i)
    if is_z3(a):
        return a.eq(b)
    if isinstance(a, sym.Fn):
        return a.name == b.name
    if isinstance(a, sym.Agg):
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, sym.Packed):
        return a.size == b.size and len(a.parts) == len(b.parts) and all(x[0] == y[0] and x[1] == y[1] and same(x[2], y[2]) for x, y in zip(a.parts, b.parts))
    if isinstance(a, sym.Raw):
        return same(a.v, b.v)
    return False


def diff(s0, s1):
    """what differs between two states: ('c', obj, off, size) cells and ('r', obj, field)"""
    W = set()
    for oid, o0 in s0.mem.items():
        o1 = s1.mem.get(oid)
        if o1 is o0 or o1 is None:
            continue
        if o0.freed:
            continue
        if o1.freed:
            raise Unsupported('loop frees an object allocated before it (%s)' % o0.name)
        if o0.kind == 'region':
            if not same(o0.length, o1.length):
                raise Unsupported('loop resizes an array')
            for f, x in o1.fields.items():
                y = o0.fields.get(f)
                if y is None or x.base is not y.base or len(x.writes) != len(y.writes) or any(
                        p[0] is not q[0] or p[1] is not q[1] for p, q in zip(x.writes, y.writes)):
                    W.add(('r', oid, f, None))
            continue
        if o1.kind != o0.kind:
            raise Unsupported('loop changes the shape of an object')
        for off, (sz, v) in o1.cells.items():
            c = o0.cells.get(off)
            if c is None or c[0] != sz or not same(c[1], v):
                W.add(('c', oid, off, sz))
    return W


def boollike(v):
    return isinstance(v, bool) or z3.is_bool(v) or (isinstance(v, int) and v in (0, 1)) or (isinstance(v, SI) and v.lo >= 0 and v.hi <= 1)


def cell(st, k):
    c = st.mem[k[1]].cells.get(k[2])
    return None if c is None or c[0] != k[3] else c[1]


def uval(ex, v, w):
    if isinstance(v, bool) or z3.is_bool(v):
        v = ex.bool_to_int(v)
    e, lo, hi = ex.asU(v, w)
    return e if is_z3(e) else z3.IntVal(e)


def cand_names(ex, specs, entry, k):
    """candidate invariants of a written cell: [(name, f(state, value) -> formula)]"""
    v0 = cell(entry, k)
    out = []
    w = (k[3] or 0) * 8
    if isinstance(v0, (int, SI, bool)) or z3.is_bool(v0):
        if boollike(v0):
            out.append(('flag', lambda s, v: boollike(v)))
        if w == 64 or (w == 32 and isinstance(v0, (int, SI)) and not isinstance(v0, bool)):
            e0 = uval(ex, v0, w)
            out.append(('>= entry', lambda s, v: uval(ex, v, w) >= e0))
            for n, sp in enumerate(specs):
                if sp['kind'] == 'keep':
                    def f(s, v, sp=sp):
                        r = ex.eval_fn(s, sp['pred'].name, [sp['ctx'], v, v0])
                        return ex.asbool(r)
                    out.append(('clause %d' % n, f))
    if isinstance(v0, Ptr) and v0.o is not None:
        o = entry.mem[v0.o]
        i0 = v0.i if is_z3(v0.i) else z3.IntVal(v0.i)

        def idx(v):
            return v.i if is_z3(v.i) else z3.IntVal(v.i)
        out.append(('>= entry', lambda s, v: idx(v) >= i0))
        if o.kind == 'region' and o.length is not None:
            out.append(('within the array', lambda s, v: idx(v) <= o.length))
    return out


def instantiate(ex, st, v):
    if isinstance(v, (int, SI)) and st.ghost.get('axioms'):
        e, lo, hi = ex.asU(v, 64)
        import models
        for names, x, body in st.ghost['axioms']:
            for nm in names:
                models.axiom_hook(ex, st, None, Field(None, 'int', tag=nm), e)


def havoc(ex, st, info):
    """make what an iteration changes arbitrary, assuming the surviving candidates"""
    info.head = {}
    for k in sorted(info.W, key=str):
        if k[0] == 'r':
            continue
        v0 = cell(info.entry, k)
        o = st.wobj(k[1])
        if v0 is None:
            o.cells.pop(k[2], None)
            continue
        nm = 'loop_' + ''.join(c if c.isalnum() else '_' for c in o.name)[:16]
        w = k[3] * 8
        if isinstance(v0, (int, SI, bool)) or z3.is_bool(v0):
            names = [n for n, _ in info.cands.get(k, [])]
            if 'flag' in names:
                x = ex.fresh(nm, 'bool')
                v = x if isinstance(v0, bool) or z3.is_bool(v0) else ex.bool_to_int(x)
            else:
                v = ex.fresh_int(nm, w)
                st.path.append(z3.And(v.e >= 0, v.e <= v.hi))
        elif isinstance(v0, Ptr):
            if v0.o is None:
                raise Unsupported('loop changes a null pointer')
            x = ex.fresh(nm, 'int')
            v = Ptr(v0.o, x, v0.f)
        elif isinstance(v0, Fraction) or (is_z3(v0) and z3.is_real(v0)):
            v = ex.fresh(nm, 'real')
        elif v0 is UNDEF:
            o.cells.pop(k[2], None)
            continue
        else:
            raise Unsupported('loop changes a value of an unsupported kind (%r in %s)' % (type(v0), o.name))
        o.cells[k[2]] = (k[3], v)
        info.head[k] = v
    snap = st.fork()
    for k in sorted(info.W, key=str):
        if k[0] != 'r':
            continue
        o = st.wobj(k[1])
        fl = o.fields.get(k[2]) or info.newfields[k]
        sp = array_spec(info, fl, k)
        nf = Field(None, fl.kind, fl.lo, fl.hi, tag=fl.tag)
        if sp is not None and sp['kind'] == 'prefix' and info.counter is not None:
            base = Field(z3.Array('loop_%s!%d' % (fl.tag or 'array', ex.nvar), z3.IntSort(), z3.RealSort() if fl.kind == 'real' else z3.IntSort()), fl.kind, fl.lo, fl.hi)
            ex.nvar += 1
            i = prefix_bound(ex, info, st)

            def rd(j, sp=sp, i=i, base=base, o=o, size=k[3]):
                old = z3.Select(base.base, j if is_z3(j) else z3.IntVal(j))
                if fl.kind == 'int':
                    old = SI(old, fl.lo if fl.lo is not None else 0, fl.hi if fl.hi is not None else (1 << 64) - 1)
                inside = z3.And(j >= 0, j < i)
                return ex.merge(snap, z3.simplify(inside), spec_j(ex, snap, sp, j), old)
            nf.base = None
            nf.const = UNDEF
            nf.writes = [('spec', rd)]
        elif sp is not None and sp['kind'] == 'array' and info.counter is not None:
            nf.base = fl.base
            i = counter_value(ex, info, st)
            nf.writes = [('spec', lambda j, sp=sp, i=i, snap=snap: spec_at(ex, snap, sp, i, j))]
        elif fl.kind in ('int', 'real'):
            nf.base = z3.Array('loop_%s!%d' % (fl.tag or 'array', ex.nvar), z3.IntSort(), z3.RealSort() if fl.kind == 'real' else z3.IntSort())
            ex.nvar += 1
            nf.tag = None
        else:
            raise Unsupported('loop changes an array of pointers')
        o.fields[k[2]] = nf
    n0 = len(st.path)
    for k, v in info.head.items():
        for n, f in info.cands.get(k, []):
            if n == 'flag':
                continue
            c = f(st, v)
            if c is not True:
                st.path.append(tobool(c))
    if any(sp['kind'] == 'step' for sp in info.specs):
        for k, v in info.head.items():
            if k[0] == 'c' and k[3] == 8:
                instantiate(ex, st, v)
    snap.path += st.path[n0:]
    for n, c in state_clauses(ex, st, info):
        st.path.append(tobool(c))


def state_clauses(ex, st, info):
    """clauses about the memory reachable from the context"""
    out = []
    if any(sp['kind'] in ('inv', 'at') for sp in info.specs):
        for k in info.W:
            if k[0] == 'c' and k[3] == 8:
                instantiate(ex, st, cell(st, k))
    for n, sp in enumerate(info.specs):
        if sp['kind'] == 'inv':
            out.append((n, ex.asbool(ex.eval_fn(st, sp['pred'].name, [sp['ctx']]))))
        if sp['kind'] == 'at' and info.counter is not None:
            i = counter_value(ex, info, st)
            out.append((n, ex.asbool(ex.eval_fn(st, sp['pred'].name, [sp['ctx'], SI(i, 0, (1 << 64) - 1)]))))
    return out


def array_spec(info, fl, k=None):
    for sp in info.specs:
        if sp['kind'] == 'array' and (sp['array'] == fl.tag or (sp['array'] == '' and (fl.tag is None or fl.tag.startswith('vec')))):
            return sp
        if sp['kind'] == 'prefix' and (sp['array'] == fl.tag or (sp['array'] == '' and (fl.tag is None or fl.tag.startswith('vec')))) and sp['elem'] == fl.kind:
            return sp
    return None


def prefix_bound(ex, info, st):
    """current value of the loop variable (prefix clauses)"""
    v = cell(st, info.counter)
    e = v.i if isinstance(v, Ptr) else uval(ex, v, info.counter[3] * 8)
    return e if is_z3(e) else z3.IntVal(e)


def spec_j(ex, snap, sp, j):
    return ex.eval_fn(snap, sp['pred'].name, [sp['ctx'], SI(j, 0, (1 << 64) - 1) if is_z3(j) else j])


def spec_at(ex, snap, sp, i, j):
    M = (1 << 64) - 1
    return ex.eval_fn(snap, sp['pred'].name, [sp['ctx'], SI(i, 0, M) if is_z3(i) else i, SI(j, 0, M) if is_z3(j) else j])


def counter_value(ex, info, st):
    """number of completed iterations, as a term"""
    v = cell(st, info.counter)
    v0 = cell(info.entry, info.counter)
    if isinstance(v, Ptr):
        a, b = v.i, v0.i
    else:
        a, b = uval(ex, v, info.counter[3] * 8), uval(ex, v0, info.counter[3] * 8)
    a = a if is_z3(a) else z3.IntVal(a)
    b = b if is_z3(b) else z3.IntVal(b)
    return z3.simplify(a - b)


def dry_run(ex, st, fr, header, info):
    s = st.fork()
    f = s.frames[-1]
    depth = len(s.frames)
    d = Info()
    d.dry = []
    d.ctr = info.ctr
    d.parent = info
    f.loops = dict(f.loops)
    f.loops[header] = d
    saved = ex.record, ex.ended, ex.covers, ex.covers_seen, ex.dry
    ex.record = False
    ex.dry = True
    ex.ended, ex.covers, ex.covers_seen = [], {}, {}
    work = [s]
    n = 0
    try:
        while work:
            x = work.pop()
            n += 1
            if n > 400:
                raise Unsupported('too many paths through the body of a loop in %s' % dm(fr.fn.name)[:80])
            try:
                while len(x.frames) >= depth:
                    ex.step(x, work)
            except (PathEnd, Done):
                continue
    finally:
        ex.record, ex.ended, ex.covers, ex.covers_seen, ex.dry = saved
    return d.dry


def find_counter(ex, info, back):
    out = []
    own = set(info.frame_allocas)
    for k in sorted(info.W, key=str):
        if k[0] != 'c' or k[1] not in own:
            continue
        h = info.head.get(k)
        if h is None:
            h = cell(info.entry, k)
        if h is None:
            continue
        ok = True
        for b in back:
            v = cell(b, k)
            try:
                if isinstance(h, Ptr):
                    if not isinstance(v, Ptr) or v.o != h.o:
                        ok = False
                        break
                    c = (v.i if is_z3(v.i) else z3.IntVal(v.i)) == (h.i if is_z3(h.i) else z3.IntVal(h.i)) + 1
                elif isinstance(h, (int, SI)) and isinstance(v, (int, SI)) and k[3] in (4, 8):
                    c = uval(ex, v, k[3] * 8) == uval(ex, h, k[3] * 8) + 1
                else:
                    ok = False
                    break
                if not z3.is_true(z3.simplify(c)) and not ex.entailed(b, c):
                    ok = False
                    break
            except Unsupported:
                ok = False
                break
        if ok:
            out.append(k)
    return out


def has_var(t, names):
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            return True
        todo += x.children()
    return False


def rnd_bounds(ex, info, base, back):
    """upper bound candidates from the loop condition"""
    added = False
    heads = {}
    for k, v in info.head.items():
        t = v.i if isinstance(v, Ptr) else v.e if isinstance(v, SI) else None
        if t is not None and z3.is_const(t):
            heads[t.decl().name()] = k
    for b in back:
        for c in b.path[len(base.path):]:
            neg = False
            while z3.is_not(c):
                c, neg = c.arg(0), not neg
            op = c.decl().kind()
            if len(c.children()) != 2:
                continue
            x, y = c.arg(0), c.arg(1)
            kinds = {(z3.Z3_OP_LT, False): (x, y), (z3.Z3_OP_GE, True): (x, y), (z3.Z3_OP_GT, False): (y, x), (z3.Z3_OP_LE, True): (y, x)}
            cands = []
            if (op, neg) in kinds:
                cands = [kinds[(op, neg)]]
            elif op == z3.Z3_OP_EQ and neg and z3.is_int(x):
                cands = [(x, y), (y, x)]
            for l, r in cands:
                if z3.is_const(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED and l.decl().name() in heads and not has_var(r, heads):
                    k = heads[l.decl().name()]
                    key = ('<= bound', k, r.get_id())
                    if key in info.bounds:
                        continue
                    info.bounds[key] = r

                    def f(s, v, r=r, k=k):
                        return ((v.i if is_z3(v.i) else z3.IntVal(v.i)) if isinstance(v, Ptr) else uval(ex, v, k[3] * 8)) <= r
                    if holds(ex, info.entry, f, cell(info.entry, k)):
                        info.cands[k] = info.cands.get(k, []) + [('<= bound', f)]
                        added = True
    return added


def flag_cands(ex, info):
    """clauses relating an integer variable to one or two flags: pred(ctx, value, flag, flag)"""
    sps = [(n, sp) for n, sp in enumerate(info.specs) if sp['kind'] == 'flags']
    if not sps:
        return
    def isflag(k):
        v = cell(info.entry, k)
        return v is not None and k[3] == 1 and boollike(v)
    flags = sorted((k for k in info.W if k[0] == 'c' and isflag(k)), key=str)
    for k in sorted((k for k in info.W if k[0] == 'c' and k[3] == 8), key=str):
        v0 = cell(info.entry, k)
        if not isinstance(v0, (int, SI)) or isinstance(v0, bool):
            continue
        info.cands[k] = [(n, f) for n, f in info.cands.get(k, []) if '/' not in n]
        for n, sp in sps:
            for i, a in enumerate(flags):
                for j, b in enumerate(flags):
                    def f(s, v, sp=sp, a=a, b=b):
                        return ex.asbool(ex.eval_fn(s, sp['pred'].name, [sp['ctx'], v, cell(s, a), cell(s, b)]))
                    if holds(ex, info.entry, f, v0):
                        info.cands[k].append(('clause %d/%d,%d' % (n, i, j), f))


def pair_cands(ex, info):
    """clauses relating two integer variables of the loop: pred(ctx, a, b)"""
    sps = [(n, sp) for n, sp in enumerate(info.specs) if sp['kind'] == 'pair']
    if not sps:
        return
    ks = []
    for k in sorted((k for k in info.W if k[0] == 'c' and k[3] == 8), key=str):
        v0 = cell(info.entry, k)
        if isinstance(v0, (int, SI)) and not isinstance(v0, bool):
            ks.append(k)
    for k in ks:
        info.cands[k] = [(n, f) for n, f in info.cands.get(k, []) if ':' not in n]
        for n, sp in sps:
            for j, b in enumerate(ks):
                if b == k:
                    continue

                def f(s, v, sp=sp, b=b):
                    return ex.asbool(ex.eval_fn(s, sp['pred'].name, [sp['ctx'], v, cell(s, b)]))
                if holds(ex, info.entry, f, cell(info.entry, k)):
                    info.cands[k].append(('clause %d:%d' % (n, j), f))


def set_counter(ex, info, cs):
    info.counter = cs[0] if cs else None
    stepn = ['clause %d' % n for n, sp in enumerate(info.specs) if sp['kind'] == 'step']
    for k in info.cands:
        info.cands[k] = [(n, f) for n, f in info.cands[k] if n not in ('in step', 'first iteration') and n not in stepn]
    for k in cs[1:]:
        def f(s, v, k=k):
            v0 = cell(info.entry, k)
            if isinstance(v, Ptr):
                a, b = v.i, v0.i
            else:
                a, b = uval(ex, v, k[3] * 8), uval(ex, v0, k[3] * 8)
            return z3.simplify((a if is_z3(a) else z3.IntVal(a)) - b == counter_value(ex, info, s))
        info.cands[k] = info.cands.get(k, []) + [('in step', f)]
    if not cs:
        return
    for k in info.W:
        v0 = cell(info.entry, k) if k[0] == 'c' else None
        if v0 is not None and boollike(v0) and k[3] == 1 and ('flag', ) == tuple(n for n, _ in info.cands.get(k, []))[:1]:
            b0 = v0 if isinstance(v0, bool) or z3.is_bool(v0) else uval(ex, v0, 8) == 1

            def first(s, v, b0=b0):
                b = v if isinstance(v, bool) or z3.is_bool(v) else uval(ex, v, 8) == 1
                b, c = (x if is_z3(x) else z3.BoolVal(x) for x in (b, b0))
                return b == z3.If(counter_value(ex, info, s) == 0, c, z3.Not(c))
            info.cands[k] = info.cands[k] + [('first iteration', first)]
        if k[0] == 'c' and k not in cs and isinstance(v0, Ptr):
            for n, sp in enumerate(info.specs):
                if sp['kind'] != 'step':
                    continue

                def gp(s, v, sp=sp, v0=v0):
                    i = counter_value(ex, info, s)
                    off = z3.simplify((v.i if is_z3(v.i) else z3.IntVal(v.i)) - v0.i)
                    off = off.as_long() if z3.is_int_value(off) else SI(off, 0, (1 << 64) - 1)
                    return ex.asbool(ex.eval_fn(s, sp['pred'].name, [sp['ctx'], off, 0, SI(i, 0, (1 << 64) - 1)]))
                if holds(ex, info.entry, gp, v0):
                    info.cands[k] = info.cands.get(k, []) + [('clause %d' % n, gp)]
            continue
        if k[0] != 'c' or k in cs or k[3] != 8 or not isinstance(v0, (int, SI)) or isinstance(v0, bool):
            continue
        for n, sp in enumerate(info.specs):
            if sp['kind'] != 'step':
                continue

            def g(s, v, sp=sp, v0=v0):
                i = counter_value(ex, info, s)
                return ex.asbool(ex.eval_fn(s, sp['pred'].name, [sp['ctx'], v, v0, SI(i, 0, (1 << 64) - 1)]))
            if holds(ex, info.entry, g, v0):
                info.cands[k] = info.cands.get(k, []) + [('clause %d' % n, g)]


def enter(ex, st, fr, header, specs):
    info = Info()
    info.header = header
    info.specs = specs
    info.entry = st.fork()
    info.W = set()
    info.cands = {}
    if any(sp['kind'] == 'count' for sp in specs):
        o = ex.new_obj(st, 'cells', 8, 'iterations')
        o.cells[0] = (8, 0)
        fr.allocas.append(o.id)
        info.ctr = o.id
        info.entry = st.fork()
    info.frame_allocas = list(fr.allocas)
    name = dm(fr.fn.name)
    for rnd in range(60):
        h = info.entry.fork()
        hf = h.frames[-1]
        havoc(ex, h, info)
        base = h.fork()
        back = dry_run(ex, h, hf, header, info)
        W = set()
        for b in back:
            W |= diff(base, b)
        for k in W:
            if k[0] == 'c':
                v0 = cell(info.entry, k)
                if isinstance(v0, Ptr) and any(isinstance(cell(b, k), Ptr) and cell(b, k).o != v0.o for b in back):
                    raise NoRule()
            if k[0] == 'r' and k not in info.newfields:
                for b in back:
                    if k[1] in b.mem and k[2] in b.mem[k[1]].fields:
                        info.newfields[k] = b.mem[k[1]].fields[k[2]]
        new = W - info.W
        if new:
            info.W |= new
            for k in new:
                if k[0] == 'c':
                    info.cands[k] = [(n, f) for n, f in cand_names(ex, specs, info.entry, k) if holds(ex, info.entry, f, cell(info.entry, k))]
            flag_cands(ex, info)
            pair_cands(ex, info)
            set_counter(ex, info, find_counter(ex, info, back))
            continue
        cs = find_counter(ex, info, back)
        cnt = cs[0] if cs else None
        if cnt != info.counter and any(k[0] == 'r' for k in info.W):
            set_counter(ex, info, cs)
            continue
        if rnd_bounds(ex, info, base, back):
            continue
        dropped = False
        for k in list(info.cands):     # what is wrongly taken for a flag invalidates everything else: these first
            if any(n == 'flag' for n, _ in info.cands[k]) and not all(holds(ex, b, f, cell(b, k), info.head.get(k)) for n, f in info.cands[k] if n == 'flag' for b in back):
                info.cands[k] = [(n, f) for n, f in info.cands[k] if n != 'flag']
                dropped = True
        if dropped:
            continue
        for k in list(info.cands):
            keep = []
            for n, f in info.cands[k]:
                good = all(holds(ex, b, f, cell(b, k), info.head.get(k)) for b in back)
                if good:
                    keep.append((n, f))
                else:
                    dropped = True
            info.cands[k] = keep
        if not dropped:
            break
    else:
        raise Unsupported('no inductive invariant found for a loop in %s' % name[:80])
    # entry obligations
    for k in info.W:
        if k[0] == 'c':
            v0 = cell(info.entry, k)
            for n, f in info.cands.get(k, []):
                if n.startswith('clause'):
                    instantiate(ex, st, v0)
                c = f(st, v0)
                if c is not True:
                    ex.oblige(st, tobool(c), 'loop invariant (%s) holds at entry of the loop in %s' % (n, name[:60]), 'invariant')
        else:
            fl = st.mem[k[1]].fields.get(k[2]) or info.newfields[k]
            sp = array_spec(info, fl)
            if sp is not None and info.counter is not None:
                check_array(ex, st, st.mem[k[1]], k[2], sp, z3.IntVal(0) if sp['kind'] == 'array' else prefix_bound(ex, info, st), 'loop invariant of array %s holds at entry of the loop in %s' % (fl.tag, name[:60]))
    for n, c in state_clauses(ex, st, info):
        ex.oblige(st, tobool(c), 'loop invariant (clause %d) holds at entry of the loop in %s' % (n, name[:60]), 'invariant')
    havoc(ex, st, info)
    narrow(ex, st, info)
    info.base = st.fork()
    fr.loops = dict(fr.loops)
    fr.loops[header] = info
    ex.loops_done.add(name)


def narrow(ex, st, info):
    """loop variables that are known to be small: arithmetic on them does not wrap"""
    for k, v in list(info.head.items()):
        if k[0] == 'c' and k[3] == 8 and isinstance(v, SI) and v.hi > 1 << 45 and v.lo >= 0 and ex.entailed(st, v.e <= 1 << 45):
            info.head[k] = SI(v.e, v.lo, 1 << 45)
            st.wobj(k[1]).cells[k[2]] = (8, info.head[k])
        if k[0] == 'c' and k[3] == 4 and isinstance(v, SI) and v.hi >= 1 << 31 and v.lo >= 0 and ex.entailed(st, v.e <= 1 << 30):
            info.head[k] = SI(v.e, v.lo, 1 << 30)
            st.wobj(k[1]).cells[k[2]] = (4, info.head[k])


def run_callback(ex, st, fname, args):
    """execute a function of the contract in (a copy of) state st; the states in which it returns"""
    s = st.fork()
    depth = len(s.frames)
    ex.push_call(s, ex.prog.function(fname), list(args), None)
    work, outs = [s], []
    while work:
        x = work.pop()
        try:
            while len(x.frames) > depth:
                ex.step(x, work)
            outs.append(x)
        except Done:         # the callback returned
            if len(x.frames) == depth:
                outs.append(x)
        except PathEnd:
            continue
    return outs


def cursor(ex, st, info):
    """the loop variable the body clause is told about: an integer all keep clauses hold for"""
    n = sum(1 for sp in info.specs if sp['kind'] == 'keep')
    own = set(info.frame_allocas)
    for k in sorted(info.head, key=lambda x: (x[1] not in own, x[3] != 8, str(x)) if x[0] == 'c' else (True, True, str(x))):
        v = info.head[k]
        if k[0] == 'c' and k[3] in (4, 8) and isinstance(v, SI):
            c = sum(1 for m, _ in info.cands.get(k, []) if m.startswith('clause') and info.specs[int(m.split()[1])]['kind'] == 'keep') if n else 0
            if c == n:
                return v
    raise Unsupported('the loop has no variable to which the clauses apply')


def begin_body(ex, st, info):
    for sp in info.specs:
        if sp['kind'] == 'body':
            outs = run_callback(ex, st, sp['pred'].name, [sp['ctx'], cursor(ex, st, info)])
            if len(outs) != 1:
                raise Unsupported('the start of a body clause forks (%d)' % len(outs))
            st.ghost['begin writes'] = st.ghost.get('begin writes', frozenset()) | {w for w in diff(st, outs[0]) if w[0] == 'c'}
            outs[0].ghost['begin writes'] = st.ghost['begin writes']
            st.__dict__.update({k: v for k, v in outs[0].__dict__.items() if k != 'frames'})


def end_body(ex, st, fr, info):
    for sp in info.specs:
        if sp['kind'] == 'body':
            if info.header not in fr.begun:
                raise Unsupported('a loop without a separate header')
            try:
                v = cursor(ex, st, info)
            except Unsupported:
                if ex.dry:
                    continue
                raise
            run_callback(ex, st, sp['end'].name, [sp['ctx'], v])


def holds(ex, st, f, v, head=None):
    if v is None:
        return False
    try:
        c = f(st, v)
    except (Unsupported, AttributeError):
        return False
    if c is True:
        return True
    if c is False:
        return False
    s = st.fork()
    instantiate(ex, s, v)
    instantiate(ex, s, head)
    return ex.entailed(s, c)


def check_array(ex, st, o, f, sp, i, label):
    s = st.fork()
    j = ex.fresh('j', 'int')
    L = o.length if is_z3(o.length) else z3.IntVal(o.length)
    s.path.append(z3.And(j >= 0, j < L))
    if sp['kind'] == 'prefix':
        s.path.append(j < i)
        if z3.is_false(z3.simplify(i > 0)):
            return
    instantiate(ex, s, SI(j, 0, (1 << 64) - 1))
    if f not in o.fields:
        ex.oblige(s, i <= 0, label, 'invariant', assume_after=False)
        return
    a = ex.region_read(s, o, f, j, o.layout[0][2] if o.layout else o.stride or 8)
    b = spec_at(ex, s, sp, i, j) if sp['kind'] == 'array' else spec_j(ex, s, sp, j)
    if o.fields[f].kind == 'real':
        g = sym.R(a) == sym.R(b)
    else:
        g = uval(ex, a, 64) == uval(ex, b, 64)
    ex.oblige(s, g, label, 'invariant', assume_after=False)


def arrive(ex, st, fr, info):
    """end of an arbitrary iteration"""
    name = dm(fr.fn.name)
    extra = diff(info.base, st) - info.W - st.ghost.get('begin writes', frozenset())
    if extra:
        raise Unsupported('loop writes more than its frame in %s' % name[:80])
    for k in sorted(info.W, key=str):
        if k[0] == 'c':
            v = cell(st, k)
            if k not in info.head:
                continue
            if v is None:
                raise Unsupported('loop variable lost')
            if isinstance(info.head[k], Ptr) and (not isinstance(v, Ptr) or v.o != info.head[k].o or v.f != info.head[k].f):
                raise Unsupported('loop changes which object a pointer denotes in %s' % name[:80])
            for n, f in info.cands.get(k, []):
                if n.startswith('clause'):
                    instantiate(ex, st, v)
                    instantiate(ex, st, info.head[k])
                c = f(st, v)
                if c is True:
                    continue
                ex.oblige(st, tobool(c), 'loop invariant (%s) is kept by the loop in %s' % (n, name[:60]), 'invariant')
        else:
            o = st.mem[k[1]]
            fl = o.fields[k[2]]
            sp = array_spec(info, fl)
            if sp is not None and info.counter is not None:
                check_array(ex, st, o, k[2], sp, counter_value(ex, info, st) if sp['kind'] == 'array' else prefix_bound(ex, info, st), 'loop invariant of array %s is kept by the loop in %s' % (fl.tag, name[:60]))
    for n, c in state_clauses(ex, st, info):
        ex.oblige(st, tobool(c), 'loop invariant (clause %d) is kept by the loop in %s' % (n, name[:60]), 'invariant')
    end_body(ex, st, fr, info)


def m_loop(kind):
    def h(ex, st, fr, ins, a, work):
        import models
        fn, _, nth = models.cstr(ex, st, a[0]).partition('#')   # "f#2": the second outermost loop of f
        sp = dict(kind=kind, fn=fn, ord=nth or None)
        if kind in ('keep', 'step', 'inv', 'at', 'flags', 'pair'):
            sp.update(pred=a[1], ctx=a[2])
        if kind == 'body':
            sp.update(pred=a[1], end=a[2], ctx=a[3])
        if kind == 'array':
            sp.update(array=models.cstr(ex, st, a[1]), pred=a[2], ctx=a[3])
        if kind in ('prefix', 'rprefix'):
            sp.update(array=models.cstr(ex, st, a[1]), pred=a[2], ctx=a[3], elem='real' if kind == 'rprefix' else 'int', kind='prefix')
        ex.loop_specs.append(sp)
        return None
    return h
