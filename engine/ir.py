"""Parser for textual LLVM 18 IR (clang -O0 output), lazily per function.

Only the syntax clang emits for C++ at -O0 is supported; anything else raises IRError, which the
checks report as "not extracted" (never as proved)."""
import re
from functools import lru_cache


class IRError(Exception):
    pass


TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<lid>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)
 | (?P<gid>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)
 | (?P<meta>![\w.]*(?:"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_$][\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\](){}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            e = s.find('\n', pos)
            if e < 0:
                break
            pos = e + 1
            continue
        m = TOK.match(s, pos)
        if not m:
            raise IRError('cannot tokenize: ' + s[pos:pos + 60])
        t = m.group(0)
        if t[0] in '%@' and len(t) > 1 and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append(t)
        pos = m.end()
    return out


# ---- types: tuples, hashable
VOID = ('void',)
PTR = ('ptr',)
DOUBLE = ('double',)
FLOAT = ('float',)


def I(n):
    return ('i', n)


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %r at %r' % (x, ' '.join(self.t[max(0, self.i - 6):self.i + 6])))

    def end(self):
        return self.i >= len(self.t)


INTTY = re.compile(r'i\d+$')


def parse_type(p):
    t = p.next()
    if INTTY.match(t):
        r = ('i', int(t[1:]))
    elif t == 'ptr':
        r = PTR
    elif t in ('void', 'double', 'float', 'label', 'metadata', 'half', 'x86_fp80', 'fp128', 'token'):
        r = (t,)
    elif t[0] == '%':
        r = ('named', t[1:])
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        r = ('array', n, e)
    elif t == '<':
        if p.peek() == '{':
            p.next()
            r = ('struct', True, parse_type_list(p, '}'))
            p.expect('>')
        else:
            n = int(p.next())
            p.expect('x')
            e = parse_type(p)
            p.expect('>')
            r = ('vec', n, e)
    elif t == '{':
        r = ('struct', False, parse_type_list(p, '}'))
    else:
        raise IRError('type? ' + ' '.join(p.t[max(0, p.i - 4):p.i + 5]))
    # function type: ret (args)
    while p.peek() == '(' and r is not None:
        # only in call with varargs / function pointer types
        save = p.i
        try:
            p.next()
            args = []
            var = False
            while p.peek() != ')':
                if p.accept('...'):
                    var = True
                else:
                    args.append(parse_type(p))
                p.accept(',')
            p.expect(')')
            r = ('func', r, tuple(args), var)
        except IRError:
            p.i = save
            break
    return r


def parse_type_list(p, close):
    out = []
    while not p.accept(close):
        out.append(parse_type(p))
        p.accept(',')
    return tuple(out)


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'swifterror', 'noreturn', 'nounwind',
               'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'dso_local', 'allocptr', 'allocalign', 'unnamed_addr',
               'local_unnamed_addr', 'nsz', 'nnan', 'ninf', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'writable', 'dead_on_unwind'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
                   'preallocated', 'inalloca', 'memory', 'captures', 'range', 'nofpclass'}


def skip_attrs(p):
    d = {}
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            p.next()
        elif t in PARAM_ATTRS_ARG:
            p.next()
            if p.peek() == '(':
                p.next()
                if t in ('sret', 'byval', 'elementtype', 'byref', 'preallocated', 'inalloca'):
                    d[t] = parse_type(p)
                    p.expect(')')
                else:
                    depth = 1
                    while depth:
                        x = p.next()
                        if x == '(':
                            depth += 1
                        elif x == ')':
                            depth -= 1
            else:
                p.next()  # align N
        elif t and t[0] == '#':
            p.next()
        else:
            return d


CAST = {'zext', 'sext', 'trunc', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}


def parse_value(p, ty):
    """operand -> ('reg',name) | ('int',v) | ('fp',text) | ('null',) | ('undef',) | ('zero',) | ('glob',name)
       | ('agg',[(ty,val)]) | ('cgep',srcty,(ty,val),[(ty,val)]) | ('cstr',bytes) | ('ccast',op,(ty,val),ty2)"""
    t = p.next()
    c = t[0]
    if c == '%':
        return ('reg', t[1:])
    if c == '@':
        return ('glob', t[1:])
    if c == '-' or c.isdigit():
        if ty[0] in ('double', 'float', 'half', 'x86_fp80'):
            return ('fp', t)
        return ('int', int(t, 0) if not t.startswith('0x') else int(t, 16))
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'none':
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t[:2] == 'c"':
        return ('cstr', t[2:-1])
    if t == '[':
        out = []
        while not p.accept(']'):
            et = parse_type(p)
            out.append((et, parse_value(p, et)))
            p.accept(',')
        return ('agg', out)
    if t == '{':
        out = []
        while not p.accept('}'):
            et = parse_type(p)
            out.append((et, parse_value(p, et)))
            p.accept(',')
        return ('agg', out)
    if t == '<':
        out = []
        packed = p.accept('{')
        close = '}' if packed else '>'
        while not p.accept(close):
            et = parse_type(p)
            out.append((et, parse_value(p, et)))
            p.accept(',')
        if packed:
            p.expect('>')
        return ('agg', out)
    if t == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        p.expect('(')
        sty = parse_type(p)
        p.expect(',')
        ops = []
        while True:
            p.accept('inrange')
            ot = parse_type(p)
            ops.append((ot, parse_value(p, ot)))
            if not p.accept(','):
                break
        p.expect(')')
        return ('cgep', sty, ops[0], ops[1:])
    if t in CAST:
        p.expect('(')
        ot = parse_type(p)
        v = parse_value(p, ot)
        p.expect('to')
        t2 = parse_type(p)
        p.expect(')')
        return ('ccast', t, (ot, v), t2)
    if t in BIN:
        while p.peek() in ('nuw', 'nsw', 'exact'):
            p.next()
        p.expect('(')
        a = parse_tv(p)
        p.expect(',')
        b = parse_tv(p)
        p.expect(')')
        return ('cbin', t, a, b)
    if t == 'dso_local_equivalent' or t == 'no_cfi':
        return parse_value(p, ty)
    raise IRError('value? ' + ' '.join(p.t[max(0, p.i - 6):p.i + 6]))


def parse_tv(p):
    ty = parse_type(p)
    skip_attrs(p)
    return (ty, parse_value(p, ty))


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'x')

    def __init__(self, op, dest, ty, a, x=None):
        self.op = op
        self.dest = dest
        self.ty = ty
        self.a = a
        self.x = x

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.dest, self.op, self.ty, self.a, self.x)


class Function:
    def __init__(self, mod, name, ret, params, body, attrs):
        self.mod = mod
        self.name = name
        self.ret = ret
        self.params = params  # [(ty, name, attrs)]
        self._body = body
        self._blocks = None
        self.entry = None
        self.demangled = None

    @property
    def blocks(self):
        if self._blocks is None:
            self.parse_body()
        return self._blocks

    def parse_body(self):
        lines = self._body
        blocks = {}
        cur = None
        nextnum = len([1 for p in self.params if p[1].isdigit()])
        i = 0
        n = len(lines)
        label = None
        lab_re = re.compile(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):')
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            if ln[0] != ' ':
                m = lab_re.match(ln)
                if m:
                    label = m.group(1).strip('"')
                    cur = []
                    blocks[label] = cur
                    if self.entry is None:
                        self.entry = label
                    continue
                raise IRError('line? ' + ln)
            if cur is None:
                label = str(nextnum)
                cur = []
                blocks[label] = cur
                self.entry = label
            s = ln.strip()
            # joins
            if ' switch ' in ' ' + s or s.startswith('switch '):
                while not s.rstrip().endswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
            while i < n and lines[i].startswith('          '):
                s += ' ' + lines[i].strip()
                i += 1
            cur.append(s)
        # lazily parsed per-block
        self._blocks = {k: LazyBlock(self, v) for k, v in blocks.items()}

    def block(self, name):
        b = self.blocks[name]
        if b.instrs is None:
            b.instrs = [parse_instr(s, self.mod) for s in b.lines]
        return b.instrs


class LazyBlock:
    __slots__ = ('fn', 'lines', 'instrs')

    def __init__(self, fn, lines):
        self.fn = fn
        self.lines = lines
        self.instrs = None


def strip_meta(s):
    # remove trailing ", !dbg !12" style metadata
    k = s.find(', !')
    if k >= 0:
        # careful: metadata only at end of instr at -O0
        q = s[:k]
        if q.count('"') % 2 == 0:
            return q
    return s


def parse_instr(s, mod):
    s = strip_meta(s)
    p = P(tokenize(s), mod)
    dest = None
    if p.peek() and p.peek()[0] == '%' and p.peek(1) == '=':
        dest = p.next()[1:]
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        ty = parse_type(p)
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = parse_tv(p)
        return Instr('alloca', dest, ty, cnt)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ty = parse_type(p)
        p.expect(',')
        return Instr('load', dest, ty, parse_tv(p))
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        v = parse_tv(p)
        p.expect(',')
        return Instr('store', None, None, (v, parse_tv(p)))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        sty = parse_type(p)
        p.expect(',')
        base = parse_tv(p)
        idx = []
        while p.accept(','):
            p.accept('inrange')
            idx.append(parse_tv(p))
        return Instr('gep', dest, sty, (base, idx))
    if op in BIN:
        fl = []
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'nsz', 'nnan', 'ninf', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
            fl.append(p.next())
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Instr(op, dest, ty, (a, b), fl)
    if op == 'fneg':
        ty = parse_type(p)
        return Instr(op, dest, ty, parse_value(p, ty))
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('nsz', 'nnan', 'ninf', 'fast'):
            p.next()
        pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Instr(op, dest, ty, (a, b), pred)
    if op in CAST:
        p.accept('nneg')
        v = parse_tv(p)
        p.expect('to')
        return Instr('cast', dest, parse_type(p), v, op)
    if op == 'select':
        c = parse_tv(p)
        p.expect(',')
        a = parse_tv(p)
        p.expect(',')
        b = parse_tv(p)
        return Instr(op, dest, a[0], (c, a, b))
    if op == 'br':
        if p.accept('label'):
            return Instr('br', None, None, (p.next()[1:],))
        c = parse_tv(p)
        p.expect(',')
        p.expect('label')
        a = p.next()[1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1:]
        return Instr('condbr', None, None, (c, a, b))
    if op == 'switch':
        v = parse_tv(p)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            cv = parse_tv(p)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1][1], p.next()[1:]))
        return Instr('switch', None, v[0], (v, d, cases))
    if op == 'ret':
        if p.peek() == 'void':
            return Instr('ret', None, VOID, None)
        v = parse_tv(p)
        return Instr('ret', None, v[0], v)
    if op == 'unreachable':
        return Instr(op, None, None, None)
    if op == 'phi':
        while p.peek() in ('nsz', 'nnan', 'ninf', 'fast'):
            p.next()
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, ty)
            p.expect(',')
            b = p.next()[1:]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return Instr(op, dest, ty, inc)
    if op in ('call', 'invoke'):
        skip_attrs(p)
        rt = parse_type(p)
        vararg = False
        if rt[0] == 'func':
            vararg = rt[3]
            rt = rt[1]
        if p.peek() == 'asm':
            raise IRError('inline asm')
        callee = parse_value(p, PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = parse_type(p)
            at = skip_attrs(p)
            if ty == ('metadata',):
                # debug intrinsics: skip to , or )
                depth = 0
                while not (depth == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                args.append((ty, ('undef',), at))
            else:
                args.append((ty, parse_value(p, ty), at))
            p.accept(',')
        x = None
        while not p.end() and p.peek() != 'to':
            p.next()
        if op == 'invoke':
            p.expect('to')
            p.expect('label')
            a = p.next()[1:]
            p.expect('unwind')
            p.expect('label')
            x = (a, p.next()[1:])
        return Instr(op, dest, rt, (callee, args), x)
    if op == 'extractvalue':
        v = parse_tv(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr(op, dest, None, v, idx)
    if op == 'insertvalue':
        v = parse_tv(p)
        p.expect(',')
        e = parse_tv(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr(op, dest, v[0], (v, e), idx)
    if op == 'landingpad':
        ty = parse_type(p)
        clauses = []
        while not p.end():
            t = p.next()
            if t == 'catch':
                clauses.append(('catch', parse_tv(p)))
            elif t == 'filter':
                clauses.append(('filter', parse_tv(p)))
            elif t == 'cleanup':
                clauses.append(('cleanup',))
        return Instr(op, dest, ty, None, clauses)
    if op == 'resume':
        return Instr(op, None, None, parse_tv(p))
    if op == 'freeze':
        v = parse_tv(p)
        return Instr(op, dest, v[0], v)
    if op in ('extractelement', 'insertelement', 'shufflevector'):
        ops = [parse_tv(p)]
        while p.accept(','):
            ops.append(parse_tv(p))
        return Instr(op, dest, ops[0][0], ops)
    if op == 'atomicrmw':
        p.accept('volatile')
        rop = p.next()
        ptr = parse_tv(p)
        p.expect(',')
        v = parse_tv(p)
        return Instr(op, dest, v[0], (ptr, v), rop)
    if op == 'fence':
        return Instr('nop', None, None, None)
    raise IRError('instruction ' + op + ': ' + s[:100])


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.typetext = {}
        self.globals = {}
        self.gtext = {}
        self.functions = {}
        self.aliases = {}
        text = open(path).read()
        self._scan(text)
        self._szc = {}

    def _scan(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            if ln.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self._fn(ln, lines[i:j])
                i = j + 1
            elif ln[0] == '%':
                k = ln.index(' = type ')
                nm = ln[1:k].strip('"')
                self.typetext[nm] = ln[k + 8:]
            elif ln[0] == '@':
                k = ln.index(' = ')
                nm = ln[1:k].strip('"')
                self.gtext[nm] = ln[k + 3:]

    NAME = re.compile(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(')

    def _fn(self, ln, body):
        m = self.NAME.search(ln)
        name = m.group(1).strip('"')
        self.functions[name] = (ln, m, body)

    def function(self, name):
        f = self.functions.get(name)
        if f is None:
            return None
        if isinstance(f, Function):
            return f
        ln, m, body = f
        head = ln[len('define'):m.start()]
        p = P(tokenize(head), self)
        # skip linkage words
        while True:
            t = p.peek()
            if t is None:
                raise IRError('define? ' + ln)
            if INTTY.match(t) or t in ('ptr', 'void', 'double', 'float', 'x86_fp80') or t[0] in '%[{<':
                break
            if t in PARAM_ATTRS_ARG:
                skip_attrs(p)
                continue
            p.next()
        ret = parse_type(p)
        p2 = P(tokenize(ln[m.end():ln.rindex('{')]), self)
        params = []
        k = 0
        while not p2.accept(')'):
            if p2.accept('...'):
                continue
            ty = parse_type(p2)
            at = skip_attrs(p2)
            if p2.peek() and p2.peek()[0] == '%':
                nm = p2.next()[1:]
            else:
                nm = str(k)
            k += 1
            params.append((ty, nm, at))
            p2.accept(',')
        fn = Function(self, name, ret, params, body, None)
        self.functions[name] = fn
        return fn

    def typedef(self, name):
        t = self.types.get(name)
        if t is None:
            txt = self.typetext.get(name)
            if txt is None:
                raise IRError('unknown type ' + name)
            if txt.startswith('opaque'):
                t = ('opaque',)
            else:
                t = parse_type(P(tokenize(txt), self))
            self.types[name] = t
        return t

    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.typedef(ty[1])
        return ty

    def global_init(self, name):
        g = self.globals.get(name)
        if g is None:
            txt = self.gtext.get(name)
            if txt is None:
                return None
            txt = strip_meta(txt)
            p = P(tokenize(txt), self)
            ext = False
            isconst = False
            while True:
                t = p.peek()
                if t in ('global', 'constant'):
                    isconst = t == 'constant'
                    p.next()
                    break
                if t == 'alias':
                    p.next()
                    ty = parse_type(p)
                    p.expect(',')
                    v = parse_tv(p)
                    g = ('alias', v[1])
                    self.globals[name] = g
                    return g
                if t == 'external' or t == 'extern_weak':
                    ext = True
                p.next()
                if t in ('thread_local', 'addrspace', 'dllimport') and p.peek() == '(':
                    while p.next() != ')':
                        pass
            ty = parse_type(p)
            init = None
            if not ext and not p.end() and p.peek() != ',':
                init = parse_value(p, ty)
            g = ('global', ty, init, isconst)
            self.globals[name] = g
        return g

    def size_align(self, ty):
        r = self._szc.get(ty)
        if r is not None:
            return r
        t = self.resolve(ty)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'double':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'array':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            z = s * t[1]
            r = (z, z)
        elif k == 'struct':
            off = 0
            al = 1
            for e in t[2]:
                s, a = self.size_align(e)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'func' or k == 'opaque' or k == 'void':
            r = (0, 1)
        else:
            raise IRError('size of %r' % (t,))
        self._szc[ty] = r
        return r

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def field(self, ty, i):
        """(offset, type) of member i of struct/array/vec type"""
        t = self.resolve(ty)
        if t[0] in ('array', 'vec'):
            return self.sizeof(t[2]) * i, t[2]
        key = ('f', t, i)
        r = self._szc.get(key)
        if r is None:
            off = 0
            for j, e in enumerate(t[2]):
                s, a = self.size_align(e)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a
                if j == i:
                    r = (off, e)
                    break
                off += s
            self._szc[key] = r
        return r


class Program:
    """several modules; symbol lookup across them"""

    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.fcache = {}

    def function(self, name, prefer=None):
        key = name
        if key in self.fcache:
            return self.fcache[key]
        r = None
        for m in self.mods:
            f = m.function(name)
            if f is not None:
                r = f
                break
            if name in m.gtext:
                g = m.global_init(name)
                if g and g[0] == 'alias' and g[1][0] == 'glob':
                    r = self.function(g[1][1])
                    break
        self.fcache[key] = r
        return r

    def find_global(self, name, mod):
        order = [mod] + [m for m in self.mods if m is not mod]
        best = None
        for m in order:
            if name in m.gtext:
                g = m.global_init(name)
                if g[0] == 'alias':
                    return m, g
                if g[2] is not None:
                    return m, g
                if best is None:
                    best = (m, g)
        return best
