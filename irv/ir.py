"""LLVM-IR (textual, LLVM 18) parser for the deductive verifier `irv`.

Only what clang emits for the repository's code is parsed; anything else raises
Unsupported, which the driver turns into "function not within reach".
"""
import re
from functools import lru_cache


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      # c-string
 | [%@!]"(?:[^"\\]|\\.)*"                   # quoted ident
 | [%@!][-a-zA-Z$._0-9]+                    # ident
 | "(?:[^"\\]|\\.)*"
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?
 | -?[0-9]+
 | [a-zA-Z_][-a-zA-Z_0-9.]*
 | \.\.\.
 | \#[0-9]+
 | [(){}\[\]<>,=*:!|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def key(self):
        return (self.k, self.a if not isinstance(self.a, (Ty, list, tuple)) else
                (self.a.key() if isinstance(self.a, Ty) else tuple(x.key() for x in self.a)), self.b if not isinstance(self.b, Ty) else self.b.key())

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'array':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.a))
        if self.k == 'named':
            return self.a
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')
I64 = Ty('int', 64)
I8 = Ty('int', 8)


class P:
    """token stream"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('parse: expected %r got %r in %s' % (x, y, ' '.join(self.t)[:200]))

    def done(self):
        return self.i >= len(self.t)


def unq(n):
    # %"a b" -> %a b
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n


def parse_type(p):
    t = p.next()
    if t == 'ptr':
        ty = PTR
        if p.peek() == 'addrspace':
            raise Unsupported('addrspace')
    elif t == 'void':
        ty = VOID
    elif re.fullmatch(r'i\d+', t):
        ty = Ty('int', int(t[1:]))
    elif t in ('double', 'float', 'x86_fp80', 'fp128', 'half'):
        ty = Ty('fp', {'double': 64, 'float': 32, 'x86_fp80': 80, 'fp128': 128, 'half': 16}[t])
    elif t in ('metadata', 'label', 'token'):
        ty = Ty(t)
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        ty = Ty('array', n, e)
    elif t == '{':
        fs = []
        if not p.eat('}'):
            while True:
                fs.append(parse_type(p))
                if p.eat('}'):
                    break
                p.expect(',')
        ty = Ty('struct', tuple(fs), False)
    elif t == '<':
        if p.peek() == '{':
            p.next()
            fs = []
            if not p.eat('}'):
                while True:
                    fs.append(parse_type(p))
                    if p.eat('}'):
                        break
                    p.expect(',')
            p.expect('>')
            ty = Ty('struct', tuple(fs), True)
        else:
            raise Unsupported('vector type')
    elif t.startswith('%'):
        ty = Ty('named', unq(t))
    elif t == 'opaque':
        ty = Ty('opaque')
    else:
        raise Unsupported('type %r' % t)
    # function type e.g. i32 (ptr, ...)
    if p.peek() == '(' and getattr(p, 'allow_fty', False):
        depth = 0
        while True:
            x = p.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
    return ty


# ------------------------------------------------------------------ operands
class Op:
    """operand: k in local, global, int, null, undef, zero, fp, cexpr, cstr, agg, meta"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return '%s:%r' % (self.k, self.v)


CEXPR = ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'sub', 'add', 'trunc', 'zext', 'icmp', 'select')


def parse_value(p, ty):
    t = p.next()
    if t.startswith('%'):
        return Op('local', unq(t), ty)
    if t.startswith('@'):
        return Op('global', unq(t), ty)
    if t == 'null':
        return Op('null', None, ty)
    if t in ('undef', 'poison'):
        return Op('undef', t, ty)
    if t == 'true':
        return Op('int', 1, ty)
    if t == 'false':
        return Op('int', 0, ty)
    if t == 'zeroinitializer':
        return Op('zero', None, ty)
    if t.startswith('c"'):
        return Op('cstr', cstr_bytes(t), ty)
    if t in CEXPR:
        return parse_cexpr(p, t, ty)
    if t in ('[', '{'):
        close = {'[': ']', '{': '}'}[t]
        xs = []
        if not p.eat(close):
            while True:
                et = parse_type(p)
                xs.append(parse_value(p, et))
                if p.eat(close):
                    break
                p.expect(',')
        return Op('agg', xs, ty)
    if ty.k == 'fp':
        return Op('fp', t, ty)
    if re.fullmatch(r'-?\d+', t):
        return Op('int', int(t), ty)
    if t.startswith('!'):
        return Op('meta', t, ty)
    raise Unsupported('value %r' % t)


def parse_cexpr(p, op, ty):
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        p.expect('(')
        bt = parse_type(p)
        p.expect(',')
        ops = parse_tvlist(p, ')')
        return Op('cexpr', ('gep', bt, ops), ty)
    if op in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
        p.expect('(')
        st = parse_type(p)
        v = parse_value(p, st)
        p.expect('to')
        dt = parse_type(p)
        p.expect(')')
        return Op('cexpr', (op, v, dt), ty)
    raise Unsupported('constant expression %s' % op)


def parse_tvlist(p, close):
    xs = []
    if p.eat(close):
        return xs
    while True:
        while p.peek() == 'inrange':
            p.next()
            if p.peek() == '(':
                skip_parens(p)
        t = parse_type(p)
        xs.append(parse_value(p, t))
        if p.eat(close):
            return xs
        p.expect(',')


def skip_parens(p):
    d = 0
    while True:
        x = p.next()
        if x == '(':
            d += 1
        elif x == ')':
            d -= 1
            if d == 0:
                return


def cstr_bytes(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


# ------------------------------------------------------------------ instructions
class Ins:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'flags')

    def __init__(self, op, res, ty=None, ops=(), x=None, flags=()):
        self.op, self.res, self.ty, self.ops, self.x, self.flags = op, res, ty, ops, x, flags
        self.dbg = None

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.ops, self.x)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'}
PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'captures', 'range', 'byref', 'inalloca', 'elementtype', 'preallocated', 'nofpclass'}
PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned', 'immarg', 'inreg', 'nest', 'writable', 'dead_on_unwind', 'swiftself', 'allocptr', 'allocalign', 'nofree'}


def skip_attrs(p):
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            p.next()
        elif t in PARAM_ATTRS_PAREN:
            p.next()
            if p.peek() == '(':
                skip_parens(p)
            elif t == 'align':
                p.next()
        else:
            return


FASTMATH = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def parse_ins(line):
    dbg = None
    m = re.search(r', !dbg (![0-9]+)', line)
    if m:
        dbg = m.group(1)
    # strip metadata
    line = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', line)
    toks = tokenize(line)
    # strip trailing attribute groups "#5"
    while toks and re.fullmatch(r'#\d+', toks[-1]):
        toks.pop()
    p = P(toks)
    res = None
    if p.peek().startswith('%') and p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    op = p.next()
    i = _parse(op, res, p)
    i.dbg = dbg
    return i


def _parse(op, res, p):
    if op in BINOPS:
        fl = []
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FASTMATH:
            fl.append(p.next())
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Ins(op, res, ty, (a, b), flags=fl)
    if op == 'fneg':
        while p.peek() in FASTMATH:
            p.next()
        ty = parse_type(p)
        return Ins(op, res, ty, (parse_value(p, ty),))
    if op in CASTS:
        fl = []
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            fl.append(p.next())
        st = parse_type(p)
        v = parse_value(p, st)
        p.expect('to')
        dt = parse_type(p)
        return Ins(op, res, dt, (v,), flags=fl)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FASTMATH:
            p.next()
        pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Ins(op, res, Ty('int', 1), (a, b), pred)
    if op == 'select':
        while p.peek() in FASTMATH:
            p.next()
        t0 = parse_type(p)
        c = parse_value(p, t0)
        p.expect(',')
        t1 = parse_type(p)
        a = parse_value(p, t1)
        p.expect(',')
        t2 = parse_type(p)
        b = parse_value(p, t2)
        return Ins(op, res, t1, (c, a, b))
    if op == 'phi':
        while p.peek() in FASTMATH:
            p.next()
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, ty)
            p.expect(',')
            b = unq(p.next())
            p.expect(']')
            inc.append((v, b[1:]))
            if not p.eat(','):
                break
        return Ins(op, res, ty, (), inc)
    if op == 'br':
        t = parse_type(p)
        if t.k == 'label':
            return Ins(op, None, None, (), [unq(p.next())[1:]])
        c = parse_value(p, t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())[1:]
        p.expect(',')
        p.expect('label')
        b = unq(p.next())[1:]
        return Ins(op, None, None, (c,), [a, b])
    if op == 'switch':
        t = parse_type(p)
        c = parse_value(p, t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())[1:]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = parse_type(p)
            cv = parse_value(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv.v, unq(p.next())[1:]))
        return Ins(op, None, t, (c,), (d, cases))
    if op == 'ret':
        t = parse_type(p)
        if t.k == 'void':
            return Ins(op, None, t)
        return Ins(op, None, t, (parse_value(p, t),))
    if op == 'unreachable':
        return Ins(op, None)
    if op == 'load':
        vol = False
        while p.peek() in ('volatile', 'atomic'):
            if p.next() == 'atomic':
                raise Unsupported('atomic load')
            vol = True
        ty = parse_type(p)
        p.expect(',')
        pt = parse_type(p)
        a = parse_value(p, pt)
        return Ins(op, res, ty, (a,), flags=('volatile',) if vol else ())
    if op == 'store':
        vol = False
        while p.peek() in ('volatile', 'atomic'):
            if p.next() == 'atomic':
                raise Unsupported('atomic store')
            vol = True
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        pt = parse_type(p)
        a = parse_value(p, pt)
        return Ins(op, None, ty, (v, a), flags=('volatile',) if vol else ())
    if op == 'getelementptr':
        fl = []
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            fl.append(p.next())
        bt = parse_type(p)
        p.expect(',')
        ops = []
        while True:
            t = parse_type(p)
            ops.append(parse_value(p, t))
            if not p.eat(','):
                break
        return Ins(op, res, PTR, tuple(ops), bt, fl)
    if op == 'alloca':
        p.eat('inalloca')
        ty = parse_type(p)
        n = None
        if p.eat(','):
            if p.peek() != 'align':
                t = parse_type(p)
                n = parse_value(p, t)
        return Ins(op, res, PTR, () if n is None else (n,), ty)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in ('call', 'invoke'):
        while p.peek() in FASTMATH or p.peek() in ('fastcc', 'coldcc', 'ccc'):
            p.next()
        skip_attrs(p)
        ty = parse_type(p)
        if p.peek() == '(':       # full function type (varargs)
            skip_parens(p)
        callee = p.next()
        if not callee.startswith(('@', '%')):
            raise Unsupported('call %s' % callee)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                t = parse_type(p)
                skip_attrs(p)
                if t.k == 'metadata':
                    # skip until , or ) at depth 0
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x in '([{':
                            d += 1
                        elif x in ')]}':
                            d -= 1
                    args.append(Op('meta', None, t))
                else:
                    args.append(parse_value(p, t))
                if p.eat(')'):
                    break
                p.expect(',')
        x = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            n = unq(p.next())[1:]
            p.expect('unwind')
            p.expect('label')
            x = (n, unq(p.next())[1:])
        return Ins(op, res, ty, tuple(args), (unq(callee), x))
    if op == 'freeze':
        ty = parse_type(p)
        return Ins(op, res, ty, (parse_value(p, ty),))
    if op == 'extractvalue':
        ty = parse_type(p)
        v = parse_value(p, ty)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Ins(op, res, None, (v,), idx)
    if op == 'insertvalue':
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        t2 = parse_type(p)
        v2 = parse_value(p, t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Ins(op, res, ty, (v, v2), idx)
    return Ins('unsupported', res, None, (), op)


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (name, Ty)
        self.ret = None
        self.blocks = {}
        self.entry = None
        self.dbg = None


class Global:
    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.meta = {}

    # ---- layout
    def resolve(self, ty):
        while ty.k == 'named':
            if ty.a not in self.types:
                raise Unsupported('type ' + ty.a)
            ty = self.types[ty.a]
        return ty

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            return max(1, 1 << ((ty.a + 7) // 8 - 1).bit_length()) if ty.a > 8 else 1
        if ty.k == 'ptr':
            return 8
        if ty.k == 'fp':
            return {64: 8, 32: 4, 80: 16, 128: 16, 16: 2}[ty.a]
        if ty.k == 'array':
            return ty.a * self.size(ty.b)
        if ty.k == 'struct':
            offs, sz = self.struct_layout(ty)
            return sz
        raise Unsupported('sizeof %r' % ty)

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'array':
            return self.align(ty.b)
        if ty.k == 'struct':
            if ty.b:
                return 1
            return max([self.align(f) for f in ty.a] or [1])
        return self.size(ty)

    def struct_layout(self, ty):
        ty = self.resolve(ty)
        off = 0
        offs = []
        for f in ty.a:
            if not ty.b:
                al = self.align(f)
                off = (off + al - 1) // al * al
            offs.append(off)
            off += self.size(f)
        if not ty.b:
            al = self.align(ty)
            off = (off + al - 1) // al * al
        return offs, off

    def scalars(self, ty, base=0):
        """flattened list of (offset, scalar type)"""
        ty = self.resolve(ty)
        if ty.k == 'struct':
            offs, _ = self.struct_layout(ty)
            r = []
            for o, f in zip(offs, ty.a):
                r += self.scalars(f, base + o)
            return r
        if ty.k == 'array':
            s = self.size(ty.b)
            if ty.a > 4096:
                raise Unsupported('large array')
            r = []
            for i in range(ty.a):
                r += self.scalars(ty.b, base + i * s)
            return r
        return [(base, ty)]

    def line(self, dbg):
        """innermost source line of a !dbg ref"""
        if not dbg:
            return None
        t = self.meta.get(dbg, '')
        m = re.search(r'line: (\d+)', t)
        return int(m.group(1)) if m else None


def parse_module(text):
    M = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            p = P(tokenize(ln))
            name = unq(p.next())
            p.expect('=')
            p.expect('type')
            M.types[name] = parse_type(p)
        elif ln.startswith('@'):
            g = parse_global(ln)
            if g:
                M.globals[g.name] = g
        elif ln.startswith('declare'):
            m = re.search(r'@("[^"]+"|[-\w$.]+)\(', ln)
            if m:
                M.decls['@' + m.group(1).strip('"')] = ln
        elif ln.startswith('define'):
            f = parse_header(ln)
            i += 1
            cur = None
            body = []
            while lines[i] != '}':
                l = lines[i]
                i += 1
                if not l.strip() or l.startswith(';'):
                    continue
                if not l.startswith(' '):
                    m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', l)
                    nm = m.group(1).strip('"')
                    cur = Block(nm)
                    f.blocks[nm] = cur
                    if f.entry is None:
                        f.entry = nm
                    continue
                if cur is None:
                    nm = '%d' % len(f.params)
                    cur = Block('entry0')
                    f.blocks['entry0'] = cur
                    f.entry = 'entry0'
                s = l.strip()
                if s.startswith('switch') or ' switch ' in s:
                    pass
                if '[' in s and s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s.split('[', 1)[1]:
                    while True:
                        l2 = lines[i]
                        i += 1
                        s += ' ' + l2.strip()
                        if l2.strip().startswith(']'):
                            break
                if s.startswith('invoke') or (' = invoke ' in s):
                    s += ' ' + lines[i].strip()
                    i += 1
                cur.ins.append(s)
            f.lazy = True
            M.funcs[f.name] = f
        elif ln.startswith('!'):
            m = re.match(r'(![0-9]+) = (.*)', ln)
            if m:
                M.meta[m.group(1)] = m.group(2)
        i += 1
    return M


def materialize(M, f):
    if not getattr(f, 'lazy', False):
        return f
    for b in f.blocks.values():
        ins = []
        for s in b.ins:
            try:
                x = parse_ins(s)
            except Unsupported as e:
                x = Ins('unsupported', None, None, (), '%s [%s]' % (e, s[:80]))
            ins.append(x)
        b.ins = ins
        t = ins[-1]
        if t.op == 'br':
            b.succ = list(t.x)
        elif t.op == 'switch':
            b.succ = [t.x[0]] + [c for _, c in t.x[1]]
        elif t.op == 'invoke':
            b.succ = [t.x[1][0]]
        else:
            b.succ = []
    f.lazy = False
    return f


def parse_global(ln):
    ln = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', ln)
    ln = re.sub(r', align \d+.*$', '', ln)
    ln = re.sub(r', comdat.*$', '', ln)
    toks = tokenize(ln)
    p = P(toks)
    name = unq(p.next())
    p.expect('=')
    const = False
    while p.peek() is not None and p.peek() not in ('global', 'constant', 'alias', 'ifunc'):
        x = p.next()
        if x == '(':
            d = 1
            while d:
                y = p.next()
                d += (y == '(') - (y == ')')
    if p.peek() is None or p.peek() in ('alias', 'ifunc'):
        return None
    const = p.next() == 'constant'
    try:
        ty = parse_type(p)
        init = None
        if not p.done():
            init = parse_value(p, ty)
        return Global(name, ty, init, const)
    except (Unsupported, IndexError):
        return Global(name, None, None, const)


def parse_header(ln):
    m = re.search(r'@("[^"]+"|[-\w$.]+)\(', ln)
    name = '@' + m.group(1).strip('"')
    f = Func(name)
    m2 = re.search(r'!dbg (![0-9]+)', ln)
    f.dbg = m2.group(1) if m2 else None
    p = P(tokenize(ln[m.end():]))
    # return type: token(s) before name
    pre = P(tokenize(ln[:m.start()]))
    toks = pre.t
    skipw = {'define', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'dso_local', 'hidden', 'available_externally', 'weak', 'linkonce', 'external', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'protected', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'comdat'}
    while pre.peek() in skipw or pre.peek() in PARAM_ATTRS_PAREN:
        x = pre.next()
        if x in PARAM_ATTRS_PAREN:
            if pre.peek() == '(':
                skip_parens(pre)
            elif x == 'align':
                pre.next()
    f.ret = parse_type(pre)
    if not p.eat(')'):
        k = 0
        while True:
            if p.peek() == '...':
                p.next()
                p.expect(')')
                f.vararg = True
                break
            t = parse_type(p)
            byval = None
            j = p.i
            skip_attrs(p)
            if any(x in ('byval', 'sret') for x in p.t[j:p.i]):
                byval = True
            if p.peek() and p.peek().startswith('%'):
                nm = unq(p.next())
            else:
                nm = '%' + str(k)
            f.params.append((nm, t))
            k += 1
            if p.eat(')'):
                break
            p.expect(',')
    return f


# ------------------------------------------------------------------ debug-info helpers
def di_layouts(M):
    """class/struct name -> {'size':bytes,'fields':{name:(offset,size)}} from debug info (needs -g)."""
    comp = {}
    members = {}
    for k, t in M.meta.items():
        t2 = t[9:] if t.startswith('distinct ') else t
        if t2.startswith('!DICompositeType('):
            nm = re.search(r'name: "((?:[^"\\]|\\.)*)"', t2)
            ident = re.search(r'identifier: "([^"]*)"', t2)
            sz = re.search(r'size: (\d+)', t2)
            comp[k] = (nm.group(1) if nm else None, ident.group(1) if ident else None, int(sz.group(1)) // 8 if sz else None, re.search(r'elements: (![0-9]+)', t2))
    out = {}
    for k, (nm, ident, sz, el) in comp.items():
        if sz is None or nm is None or not el:
            continue
        fields = {}
        lst = M.meta.get(el.group(1), '')
        for ref in re.findall(r'![0-9]+', lst):
            t = M.meta.get(ref, '')
            if t.startswith('!DIDerivedType(tag: DW_TAG_member') and 'DIFlagStaticMember' not in t:
                n2 = re.search(r'name: "([^"]*)"', t)
                o2 = re.search(r'offset: (\d+)', t)
                s2 = re.search(r'size: (\d+)', t)
                if n2:
                    fields[n2.group(1)] = (int(o2.group(1)) // 8 if o2 else 0, int(s2.group(1)) // 8)
        out.setdefault(nm, {'size': sz, 'fields': fields, 'ident': ident})
    return out
