"""Parser for the textual LLVM IR that clang emits from the real headers.

Nothing is dropped silently: an instruction or constant this parser does not
know raises ParseError, which the driver reports as an error of the check.
Functions are parsed lazily (on first call).
"""
import re
import struct as _struct
from fractions import Fraction


class ParseError(Exception):
    pass


# ---------------------------------------------------------------- types
# ('int', w) ('float',) ('double',) ('x86_fp80',) ('ptr',) ('void',) ('label',) ('token',)
# ('metadata',) ('array', n, t) ('vec', n, t) ('struct', (t...), packed) ('func',)
VOID = ('void',)
PTR = ('ptr',)
FLOAT = ('float',)
DOUBLE = ('double',)
I1 = ('int', 1)
I8 = ('int', 8)
I32 = ('int', 32)
I64 = ('int', 64)

_size_cache = {}


def size_align(t):
    r = _size_cache.get(t)
    if r is not None:
        return r
    k = t[0]
    if k == 'int':
        w = t[1]
        n = (w + 7) // 8
        a = 1
        while a < n:
            a *= 2
        a = min(a, 16)
        s = (n + a - 1) // a * a
        r = (s, a)
    elif k == 'float':
        r = (4, 4)
    elif k in ('double', 'ptr'):
        r = (8, 8)
    elif k == 'x86_fp80':
        r = (16, 16)
    elif k == 'array':
        s, a = size_align(t[2])
        r = (s * t[1], a)
    elif k == 'vec':
        s, a = size_align(t[2])
        n = s * t[1]
        p = 1
        while p < n:
            p *= 2
        r = (p, p)
    elif k == 'struct':
        off = 0
        al = 1
        for e in t[1]:
            s, a = size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        off = (off + al - 1) // al * al
        r = (off, al)
    else:
        raise ParseError('size of %r' % (t,))
    _size_cache[t] = r
    return r


def sizeof(t):
    return size_align(t)[0]


def field_offset(t, i):
    off = 0
    for j, e in enumerate(t[1]):
        s, a = size_align(e)
        if t[2]:
            a = 1
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += s
    raise ParseError('field index')


TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            # strings
 | [%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)
 | \#\d+ | ![-\w.]*
 | "(?:[^"\\]|\\.)*"
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | [-+]?\d+\.\d*(?:e[-+]?\d+)?
 | -?\d+
 | \.\.\.
 | [a-zA-Z_$][\w$.]*
 | [()\[\]{}<>,=*:|]
''', re.X)

PARAM_ATTRS = {
    'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'zeroext', 'signext',
    'noalias', 'inreg', 'returned', 'immarg', 'nest', 'noreturn', 'nounwind', 'swiftself', 'allocptr',
    'allocalign', 'nofree', 'noext', 'mustprogress', 'dead_on_unwind', 'writable',
}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                   'inalloca', 'preallocated', 'nofpclass'}
FN_WORDS = {'dso_local', 'dso_preemptable', 'private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr',
            'external', 'available_externally', 'common', 'hidden', 'protected', 'default', 'unnamed_addr',
            'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'extern_weak', 'appending',
            'thread_local', 'externally_initialized'}


class P:
    """token stream parser"""
    __slots__ = ('toks', 'i', 'mod', 'text')

    def __init__(self, text, mod):
        self.text = text
        self.toks = TOK.findall(text)
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise ParseError('unexpected end: ' + self.text)
        self.i += 1
        return t

    def accept(self, t):
        if self.peek() == t:
            self.i += 1
            return True
        return False

    def expect(self, t):
        x = self.next()
        if x != t:
            raise ParseError('expected %s got %s in %s' % (t, x, self.text))

    def type(self):
        t = self.next()
        if t == 'void':
            r = VOID
        elif t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                raise ParseError('addrspace')
        elif t == 'float':
            r = FLOAT
        elif t == 'double':
            r = DOUBLE
        elif t == 'x86_fp80':
            r = ('x86_fp80',)
        elif t in ('label', 'token', 'metadata'):
            r = (t,)
        elif re.fullmatch(r'i\d+', t):
            r = ('int', int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('array', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t == '{':
            r = self._struct(False)
        elif t[0] == '%':
            r = self.mod.named_type(t)
        else:
            raise ParseError('type %s in %s' % (t, self.text))
        # function type suffix
        if self.peek() == '(' and self._is_functype():
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            return ('func', r)
        return r

    def _is_functype(self):
        # '(' directly after a type inside call syntax "call void (ptr, ...) @f(" : next after matching ')' is @/%
        depth = 0
        j = self.i
        while j < len(self.toks):
            x = self.toks[j]
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    nx = self.toks[j + 1] if j + 1 < len(self.toks) else None
                    return nx is not None and nx[0] in '@%'
            j += 1
        return False

    def _struct(self, packed):
        fs = []
        if not self.accept('}'):
            while True:
                fs.append(self.type())
                if self.accept('}'):
                    break
                self.expect(',')
        return ('struct', tuple(fs), packed)

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.i += 1
            elif t in PARAM_ATTRS_ARG:
                self.i += 1
                if self.peek() == '(':
                    self.skip_paren()
                elif t == 'align':
                    self.i += 1
            elif t is not None and t.startswith('#'):
                self.i += 1
            elif t is not None and t.startswith('"'):
                self.i += 1
                if self.peek() == '=':
                    self.i += 2
            else:
                return

    def skip_paren(self):
        depth = 0
        while True:
            x = self.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    return

    def tvalue(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

    def value(self, t):
        """-> ('reg',name) | ('glob',name) | ('const',type,pyval) | ('gepc',...) ..."""
        x = self.next()
        c = x[0]
        if c == '%':
            return ('reg', unq(x))
        if c == '@':
            return ('glob', unq(x))
        if x == 'null':
            return ('null',)
        if x == 'undef' or x == 'poison':
            return ('undef', t)
        if x == 'zeroinitializer':
            return ('zero', t)
        if x == 'true':
            return ('int', 1, 1)
        if x == 'false':
            return ('int', 1, 0)
        if t[0] == 'int' and re.fullmatch(r'-?\d+', x):
            return ('int', t[1], int(x))
        if t[0] in ('float', 'double'):
            return ('fp', t[0], parse_fp(x))
        if t[0] == 'x86_fp80':
            return ('fp', 'x86_fp80', parse_fp80(x))
        if x in ('getelementptr',):
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            base = self.tvalue()
            idx = []
            while self.accept(','):
                self.accept('inrange')
                idx.append(self.tvalue())
            self.expect(')')
            return ('gepc', bt, base, tuple(idx))
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            self.expect('(')
            v = self.tvalue()
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('castc', x, v, tt)
        if x in ('sub', 'add', 'mul'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            a = self.tvalue()
            self.expect(',')
            b = self.tvalue()
            self.expect(')')
            return ('binc', x, a, b)
        if c == 'c' and x[1:2] == '"':
            return ('bytes', cstr(x[2:-1]))
        if x == '[' or x == '{' or x == '<':
            if x == '<' and self.peek() == '{':
                self.next()
                x = '<{'
            close = {'[': ']', '{': '}', '<': '>', '<{': '}'}[x]
            vs = []
            if not self.accept(close):
                while True:
                    vs.append(self.tvalue())
                    if self.accept(close):
                        break
                    self.expect(',')
            if x == '<{':
                self.expect('>')
            return ('agg', t, tuple(vs))
        raise ParseError('value %r of %r in %s' % (x, t, self.text))


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def unq(x):
    if x[1:2] == '"':
        return x[2:-1]
    return x[1:]


def parse_fp(x):
    if x.startswith('0x'):
        d = _struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
    else:
        d = float(x)
    if d != d:
        return 'nan'
    if d in (float('inf'), float('-inf')):
        return 'inf' if d > 0 else '-inf'
    if d == 0 and str(d)[0] == '-':
        return '-0'
    return Fraction(d)


def parse_fp80(x):
    if not x.startswith('0xK'):
        raise ParseError('fp80 ' + x)
    b = int(x[3:], 16)
    s = b >> 79
    e = (b >> 64) & 0x7fff
    m = b & ((1 << 64) - 1)
    if e == 0x7fff:
        return 'nan'
    v = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
    return -v if s else v


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'flags', 'dest', 'unwind')

    def __init__(self, op, res=None, ty=None, a=None, text='', flags=()):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.text = text
        self.flags = flags
        self.dest = None
        self.unwind = None

    def __repr__(self):
        return self.text.strip()


class Block:
    __slots__ = ('name', 'ins', 'succ', 'idx')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.idx = 0


class Function:
    def __init__(self, name, header, body, mod):
        self.name = name
        self.mod = mod
        self.header = header
        self.body = body
        self.parsed = False
        self.blocks = {}
        self.order = []
        self.params = []
        self.ret = None
        self._parse_header()

    def _parse_header(self):
        p = P(self.header, self.mod)
        p.next()  # define/declare
        while True:
            t = p.peek()
            if t in FN_WORDS or t in PARAM_ATTRS:
                p.next()
            elif t in PARAM_ATTRS_ARG:
                p.skip_attrs()
            else:
                break
        self.ret = p.type()
        p.skip_attrs()
        p.next()  # @name
        p.expect('(')
        self.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                else:
                    t = p.type()
                    sret = None
                    j = p.i
                    p.skip_attrs()
                    attrs = p.toks[j:p.i]
                    nm = None
                    if p.peek() and p.peek()[0] == '%':
                        nm = unq(p.next())
                    self.params.append((t, nm, attrs))
                if p.accept(')'):
                    break
                p.expect(',')

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        # implicit numbering
        n = 0
        for i, (t, nm, at) in enumerate(self.params):
            if nm is None:
                self.params[i] = (t, str(n), at)
                n += 1
        cur = None
        lines = self.body
        k = 0
        first = True
        while k < len(lines):
            ln = lines[k]
            k += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^(?:"((?:[^"\\]|\\.)*)"|([-a-zA-Z$._0-9]+)):', s)
            if m and not ln.startswith(' '):
                cur = Block(m.group(1) if m.group(1) is not None else m.group(2))
                self.blocks[cur.name] = cur
                self.order.append(cur)
                first = False
                continue
            if first:
                cur = Block('entry$%d' % n if False else str(n))
                self.blocks[cur.name] = cur
                self.order.append(cur)
                first = False
            # join multi-line instructions (switch, invoke, landingpad)
            if s.startswith('switch') or ' = switch' in s:
                while ']' not in s:
                    s += ' ' + lines[k].strip()
                    k += 1
            elif re.match(r'(%\S+ = )?invoke ', s):
                while ' unwind label ' not in s:
                    s += ' ' + lines[k].strip()
                    k += 1
            elif re.search(r'= landingpad ', s):
                while k < len(lines) and re.match(r'\s+(cleanup|catch|filter)', lines[k]):
                    s += ' ' + lines[k].strip()
                    k += 1
            cur.ins.append(parse_instr(s, self.mod))
        for b in self.order:
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = list(t.dest)
            elif t.op == 'switch':
                b.succ = list(dict.fromkeys(t.dest))
            elif t.op == 'invoke':
                b.succ = [t.dest, t.unwind]
            elif t.op in ('ret', 'unreachable', 'resume'):
                b.succ = []
            else:
                raise ParseError('terminator ' + t.text)
        self._wto()
        return self

    def _wto(self):
        """Bourdoncle's weak topological order: loops are contiguous."""
        sys_order = []
        num = {}
        dfn = {}
        stack = []
        counter = [0]
        blocks = self.blocks
        entry = self.order[0].name
        INF = 1 << 30

        def component(v):
            part = []
            for s in blocks[v].succ:
                if dfn.get(s, 0) == 0:
                    visit(s, part)
            return [v] + [x for x in reversed(part) for x in x]

        def visit(v, part):
            stack.append(v)
            counter[0] += 1
            dfn[v] = counter[0]
            head = counter[0]
            loop = False
            for s in blocks[v].succ:
                d = dfn.get(s, 0)
                m = visit(s, part) if d == 0 else d
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = INF
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    part.append(component(v))
                    self.loop_heads.add(v)
                else:
                    part.append([v])
            return head

        self.loop_heads = set()
        part = []
        import sys
        sys.setrecursionlimit(100000)
        visit(entry, part)
        flat = [x for x in reversed(part) for x in x]
        for i, b in enumerate(self.order):
            b.idx = -1 - i      # blocks without a path from the entry
        for i, n in enumerate(flat):
            blocks[n].idx = i
        self.entry = entry


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr',
         'bitcast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast',
         'disjoint', 'nneg', 'volatile', 'nusw'}


def parse_instr(s, mod):
    p = P(s, mod)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'notail', 'musttail'):
        op = p.next()

    def flags():
        f = []
        while p.peek() in FLAGS:
            f.append(p.next())
        return tuple(f)

    if op in BINOPS:
        f = flags()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, t, (a, b), s, f)
    if op == 'fneg':
        f = flags()
        t = p.type()
        return Instr(op, res, t, (p.value(t),), s, f)
    if op in CASTS:
        f = flags()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        return Instr(op, res, p.type(), (t, v), s, f)
    if op in ('icmp', 'fcmp'):
        f = flags()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, t, (pred, a, b), s, f)
    if op == 'alloca':
        t = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                n = p.tvalue()
        return Instr(op, res, t, n, s)
    if op == 'load':
        flags()
        t = p.type()
        p.expect(',')
        pt = p.type()
        return Instr(op, res, t, p.value(pt), s)
    if op == 'store':
        flags()
        t, v = p.tvalue()
        p.expect(',')
        pt = p.type()
        return Instr(op, None, t, (v, p.value(pt)), s)
    if op == 'getelementptr':
        f = flags()
        bt = p.type()
        p.expect(',')
        base = p.tvalue()
        idx = []
        while p.accept(','):
            idx.append(p.tvalue())
        return Instr(op, res, bt, (base, tuple(idx)), s, f)
    if op == 'br':
        if p.accept('label'):
            d = unq(p.next())
            i = Instr(op, None, None, None, s)
            i.dest = (d,)
            return i
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        d1 = unq(p.next())
        p.expect(',')
        p.expect('label')
        d2 = unq(p.next())
        i = Instr(op, None, None, c, s)
        i.dest = (d1, d2)
        return i
    if op == 'switch':
        t, v = p.tvalue()
        p.expect(',')
        p.expect('label')
        dflt = unq(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct, cv = p.tvalue()
            p.expect(',')
            p.expect('label')
            cases.append((cv, unq(p.next())))
        i = Instr(op, None, t, (v, tuple(cases)), s)
        i.dest = tuple([dflt] + [c[1] for c in cases])
        return i
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Instr(op, None, t, None, s)
        return Instr(op, None, t, p.value(t), s)
    if op == 'unreachable':
        return Instr(op, None, None, None, s)
    if op == 'resume':
        t, v = p.tvalue()
        return Instr(op, None, t, v, s)
    if op in ('call', 'invoke'):
        flags()
        while True:
            t = p.peek()
            if t in FN_WORDS or t in PARAM_ATTRS:
                p.next()
            elif t in PARAM_ATTRS_ARG:
                p.skip_attrs()
            else:
                break
        rt = p.type()
        if rt[0] == 'func':
            rt = rt[1]
        p.skip_attrs()
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                if t[0] == 'metadata':
                    while p.peek() not in (',', ')'):
                        p.next()
                    args.append((t, None))
                else:
                    p.skip_attrs()
                    args.append((t, p.value(t)))
                if p.accept(')'):
                    break
                p.expect(',')
        i = Instr(op, res, rt, (callee, tuple(args)), s)
        if op == 'invoke':
            while not p.accept('to'):
                p.next()
            p.expect('label')
            i.dest = unq(p.next())
            p.expect('unwind')
            p.expect('label')
            i.unwind = unq(p.next())
        return i
    if op == 'phi':
        f = flags()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((v, unq(p.next())))
            p.expect(']')
            if not p.accept(','):
                break
        return Instr(op, res, t, tuple(inc), s)
    if op == 'select':
        flags()
        c = p.tvalue()
        p.expect(',')
        a = p.tvalue()
        p.expect(',')
        b = p.tvalue()
        return Instr(op, res, a[0], (c, a, b), s)
    if op == 'extractvalue':
        v = p.tvalue()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr(op, res, v[0], (v[1], tuple(idx)), s)
    if op == 'insertvalue':
        v = p.tvalue()
        p.expect(',')
        w = p.tvalue()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr(op, res, v[0], (v[1], w, tuple(idx)), s)
    if op == 'extractelement':
        v = p.tvalue()
        p.expect(',')
        i = p.tvalue()
        return Instr(op, res, v[0], (v[1], i), s)
    if op == 'insertelement':
        v = p.tvalue()
        p.expect(',')
        w = p.tvalue()
        p.expect(',')
        i = p.tvalue()
        return Instr(op, res, v[0], (v[1], w, i), s)
    if op == 'shufflevector':
        v = p.tvalue()
        p.expect(',')
        w = p.tvalue()
        p.expect(',')
        m = p.tvalue()
        return Instr(op, res, v[0], (v[1], w[1], m), s)
    if op == 'landingpad':
        t = p.type()
        cl = []
        while p.peek():
            x = p.next()
            if x == 'cleanup':
                cl.append(('cleanup',))
            elif x == 'catch':
                cl.append(('catch', p.tvalue()))
            elif x == 'filter':
                cl.append(('filter', p.tvalue()))
            else:
                raise ParseError(s)
        return Instr(op, res, t, tuple(cl), s)
    if op == 'freeze':
        v = p.tvalue()
        return Instr(op, res, v[0], v[1], s)
    raise ParseError('instruction ' + s)


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_src = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.ctors = []
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
                if m:
                    self.type_src[unq(m.group(1))] = m.group(2)
            elif c == '@':
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)$', ln)
                nm = m.group(1).strip('"')
                self.globals[nm] = m.group(2)
            elif ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
                nm = m.group(1).strip('"')
                self.funcs[nm] = (ln, body)
            elif ln.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
        self._fcache = {}
        self._gcache = {}

    def named_type(self, t):
        nm = unq(t)
        r = self.types.get(nm)
        if r is None:
            src = self.type_src.get(nm)
            if src is None:
                raise ParseError('unknown type ' + nm)
            if src == 'opaque':
                r = ('struct', (), False)
            else:
                r = P(src, self).type()
            self.types[nm] = r
        return r

    def func(self, name):
        f = self._fcache.get(name)
        if f is None:
            d = self.funcs.get(name)
            if d is None:
                return None
            f = Function(name, d[0], d[1], self)
            self._fcache[name] = f
        return f

    def glob(self, name):
        """-> (type, init or None, is_const)"""
        g = self._gcache.get(name)
        if g is not None:
            return g
        src = self.globals.get(name)
        if src is None:
            return None
        if src.startswith('alias') or ' alias ' in src.split('"')[0]:
            m = re.search(r'alias .*?, ptr @(.*)$', src)
            g = ('alias', m.group(1).strip('"'))
            self._gcache[name] = g
            return g
        p = P(src, self)
        const = False
        external = False
        while True:
            t = p.peek()
            if t == 'constant':
                const = True
                p.next()
                break
            if t == 'global':
                p.next()
                break
            if t in ('external', 'extern_weak'):
                external = True
            p.next()
        ty = p.type()
        init = None
        if not external:
            init = p.value(ty)
        g = (ty, init, const)
        self._gcache[name] = g
        return g

    def ctor_list(self):
        g = self.globals.get('llvm.global_ctors')
        if g is None:
            return []
        out = re.findall(r'i32 (\d+), ptr @("[^"]*"|[-\w$.]+)', g)
        out = [(int(a), b.strip('"')) for a, b in out]
        out.sort(key=lambda x: x[0])
        return [b for a, b in out]
