"""Parser for the textual LLVM IR that clang 18 emits (opaque pointers)."""
import re

TOK = re.compile(r'''\s*(?:
  (c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")      # 1 byte string
 |("(?:[^"\\]|\\.)*")                          # 2 string
 |([%@](?:"[^"]*"|[-A-Za-z0-9_.$]+))           # 3 name
 |(-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+)    # 4 number
 |([A-Za-z_][A-Za-z0-9_.]*)                    # 5 word
 |(!DILocation|![A-Za-z0-9_.]*)                # 6 metadata
 |(\#\d+)                                      # 7 attr
 |(\.\.\.|[=,()\[\]{}<>*:|])                   # 8 punct
)''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('token: ' + s[i:i + 60])
        out.append(m.group(m.lastindex))
        i = m.end()
    return out


# types: ('i',n) ('ptr',) ('arr',n,T) ('st',(T..),packed) ('vec',n,T) ('void',) ('label',) ('fn',)
class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise IRError(f'expected {x} in ' + ' '.join(self.t[:60]))

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            t = ('ptr',)
        elif x == 'void':
            t = ('void',)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            t = self._struct(False)
        elif x[0] == '%':
            t = self.m.types.get(x)
            if t is None:
                raise IRError('type ' + x)
        elif x in ('label', 'metadata', 'float', 'double', 'half', 'x86_mmx', 'token'):
            t = (x,)
        else:
            raise IRError('type ' + x + ' in ' + ' '.join(self.t[:40]))
        # function type suffix
        if self.peek() == '(' and t[0] != 'label':
            d = 0
            j = self.i
            # only treat as function type when followed by callee name afterwards
            while True:
                y = self.t[j]
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            nxt = self.t[j + 1] if j + 1 < len(self.t) else None
            if nxt and (nxt[0] in '@%' or nxt == 'asm'):
                self.i = j + 1
        return t

    def _struct(self, packed):
        fs = []
        if not self.eat('}'):
            while True:
                fs.append(self.type())
                if self.eat('}'):
                    break
                self.expect(',')
        return ('st', tuple(fs), packed)

    # operand of known type -> ('l',name) | ('c',int) | ('g',name) | ('agg',[..]) | ('undef',) | ('zero',) | ('gep',...)
    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('l', x)
        if x[0] == '@':
            return ('g', x[1:])
        if x[0] == '-' or x[0].isdigit():
            if '.' in x or x.startswith('0x'):
                raise IRError('float constant')
            return ('c', int(x))
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x.startswith('c"'):
            return ('bytes', cstr(x))
        if x in ('[', '<', '{'):
            close = {'[': ']', '<': '>', '{': '}'}[x]
            vs = []
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
            if not self.eat(close):
                while True:
                    t = self.type()
                    vs.append((t, self.value(t)))
                    if self.eat(close):
                        break
                    self.expect(',')
            if x == '<' and close == '}':
                self.expect('>')
            return ('agg', vs)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            st = self.type()
            self.expect(',')
            self.type()
            base = self.value(('ptr',))
            idx = []
            while self.eat(','):
                if self.peek() == 'inrange':
                    self.next()
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(')')
            return ('gep', st, base, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', x, t, v, t2)
        raise IRError('value ' + x + ' in ' + ' '.join(self.t[:40]))

    def skip_attrs(self):
        """parameter / return attributes"""
        while True:
            x = self.peek()
            if x is None:
                return
            if x in ATTRS:
                self.next()
                if x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'alignstack') and self.peek() and self.peek() != '(' and self.peek()[0].isdigit():
                    self.next()
                elif self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
                continue
            if x[0] == '#':
                self.next()
                continue
            if x[0] == '"':
                self.next()
                if self.eat('='):
                    self.next()
                continue
            return


ATTRS = {'noundef', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'nonnull', 'align',
         'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'inreg', 'immarg', 'returned', 'dead_on_unwind', 'writable',
         'range', 'captures', 'nofree', 'nest', 'swiftself', 'elementtype', 'memory', 'allocsize', 'nounwind'}


def cstr(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'text')

    def __init__(self, op, res, ty, a, line, text):
        self.op, self.res, self.ty, self.a, self.line, self.text = op, res, ty, a, line, text

    def __repr__(self):
        return f'{self.text.strip()} (line {self.line})'


class Block:
    def __init__(self, name):
        self.name = name
        self.raw = []
        self.ins = None
        self.code = None
        self.term = None


class Function:
    def __init__(self, name, ret, params, mod):
        self.name = name
        self.ret = ret
        self.params = params      # [(type, %name, byval type or None)]
        self.mod = mod
        self.blocks = {}
        self.order = []
        self._loops = None
        self.vararg = False

    def block(self, n):
        b = self.blocks[n]
        if b.ins is None:
            b.ins = [self.mod.parse_ins(l) for l in b.raw]
        return b

    def succs(self, n):
        t = self.block(n).ins[-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [x for _, x in t.a[2]]
        return []

    def loops(self):
        """header -> set of body blocks (natural loops, merged by header)"""
        if self._loops is not None:
            return self._loops
        order, seen = [], set()
        stack = [(self.order[0], iter(self.succs(self.order[0])))]
        seen.add(self.order[0])
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        preds = {n: [] for n in rpo}
        for n in rpo:
            for s in self.succs(n):
                preds[s].append(n)
        num = {n: i for i, n in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                new = None
                for p in preds[n]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        L = {}
        for n in rpo:
            for s in self.succs(n):
                if dom(s, n):
                    body = L.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = L
        self.rpo = rpo
        self.preds = preds
        self._live = None
        return L

    def live_in(self, n):
        """names live at entry of block n (after its phis)"""
        self.loops()
        if self._live is None:
            use, dfn, phiuse = {}, {}, {}
            for b in self.rpo:
                u, d = set(), set()
                for ins in self.block(b).ins:
                    if ins.op == 'phi':
                        for v, p in ins.a:
                            if v[0] == 'l':
                                phiuse.setdefault((p, b), set()).add(v[1])
                        d.add(ins.res)
                        continue
                    for x in uses(ins):
                        if x not in d:
                            u.add(x)
                    if ins.res:
                        d.add(ins.res)
                use[b], dfn[b] = u, d
            lin = {b: set() for b in self.rpo}
            ch = True
            while ch:
                ch = False
                for b in reversed(self.rpo):
                    o = set()
                    for s in self.succs(b):
                        o |= lin[s] - {i.res for i in self.block(s).ins if i.op == 'phi'}
                        o |= phiuse.get((b, s), set())
                    n2 = use[b] | (o - dfn[b])
                    # phi results of b itself are defined at b's entry; keep them in 'after phi' set
                    if n2 != lin[b]:
                        lin[b] = n2
                        ch = True
            # after phis: add phi results used
            self._live = {}
            for b in self.rpo:
                o = set()
                for s in self.succs(b):
                    o |= lin[s] - {i.res for i in self.block(s).ins if i.op == 'phi'}
                    o |= phiuse.get((b, s), set())
                live = set(o)
                for ins in reversed(self.block(b).ins):
                    if ins.op == 'phi':
                        continue
                    live.discard(ins.res)
                    live |= set(uses(ins))
                self._live[b] = live
        return self._live[n]


def _vuses(v, out):
    if v[0] == 'l':
        out.append(v[1])
    elif v[0] == 'agg':
        for _, x in v[1]:
            _vuses(x, out)


def uses(ins):
    if ins.op == 'call' and ins.a[0][0] == 'g' and ins.a[0][1].startswith(('llvm.lifetime', '"llvm.lifetime')):
        return ()
    return uses_(ins)


def uses_(ins):
    out = []

    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
                out.append(x[1])
                return
            for y in x:
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    if ins.op == 'br':
        if len(ins.a) == 3:
            w(ins.a[0])
    elif ins.op == 'switch':
        w(ins.a[0])
    else:
        w(ins.a)
    return out


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'volatile', 'disjoint', 'nneg', 'tail', 'notail', 'musttail', 'nusw'}


class Module:
    def __init__(self, text, src=''):
        self.src = src
        self.types = {}
        self.globals = {}       # name -> dict(type, init, const)
        self.funcs = {}
        self.decls = {}
        self.dbgline = {}
        self.datalayout = ''
        self._text = text
        self._parse(text)

    def _parse(self, text):
        cur = None
        blk = None
        td = []
        gl = []
        heads = []
        sw = None
        for l in text.split('\n'):
            if cur is not None:
                if l == '}':
                    cur = None
                    continue
                if not l or l[0] == ';':
                    continue
                if l[0] != ' ':
                    m = re.match(r'("?[-A-Za-z0-9_.$]+"?):', l)
                    blk = Block('%' + m.group(1))
                    cur.blocks[blk.name] = blk
                    cur.order.append(blk.name)
                    continue
                if blk is None:
                    blk = Block('%entry.0')
                    cur.blocks[blk.name] = blk
                    cur.order.append(blk.name)
                if sw is not None:
                    sw.append(l.strip())
                    if l.lstrip().startswith(']'):
                        blk.raw.append(' '.join(sw))
                        sw = None
                    continue
                if l.lstrip().startswith('switch ') and not l.rstrip().endswith(']') and ']' not in l:
                    sw = [l]
                    continue
                if l.lstrip().startswith('call void @llvm.dbg.') or l.lstrip().startswith('#dbg_'):
                    continue
                blk.raw.append(l)
                continue
            if l.startswith('define '):
                heads.append(l)
                blk = None
                cur = Function(None, None, None, self)
                heads[-1] = (l, cur)
            elif l.startswith('%') and ' = type ' in l:
                td.append(l)
            elif l.startswith('@'):
                gl.append(l)
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls[m.group(1)] = l
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m:
                    self.dbgline[m.group(1)] = int(m.group(2))
            elif l.startswith('target datalayout'):
                self.datalayout = l
        # named types (may refer to each other in any order)
        pend = td
        while pend:
            nxt = []
            for l in pend:
                n, r = l.split(' = type ', 1)
                try:
                    if r.strip() == 'opaque':
                        self.types[n.strip()] = ('st', (), False)
                    else:
                        self.types[n.strip()] = P(tokenize(r), self).type()
                except IRError:
                    nxt.append(l)
            if len(nxt) == len(pend):
                raise IRError('types: ' + nxt[0])
            pend = nxt
        self.psize = 4 if 'p:32' in self.datalayout else 8
        for l in gl:
            n, r = l.split(' = ', 1)
            n = n[1:].strip('"')
            m = re.search(r'\b(global|constant)\b ', r)
            if not m:
                continue
            pre = r[:m.start()]
            if r[m.start():].startswith('constant'):
                const = True
            else:
                const = False
            p = P(tokenize(re.split(r', (?:align|section|!dbg|comdat)', r[m.end():])[0]), self)
            t = p.type()
            init = None
            if 'external' not in pre.split():
                init = p.value(t)
            self.globals[n] = dict(type=t, init=init, const=const, tls='thread_local' in pre)
        for l, f in heads:
            self._header(l, f)

    def _header(self, l, f):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        f.name = m.group(1).strip('"')
        pre = l[len('define '):m.start()]
        toks = tokenize(pre)
        # drop linkage words until type
        p = P(toks, self)
        words = {'dso_local', 'internal', 'private', 'available_externally', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'external',
                 'hidden', 'protected', 'default', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc'}
        while p.peek() in words:
            p.next()
        p.skip_attrs()
        f.ret = p.type()
        # parameters: matching paren
        i = m.end()
        d = 1
        j = i
        while d:
            c = l[j]
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
            j += 1
        ps = l[i:j - 1]
        f.params = []
        f.available = 'available_externally' in pre
        p = P(tokenize(ps), self)
        k = 0
        while p.peek() is not None:
            if p.eat('...'):
                f.vararg = True
                break
            t = p.type()
            byval = None
            # look for byval(type)
            save = p.i
            while p.peek() is not None and p.peek() not in (',',) and p.peek()[0] != '%':
                if p.peek() == 'byval':
                    p.next()
                    p.expect('(')
                    byval = p.type()
                    p.expect(')')
                    continue
                if p.peek() in ATTRS or p.peek()[0] in '"#':
                    before = p.i
                    p.skip_attrs()
                    if p.i == before:
                        p.next()
                    continue
                p.next()
            n = p.next() if p.peek() is not None and p.peek()[0] == '%' else '%' + str(k)
            k += 1
            f.params.append((t, n, byval))
            p.eat(',')
        self.funcs[f.name] = f

    # ---- sizes
    def size(self, t):
        k = t[0]
        if k == 'i':
            return max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length())
        if k == 'ptr':
            return self.psize
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * t[2][1] // 8
        if k == 'st':
            o = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f)
                    o = (o + a - 1) // a * a
                o += self.size(f)
            if not t[2]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise IRError('size of ' + repr(t))

    def align(self, t):
        k = t[0]
        if k == 'i':
            s = self.size(t)
            return min(s, 8 if s <= 8 else 16)
        if k == 'ptr':
            return self.psize
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'st':
            if t[2] or not t[1]:
                return 1
            return max(self.align(f) for f in t[1])
        raise IRError('align')

    def field(self, t, i):
        """(offset, type) of element i"""
        if t[0] in ('arr', 'vec'):
            return i * self.size(t[2]), t[2]
        o = 0
        for j, f in enumerate(t[1]):
            if not t[2]:
                a = self.align(f)
                o = (o + a - 1) // a * a
            if j == i:
                return o, f
            o += self.size(f)
        raise IRError('field')

    def bits(self, t):
        k = t[0]
        if k == 'i':
            return t[1]
        if k == 'ptr':
            return self.psize * 8
        if k == 'vec':
            return t[1] * t[2][1]
        return self.size(t) * 8

    # ---- instructions
    def parse_ins(self, l):
        m = re.search(r', !dbg !(\d+)', l)
        line = self.dbgline.get(m.group(1), 0) if m else 0
        body = re.sub(r',? ![a-zA-Z.]+ ![0-9]+|,? !srcloc ![0-9]+', '', l)
        body = re.sub(r'\s+;.*$', '', body) if ' ; ' in body else body
        toks = tokenize(body)
        p = P(toks, self)
        res = None
        if p.peek(1) == '=':
            res = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'notail', 'musttail'):
            op = p.next()
        I = lambda ty, *a: Instr(op, res, ty, a, line, l)
        if op in BIN:
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(t, a, b)
        if op in CAST:
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            v = p.value(t)
            if op == 'freeze':
                return I(t, t, v)
            p.expect('to')
            t2 = p.type()
            return I(t2, t, v)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            p.expect(',')
            p.type()
            return I(t, p.value(('ptr',)))
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return I(t, v, p.value(('ptr',)))
        if op == 'getelementptr':
            while p.peek() in FLAGS:
                p.next()
            st = p.type()
            p.expect(',')
            p.type()
            base = p.value(('ptr',))
            idx = []
            while p.eat(','):
                t = p.type()
                idx.append((t, p.value(t)))
            return I(('ptr',), st, base, idx)
        if op == 'alloca':
            t = p.type()
            n = None
            if p.eat(','):
                if p.peek() != 'align':
                    t2 = p.type()
                    n = p.value(t2)
            return I(t, n)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return I(None, p.next())
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return I(None, c, a, b)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.eat(']'):
                ct = p.type()
                c = p.value(ct)
                p.expect(',')
                p.expect('label')
                cs.append((c[1], p.next()))
            return I(t, v, d, cs)
        if op == 'ret':
            if p.peek() == 'void':
                return I(('void',))
            t = p.type()
            return I(t, p.value(t))
        if op == 'icmp':
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(t, pred, a, b)
        if op == 'phi':
            t = p.type()
            vs = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()
                p.expect(']')
                vs.append((v, b))
                if not p.eat(','):
                    break
            return Instr(op, res, t, tuple(vs), line, l)
        if op == 'select':
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            return I(t, c, a, b)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.eat(','):
                ix.append(int(p.next()))
            return I(t, v, tuple(ix))
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            v2 = p.value(t2)
            ix = []
            while p.eat(','):
                ix.append(int(p.next()))
            return I(t, v, t2, v2, tuple(ix))
        if op == 'extractelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            return I(t, v, p.value(t2))
        if op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            e = p.value(t2)
            p.expect(',')
            t3 = p.type()
            return I(t, v, e, p.value(t3))
        if op == 'shufflevector':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            p.expect(',')
            t3 = p.type()
            return I(t, a, b, t3, p.value(t3))
        if op == 'call':
            p.skip_attrs()
            while p.peek() in ('fastcc', 'ccc', 'nnan', 'ninf', 'nsz', 'fast'):
                p.next()
                p.skip_attrs()
            t = p.type()
            if p.peek() == 'asm':
                p.next()
                fl = []
                while p.peek() in ('sideeffect', 'alignstack', 'inteldialect'):
                    fl.append(p.next())
                tmpl = cstr('c' + p.next()).decode('latin1')
                p.expect(',')
                cons = cstr('c' + p.next()).decode('latin1')
                args = self._args(p)
                return Instr('asm', res, t, (tmpl, cons, args), line, l)
            callee = p.value(('ptr',))
            args = self._args(p)
            return I(t, callee, args)
        if op == 'unreachable':
            return I(None)
        if op == 'fence':
            return Instr('nop', None, None, (), line, l)
        raise IRError('instruction ' + l.strip()[:120])

    def _args(self, p):
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                t = p.type()
                p.skip_attrs()
                if t[0] == 'metadata':
                    # skip
                    while p.peek() not in (',', ')'):
                        p.next()
                    args.append((t, ('undef',)))
                else:
                    args.append((t, p.value(t)))
                if p.eat(')'):
                    break
                p.expect(',')
        return args


if __name__ == '__main__':
    import glob, time
    t = time.time()
    n = 0
    for f in sorted(glob.glob('/tmp/w/ir/*.ll')):
        m = Module(open(f).read(), f)
        for fn in m.funcs.values():
            for b in fn.order:
                fn.block(b)
                n += len(fn.blocks[b].ins)
            fn.loops()
            for b in fn.rpo:
                fn.live_in(b)
    print(n, time.time() - t)
