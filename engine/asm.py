"""ARM / Thumb-2 semantics: inline assembly statements and assembly source files.

Inline assembly is interpreted from the template text that clang places in the IR; assembly
files are assembled with the cross assembler and interpreted from the disassembly of the object.
"""
import os, re, subprocess, tempfile
from gf2 import ZERO, ONE, as_int
from lin import Lin, ladd, lsub, lmul

M32 = 0xffffffff
SHIFTS = ('lsl', 'lsr', 'asr', 'ror')
COND = ('eq', 'ne', 'cs', 'hs', 'cc', 'lo', 'mi', 'pl', 'hi', 'ls', 'ge', 'lt', 'gt', 'le')


class Bad(Exception):
    pass


def split_ops(s):
    out, cur, d = [], '', 0
    for c in s:
        if c in '[{':
            d += 1
        elif c in ']}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Machine:
    """register file and data processing over the engine's values"""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.r = {}
        self.flags = None

    # -- registers (overridden for inline assembly)
    def get(self, n):
        v = self.r.get(n)
        if v is None:
            raise Bad('register ' + n)
        return v

    def set(self, n, v):
        self.r[n] = v

    def imm(self, s):
        try:
            return int(s[1:].strip(), 0) & M32
        except ValueError:
            raise Bad('immediate ' + s)

    def val(self, s):
        if s[0] == '#':
            return self.imm(s)
        return self.get(s)

    def bits(self, v):
        if type(v) is int:
            return self.eng.mgr.const(v, 32)
        if type(v) is tuple and not (len(v) == 4 and v[0] == 'v'):
            if len(v) < 32:
                v = v + (ZERO,) * (32 - len(v))
            return v
        if isinstance(v, Lin):
            self.eng.concretize(self.st, v)
        raise Bad('data operation on ' + repr(v))

    def shift(self, v, kind, n):
        if kind == 'rrx':
            raise Bad('rrx')
        if type(n) is not int:
            n = self.eng.norm(n)
            if isinstance(n, Lin):
                self.eng.concretize(self.st, n)
            if type(n) is not int:
                raise Bad('data dependent shift')
        n &= 0xff
        if n == 0:
            return v
        if type(v) is int:
            if kind == 'ror':
                n %= 32
                return ((v >> n) | (v << (32 - n))) & M32
            if kind == 'lsl':
                return (v << n) & M32 if n < 32 else 0
            if kind == 'lsr':
                return v >> n if n < 32 else 0
            s = v - (1 << 32) if v >> 31 else v
            return (s >> min(n, 31)) & M32
        b = self.bits(v)
        if kind == 'ror':
            n %= 32
            return b[n:] + b[:n]
        n = min(n, 32)
        if kind == 'lsl':
            return (ZERO,) * n + b[:32 - n]
        if kind == 'lsr':
            return b[n:] + (ZERO,) * n
        n = min(n, 31)
        return b[n:] + (b[31],) * n

    def op2(self, ops):
        v = self.val(ops[0])
        if len(ops) > 1:
            m = re.fullmatch(r'(lsl|lsr|asr|ror)\s+(\S+)', ops[1])
            if not m:
                raise Bad('operand ' + ops[1])
            v = self.shift(v, m.group(1), self.val(m.group(2)))
        return v

    def logic(self, op, a, b):
        if op in ('bic', 'orn'):
            b = b ^ M32 if type(b) is int else tuple([x ^ ONE for x in self.bits(b)])
            op = 'and' if op == 'bic' else 'orr'
        if type(a) is int and type(b) is int:
            return a & b if op == 'and' else a | b if op == 'orr' else a ^ b
        A, B = self.bits(a), self.bits(b)
        m = self.eng.mgr
        if op == 'eor':
            return tuple([x ^ y for x, y in zip(A, B)])
        return self.eng.norm(m.wand(A, B) if op == 'and' else m.wor(A, B))

    def arith(self, op, a, b):
        from sym import Ptr
        if op == 'rsb':
            a, b, op = b, a, 'sub'
        if type(a) is int and type(b) is int:
            return (a + b if op == 'add' else a - b) & M32
        if isinstance(a, Ptr) and isinstance(b, (int, Lin)):
            if type(b) is int and b >> 31:
                b -= 1 << 32
            return Ptr(a.obj, ladd(a.off, b) if op == 'add' else lsub(a.off, b))
        if isinstance(b, Ptr) and isinstance(a, (int, Lin)) and op == 'add':
            return self.arith(op, b, a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.obj == b.obj:
            return lsub(a.off, b.off)
        if isinstance(a, Lin) or isinstance(b, Lin):
            for x in (a, b):
                if isinstance(x, Lin):
                    self.eng.concretize(self.st, x)
        m = self.eng.mgr
        A, B = self.bits(a), self.bits(b)
        if op == 'add':
            return self.eng.norm(m.wadd(A, B))
        return self.eng.norm(m.wadd(A, tuple([x ^ ONE for x in B]), ONE))

    # -- one data processing instruction; False when it is not one
    def data(self, mn, ops):
        m = re.fullmatch(r'(and|orr|eor|bic|orn|add|sub|rsb|addw|subw|mov|mvn|lsl|lsr|asr|ror|uxth|uxtb|sxth|sxtb|rev16|rev|'
                         r'bfi|bfc|ubfx|movw|movt|cmp|tst|neg|cpy|nop|mul)(s?)(\.[wn])?', mn)
        if not m:
            return False
        op, s = m.group(1), m.group(2)
        if op == 'nop':
            return True
        if op in ('addw', 'subw'):
            op = op[:3]
        if op == 'neg':
            op, ops = 'rsb', ops + ['#0']
        if op in ('cmp', 'tst'):
            a, b = self.val(ops[0]), self.op2(ops[1:])
            if op == 'cmp':
                self.flags = ('sub', a, b, self.arith('sub', a, b))
            else:
                self.flags = ('logic', None, None, self.logic('and', a, b))
            return True
        d = ops[0]
        if op in ('mov', 'cpy', 'movw', 'mvn'):
            v = self.op2(ops[1:])
            if op == 'mvn':
                v = v ^ M32 if type(v) is int else tuple([x ^ ONE for x in self.bits(v)])
            fl = ('logic', None, None, v)
        elif op == 'movt':
            v = self.logic('orr', self.logic('and', self.get(d), 0xffff), (self.imm(ops[1]) << 16) & M32)
            fl = None
        elif op in ('and', 'orr', 'eor', 'bic', 'orn', 'add', 'sub', 'rsb'):
            if len(ops) == 2 or (len(ops) == 3 and ops[2].split(' ')[0] in SHIFTS):
                ops = [d] + ops
            a, b = self.val(ops[1]), self.op2(ops[2:])
            if op in ('add', 'sub', 'rsb'):
                v = self.arith(op, a, b)
                fl = (op, a, b, v)
            else:
                v = self.logic(op, a, b)
                fl = ('logic', None, None, v)
        elif op in SHIFTS:
            if len(ops) == 2:
                ops = [d] + ops
            a, n = self.val(ops[1]), self.val(ops[2])
            v = self.eng.norm(self.shift(a, op, n))
            fl = ('shift', op, (a, n), v)
        elif op in ('uxth', 'uxtb', 'sxth', 'sxtb'):
            w = 16 if op[3] == 'h' else 8
            a = self.op2(ops[1:])
            if type(a) is int:
                v = a & ((1 << w) - 1)
                if op[0] == 's' and v >> (w - 1):
                    v |= M32 ^ ((1 << w) - 1)
            else:
                b = self.bits(a)
                v = b[:w] + ((b[w - 1],) if op[0] == 's' else (ZERO,)) * (32 - w)
            fl = None
        elif op in ('rev', 'rev16'):
            b = self.bits(self.val(ops[1]))
            by = [b[i:i + 8] for i in range(0, 32, 8)]
            by = by[::-1] if op == 'rev' else [by[1], by[0], by[3], by[2]]
            v = self.eng.norm(sum(by, ()))
            fl = None
        elif op in ('bfi', 'bfc', 'ubfx'):
            lsb, w = self.imm(ops[-2]), self.imm(ops[-1])
            D = self.bits(self.get(d))
            if op == 'bfi':
                S = self.bits(self.val(ops[1]))
                v = D[:lsb] + S[:w] + D[lsb + w:]
            elif op == 'bfc':
                v = D[:lsb] + (ZERO,) * w + D[lsb + w:]
            else:
                v = self.bits(self.val(ops[1]))[lsb:lsb + w] + (ZERO,) * (32 - w)
            v = self.eng.norm(v)
            fl = None
        else:
            return False
        self.set(d, v)
        if s:
            self.flags = fl
        return True

    def cond(self, cc):
        """flags -> bool (all operands must be concrete)"""
        if self.flags is None:
            raise Bad('condition without flags')
        op, a, b, v = self.flags
        n = self.eng.norm
        v = n(v)
        if type(v) is tuple:
            if cc in ('eq', 'ne') or True:
                self.eng.fail(self.st, 'secret-branch', 'branch in assembly code depends on data')
                raise Bad('data dependent branch')
        if type(v) is not int:
            if isinstance(v, Lin):
                self.eng.concretize(self.st, v)
            raise Bad('condition')
        z, neg = v == 0, v >> 31
        if cc == 'eq':
            return z
        if cc == 'ne':
            return not z
        if cc == 'mi':
            return bool(neg)
        if cc == 'pl':
            return not neg
        if op not in ('sub', 'add'):
            raise Bad('carry of ' + op)
        for x in (a, b):
            if type(x) is not int:
                raise Bad('carry')
        c = a >= b if op == 'sub' else a + b > M32
        sa, sb = (x - (1 << 32) if x >> 31 else x for x in (a, b))
        full = sa - sb if op == 'sub' else sa + sb
        ov = not -(1 << 31) <= full < (1 << 31)
        return {'cs': c, 'hs': c, 'cc': not c, 'lo': not c, 'hi': c and not z, 'ls': not c or z,
                'ge': bool(neg) == ov, 'lt': bool(neg) != ov, 'gt': not z and bool(neg) == ov, 'le': z or bool(neg) != ov}[cc]

    # -- memory
    def address(self, s):
        """'[rn, #imm]' / '[rn, rm, lsl #k]' -> value, and the base register"""
        p = split_ops(s[1:s.index(']')])
        a = self.get(p[0])
        if len(p) > 1:
            b = self.op2(p[1:]) if not p[1].startswith('-') else self.arith('sub', 0, self.get(p[1][1:]))
            a = self.arith('add', a, b)
        return a, p[0]

    def mem(self, mn, ops):
        m = re.fullmatch(r'(ldr|str)(b|h|sb|sh|d)?(\.[wn])?', mn)
        if not m:
            return False
        ld, k = m.group(1) == 'ldr', m.group(2) or ''
        n = {'': 4, 'b': 1, 'sb': 1, 'h': 2, 'sh': 2, 'd': 4}[k]
        regs = ops[:2] if k == 'd' else ops[:1]
        ad = ops[len(regs)]
        post = ops[len(regs) + 1:] if ad.endswith(']') else []
        a, base = self.address(ad)
        if post:
            ea = a
        else:
            ea = a
        for i, rr in enumerate(regs):
            p = self.arith('add', ea, 4 * i) if i else ea
            if ld:
                v = self.eng.load(self.st, p, n)
                if k and k[0] == 's':
                    b = self.bits_n(v, 8 * n)
                    v = self.eng.norm(b + (b[-1],) * (32 - 8 * n))
                elif type(v) is tuple and len(v) < 32:
                    v = v + (ZERO,) * (32 - len(v))
                self.set(rr, v)
            else:
                v = self.get(rr)
                if type(v) is tuple and not (len(v) == 4 and v[0] == 'v'):
                    v = v[:8 * n]
                elif type(v) is int:
                    v &= (1 << 8 * n) - 1
                elif n != 4:
                    raise Bad('partial store')
                self.eng.store(self.st, p, v, n)
        if ad.endswith('!'):
            self.set(base, a)
        elif post:
            self.set(base, self.arith('add', a, self.op2(post)))
        return True

    def bits_n(self, v, n):
        return self.eng.mgr.const(v, n) if type(v) is int else v

    def reglist(self, s):
        out = []
        for x in s.strip('{} ').split(','):
            x = x.strip()
            if '-' in x:
                a, b = (int(y.strip()[1:]) for y in x.split('-'))
                out += [f'r{i}' for i in range(a, b + 1)]
            else:
                out.append(x)
        return [norm_reg(x) for x in out]

    def multi(self, mn, ops):
        m = re.fullmatch(r'(push|pop|ldm|stm)(ia|db|fd|ea)?(\.[wn])?', mn)
        if not m:
            return None
        op, mode = m.group(1), m.group(2) or 'ia'
        if op == 'push':
            op, mode, ops = 'stm', 'db', ['sp!'] + ops
        elif op == 'pop':
            op, mode, ops = 'ldm', 'ia', ['sp!'] + ops
        elif mode in ('fd', 'ea'):
            mode = {('ldm', 'fd'): 'ia', ('stm', 'fd'): 'db', ('ldm', 'ea'): 'db', ('stm', 'ea'): 'ia'}[(op, mode)]
        base = ops[0]
        wb = base.endswith('!')
        base = norm_reg(base.rstrip('!'))
        rs = sorted(self.reglist(ops[1]), key=regno)
        a = self.get(base)
        if mode == 'db':
            a = self.arith('sub', a, 4 * len(rs))
        new = a if mode == 'db' else self.arith('add', a, 4 * len(rs))
        ret = None
        for i, rr in enumerate(rs):
            p = self.arith('add', a, 4 * i)
            if op == 'stm':
                self.eng.store(self.st, p, self.get(rr), 4)
            else:
                v = self.eng.load(self.st, p, 4)
                if rr == 'pc':
                    ret = v
                else:
                    self.set(rr, v)
        if wb:
            self.set(base, new)
        return (ret,)


def norm_reg(x):
    return {'r13': 'sp', 'r14': 'lr', 'r15': 'pc', 'ip': 'r12', 'fp': 'r11', 'sl': 'r10', 'sb': 'r9'}.get(x, x)


def regno(x):
    return {'sp': 13, 'lr': 14, 'pc': 15}.get(x) if x in ('sp', 'lr', 'pc') else int(x[1:])


# ---------------------------------------------------------------- inline assembly
class Inline(Machine):
    def get(self, n):
        v = self.r.get(n)
        if v is None:
            if n in self.names:
                v = self.eng.fresh_un(self.st, n)
                self.r[n] = v
                return v
            raise Bad('operand ' + n)
        if n in self.late and self.dirty:
            raise Bad(f'input operand {n} is read after an output that may share its register was written')
        return v

    def set(self, n, v):
        if n not in self.outs:
            raise Bad('write to ' + n)
        if n in self.clob:
            self.dirty = True
        self.r[n] = v

    def val(self, s):
        if s[0] == '#' and s[1:].strip()[0] != '$':
            return self.imm(s)
        return self.get(s.lstrip('#').strip())


def parse_inline(tmpl):
    out = []
    for l in re.split(r'[\n;]', tmpl):
        l = l.split('@')[0].strip()
        l = re.sub(r'\$\{(\d+)(:\w+)?\}', r'$\1', l)
        if not l:
            continue
        if l.startswith('.'):
            if l.split()[0] in ('.syntax', '.align', '.thumb', '.arm', '.code'):
                continue
            raise Bad('directive ' + l)
        if re.fullmatch(r'\S+:', l):
            raise Bad('label')
        m = re.match(r'(\S+)\s*(.*)', l)
        out.append((m.group(1).lower(), split_ops(m.group(2))))
    return out


def compile_inline(eng, fn, ins):
    import sym
    tmpl, cons, args = ins.a
    res = ins.res
    cs = cons.split(',') if cons else []
    outs, inps = [], []
    for i, c in enumerate(cs):
        if c.startswith('~'):
            continue
        if c.startswith('='):
            if '*' in c:
                outs.append((i, c, None))
            else:
                outs.append((i, c, None))
        else:
            inps.append((i, c))
    gs = [eng.getter(fn.mod, t, v) for t, v in args]
    try:
        prog = parse_inline(tmpl)
        err = None
    except Bad as e:
        prog, err = None, str(e)
    names = {f'${i}' for i, *_ in outs}
    tied = {int(c) for i, c in inps if c.isdigit()}
    early = {f'${i}' for i, c, _ in outs if '&' in c}
    clob = {f'${i}' for i, c, _ in outs if '&' not in c and i not in tied}

    def f(st, env):
        if err:
            raise sym.Undecided('inline assembly: ' + err)
        m = Inline(eng, st)
        m.names = m.outs = names
        m.clob = clob
        m.dirty = False
        m.late = set()
        for g, (i, c) in zip(gs, inps):
            v = eng.norm(g(st, env))
            if c.isdigit():
                m.r[f'${c}'] = v
            else:
                m.r[f'${i}'] = v
                if type(v) is not int or 'i' not in c and 'I' not in c:
                    m.late.add(f'${i}')
        try:
            for mn, ops in prog:
                if not (m.data(mn, ops) or m.mem(mn, ops)):
                    raise Bad('instruction ' + mn)
        except Bad as e:
            raise sym.Undecided('inline assembly: ' + str(e))
        if res:
            vs = [eng.norm(m.get(f'${i}')) for i, *_ in outs]
            env[res] = vs[0] if len(vs) == 1 and ins.ty[0] == 'i' else sym.Agg(vs)
    return f


# ---------------------------------------------------------------- assembly files
class Prog:
    def __init__(self, path, repo, cc=('arm-linux-gnueabi-as', '-march=armv7-a', '-mthumb')):
        self.path = path
        with tempfile.TemporaryDirectory() as d:
            o = os.path.join(d, 'a.o')
            p = subprocess.run(list(cc) + [os.path.join(repo, path), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=repo)
            if p.returncode:
                raise Bad(f'{path}: assembler: ' + p.stderr.decode()[:500])
            dump = lambda *a: subprocess.run(['arm-linux-gnueabi-objdump'] + list(a) + [o], stdout=subprocess.PIPE).stdout.decode()
            rel = dump('-r')
            self.reloc = '.text' in rel
            txt = dump('-d', '-z', '-j', '.text')
            t = os.path.join(d, 't')
            subprocess.run(['arm-linux-gnueabi-objcopy', '-O', 'binary', '-j', '.text', o, t], check=True)
            self.text = open(t, 'rb').read()
            syms = subprocess.run(['arm-linux-gnueabi-nm', '-g', o], stdout=subprocess.PIPE).stdout.decode()
        self.code = {}
        self.labels = {}
        for l in txt.splitlines():
            m = re.match(r'\s*([0-9a-f]+):\t([0-9a-f ]+?)\s*\t(.*)', l)
            if not m:
                continue
            a = int(m.group(1), 16)
            size = len(m.group(2).replace(' ', '')) // 2
            body = re.split(r'\s*[;@]', m.group(3))[0].strip()
            p = body.split('\t')
            mn = p[0].strip()
            ops = split_ops(p[1]) if len(p) > 1 else []
            self.code[a] = (mn, [self.norm_op(x) for x in ops], a + size)
        self.entry = {}
        for l in syms.splitlines():
            a, k, n = l.split()[-3:]
            if k == 'T':
                self.entry[n] = int(a, 16)

    def norm_op(self, s):
        s = re.sub(r'<[^>]*>', '', s).strip()
        return re.sub(r'\b(ip|fp|sl|sb)\b', lambda m: norm_reg(m.group(1)), s)


SAVED = [f'r{i}' for i in range(4, 12)]


def extern(prog, name):
    """engine handler executing the routine"""
    import sym
    obj = '@asm:' + prog.path

    def h(eng, st0, vals, ins):
        vals = [eng.norm(v) for v in vals]
        for v in vals:
            if isinstance(v, Lin):
                eng.concretize(st0, v)
        st = st0.clone()
        if obj not in st.mem:
            st.mem[obj] = sym.Obj(obj, obj, len(prog.text), 'const', prog.text, True)
        stk = 'asmstack'
        size = 4096
        st.mem[stk] = sym.Obj(stk, stk, size, 'stack')
        st.owned.add(stk)
        m = Machine(eng, st)
        for i in range(13):
            m.r[f'r{i}'] = sym.FnRef(f'entry:r{i}')
        m.r['lr'] = sym.FnRef('return')
        sp = size - 4 * max(0, len(vals) - 4)
        m.r['sp'] = sym.Ptr(stk, sp)
        for i, v in enumerate(vals):
            if i < 4:
                m.r[f'r{i}'] = v
            else:
                eng.store(st, sym.Ptr(stk, sp + 4 * (i - 4)), v, 4)
        pc = prog.entry[name]
        n = 0
        eng.cur = st
        try:
            while pc is not None:
                e = prog.code.get(pc)
                if e is None:
                    raise Bad(f'control leaves the code at {pc:#x}')
                mn, ops, nxt = e
                n += 1
                eng.steps += 1
                if n > 400000:
                    raise Bad('too many steps')
                m.r['pc'] = sym.Ptr(obj, (pc + 4) & ~3)
                pc = step(m, mn, ops, nxt, prog)
        except Bad as x:
            raise sym.Undecided(f'{prog.path}: {name}: {x}')
        finally:
            eng.cur = st0
        for r_ in SAVED:
            if m.r[r_] != sym.FnRef('entry:' + r_):
                eng.fail(st0, 'frame', f'{name} does not preserve {r_}')
        if m.r['sp'] != sym.Ptr(stk, sp):
            eng.fail(st0, 'frame', f'{name} does not preserve sp')
        st.mem.pop(stk)
        st0.mem = st.mem
        st0.owned = set()
        return m.r['r0'] if not isinstance(m.r['r0'], sym.FnRef) else 0
    return h


def step(m, mn, ops, nxt, prog):
    import sym
    b = re.fullmatch(r'b(eq|ne|cs|hs|cc|lo|mi|pl|hi|ls|ge|lt|gt|le)?(\.[nw])?', mn)
    if b:
        t = int(ops[0], 16)
        if b.group(1) and not m.cond(b.group(1)):
            return nxt
        return t
    if mn in ('cbz', 'cbnz'):
        v = m.eng.norm(m.get(ops[0]))
        if isinstance(v, Lin):
            m.eng.concretize(m.st, v)
        if type(v) is tuple:
            m.eng.fail(m.st, 'secret-branch', 'branch in assembly code depends on data')
        if type(v) is not int:
            raise Bad('cbz')
        return int(ops[1], 16) if (v == 0) == (mn == 'cbz') else nxt
    if mn == 'bx':
        if m.get(ops[0]) != sym.FnRef('return'):
            raise Bad('return address')
        return None
    r = m.multi(mn, ops)
    if r is not None:
        if r[0] is not None:
            if r[0] != sym.FnRef('return'):
                raise Bad('return address')
            return None
        return nxt
    if m.mem(mn, ops) or m.data(mn, ops):
        if ops and ops[0] == 'pc':
            raise Bad('write to pc')
        return nxt
    raise Bad('instruction ' + mn)


def install(eng, impl, repo):
    """register the routines of the implementation's assembly files"""
    for s in impl.ssrc:
        p = Prog(s, repo)
        for n in p.entry:
            eng.extern[n] = extern(p, n)
