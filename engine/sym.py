"""Symbolic executor / verification-condition generator over LLVM IR.

Every function is executed for all inputs at once: data bits are GF(2) polynomials
(gf2.py), lengths/offsets linear integer expressions (lin.py).  Loops whose trip
count depends on a length are handled with an inferred invariant which is then
verified inductively (base case, preservation from an arbitrary iteration, use
after exit, termination measure); loops with a constant trip count are executed.
Calls go through contracts when one is registered, otherwise the body is entered.
"""
import math, time
from gf2 import ZERO, ONE, CB, as_int, Subst, RawLimit
from lin import Lin, ladd, lmul, lsub, lvar, lvars, sat, decide as ldecide, model as lmodel
import llir

TAU = '$t'


class Undecided(Exception):
    """The engine cannot interpret or decide something (tool limit, not a verdict)."""


class Fork(Exception):
    def __init__(self, f):
        self.f = f


class BFork(Exception):
    def __init__(self, p):
        self.p = p


class Abort(Exception):
    """path ends here (undefined behaviour already reported)"""


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return f'&{self.obj}+{self.off}'


class Agg(list):
    def __hash__(self):
        return hash(tuple(self))


class FnRef:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


BYTE = [tuple([CB[(v >> i) & 1] for i in range(8)]) for v in range(256)]


def lt(off):
    """(linear part, constant)"""
    if isinstance(off, int):
        return (), off
    return off.t, off.c


def mkl(t, c):
    return Lin(t, c) if t else c


class Region:
    __slots__ = ('base', 'stride', 'count', 'vals')

    def __init__(self, base, stride, count, vals):
        self.base, self.stride, self.count, self.vals = base, stride, count, vals

    def end(self):
        return ladd(self.base, lmul(self.count, self.stride))


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'g', 'regions', 'data', 'ro')

    def __init__(self, id, name, size, kind, data=None, ro=False):
        self.id, self.name, self.size, self.kind, self.data, self.ro = id, name, size, kind, data, ro
        self.g = {}
        self.regions = ()

    def copy(self):
        o = Obj(self.id, self.name, self.size, self.kind, self.data, self.ro)
        o.g = {t: dict(d) for t, d in self.g.items()}
        o.regions = self.regions
        return o


class Loop:
    __slots__ = ('header', 'body', 'iid', 'n', 'snaps', 'sym', 'mode', 'u', 'symf')

    def __init__(self, header, body, iid):
        self.header, self.body, self.iid = header, body, iid
        self.n = 0
        self.snaps = []
        self.sym = False
        self.mode = None
        self.u = 0

    def copy(self):
        l = Loop(self.header, self.body, self.iid)
        l.n, l.snaps, l.sym, l.mode, l.u = self.n, list(self.snaps), self.sym, self.mode, self.u
        return l


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'env', 'allocas', 'res', 'loops', 'onret')

    def __init__(self, fn):
        self.fn = fn
        self.block = None
        self.idx = 0
        self.env = {}
        self.allocas = []
        self.res = None
        self.loops = []
        self.onret = None

    def copy(self):
        f = Frame(self.fn)
        f.block, f.idx, f.res, f.onret = self.block, self.idx, self.res, self.onret
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        f.loops = [l.copy() for l in self.loops]
        return f


def normf(f):
    """Lin f = g*h + c with primitive h, first coefficient positive -> (h, g, c)"""
    g = 0
    for _, k in f.t:
        g = math.gcd(g, k)
    if f.t[0][1] < 0:
        g = -g
    if g == 1:
        return f.t, 1, f.c
    return tuple((v, k // g) for v, k in f.t), g, f.c


class State:
    __slots__ = ('frames', 'mem', 'owned', 'cons', '_cl', 'bconds', 'lens', 'trail', 'exited', 'notes', 'ret', 'ghost', 'steps', 'depthcap', 'arrived')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.cons = {}
        self._cl = None
        self.bconds = ()
        self.lens = {}
        self.trail = ()
        self.exited = None
        self.notes = ()
        self.ret = None
        self.ghost = {}
        self.steps = 0
        self.arrived = None

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.cons = dict(self.cons)
        s._cl = self._cl
        s.bconds = self.bconds
        s.lens = dict(self.lens)
        s.trail = self.trail
        s.notes = self.notes
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        return s

    def obj_w(self, oid):
        o = self.mem[oid]
        if oid not in self.owned:
            o = self.mem[oid] = o.copy()
            self.owned.add(oid)
        return o

    # ---- constraints
    def conslist(self):
        if self._cl is None:
            c = []
            for h, (lo, hi) in self.cons.items():
                if lo is not None:
                    c.append(Lin(h, -lo))
                if hi is not None:
                    c.append(lsub(hi, Lin(h, 0)))
            self._cl = c
        return self._cl

    def dec(self, f):
        """True / False / None"""
        if isinstance(f, int):
            return f >= 0
        h, g, c = normf(f)
        iv = self.cons.get(h)
        if iv is not None:
            lo, hi = iv
            if g > 0:
                if lo is not None and g * lo + c >= 0:
                    return True
                if hi is not None and g * hi + c < 0:
                    return False
            else:
                if hi is not None and g * hi + c >= 0:
                    return True
                if lo is not None and g * lo + c < 0:
                    return False
        return ldecide(self.conslist(), f)

    def need(self, f):
        r = self.dec(f)
        if r is None:
            raise Fork(f)
        return r

    def assume(self, f):
        """add f >= 0; returns list of equalities found [(h, value)]; None when infeasible"""
        if isinstance(f, int):
            return [] if f >= 0 else None
        h, g, c = normf(f)
        lo, hi = self.cons.get(h, (None, None))
        if g > 0:
            b = -(c // g)                # h >= ceil(-c/g)
            if lo is None or b > lo:
                lo = b
        else:
            b = c // (-g)                # h <= floor(c/-g)
            if hi is None or b < hi:
                hi = b
        if lo is not None and hi is not None and lo > hi:
            return None
        self.cons[h] = (lo, hi)
        self._cl = None
        if lo is not None and lo == hi:
            return [(h, lo)]
        return []


PRI = {'L': 0, 'q': 1, 'r': 1, 'k': 2}


class Enough(Exception):
    '''the unit has failed: the remaining paths need not be explored'''


class Failure:
    def __init__(self, kind, fn, line, msg, st=None, extra=None):
        self.kind, self.fn, self.line, self.msg = kind, fn, line, msg
        self.extra = extra
        self.cons = list(st.conslist()) if st is not None else []
        self.lens = dict(st.lens) if st is not None else {}
        self.bconds = st.bconds if st is not None else ()
        self.notes = st.notes if st is not None else ()
        self.undec = False

    def __repr__(self):
        return f'{self.kind} in {self.fn}:{self.line}: {self.msg}'


class Engine:
    def __init__(self, mods, mgr, ptr_bits=64):
        self.mods = mods
        self.mgr = mgr
        self.pb = ptr_bits
        self.fns = {}
        for m in mods:
            for n, f in m.funcs.items():
                if n in self.fns and self.fns[n].available is False:
                    continue
                self.fns[n] = f
        self.gl = {}
        for m in mods:
            for n, g in m.globals.items():
                if n in self.gl and g['init'] is None:
                    continue
                self.gl[(m, n)] = g
                if g['init'] is not None:
                    self.gl.setdefault(n, (m, g))
        self.contracts = {}
        import intrin
        self.extern = {'memcmp': intrin.memcmp, 'bcmp': intrin.memcmp}
        self.failures = []
        self.failkeys = set()
        self.sites = {}           # (kind, fn, line) -> count of discharged
        self.seenstore = None
        self.uid = 0
        self.final = None         # callback(st)
        self.maxsteps = 40_000_000
        self.steps = 0
        self.deadline = None
        self.divdef = {}
        self.verifying = 0
        self.wrapok = self.wrapseen = False
        self.failtime = None
        self.symhdr = set()
        self.stats = dict(paths=0, forks=0, invariants=0, merged=0, calls=0, contracts=0)
        self.loopinfo = []
        self.allow_branch = None
        self.cur = None
        self.appsubst = None
        self.onheader = None
        self.onfork = None
        self.stale_ok = True

    # ------------------------------------------------------------ reporting
    def where(self, st, ins=None):
        fr = st.frames[-1] if st.frames else None
        if fr is None:
            return '?', 0
        if ins is None:
            try:
                ins = fr.fn.block(fr.block).ins[fr.idx]
            except Exception:
                return fr.fn.name, 0
        return fr.fn.name, ins.line

    def fail(self, st, kind, msg, extra=None):
        fn, line = self.where(st)
        k = (kind, fn, line)
        if k in self.failkeys and len(self.failures) > 40:
            return
        n = sum(1 for f in self.failures if (f.kind, f.fn, f.line) == k)
        if n >= 3:
            return
        self.failkeys.add(k)
        self.failures.append(Failure(kind, fn, line, msg, st, extra))

    def ok(self, st, kind):
        if not st.frames:
            return
        fr = st.frames[-1]
        k = (kind, fr.fn.name, fr.block, fr.idx)
        self.sites[k] = self.sites.get(k, 0) + 1

    # ------------------------------------------------------------ objects
    def newobj(self, st, name, size, kind, data=None, ro=False):
        self.uid += 1
        oid = f'{name}#{self.uid}' if kind == 'stack' else name
        st.mem[oid] = Obj(oid, name, size, kind, data, ro)
        st.owned.add(oid)
        return oid

    def global_obj(self, st, mod, name):
        key = None
        g = mod.globals.get(name)
        if g is None or g['init'] is None:
            e = self.gl.get(name)
            if e is None:
                if name in self.fns or name in mod.decls or any(name in m.decls for m in self.mods):
                    return FnRef(name)
                raise Undecided('global ' + name)
            mod, g = e
        oid = f'@{name}'
        if (mod, name) in self.gl and sum(1 for m in self.mods if name in m.globals and m.globals[name]['init'] is not None) > 1:
            oid = f'@{name}@{self.mods.index(mod)}'
        if oid not in st.mem:
            size = mod.size(g['type'])
            data = bytearray(size)
            self.fill(mod, g['type'], g['init'], data, 0)
            if g['const'] or not self.is_written(mod, name):
                st.mem[oid] = Obj(oid, name, size, 'const', bytes(data), True)
            else:
                st.mem[oid] = Obj(oid, name, size, 'mut', None, False)
        return Ptr(oid, 0)

    def is_written(self, mod, name):
        """may a non-const global be modified (stored to or its address escape)?"""
        c = getattr(mod, '_written', None)
        if c is None:
            c = mod._written = {}
        if name not in c:
            w = False
            pat = '@' + name
            for m in self.mods:
                for f in m.funcs.values():
                    for b in f.order:
                        for l in f.blocks[b].raw:
                            if pat in l:
                                import re
                                if not re.search(re.escape(pat) + r'(?![\w.$])', l):
                                    continue
                                op = re.sub(r'^\s*(%\S+ = )?', '', l).split(' ')[0]
                                if op in ('load',):
                                    continue
                                if op == 'getelementptr':
                                    # result may only be loaded
                                    r = l.strip().split(' ')[0]
                                    ok = True
                                    for b2 in f.order:
                                        for l2 in f.blocks[b2].raw:
                                            if re.search(re.escape(r) + r'(?![\w.$])', l2) and l2 is not l:
                                                if ' load ' not in l2:
                                                    ok = False
                                    if ok:
                                        continue
                                w = True
            c[name] = w
        return c[name]

    def fill(self, mod, t, v, data, off):
        k = v[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'bytes':
            data[off:off + len(v[1])] = v[1]
        elif k == 'c':
            n = mod.size(t)
            data[off:off + n] = (v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        elif k == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                o, ft = mod.field(t, i)
                self.fill(mod, ft, ev, data, off + o)
        elif k in ('null',):
            return
        else:
            raise Undecided('global initialiser ' + k)

    # ------------------------------------------------------------ memory
    def default_byte(self, obj, off):
        k = obj.kind
        if k == 'in':
            n = obj.data or obj.name
            if callable(n):
                return n(off)
            return tuple([self.mgr.var(('in', n, off, i)) for i in range(8)])
        if k == 'const':
            if isinstance(off, int):
                return obj.data[off]
            raise Undecided('constant table at symbolic index')
        if k == 'out':
            return tuple([self.mgr.var(('pre', obj.name, off, i)) for i in range(8)])
        if k == 'mut':
            return tuple([self.mgr.var(('mut', obj.name, off, i)) for i in range(8)])
        return tuple([self.mgr.var(('un', obj.id, off, i)) for i in range(8)])

    def bounds(self, st, p, n, what):
        """access of n bytes at p"""
        if not isinstance(p, Ptr):
            if isinstance(p, tuple):
                self.fail(st, 'secret-addr', f'{what} address depends on data bits')
                raise Undecided('data dependent address')
            self.fail(st, 'bounds', f'{what} through a non-pointer {p!r}')
            raise Abort()
        if p.obj is None:
            self.fail(st, 'bounds', f'{what} through a null pointer')
            raise Abort()
        o = st.mem.get(p.obj)
        if o is None:
            self.fail(st, 'bounds', f'{what} of dead object {p.obj}')
            raise Abort()
        off = p.off
        if o.size is None:
            return o
        if isinstance(off, int) and isinstance(o.size, int):
            good = 0 <= off and off + n <= o.size
        else:
            a = st.dec(off)
            b = st.dec(lsub(o.size, ladd(off, n)))
            good = a is True and b is True
            if not good and a is not False and b is not False:
                # small object with a bounded symbolic index: split
                if not isinstance(off, int) and self.bounded(st, off):
                    self.concretize(st, off)
                if a is None:
                    raise Fork(off)
                raise Fork(lsub(o.size, ladd(off, n)))
        if not good:
            self.fail(st, 'bounds', f'{what} of {n} bytes at offset {off} of {o.name} (size {o.size})')
            raise Abort()
        self.ok(st, 'bounds')
        return o

    def bounded(self, st, L, lim=64):
        h, g, c = normf(L)
        iv = st.cons.get(h)
        if iv and iv[0] is not None and iv[1] is not None and iv[1] - iv[0] <= lim:
            return iv
        return None

    def concretize(self, st, L, lim=64):
        """raises Fork until L is an int"""
        if isinstance(L, int):
            return L
        iv = self.bounded(st, L, lim)
        h, g, c = normf(L)
        if iv is None:
            # ask the solver for a finite range
            lo, hi = st.cons.get(h, (None, None))
            if lo is None:
                for b in (0, -64):
                    if st.dec(Lin(h, -b)) is True:
                        lo = b
                        break
            if lo is not None and hi is None:
                for b in (0, 1, 3, 7, 15, 31, 63):
                    if st.dec(lsub(lo + b, Lin(h, 0))) is True:
                        hi = lo + b
                        break
            if lo is None or hi is None or hi - lo > lim:
                raise Undecided(f'index {L} has no small range')
            st.cons[h] = (lo, hi)
            st._cl = None
            if lo == hi:
                raise Fork(Lin(h, -lo))
        else:
            lo, hi = iv
        raise Fork(Lin(h, -lo - 1))

    def load_byte(self, st, o, off):
        """entry (int | bits | ('v',..)) at off"""
        t, c = lt(off)
        d = o.g.get(t)
        if d is not None:
            e = d.get(c)
            if e is not None:
                return e
        if len(o.g) > (1 if d is not None else 0):
            for t2, d2 in o.g.items():
                if t2 == t or not d2:
                    continue
                lo, hi = min(d2), max(d2)
                a = st.dec(lsub(off, mkl(t2, lo)))          # off >= lo
                if a is False:
                    continue
                b = st.dec(lsub(mkl(t2, hi), off))          # off <= hi
                if b is False:
                    continue
                if a is None:
                    raise Fork(lsub(off, mkl(t2, lo)))
                if b is None:
                    raise Fork(lsub(mkl(t2, hi), off))
                # inside the hull of another group: pin down the difference
                diff = lsub(off, mkl(t2, 0))
                if not isinstance(diff, int):
                    self.concretize(st, diff)
                e = d2.get(diff)
                if e is not None:
                    return e
        for r in o.regions:
            a = st.dec(lsub(off, r.base))
            if a is False:
                continue
            b = st.dec(lsub(lsub(r.end(), 1), off))
            if b is False:
                continue
            if a is None:
                raise Fork(lsub(off, r.base))
            if b is None:
                raise Fork(lsub(lsub(r.end(), 1), off))
            return self.region_read(st, o, r, off)
        return self.default_byte(o, off)

    def region_read(self, st, o, r, off):
        q, rem = self.divmod_struct(st, lsub(off, r.base), r.stride)
        if q is None:
            for f in (2, 4, 8, 16, 3, 9, 18):
                if r.stride % f == 0:
                    r2 = self.compress(r, f)
                    if r2 is not None:
                        q, rem = self.divmod_struct(st, lsub(off, r2.base), r2.stride)
                        if q is not None:
                            r = r2
                            break
        if q is None:
            raise Undecided('region index ' + repr(off))
        v = r.vals.get(rem)
        if v is None:
            if self.hole_default(o):
                return self.default_byte(o, off)
            raise Undecided('hole in written region')
        if isinstance(v, int):
            return v
        s = Subst(self.mgr, {TAU: q}, self.appsubst)
        return s.word(v)

    def hole_default(self, o):
        return True

    def compress(self, r, f):
        """stride -> stride/f when the values are instances of one template"""
        st2 = r.stride // f
        vals = {}
        if any(TAU in dict(x.t) for x in (r.base, r.count) if isinstance(x, Lin)):
            return None
        sh = Subst(self.mgr, {TAU: lmul(lvar(TAU), f)}, self.appsubst)
        for o in range(st2):
            v = r.vals.get(o)
            if v is None or isinstance(v, int):
                if all(r.vals.get(o + i * st2) == v for i in range(f)):
                    if v is not None:
                        vals[o] = v
                    continue
                return None
            half = self.divide_tau(v, f)
            if half is None:
                return None
            for i in range(f):
                s = Subst(self.mgr, {TAU: ladd(lmul(lvar(TAU), f), i)}, self.appsubst)
                if s.word(half) != r.vals.get(o + i * st2):
                    return None
            vals[o] = half
        return Region(r.base, st2, lmul(r.count, f), vals)

    def divide_tau(self, v, f):
        """replace f*TAU by TAU in every atom; None when a coefficient is not divisible"""
        class Bad(Exception):
            pass

        def walk(x):
            if isinstance(x, Lin):
                t = []
                for a, k in x.t:
                    if a == TAU:
                        if k % f:
                            raise Bad()
                        k //= f
                    t.append((a, k))
                return Lin(tuple(t), x.c)
            if isinstance(x, tuple):
                return tuple([walk(y) for y in x])
            if isinstance(x, frozenset):
                return poly(x)
            return x

        def poly(p):
            r = ZERO
            for i in p:
                lv = self.mgr.lv.get(i)
                if lv is None or TAU not in lv:
                    r = r ^ frozenset((i,))
                else:
                    d = self.mgr.atoms[i]
                    if d[0] in ('and', 'z'):
                        raise Bad()
                    r = r ^ self.mgr.var(walk(d))
            return r
        try:
            return tuple([poly(p) for p in v])
        except Bad:
            return None

    def divmod_struct(self, st, L, d):
        """L = d*q + r structurally with 0 <= r < d; (None, None) when the coefficients do not allow it"""
        if isinstance(L, int):
            return L // d, L % d
        if all(k % d == 0 for _, k in L.t):
            return Lin(tuple((v, k // d) for v, k in L.t), L.c // d) if L.t else L.c // d, L.c % d
        return None, None

    def divmod(self, st, L, d):
        """for L >= 0"""
        q, r = self.divmod_struct(st, L, d)
        if q is not None:
            return q, r
        # split off the divisible part
        t1 = tuple((v, k // d) for v, k in L.t if k % d == 0)
        rest = Lin(tuple((v, k) for v, k in L.t if k % d), L.c)
        nm = f'[{rest!r}/{d}]'
        qv, rv = lvar('q' + nm), lvar('r' + nm)
        self.divdef['r' + nm] = ('q' + nm, d, lsub(rest, ladd(lmul(qv, d), rv)))
        if Lin((('r' + nm, 1),), 0).t not in st.cons:
            for f in (rv, lsub(d - 1, rv)):
                st.assume(f)
            e = lsub(rest, ladd(lmul(qv, d), rv))
            st.assume(e)
            st.assume(lmul(e, -1))
            st._cl = None
            # a non-negative dividend has a non-negative quotient
            if st.dec(rest) is True:
                st.assume(qv)
            st._cl = None
        q = ladd(mkl(t1, 0), qv)
        return q, rv

    def load(self, st, p, n, what='load'):
        o = self.bounds(st, p, n, what)
        off = p.off
        if o.kind == 'mut':
            self.fail(st, 'mutable', f'read of mutable static object {o.name}')
        if not isinstance(off, int) and o.kind == 'const':
            self.concretize(st, off, 64)
        if not isinstance(off, int) and isinstance(o.size, int) and o.kind in ('stack', 'out', 'mut', 'in') and o.size <= 512:
            if self.maybe_bounded(st, off):
                self.concretize(st, off, 600)
        if isinstance(off, int):
            g = o.g.get(())
            if g is not None and len(o.g) == 1 and not o.regions:
                es = [g.get(off + i) for i in range(n)]
                if None in es:
                    es = [self.default_byte(o, off + i) if e is None else e for i, e in enumerate(es)]
            else:
                es = [self.load_byte(st, o, off + i) for i in range(n)]
        else:
            es = [self.load_byte(st, o, ladd(off, i)) for i in range(n)]
        return self.join(st, es)

    def maybe_bounded(self, st, off):
        return True

    def join(self, st, es):
        e0 = es[0]
        n = len(es)
        if type(e0) is tuple and len(e0) == 4 and e0[0] == 'v':
            if e0[2] == 0 and e0[3] == n and all(type(e) is tuple and len(e) == 4 and e[0] == 'v' and e[1] == e0[1] and e[2] == i
                                                 for i, e in enumerate(es)):
                return e0[1]
            # partial read of a stored length
            for e in es:
                if type(e) is tuple and len(e) == 4 and e[0] == 'v' and isinstance(e[1], Lin):
                    self.concretize(st, e[1])
            raise Undecided('partial read of a stored pointer')
        out = ()
        allint = True
        for e in es:
            if type(e) is not int:
                allint = False
                break
        if allint:
            return int.from_bytes(bytes(es), 'little')
        for e in es:
            if type(e) is int:
                out += BYTE[e]
            elif len(e) == 8:
                out += e
            else:
                if isinstance(e[1], Lin):
                    self.concretize(st, e[1])
                raise Undecided('mixed read')
        return out

    def store(self, st, p, v, n, what='store'):
        o = self.bounds(st, p, n, what)
        off = p.off
        if o.ro:
            self.fail(st, 'frame', f'write to {o.name}, which must stay unchanged')
        if o.kind == 'mut':
            self.fail(st, 'mutable', f'write to mutable static object {o.name}')
        if not isinstance(off, int) and isinstance(o.size, int) and o.kind in ('stack', 'mut') and o.size <= 512:
            self.concretize(st, off, 600)
        es = self.split(st, v, n)
        if isinstance(off, int) and not o.regions and (not o.g or (len(o.g) == 1 and () in o.g)):
            o = st.obj_w(p.obj)
            g = o.g.get(())
            if g is None:
                g = o.g[()] = {}
            for i in range(n):
                g[off + i] = es[i]
            return
        t, c = lt(off)
        # prove disjointness from everything written at other symbolic offsets
        for t2, d2 in o.g.items():
            if t2 == t or not d2:
                continue
            lo, hi = min(d2), max(d2)
            a = st.dec(lsub(lsub(mkl(t2, lo), n), off))      # off + n <= lo
            b = st.dec(lsub(lsub(off, mkl(t2, hi)), 1))      # off > hi
            if a is True or b is True:
                continue
            if a is None and b is None:
                raise Fork(lsub(lsub(off, mkl(t2, hi)), 1))
            if a is None:
                raise Fork(lsub(lsub(mkl(t2, lo), n), off))
            if b is None:
                raise Fork(lsub(lsub(off, mkl(t2, hi)), 1))
            diff = lsub(off, mkl(t2, 0))
            if not isinstance(diff, int):
                self.concretize(st, diff)
        for r in o.regions:
            a = st.dec(lsub(lsub(r.base, n), off))
            b = st.dec(lsub(off, r.end()))
            if a is True or b is True:
                continue
            if a is None:
                raise Fork(lsub(lsub(r.base, n), off))
            if b is None:
                raise Fork(lsub(off, r.end()))
            raise Undecided('overwrite inside a written region')
        o = st.obj_w(p.obj)
        g = o.g.get(t)
        if g is None:
            g = o.g[t] = {}
        for i in range(n):
            g[c + i] = es[i]

    def split(self, st, v, n):
        if type(v) is int:
            return list((v & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))
        if type(v) is tuple:
            out = []
            if len(v) < 8 * n:
                v = v + (ZERO,) * (8 * n - len(v))
            for i in range(n):
                b = v[8 * i:8 * i + 8]
                x = as_int(b)
                out.append(b if x is None else x)
            return out
        if isinstance(v, (Lin, Ptr, FnRef)):
            return [('v', v, i, n) for i in range(n)]
        raise Undecided('store of ' + repr(type(v)))

    # ------------------------------------------------------------ values
    def bits(self, st, v, w):
        if type(v) is tuple:
            return v
        if type(v) is int:
            return self.mgr.const(v & ((1 << w) - 1), w)
        if isinstance(v, Lin):
            self.concretize(st, v)
        raise Undecided('bits of ' + repr(v))

    def norm(self, v):
        if type(v) is tuple:
            x = as_int(v)
            if x is not None:
                return x
        return v

    def urep(self, st, L, w):
        """representative of L (mod 2^w) in [0, 2^w)"""
        if isinstance(L, int):
            return L & ((1 << w) - 1)
        W = 1 << w
        a = st.dec(L)
        if a is True:
            b = st.dec(lsub(W - 1, L))
            if b is True:
                return L
            if b is None:
                raise Fork(lsub(W - 1, L))
            r = ladd(L, -W)
            if st.dec(r) is True and st.dec(lsub(W - 1, r)) is True:
                return r
            return self.wrapped(st, L, W)
        if a is None:
            raise Fork(L)
        r = ladd(L, W)
        b = st.dec(r)
        if b is True:
            return r
        if b is None:
            raise Fork(r)
        return self.wrapped(st, L, W)

    def wrapped(self, st, L, W):
        if self.verifying and not self.wrapok:
            self.wrapseen = True
            # a candidate invariant too weak to exclude wrapping
            raise Undecided('wraps more than once')
        return self.divmod(st, L, W)[1]

    def srep(self, st, L, w):
        H = 1 << (w - 1)
        if isinstance(L, int):
            L &= (1 << w) - 1
            return L - (1 << w) if L >= H else L
        a = st.dec(ladd(L, H))
        b = st.dec(lsub(H - 1, L))
        if a is True and b is True:
            return L
        if a is None:
            raise Fork(ladd(L, H))
        if b is None:
            raise Fork(lsub(H - 1, L))
        if b is False:
            r = ladd(L, -(1 << w))
        else:
            r = ladd(L, 1 << w)
        if st.dec(ladd(r, H)) is True and st.dec(lsub(H - 1, r)) is True:
            return r
        return ladd(self.wrapped(st, ladd(L, H), 1 << w), -H)

    def binop(self, st, op, a, b, w):
        ta, tb = type(a), type(b)
        M = (1 << w) - 1
        if ta is int and tb is int:
            if op == 'xor':
                return a ^ b
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (self.srep(st, a, w) >> min(b, w - 1)) & M
            if op in ('udiv', 'urem'):
                if b == 0:
                    self.fail(st, 'bounds', 'division by zero')
                    raise Abort()
                return a // b if op == 'udiv' else a % b
            sa, sb = self.srep(st, a, w), self.srep(st, b, w)
            if sb == 0:
                self.fail(st, 'bounds', 'division by zero')
                raise Abort()
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            return (q if op == 'sdiv' else sa - q * sb) & M
        if ta is Ptr or tb is Ptr:
            return self.ptrop(st, op, a, b, w)
        if ta is Lin or tb is Lin:
            return self.linop(st, op, a, b, w)
        # data bits
        if op == 'xor':
            if ta is int:
                a, b, ta, tb = b, a, tb, ta
            if tb is int:
                if b == 0:
                    return a
                return tuple([p ^ ONE if (b >> i) & 1 else p for i, p in enumerate(a)])
            return tuple([x ^ y for x, y in zip(a, b)])
        if op == 'and':
            if ta is int:
                a, b, ta, tb = b, a, tb, ta
            if tb is int:
                return tuple([p if (b >> i) & 1 else ZERO for i, p in enumerate(a)])
            return self.mgr.wand(a, b)
        if op == 'or':
            if ta is int:
                a, b, ta, tb = b, a, tb, ta
            if tb is int:
                return tuple([ONE if (b >> i) & 1 else p for i, p in enumerate(a)])
            return self.mgr.wor(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            if tb is tuple:
                b2 = as_int(b)
                if b2 is None:
                    self.fail(st, 'vartime', f'{op} by a data dependent amount')
                    raise Undecided('data dependent shift')
                b = b2
            if b >= w:
                self.fail(st, 'bounds', f'{op} by {b} of a {w}-bit value')
                raise Abort()
            if ta is int:
                return self.binop(st, op, a, b, w)
            if op == 'shl':
                return (ZERO,) * b + a[:w - b]
            if op == 'lshr':
                return a[b:] + (ZERO,) * b
            return a[b:] + (a[-1],) * b
        A, B = self.bits(st, a, w), self.bits(st, b, w)
        if op == 'add':
            return self.mgr.wadd(A, B)
        if op == 'sub':
            if as_int(A) == 0 and all(not p for p in B[1:]):
                return (B[0],) * w                    # 0 - bit
            return self.mgr.wadd(A, self.mgr.wnot(B), ONE)
        if op == 'mul':
            ia, ib = as_int(A), as_int(B)
            if ia is None and ib is None:
                nb = [i for i in range(w) if B[i]]
                na = [i for i in range(w) if A[i]]
                if len(na) < len(nb):
                    A, B, nb = B, A, na
                acc = self.mgr.const(0, w)
                for i in nb:
                    acc = self.mgr.wadd(acc, self.mgr.wand((ZERO,) * i + A[:w - i], (B[i],) * w))
                return acc
            if ia is not None:
                A, ib = B, ia
            acc = self.mgr.const(0, w)
            for i in range(w):
                if (ib >> i) & 1:
                    acc = self.mgr.wadd(acc, (ZERO,) * i + A[:w - i])
            return acc
        if op in ('udiv', 'urem'):
            ib = as_int(B)
            if ib and ib & (ib - 1) == 0:
                s = ib.bit_length() - 1
                if op == 'udiv':
                    return A[s:] + (ZERO,) * s
                return A[:s] + (ZERO,) * (w - s)
        self.fail(st, 'vartime', f'{op} on data bits')
        raise Undecided(op + ' on data bits')

    def ptrop(self, st, op, a, b, w):
        if type(a) is Ptr and type(b) is Ptr and op == 'sub' and a.obj == b.obj:
            return self.wrapc(lsub(a.off, b.off), w)
        if type(a) is Ptr and op in ('add', 'sub') and isinstance(b, (int, Lin)):
            if isinstance(b, int):
                b = self.srep(st, b, w)
            return Ptr(a.obj, ladd(a.off, b) if op == 'add' else lsub(a.off, b))
        if op == 'add' and type(b) is Ptr:
            return self.ptrop(st, op, b, a, w)
        if op == 'and' and type(a) is Ptr and isinstance(b, int) and b in (1, 3, 7, 15):
            raise Undecided('alignment test of a pointer')
        raise Undecided('pointer arithmetic ' + op)

    def wrapc(self, L, w):
        if isinstance(L, int):
            return L & ((1 << w) - 1)
        return L

    def linop(self, st, op, a, b, w):
        M = (1 << w) - 1
        if type(a) is tuple or type(b) is tuple:
            L = a if isinstance(a, Lin) else b
            # a small length mixed with data
            self.concretize(st, L)
        if op == 'add':
            if isinstance(b, int) and b > M >> 1:
                b -= M + 1
            elif isinstance(a, int) and a > M >> 1:
                a -= M + 1
            L = ladd(a, b)
            if self.divdef and type(L) is Lin:
                # d * (x / d) + x % d is x: substitute the definition of x (and start over)
                for v, k in L.t:
                    if v in self.divdef:
                        q, d, e = self.divdef[v]
                        if (q, k * d) in L.t:
                            h, g, c = normf(e)
                            lo, hi = st.cons.get(h, (None, None))
                            if lo is not None and lo == hi and self.elimvar(h):
                                raise Fork(e)
            return self.wrapc(L, w)
        if op == 'sub':
            if isinstance(b, int) and b > M >> 1:
                b -= M + 1
            return self.wrapc(lsub(a, b), w)
        if op == 'mul':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b > M >> 1:
                    b -= M + 1
                return self.wrapc(lmul(a, b), w)
            raise Undecided('product of lengths')
        if op in ('or', 'xor') and isinstance(a, Lin) and isinstance(b, Lin):
            # disjoint: one is a multiple of a power of two, the other smaller
            for x, y in ((a, b), (b, a)):
                x = self.urep(st, x, w)
                g = 0
                for v in [k for _, k in x.t] + [x.c] if isinstance(x, Lin) else [x]:
                    g |= v
                g &= -g
                if g > 1:
                    y = self.urep(st, y, w)
                    if st.dec(lsub(g - 1, y)) is True:
                        return self.wrapc(ladd(x, y), w)
        if isinstance(b, Lin):
            if op in ('shl', 'lshr', 'ashr'):
                self.concretize(st, b)
            if isinstance(a, int) and op in ('and', 'or'):
                a, b = b, a
            else:
                self.concretize(st, b)
        if op == 'shl':
            return self.wrapc(lmul(a, 1 << b), w)
        if op in ('lshr', 'udiv', 'urem', 'ashr', 'sdiv', 'srem'):
            if op in ('ashr', 'sdiv', 'srem'):
                r = self.srep(st, a, w)
                if not isinstance(r, int) and st.need(r) is False:
                    raise Undecided('signed division of a negative length')
            else:
                r = self.urep(st, a, w)
            if isinstance(r, int):
                return self.binop(st, op, r, b, w)
            d = b if op in ('udiv', 'urem', 'sdiv', 'srem') else 1 << b
            if d == 0:
                self.fail(st, 'bounds', 'division by zero')
                raise Abort()
            if d == 1:
                return r if op in ('lshr', 'udiv', 'ashr', 'sdiv') else 0
            q, m = self.divmod(st, r, d)
            return q if op in ('lshr', 'udiv', 'ashr', 'sdiv') else m
        if op == 'and':
            # low mask or its complement
            if b & (b + 1) == 0:
                r = self.urep(st, a, w)
                if isinstance(r, int):
                    return r & b
                return self.divmod(st, r, b + 1)[1]
            nb = (~b) & M
            if nb & (nb + 1) == 0:
                r = self.urep(st, a, w)
                if isinstance(r, int):
                    return r & b
                q, m = self.divmod(st, r, nb + 1)
                return lmul(q, nb + 1)
        if op == 'or' and isinstance(b, int):
            # disjoint or: a multiple of a power of two larger than b
            r = self.urep(st, a, w)
            if isinstance(r, Lin):
                d = 1 << b.bit_length()
                if all(k % d == 0 for _, k in r.t) and r.c % d == 0:
                    return ladd(r, b)
        if op == 'xor' and b == M:
            return self.wrapc(lsub(-1, a), w)
        self.concretize(st, a)

    def icmp(self, st, pred, a, b, w):
        ta, tb = type(a), type(b)
        if ta is Ptr or tb is Ptr or a is None or b is None or ta is FnRef:
            if ta is Ptr and tb is Ptr:
                if a.obj == b.obj:
                    a, b = a.off, b.off
                    if isinstance(a, int) and isinstance(b, int):
                        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                                    'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred])
                    return self.lincmp(st, pred, a, b)
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')
            raise Undecided('pointer comparison')
        if ta is tuple or tb is tuple:
            x, y = self.norm(a), self.norm(b)
            if type(x) is int and type(y) is int:
                return self.icmp(st, pred, x, y, w)
            A, B = self.bits(st, x, w), self.bits(st, y, w)
            m = self.mgr
            if pred in ('eq', 'ne'):
                r = m.weq(A, B)
                if pred == 'ne':
                    r = r ^ ONE
            else:
                if pred[0] == 's':
                    A = A[:-1] + (A[-1] ^ ONE,)
                    B = B[:-1] + (B[-1] ^ ONE,)
                if pred[1:] in ('gt', 'le'):
                    A, B = B, A
                # A < B : no carry out of A + ~B + 1
                c = ONE
                for p, q in zip(A, B):
                    q = q ^ ONE
                    c = m.AND(p, q) ^ m.AND(c, p ^ q)
                r = c ^ ONE
                if pred[1:] in ('ge', 'le'):
                    r = r ^ ONE
            if not r:
                return 0
            if r == ONE:
                return 1
            return (r,)
        if pred in ('eq', 'ne'):
            d = a - b if ta is int and tb is int else lsub(a, b)
            if isinstance(d, int):
                r = d & ((1 << w) - 1) == 0
                return int(r == (pred == 'eq'))
            if isinstance(a, Lin):
                a = self.urep(st, a, w)
            if isinstance(b, Lin):
                b = self.urep(st, b, w)
            return self.lincmp(st, pred, a, b)
        if pred[0] == 'u':
            a, b = self.urep(st, a, w), self.urep(st, b, w)
        else:
            a, b = self.srep(st, a, w), self.srep(st, b, w)
        return self.lincmp(st, pred, a, b)

    def lincmp(self, st, pred, a, b):
        if pred in ('eq', 'ne'):
            d = lsub(a, b)
            if isinstance(d, int):
                return int((d == 0) == (pred == 'eq'))
            g = 0
            for _, k in d.t:
                g = math.gcd(g, k)
            if d.c % g:
                return int(pred == 'ne')
            if st.need(d) is False:
                return int(pred == 'ne')
            if st.need(lmul(d, -1)) is False:
                return int(pred == 'ne')
            return int(pred == 'eq')
        k = pred[1:]
        if k == 'lt':
            f = lsub(lsub(b, a), 1)
        elif k == 'le':
            f = lsub(b, a)
        elif k == 'gt':
            f = lsub(lsub(a, b), 1)
        else:
            f = lsub(a, b)
        return int(st.need(f))

    def truth(self, st, c):
        """branch condition -> bool; data dependent conditions raise BFork"""
        if type(c) is int:
            return c & 1 == 1
        if type(c) is tuple:
            p = c[0]
            if not p:
                return False
            if p == ONE:
                return True
            for q, v in st.bconds:
                if q == p:
                    return v
                if q == p ^ ONE:
                    return not v
            raise BFork(p)
        if isinstance(c, Lin):
            r = self.urep(st, c, 1)
            self.concretize(st, r)
        raise Undecided('condition ' + repr(c))

    # ------------------------------------------------------------ operands
    def getter(self, mod, t, v):
        k = v[0]
        if k == 'l':
            n = v[1]
            return lambda st, env: env[n]
        if k == 'c':
            if t[0] == 'vec':
                raise Undecided('vector constant')
            c = v[1] & ((1 << t[1]) - 1) if t[0] == 'i' else v[1]
            return lambda st, env: c
        if k == 'g':
            n = v[1]
            return lambda st, env: self.global_obj(st, mod, n)
        if k == 'null':
            p = Ptr(None, 0)
            return lambda st, env: p
        if k == 'undef':
            if t[0] in ('arr', 'st'):
                n = t[1] if t[0] == 'arr' else len(t[1])
                return lambda st, env: Agg([None] * n)
            w = mod.bits(t)
            m = self.mgr
            return lambda st, env: tuple([m.var(('un', 'undef', 0, i)) for i in range(w)])
        if k == 'zero':
            if t[0] == 'vec' or t[0] == 'i':
                return lambda st, env: 0
            if t[0] == 'arr':
                return lambda st, env: Agg([0] * t[1])
        if k == 'agg' and t[0] == 'vec':
            ew = t[2][1]
            x = 0
            for i, (et, ev) in enumerate(v[1]):
                if ev[0] == 'undef':
                    continue
                if ev[0] != 'c':
                    raise Undecided('vector constant')
                x |= (ev[1] & ((1 << ew) - 1)) << (i * ew)
            return lambda st, env: x
        if k == 'gep':
            base = self.getter(mod, ('ptr',), v[2])
            off = self.gepconst(mod, v[1], v[3])
            return lambda st, env: (lambda p: Ptr(p.obj, ladd(p.off, off)))(base(st, env))
        raise Undecided('operand ' + k)

    def gepconst(self, mod, t, idx):
        off = idx[0][1][1] * mod.size(t)
        for it, iv in idx[1:]:
            o, t = mod.field(t, iv[1])
            off += o
        return off

    # ------------------------------------------------------------ instruction compilation
    def compile_block(self, fn, b):
        out = []
        for ins in b.ins:
            out.append(None if ins.op == 'phi' else self.compile(fn, ins))
        b.code = out
        return out

    def compile(self, fn, ins):
        mod = fn.mod
        op, res, a = ins.op, ins.res, ins.a
        G = lambda t, v: self.getter(mod, t, v)
        eng = self
        if op in llir.BIN:
            t = ins.ty
            x, y = G(t, a[0]), G(t, a[1])
            if t[0] == 'vec':
                ew, n = t[2][1], t[1]
                w = ew * n
                if op in ('and', 'or', 'xor'):
                    def f(st, env):
                        env[res] = eng.binop(st, op, x(st, env), y(st, env), w)
                else:
                    def f(st, env):
                        A, B = eng.bits(st, x(st, env), w), eng.bits(st, y(st, env), w)
                        o = ()
                        for i in range(n):
                            r = eng.binop(st, op, eng.norm(A[i * ew:i * ew + ew]), eng.norm(B[i * ew:i * ew + ew]), ew)
                            o += eng.bits(st, r, ew)
                        env[res] = eng.norm(o)
                return f
            w = t[1]

            def f(st, env):
                env[res] = eng.binop(st, op, x(st, env), y(st, env), w)
            return f
        if op == 'icmp':
            pred, p, q = a
            t = ins.ty
            x, y = G(t, p), G(t, q)
            w = mod.bits(t)
            if t[0] == 'vec':
                raise Undecided('vector compare')

            def f(st, env):
                env[res] = eng.icmp(st, pred, x(st, env), y(st, env), w)
            return f
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            t, v = a
            x = G(t, v)
            w1, w2 = mod.bits(t), mod.bits(ins.ty)
            if t[0] == 'vec' and op in ('zext', 'sext', 'trunc'):
                e1, e2, n = t[2][1], ins.ty[2][1], t[1]

                def f(st, env):
                    A = eng.bits(st, x(st, env), w1)
                    o = ()
                    for i in range(n):
                        e = A[i * e1:i * e1 + e1]
                        if op == 'trunc':
                            e = e[:e2]
                        else:
                            e = e + ((e[-1] if op == 'sext' else ZERO),) * (e2 - e1)
                        o += e
                    env[res] = eng.norm(o)
                return f

            def f(st, env):
                env[res] = eng.cast(st, op, x(st, env), w1, w2)
            return f
        if op == 'load':
            x = G(('ptr',), a[0])
            t = ins.ty
            if t[0] in ('arr', 'st'):
                flds = [mod.field(t, i) for i in range(t[1] if t[0] == 'arr' else len(t[1]))]

                def f(st, env):
                    p = x(st, env)
                    env[res] = Agg([eng.load(st, Ptr(p.obj, ladd(p.off, o)), mod.size(ft)) for o, ft in flds])
                return f
            n = mod.size(t)
            w = mod.bits(t)

            def f(st, env):
                v = eng.load(st, x(st, env), n)
                if w < 8 * n:
                    v = v & ((1 << w) - 1) if type(v) is int else v[:w]
                env[res] = v
            return f
        if op == 'store':
            t = ins.ty
            v, x = G(t, a[0]), G(('ptr',), a[1])
            if t[0] in ('arr', 'st'):
                flds = [mod.field(t, i) for i in range(t[1] if t[0] == 'arr' else len(t[1]))]

                def f(st, env):
                    p = x(st, env)
                    val = v(st, env)
                    for i, (o, ft) in enumerate(flds):
                        eng.store(st, Ptr(p.obj, ladd(p.off, o)), val[i], mod.size(ft))
                return f
            n = mod.size(t)

            def f(st, env):
                eng.store(st, x(st, env), v(st, env), n)
            return f
        if op == 'getelementptr':
            t, base, idx = a
            bx = G(('ptr',), base)
            steps = []
            off = 0
            cur = t
            for k, (it, iv) in enumerate(idx):
                if k == 0:
                    sz, nt = mod.size(t), t
                elif cur[0] in ('arr', 'vec'):
                    sz, nt = mod.size(cur[2]), cur[2]
                else:
                    o, nt = mod.field(cur, iv[1])
                    off += o
                    cur = nt
                    continue
                if iv[0] == 'c':
                    off += iv[1] * sz
                else:
                    steps.append((G(it, iv), it[1], sz))
                cur = nt
            if not steps:
                def f(st, env):
                    p = bx(st, env)
                    if type(p) is not Ptr:
                        raise Undecided('gep on non pointer')
                    env[res] = Ptr(p.obj, p.off + off if type(p.off) is int else ladd(p.off, off))
                return f

            def f(st, env):
                p = bx(st, env)
                if type(p) is not Ptr:
                    raise Undecided('gep on non pointer')
                o = ladd(p.off, off)
                for g, w, sz in steps:
                    i = eng.norm(g(st, env))
                    if type(i) is tuple:
                        eng.fail(st, 'secret-addr', 'index depends on data bits')
                        raise Undecided('data dependent index')
                    if type(i) is int:
                        if i >> (w - 1):
                            i -= 1 << w
                    elif w < eng.pb:
                        i = eng.srep(st, i, w)
                    o = ladd(o, lmul(i, sz))
                env[res] = Ptr(p.obj, o)
            return f
        if op == 'alloca':
            t, n = ins.ty, a[0]
            sz = mod.size(t)
            cnt = G(('i', 64), n) if n is not None else None

            def f(st, env):
                k = 1
                if cnt:
                    k = eng.norm(cnt(st, env))
                    if not isinstance(k, int):
                        raise Undecided('variable length array')
                eng.uid += 1
                oid = f'{res[1:]}#{len(st.frames)}.{fn.name}'
                st.mem[oid] = Obj(oid, res[1:], sz * k, 'stack')
                st.owned.add(oid)
                st.frames[-1].allocas.append(oid)
                env[res] = Ptr(oid, 0)
            return f
        if op == 'extractvalue':
            x = G(ins.ty, a[0])
            ix = a[1]

            def f(st, env):
                v = x(st, env)
                for i in ix:
                    v = v[i]
                env[res] = v
            return f
        if op == 'insertvalue':
            x, t2, y, ix = G(ins.ty, a[0]), a[1], G(a[1], a[2]), a[3]

            def f(st, env):
                v = Agg(x(st, env))
                if len(ix) != 1:
                    raise Undecided('nested insertvalue')
                v[ix[0]] = y(st, env)
                env[res] = v
            return f
        if op == 'select':
            c, x, y = G(('i', 1), a[0]), G(ins.ty, a[1]), G(ins.ty, a[2])
            w = mod.bits(ins.ty)

            def f(st, env):
                cv = c(st, env)
                if type(cv) is tuple and as_int(cv) is None:
                    p, q = x(st, env), y(st, env)
                    if isinstance(p, (int, tuple)) and isinstance(q, (int, tuple)):
                        env[res] = eng.norm(eng.mgr.ite(cv[0], eng.bits(st, p, w), eng.bits(st, q, w)))
                        return
                env[res] = x(st, env) if eng.truth(st, cv) else y(st, env)
            return f
        if op == 'insertelement':
            t = ins.ty
            ew, n = t[2][1], t[1]
            x, e, i = G(t, a[0]), G(t[2], a[1]), G(('i', 64), a[2])

            def f(st, env):
                k = i(st, env)
                V = eng.bits(st, x(st, env), ew * n)
                E = eng.bits(st, e(st, env), ew)
                env[res] = eng.norm(V[:k * ew] + E + V[k * ew + ew:])
            return f
        if op == 'extractelement':
            t = ins.ty
            ew, n = t[2][1], t[1]
            x, i = G(t, a[0]), G(('i', 64), a[1])

            def f(st, env):
                k = i(st, env)
                V = eng.bits(st, x(st, env), ew * n)
                env[res] = eng.norm(V[k * ew:k * ew + ew])
            return f
        if op == 'shufflevector':
            t = ins.ty
            ew, n = t[2][1], t[1]
            x, y = G(t, a[0]), G(t, a[1])
            mt, mv = a[2], a[3]
            if mv[0] == 'zero':
                mask = [0] * mt[1]
            elif mv[0] == 'agg':
                mask = [ev[1] if ev[0] == 'c' else 0 for _, ev in mv[1]]
            else:
                mask = [0] * mt[1]

            def f(st, env):
                V = eng.bits(st, x(st, env), ew * n) + eng.bits(st, y(st, env), ew * n)
                o = ()
                for k in mask:
                    o += V[k * ew:k * ew + ew]
                env[res] = eng.norm(o)
            return f
        if op == 'asm':
            import asm
            return asm.compile_inline(self, fn, ins)
        if op == 'call':
            return self.compile_call(fn, ins)
        if op == 'br':
            if len(a) == 1:
                tgt = a[0]
                return lambda st, env: eng.goto(st, tgt)
            c = G(('i', 1), a[0])
            t1, t2 = a[1], a[2]
            return lambda st, env: eng.goto(st, t1 if eng.truth(st, c(st, env)) else t2)
        if op == 'switch':
            v = G(ins.ty, a[0])
            w = ins.ty[1]
            dflt, cases = a[1], a[2]

            def f(st, env):
                x = v(st, env)
                x = eng.norm(x)
                if type(x) is int:
                    for c, b in cases:
                        if c & ((1 << w) - 1) == x:
                            return eng.goto(st, b)
                    return eng.goto(st, dflt)
                for c, b in cases:
                    if eng.truth(st, eng.icmp(st, 'eq', x, c & ((1 << w) - 1), w)):
                        return eng.goto(st, b)
                return eng.goto(st, dflt)
            return f
        if op == 'ret':
            if not a:
                return lambda st, env: eng.ret(st, None)
            v = G(ins.ty, a[0])
            return lambda st, env: eng.ret(st, v(st, env))
        if op == 'nop':
            return lambda st, env: None
        if op == 'unreachable':
            def f(st, env):
                eng.fail(st, 'bounds', 'unreachable executed')
                raise Abort()
            return f
        raise Undecided('instruction ' + op)

    def cast(self, st, op, v, w1, w2):
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.obj is None:
                return 0
            return v
        if isinstance(v, Ptr):
            if w2 >= w1:
                return v
            raise Undecided('pointer cast')
        if op == 'trunc':
            if type(v) is int:
                return v & ((1 << w2) - 1)
            if type(v) is tuple:
                return v[:w2]
            return v
        if op == 'zext':
            if type(v) is int:
                return v
            if type(v) is tuple:
                return v + (ZERO,) * (w2 - w1)
            return self.urep(st, v, w1)
        if type(v) is int:
            return self.srep(st, v, w1) & ((1 << w2) - 1)
        if type(v) is tuple:
            return v + (v[-1],) * (w2 - w1)
        return self.srep(st, v, w1)

    # ------------------------------------------------------------ calls
    def compile_call(self, fn, ins):
        mod = fn.mod
        callee, args = ins.a
        res = ins.res
        eng = self
        if callee[0] != 'g':
            def f(st, env):
                raise Undecided('indirect call')
            return f
        name = callee[1].strip('"')
        if name.startswith(('llvm.lifetime.end',)):
            x = self.getter(mod, *args[1])

            def f(st, env):
                try:
                    p = x(st, env)
                except KeyError:
                    return          # dead since the last loop
                o = st.mem[p.obj]
                if o.g or o.regions:
                    o = st.obj_w(p.obj)
                    o.g = {}
                    o.regions = ()
            return f
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.prefetch')):
            return lambda st, env: None
        gs = [self.getter(mod, t, v) for t, v in args if t[0] != 'metadata']
        tys = [t for t, v in args]
        if name.startswith('llvm.'):
            import intrin
            h = intrin.lookup(self, name, tys, ins.ty, mod)
            if h is None:
                def f(st, env):
                    raise Undecided('intrinsic ' + name)
                return f

            def f(st, env):
                r = h(st, [g(st, env) for g in gs])
                if res:
                    env[res] = r
            return f

        def f(st, env):
            vs = [g(st, env) for g in gs]
            return eng.do_call(st, name, vs, res, ins)
        return f

    def do_call(self, st, name, vs, res, ins):
        self.stats['calls'] += 1
        h = self.contracts.get(name)
        if h is not None:
            r = h(self, st, vs, ins)
            if r is not NotImplemented:
                self.stats['contracts'] += 1
                if res:
                    st.frames[-1].env[res] = r
                return None
        target = self.fns.get(name)
        if target is None:
            h = self.extern.get(name)
            if h is None:
                raise Undecided('external function ' + name)
            r = h(self, st, vs, ins)
            if res:
                st.frames[-1].env[res] = r
            return None
        if len(st.frames) > 60:
            raise Undecided('call depth')
        self.enter(st, target, vs, res)
        return 'ctl'

    def enter(self, st, fn, vs, res=None, onret=None):
        fr = Frame(fn)
        fr.res = res
        fr.onret = onret
        if st.frames:
            st.frames[-1].idx += 1
        for (t, n, bv), v in zip(fn.params, vs):
            if bv is not None:
                sz = fn.mod.size(bv)
                data = self.load(st, v, sz)
                oid = f'byval{n[1:]}#{len(st.frames)}.{fn.name}'
                st.mem[oid] = Obj(oid, n[1:], sz, 'stack')
                st.owned.add(oid)
                fr.allocas.append(oid)
                st.frames.append(fr)
                self.store(st, Ptr(oid, 0), data, sz)
                st.frames.pop()
                v = Ptr(oid, 0)
            fr.env[n] = v
        fr.block = fn.order[0]
        fr.idx = 0
        st.frames.append(fr)

    def ret(self, st, v):
        fr = st.frames.pop()
        for oid in fr.allocas:
            st.mem.pop(oid, None)
            st.owned.discard(oid)
        if not st.frames:
            st.ret = v
            return 'ret'
        if fr.res:
            st.frames[-1].env[fr.res] = v
        if fr.onret:
            fr.onret(self, st, v)
        return 'ctl'

    # ------------------------------------------------------------ control flow
    def goto(self, st, tgt):
        fr = st.frames[-1]
        fn = fr.fn
        loops = fn.loops()
        ls = fr.loops
        exited = None
        while ls and tgt not in ls[-1].body:
            lp = ls.pop()
            if lp.sym or lp.mode:
                exited = lp
        ish = tgt in loops
        if ish:
            if ls and ls[-1].header == tgt:
                ls[-1].n += 1
            else:
                self.uid += 1
                ls.append(Loop(tgt, loops[tgt], self.uid))
        b = fn.block(tgt)
        prev = fr.block
        env = fr.env
        i = 0
        ins = b.ins
        vals = []
        while ins[i].op == 'phi':
            for v, p in ins[i].a:
                if p == prev:
                    k = v[0]
                    if k == 'l':
                        vals.append((ins[i].res, env[v[1]]))
                    else:
                        vals.append((ins[i].res, self.getter(fn.mod, ins[i].ty, v)(st, env)))
                    break
            i += 1
        for r, v in vals:
            env[r] = v
        fr.block = tgt
        fr.idx = i
        if ish or exited is not None:
            fr.env = {n: env[n] for n in fn.live_in(tgt) if n in env}
        if exited is not None:
            st.exited = exited
            if ish:
                st.arrived = ls[-1]
            return 'exit'
        if ish:
            st.arrived = ls[-1]
            return 'header'
        return 'ctl'

    def run(self, st):
        """run until something happens: ('ret'|'exit'|'header'|'fork', ...)"""
        while True:
            fr = st.frames[-1]
            b = fr.fn.block(fr.block)
            code = b.code
            if code is None:
                code = self.compile_block(fr.fn, b)
            env = fr.env
            idx = fr.idx
            n = 0
            try:
                while True:
                    fr.idx = idx
                    r = code[idx](st, env)
                    n += 1
                    if r is None:
                        idx += 1
                        continue
                    break
            except Fork as e:
                return self.fork(st, e.f)
            except BFork as e:
                return self.bfork(st, e.p)
            finally:
                self.steps += n
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time limit')
            if r == 'ctl':
                continue
            return r

    def fork(self, st, f):
        self.stats['forks'] += 1
        if isinstance(f, int):
            raise Undecided('fork on a constant')
        # unbounded condition: marks the enclosing loops as symbolic
        unb = False
        h, g, c = normf(f)
        iv = st.cons.get(h, (None, None))
        if iv[0] is None or iv[1] is None or iv[1] - iv[0] > 4096:
            big = sat(st.conslist() + [ladd(f, -4096)])
            neg = sat(st.conslist() + [ladd(lmul(f, -1), -4097)])
            unb = big is not False or neg is not False
        out = []
        for g in (f, lsub(-1, f)):
            s = st.clone()
            self.uid += 1
            s.trail = s.trail + (self.uid,)
            if unb:
                for fr in s.frames:
                    for l in fr.loops:
                        l.sym = True
            if self.assume(s, g):
                out.append(s)
        return out

    def assume(self, s, g):
        """add constraint and propagate equalities; False if infeasible"""
        eqs = s.assume(g)
        if eqs is None:
            return False
        while eqs:
            h, v = eqs.pop()
            if h not in s.cons:
                continue
            r = self.eliminate(s, h, v)
            if r is False:
                return False
            if r is None:
                continue
            # other equalities may have appeared
            eqs = [(h2, lo) for h2, (lo, hi) in s.cons.items() if lo is not None and lo == hi and self.elimvar(h2)]
        return True

    def elimvar(self, h):
        best = None
        for v, k in h:
            if abs(k) == 1:
                p = PRI.get(v[0], 3)
                if v == TAU:
                    continue
                if best is None or p < best[0]:
                    best = (p, v, k)
        return best

    def eliminate(self, s, h, val):
        b = self.elimvar(h)
        if b is None:
            return None
        _, v, k = b
        # k*v + rest = val  ->  v = k*(val - rest)
        rest = mkl(tuple((x, c) for x, c in h if x != v), 0)
        e = lmul(lsub(val, rest), k)
        return self.subst_state(s, {v: e})

    def subst_state(self, s, lmap):
        S = Subst(self.mgr, lmap, self.appsubst)
        old = s.cons
        s.cons = {}
        s._cl = None
        for h, (lo, hi) in old.items():
            L = S.lin(Lin(h, 0))
            for f in ([ladd(L, -lo)] if lo is not None else []) + ([lsub(hi, L)] if hi is not None else []):
                if s.assume(f) is None:
                    return False
        s._cl = None
        val = lambda x: self.subst_val(S, x)
        for fr in s.frames:
            fr.env = {n: val(v) for n, v in fr.env.items()}
        for oid in list(s.mem):
            o = s.mem[oid]
            n = self.subst_obj(S, o)
            if n is not o:
                s.mem[oid] = n
                s.owned.add(oid)
        s.lens = {n: S.lin(v) for n, v in s.lens.items()}
        s.bconds = tuple((S.poly(p), v) for p, v in s.bconds)
        s.ghost = {k: val(v) for k, v in s.ghost.items()}
        return True

    def subst_val(self, S, x):
        t = type(x)
        if t is int:
            return x
        if t is tuple:
            if len(x) == 4 and x[0] == 'v':
                return ('v', self.subst_val(S, x[1]), x[2], x[3])
            return S.word(x)
        if t is Lin:
            return S.lin(x)
        if t is Ptr:
            return Ptr(x.obj, S.lin(x.off))
        if t is Agg:
            return Agg([self.subst_val(S, y) for y in x])
        return x

    def subst_obj(self, S, o):
        ch = False
        size = S.lin(o.size) if isinstance(o.size, Lin) else o.size
        if size != o.size:
            ch = True
        ng = {}
        for t, d in o.g.items():
            if t and any(v in S.vars for v, _ in t):
                L = S.lin(Lin(t, 0))
                t2, c2 = lt(L)
                ch = True
            else:
                t2, c2 = t, 0
            nd = ng.setdefault(t2, {})
            for c, e in d.items():
                if type(e) is int:
                    nd[c + c2] = e
                    continue
                e2 = self.subst_val(S, e)
                if e2 != e:
                    ch = True
                nd[c + c2] = e2
        regs = []
        for r in o.regions:
            b, c = S.lin(r.base), S.lin(r.count)
            vals = {k: (v if type(v) is int else S.word(v)) for k, v in r.vals.items()}
            if b != r.base or c != r.count or vals != r.vals:
                ch = True
            if isinstance(c, int) and c <= 4 and isinstance(b, int):
                # expand
                ch = True
                for i in range(c):
                    S2 = Subst(self.mgr, {TAU: i}, self.appsubst)
                    for k, v in r.vals.items():
                        w = v if type(v) is int else S2.word(S.word(v))
                        ng.setdefault((), {})[b + i * r.stride + k] = w
                continue
            regs.append(Region(b, r.stride, c, vals))
        if not ch:
            return o
        n = Obj(o.id, o.name, size, o.kind, o.data, o.ro)
        n.g = {t: d for t, d in ng.items() if d}
        n.regions = tuple(regs)
        return n

    def bfork(self, st, p):
        if self.allow_branch is None or not self.allow_branch(self, st, p):
            self.fail(st, 'secret-branch', 'branch condition depends on data bits', extra=p)
        if len(st.bconds) > 40:
            raise Undecided('too many data dependent branches')
        out = []
        for v in (True, False):
            s = st.clone()
            self.uid += 1
            s.trail = s.trail + (self.uid,)
            s.bconds = s.bconds + ((p, v),)
            out.append(s)
        return out

    # ------------------------------------------------------------ exploration
    def explore(self, states, capture=None, final=None):
        """capture: loop instance id under inductive verification -> (arrivals, exits)"""
        work = list(states)
        parked = {}
        arrivals, exits = [], []
        seen = {}
        self.recent = getattr(self, 'recent', 0)
        npaths = 0
        while work or parked:
            if not work:
                for iid, l in parked.items():
                    work.extend(s for _, s in l)
                parked = {}
                continue
            st = work.pop()
            self.cur = st
            if st.arrived is not None or st.exited is not None:
                ev = 'resume'
            elif not st.frames:
                ev = 'ret'
            else:
                try:
                    ev = self.run(st)
                except Abort:
                    continue
            if isinstance(ev, list):
                work.extend(ev)
                if len(work) > 4000:
                    raise Undecided('too many paths')
                continue
            if ev == 'ret':
                npaths += 1
                self.stats['paths'] += 1
                if npaths > 20000:
                    raise Undecided('too many paths')
                if final:
                    work.extend(self.finish(st, final))
                continue
            if st.exited is not None:
                lp = st.exited
                st.exited = None
                if capture is not None and not any(l.iid == capture for fr in st.frames for l in fr.loops):
                    exits.append(st)
                    continue
                if lp.sym and lp.mode is None:
                    parked.setdefault(lp.iid, []).append((lp.n, st))
                    continue
            if st.arrived is not None:
                lp = st.arrived
                st.arrived = None
                # lp may be a stale copy after cloning: take the live one
                lp = st.frames[-1].loops[-1]
                if lp.mode == 'verify':
                    if capture == lp.iid and lp.n >= lp.u:
                        arrivals.append(st)
                        continue
                    work.append(st)
                    continue
                if lp.n == 0 and self.onheader is not None:
                    self.onheader(st, lp)
                if lp.n == 0 and (st.frames[-1].fn.name, lp.header) in self.symhdr:
                    if self.merge(seen, st, lp):
                        self.stats['merged'] += 1
                        continue
                snap = st.clone()
                for fr in snap.frames:
                    for l in fr.loops:
                        l.snaps = []
                lp.snaps.append(snap)
                if len(lp.snaps) > 60:
                    lp.snaps[len(lp.snaps) - 61] = None
                if lp.sym and lp.n >= 2:
                    r = self.try_loop(st, lp)
                    if r is not None:
                        p, exs = r
                        base = lp.snaps[p].trail
                        iid = lp.iid

                        def covered(s, n=None):
                            if s.trail[:len(base)] != base:
                                return False
                            if n is not None:
                                return n >= p
                            for fr in s.frames:
                                for l in fr.loops:
                                    if l.iid == iid:
                                        return l.n >= p
                            return False
                        work = [s for s in work if not covered(s)]
                        if iid in parked:
                            work.extend(s for n, s in parked.pop(iid) if not covered(s, n))
                        for l in parked.values():
                            l[:] = [(n, s) for n, s in l if not covered(s)]
                        work.extend(exs)
                        self.symhdr.add((st.frames[-1].fn.name, lp.header))
                        continue
                    if lp.n > 60:
                        raise Undecided(f'no loop invariant found at {st.frames[-1].fn.name}{lp.header}')
                work.append(st)
                continue
            if ev == 'resume':
                work.append(st)
        return arrivals, exits

    def finish(self, st, final):
        nf = len(self.failures)
        try:
            final(st)
        except Fork as e:
            del self.failures[nf:]
            return self.fork(st, e.f)
        except Abort:
            pass
        if len(self.failures) > nf:
            now = time.time()
            self.failtime = self.failtime or now
            k = self.failures[-1].kind
            if now - self.failtime > 15 and sum(1 for f in self.failures if f.kind == k) >= 4:
                raise Enough()
        elif self.failtime and time.time() - self.failtime > 60:
            raise Enough()
        return ()

    # ------------------------------------------------------------ merging of equal states
    def live_env(self, fr, top):
        fn = fr.fn
        fn.loops()
        if top:
            names = fn.live_in(fr.block)
        else:
            names = self.live_after(fn, fr.block, fr.idx)
        return {n: fr.env[n] for n in names if n in fr.env}

    def live_after(self, fn, bname, idx):
        cache = getattr(fn, '_la', None)
        if cache is None:
            cache = fn._la = {}
        k = (bname, idx)
        if k not in cache:
            live = set()
            for s in fn.succs(bname):
                fn.live_in(s)
            b = fn.block(bname)
            for s in fn.succs(bname):
                live |= set(fn.live_in(s)) - {i.res for i in fn.block(s).ins if i.op == 'phi'}
                for i in fn.block(s).ins:
                    if i.op == 'phi':
                        for v, p in i.a:
                            if p == bname and v[0] == 'l':
                                live.add(v[1])
            for ins in reversed(b.ins[idx:]):
                live.discard(ins.res)
                live |= set(llir.uses(ins))
            cache[k] = live
        return cache[k]

    def merge(self, seen, st, lp):
        vars_ = set()
        objs = set()
        parts = []

        def val(v):
            t = type(v)
            if t is Lin:
                vars_.update(lvars(v))
            elif t is Ptr:
                if v.obj is not None:
                    objs.add(v.obj)
                if isinstance(v.off, Lin):
                    vars_.update(lvars(v.off))
            elif t is tuple:
                if len(v) == 4 and v[0] == 'v':
                    val(v[1])
                else:
                    lv = self.mgr.lv
                    for p in v:
                        for i in p:
                            x = lv.get(i)
                            if x:
                                vars_.update(x)
            elif t is Agg:
                for y in v:
                    val(y)
        for i, fr in enumerate(st.frames):
            e = self.live_env(fr, i == len(st.frames) - 1)
            for v in e.values():
                val(v)
            parts.append((fr.fn.name, fr.block, fr.idx, tuple(sorted(((n, v) for n, v in e.items()), key=lambda x: x[0])),
                          tuple(l.iid for l in fr.loops if l is not lp)))
        done = set()
        mem = []
        while objs - done:
            oid = (objs - done).pop()
            done.add(oid)
            o = st.mem.get(oid)
            if o is None:
                continue
            if isinstance(o.size, Lin):
                vars_.update(lvars(o.size))
            cells = []
            for t, d in o.g.items():
                for v, _ in t:
                    vars_.add(v)
                for c, e in d.items():
                    val(e)
                    cells.append((t, c, e))
            regs = []
            for r in o.regions:
                for x in (r.base, r.count):
                    if isinstance(x, Lin):
                        vars_.update(lvars(x))
                for v in r.vals.values():
                    val(v)
                regs.append((r.base, r.stride, r.count, tuple(sorted(r.vals.items()))))
            mem.append((oid, o.size, frozenset(cells), tuple(regs)))
        # outputs written so far matter even when no live pointer refers to them
        for oid, o in st.mem.items():
            if oid in done or o.kind != 'out' or not (o.g or o.regions):
                continue
            mem.append((oid, 'unreach', frozenset((t, c, e) for t, d in o.g.items() for c, e in d.items()),
                        tuple((r.base, r.stride, r.count, tuple(sorted(r.vals.items()))) for r in o.regions)))
            for t, d in o.g.items():
                for v, _ in t:
                    vars_.add(v)
                for c, e in d.items():
                    val(e)
            for r in o.regions:
                for x in (r.base, r.count):
                    if isinstance(x, Lin):
                        vars_.update(lvars(x))
                for v in r.vals.values():
                    val(v)
        vars_.discard(TAU)
        # constraints connected to the variables of the state
        cons = {}
        vs = set(vars_)
        ch = True
        while ch:
            ch = False
            for h, iv in st.cons.items():
                if h not in cons and any(v in vs for v, _ in h):
                    cons[h] = iv
                    for v, _ in h:
                        vs.add(v)
                    ch = True
        key = (tuple(parts), frozenset(mem), frozenset(cons.items()), frozenset(st.bconds), frozenset(st.ghost.items()))
        if key in seen:
            return True
        seen[key] = True
        return False

    # ------------------------------------------------------------ loop invariants
    PERIODS = (1, 2, 4, 8, 9, 16, 18)

    def try_loop(self, st, lp):
        n = lp.n
        for u in self.PERIODS:
            p = n - 2 * u
            if p < 0 or p > max(2, u):
                continue
            s0, s1, s2 = lp.snaps[p], lp.snaps[p + u], lp.snaps[n]
            if s0 is None or s1 is None:
                continue
            try:
                T = self.generalise(s0, s1, s2, allow_havoc=p >= 1)
            except GenFail:
                continue
            r = self.verify_loop(T, s0, lp, u, st)
            if r is not None:
                self.stats['invariants'] += 1
                return p, r
        return None

    def shift_atom_key(self, d):
        """(family, index position) of an indexed atom description"""
        k = d[0]
        if k in ('in', 'pre', 'ks'):
            return 2
        if k == 'y' and len(d) == 4:
            return 2
        return None

    def gen_poly(self, ps, K):
        """ps: polys at arrivals 0,1,2 (2 or 3 of them) -> template in K"""
        p0 = ps[0]
        if all(p == p0 for p in ps[1:]):
            return p0
        mgr = self.mgr
        mins = []
        for p in ps:
            d = {}
            for i in p:
                if i == 0:
                    continue
                de = mgr.atoms[i]
                pos = self.shift_atom_key(de)
                if pos is None:
                    continue
                ix = de[pos]
                t, c = lt(ix)
                key = (de[:pos], t, len(de))
                if key not in d or c < d[key]:
                    d[key] = c
            mins.append(d)
        m0 = mins[0]
        for m in mins[1:]:
            if set(m) != set(m0):
                raise GenFail('families')
        delta = {}
        for key, c in m0.items():
            dl = mins[1][key] - c
            if len(mins) > 2 and mins[2][key] - mins[1][key] != dl:
                raise GenFail('shift')
            delta[key] = dl
        r = ZERO
        for i in p0:
            if i == 0:
                r = r ^ ONE
                continue
            de = mgr.atoms[i]
            pos = self.shift_atom_key(de)
            if pos is None:
                r = r ^ frozenset((i,))
                continue
            ix = de[pos]
            t, c = lt(ix)
            dl = delta[(de[:pos], t, len(de))]
            r = r ^ (frozenset((i,)) if dl == 0 else mgr.var(de[:pos] + (ladd(ix, lmul(lvar(K), dl)),) + de[pos + 1:]))
        for n, p in enumerate(ps):
            if self._sub1(r, K, n) != p:
                raise GenFail('template')
        return r

    def _sub1(self, r, K, n):
        return Subst(self.mgr, {K: n}, self.appsubst).poly(r)

    def gen_val(self, vs, K, havoc=None):
        v0 = vs[0]
        if all(type(v) is type(v0) and v == v0 for v in vs[1:]):
            return v0
        t = type(v0)
        if all(isinstance(v, (int, Lin)) and not isinstance(v, bool) for v in vs):
            d = lsub(vs[1], vs[0])
            if not isinstance(d, int):
                raise GenFail('lin')
            if len(vs) > 2 and lsub(vs[2], vs[1]) != d:
                raise GenFail('lin')
            return ladd(v0, lmul(lvar(K), d))
        if any(type(v) is not t for v in vs):
            if all(isinstance(v, (int, tuple)) for v in vs) and not any(type(v) is tuple and len(v) == 4 and v[0] == 'v' for v in vs):
                w = max(len(v) for v in vs if type(v) is tuple)
                vs = [v if type(v) is tuple else self.mgr.const(v, w) for v in vs]
                t = tuple
            else:
                raise GenFail('type')
        if t is Ptr:
            if any(v.obj != v0.obj for v in vs):
                raise GenFail('ptr')
            return Ptr(v0.obj, self.gen_val([v.off for v in vs], K))
        if t is tuple:
            if len(vs[0]) == 4 and vs[0][0] == 'v':
                if any(len(v) != 4 or v[0] != 'v' or v[2:] != vs[0][2:] for v in vs):
                    raise GenFail('v')
                return ('v', self.gen_val([v[1] for v in vs], K), vs[0][2], vs[0][3])
            if any(len(v) != len(vs[0]) for v in vs):
                raise GenFail('width')
            return tuple([self.gen_poly([v[i] for v in vs], K) for i in range(len(vs[0]))])
        if t is Agg:
            return Agg([self.gen_val([v[i] for v in vs], K) for i in range(len(v0))])
        raise GenFail('value')

    def fresh_un(self, st, name):
        self.uid += 1
        return tuple([self.mgr.var(('un', name, self.uid, i)) for i in range(32)])

    def fresh(self, name, w):
        self.uid += 1
        return tuple([self.mgr.var(('hv', name, self.uid, i)) for i in range(w)])

    def generalise(self, s0, s1, s2, allow_havoc):
        ss = (s0, s1, s2)
        if len({len(s.frames) for s in ss}) != 1:
            raise GenFail('depth')
        self.uid += 1
        K = f'k{self.uid}'
        T = s0.clone()
        nf = len(s0.frames)
        # cheap checks first: scalars
        for i in range(nf):
            frs = [s.frames[i] for s in ss]
            if len({(f.fn.name, f.block, f.idx) for f in frs}) != 1:
                raise GenFail('frames')
            es = [self.live_env(f, i == nf - 1) for f in frs]
            names = set(es[0])
            if any(set(e) != names for e in es[1:]):
                raise GenFail('names')
            new = {}
            for n in sorted(names, key=lambda n: 0 if isinstance(es[0][n], (int, Lin, Ptr)) else 1):
                new[n] = self.gen_val([e[n] for e in es], K)
            T.frames[i].env = new
        havoc = set()
        folds = {}
        for oid, o0 in s0.mem.items():
            os_ = [s.mem.get(oid) for s in ss]
            if any(o is None for o in os_):
                raise GenFail('object')
            if os_[0] is os_[1] is os_[2]:
                continue
            flat = [{(t, c): e for t, d in o.g.items() for c, e in d.items()} for o in os_]
            k0, k1, k2 = set(flat[0]), set(flat[1]), set(flat[2])
            cells = {}
            for key in k0:
                if key not in k1 or key not in k2:
                    raise GenFail('cell vanished')
                try:
                    cells[key] = self.gen_val([f[key] for f in flat], K)
                except GenFail:
                    if o0.kind == 'stack' and allow_havoc and not isinstance(flat[0][key], int):
                        e = flat[2][key]
                        if type(e) is tuple and len(e) == 4 and e[0] == 'v':
                            raise
                        cells[key] = self.fresh(o0.name, 8)
                        havoc.add((oid, key))
                    else:
                        raise
            regs = list(o0.regions)
            if any(len(o.regions) != len(regs) for o in os_):
                raise GenFail('regions')
            for j, r in enumerate(regs):
                for o in os_[1:]:
                    r2 = o.regions[j]
                    if (r2.base, r2.stride, r2.vals, r2.count) != (r.base, r.stride, r.vals, r.count):
                        raise GenFail('region')
            n1, n2 = k1 - k0, k2 - k1
            same = n1 & n2 if n1 & n2 else set()
            if n1 or n2:
                if o0.kind == 'stack' and not n2 and allow_havoc:
                    # first written after arrival 0: treat as arbitrary
                    for key in n1:
                        cells[key] = self.fresh(o0.name, 8)
                        havoc.add((oid, key))
                else:
                    if not n1 or len(n1) != len(n2) or k2 - k0 != n1 | n2:
                        raise GenFail('growth')
                    ts = {t for t, c in n1 | n2}
                    if len(ts) != 1:
                        raise GenFail('growth linear part')
                    t = ts.pop()
                    b1, b2 = min(c for _, c in n1), min(c for _, c in n2)
                    dd = b2 - b1
                    if dd <= 0 or {(t, c + dd) for _, c in n1} != n2 or max(c for _, c in n1) - b1 >= dd:
                        raise GenFail('growth shift')
                    vals = {}
                    for (_, c) in n1:
                        e1, e2 = flat[1][(t, c)], flat[2][(t, c + dd)]
                        v = self.gen_val([e1, e2], TAU)
                        if isinstance(v, Lin):
                            raise GenFail('bytes')
                        vals[c - b1] = v
                    folds[oid] = (t, b1, dd, vals)
                    # blocks written before that follow the same pattern join the region
                    j = 0
                    while j < 64:
                        S = Subst(self.mgr, {TAU: -1 - j}, self.appsubst)
                        prev = {(t, b1 + c - (j + 1) * dd): (v if type(v) is int else S.word(v)) for c, v in vals.items()}
                        if any(key not in cells or self.canon(cells[key]) != self.canon(v) for key, v in prev.items()):
                            break
                        for key in prev:
                            del cells[key]
                        j += 1
                    if j:
                        S = Subst(self.mgr, {TAU: ladd(lvar(TAU), -j)}, self.appsubst)
                        rv = {c: (v if type(v) is int else S.word(v)) for c, v in vals.items()}
                        regs.append(Region(mkl(t, b1 - j * dd), dd, ladd(lvar(K), j), rv))
                    else:
                        regs.append(Region(mkl(t, b1), dd, lvar(K), vals))
            n = Obj(o0.id, o0.name, o0.size, o0.kind, o0.data, o0.ro)
            for (t, c), e in cells.items():
                n.g.setdefault(t, {})[c] = e
            n.regions = tuple(regs)
            T.mem[oid] = n
        T.owned = set()
        # sizes must not change
        # candidate invariants from the constraints
        cands = []
        for h, (l0, h0) in s0.cons.items():
            i1, i2 = s1.cons.get(h), s2.cons.get(h)
            if i1 is None or i2 is None:
                continue
            l1, l2, u1, u2 = i1[0], i2[0], i1[1], i2[1]
            H = Lin(h, 0)
            if l0 is not None and l1 is not None and l2 is not None:
                if l1 - l0 == l2 - l1:
                    cands.append(lsub(H, ladd(lmul(lvar(K), l1 - l0), l0)))
                if l1 != l0 or l2 != l1:
                    # weaker variants
                    d = l2 - l1
                    if d != l1 - l0 and l0 + d <= l1 and l0 + 2 * d <= l2:
                        cands.append(lsub(H, ladd(lmul(lvar(K), d), l0)))
                    mn = min(l0, l1, l2)
                    cands.append(ladd(H, -mn))
            if h0 is not None and u1 is not None and u2 is not None:
                if u1 - h0 == u2 - u1:
                    cands.append(lsub(ladd(lmul(lvar(K), u1 - h0), h0), H))
                elif max(h0, u1, u2) == h0:
                    cands.append(lsub(h0, H))
        if not any(not isinstance(c, int) and K in lvars(c) for c in cands):
            # a counter that decreases: the guard of the previous iteration kept it from falling further
            for v in T.frames[-1].env.values():
                if isinstance(v, Lin):
                    sl = dict(v.t).get(K, 0)
                    if sl < 0 and len(v.t) > 1:
                        for c in (0, 1):
                            f = ladd(v, -sl - c)
                            if f not in cands:
                                cands.append(f)
        T.ghost = {}
        for g in s0.ghost:
            T.ghost[g] = self.gen_val([s.ghost.get(g) for s in ss], K)
        if any(set(s.ghost) != set(s0.ghost) for s in ss):
            raise GenFail('ghost')
        cands = [c for c in cands if not isinstance(c, int)]
        for nm in s0.lens:
            T.lens[nm] = self.gen_val([s.lens[nm] for s in ss], K)
        return dict(T=T, K=K, havoc=havoc, folds=folds, cands=cands)

    def verify_loop(self, G, s0, lp, u, st):
        T, K = G['T'], G['K']
        # base case: the template at K=0 is s0 by construction; check the invariants there
        S0 = Subst(self.mgr, {K: 0}, self.appsubst)
        cands = []
        for c in G['cands']:
            f = S0.lin(c)
            if s0.dec(f) is True and c not in cands:
                cands.append(c)
        nfail = len(self.failures)
        for rnd in range(6):
            t = T.clone()
            t.cons = {}
            t._cl = None
            t.assume(lvar(K))
            bad = False
            for c in cands:
                if t.assume(c) is None:
                    bad = True
            if bad:
                return None
            self.uid += 1
            iid = self.uid
            fr = t.frames[-1]
            nl = Loop(lp.header, lp.body, iid)
            nl.mode = 'verify'
            nl.u = u
            fr.loops[-1] = nl
            for f2 in t.frames:
                for l in f2.loops:
                    if l is not nl:
                        l.snaps = []
                        # enclosing symbolic loops cannot be resolved from inside
            self.uid += 1
            t.trail = t.trail + (self.uid,)
            nf0 = len(self.failures)
            keys0 = set(self.failkeys)
            self.verifying += 1
            S1 = Subst(self.mgr, {K: ladd(lvar(K), 1)}, self.appsubst)
            try:
                arr, exits = [], []
                todo = [t]
                for tail in range(3):
                    more, ex = self.explore(todo, capture=iid)
                    exits += ex
                    todo = []
                    for a in more:
                        if self.match(G, a, S1):
                            arr.append(a)
                        else:
                            # not the next instance of the template (say, after an incomplete last block):
                            # executed further until it leaves the loop
                            a.frames[-1].loops[-1].u += u
                            todo.append(a)
                    if not todo or len(todo) > 200:
                        break
            except Undecided as e:
                if 'time limit' in str(e):
                    raise
                del self.failures[nf0:]
                self.failkeys = keys0
                self.lastundec = str(e)
                return None
            finally:
                self.verifying -= 1
            drop = set()
            for a in arr:
                for c in cands:
                    f = S1.lin(c)
                    if a.dec(f) is not True:
                        drop.add(c)
            if tail and not todo and not drop:
                # the tail left the template: bound the counters so that the template ends there
                more = []
                for v in T.frames[-1].env.values():
                    if isinstance(v, Lin) and dict(v.t).get(K, 0) < 0 and len(v.t) > 1 and v not in cands and v not in more:
                        if s0.dec(S0.lin(v)) is True and all(a.dec(S1.lin(v)) is True for a in arr):
                            more.append(v)
                if more:
                    del self.failures[nf0:]
                    self.failkeys = keys0
                    cands = cands + more
                    continue
            if todo:
                del self.failures[nf0:]
                self.failkeys = keys0
                return None
            if drop:
                del self.failures[nf0:]
                self.failkeys = keys0
                cands = [c for c in cands if c not in drop]
                continue
            # termination: an invariant that bounds K
            term = not arr or any(dict(c.t).get(K, 0) < 0 for c in cands)
            fname = st.frames[-1].fn.name
            if not term:
                self.fail(st, 'term', f'no bound on the iterations of the loop at {lp.header}')
            else:
                self.sites[('term', fname, lp.header, 0)] = 1
            self.loopinfo.append((fname, lp.header, u, len(arr), [repr(c) for c in cands]))
            self.sites[('inv-init', fname, lp.header, 0)] = 1
            self.sites[('inv-pres', fname, lp.header, len(arr))] = max(1, len(arr))
            for x in exits:
                for f2 in x.frames:
                    for l in f2.loops:
                        if l.mode == 'verify' and l.iid == iid:
                            l.mode = None
            return exits
        return None

    def match(self, G, a, S1):
        T = G['T']
        n = len(T.frames)
        if len(a.frames) != n:
            return False
        for i in range(n):
            ta, fa = T.frames[i], a.frames[i]
            if (ta.fn, ta.block, ta.idx) != (fa.fn, fa.block, fa.idx):
                return False
            e = self.live_env(fa, i == n - 1)
            for nm, v in ta.env.items():
                w = self.canon(self.subst_val(S1, v))
                x = self.canon(e.get(nm))
                if w != x:
                    return False
        for oid, o in T.mem.items():
            b = a.mem.get(oid)
            if b is None:
                return False
            if b is o and oid not in G['folds']:
                continue
            exp = {}
            hv = set()
            for t, d in o.g.items():
                for c, e in d.items():
                    key = (t, c)
                    if (oid, key) in G['havoc']:
                        hv.add(key)
                        continue
                    t2, c2 = lt(S1.lin(Lin(t, 0))) if t else ((), 0)
                    exp[(t2, c + c2)] = self.subst_val(S1, e)
            got = {(t, c): e for t, d in b.g.items() for c, e in d.items()}
            fold = G['folds'].get(oid)
            if fold:
                t, b1, dd, vals = fold
                base = ladd(mkl(t, b1), lmul(lvar(G['K']), dd))
                S = Subst(self.mgr, {TAU: lvar(G['K'])}, self.appsubst)
                for o_, v in vals.items():
                    key = lt(ladd(base, o_))
                    w = v if type(v) is int else S.word(v)
                    if self.canon(got.pop(key, None)) != self.canon(w):
                        return False
            for key in hv:
                got.pop(key, None)
            if set(got) != set(exp):
                # cells first written inside the body of a dead temporary
                return False
            for k, e in exp.items():
                if self.canon(got[k]) != self.canon(e):
                    return False
            rt = o.regions
            if len(rt) != len(b.regions):
                return False
            for r, r2 in zip(rt, b.regions):
                if (r.base, r.stride, r.count, r.vals) != (r2.base, r2.stride, r2.count, r2.vals):
                    return False
        for g, v in T.ghost.items():
            if self.subst_val(S1, v) != a.ghost.get(g):
                return False
        return True

    def canon(self, v):
        if type(v) is tuple and not (len(v) == 4 and v[0] == 'v'):
            x = as_int(v)
            if x is not None:
                return x
        return v


class GenFail(Exception):
    pass
