"""Contracts of the package's functions and the node graph of the ISAP v2.0 specification.

The specification is a graph of permutation applications ("nodes"); the state after
node (chain, t) is written with the atoms ('y', chain, t, j).  While the real code is
executed symbolically, products computed by the code are folded back onto these atoms
by the rewrite rules of the nodes that the specification applies next (Apps.prime).
Chain names carry everything they depend on, so a name has one meaning on all paths:

  (u,'A')                 t  state after t full blocks of AD           (t=0: initialised)
  (u,'D',ta,ra)           t  AD finished (ta full blocks + ra bytes); t full blocks of C
  (u,'F',ta,ra,tc,rc)     0  C finished
  (u,'KA',ta,ra,tc,rc)    0  last permutation of the re-keying of the authentication
  (u,'T',ta,ra,tc,rc)     0  tag permutation
  (u,'KE')                0  last permutation of the re-keying of the encryption
  (u,'E')                 t  (t+1)-st keystream block
  (u,'R')                 t  re-keying after t absorbed bits;  (u,'RKF') 0 after all
  (u,'H'), (u,'HF',t,r)   t  hash absorption / squeezing
"""
from gf2 import Mgr, ZERO, ONE, CB, as_int, Subst, RawLimit
from lin import Lin, ladd, lmul, lsub, lvar, lvars
import spec as SP
import llir, sym, intrin
from sym import Engine, State, Ptr, Obj, Undecided, Fork, BYTE, TAU, Abort

MAXLEN = {64: (1 << 63) - 1 - 32, 32: (1 << 31) - 1 - 32}


def bits_of(bs):
    """list of 8-bit words -> concatenated"""
    out = ()
    for b in bs:
        out += b
    return out


class Spec:
    def __init__(self, ctx, tag, data=None, abstract=False, suffix=''):
        self.ctx = ctx
        self.suffix = suffix
        self.eng = ctx.eng
        self.m = ctx.mgr
        self.apps = ctx.apps
        self.alg = ctx.alg
        self.p = ctx.alg.perm
        self.tag = tag
        self.cache = {}
        self.data = data or {}
        self.kb = [self.inb('k', i) for i in range(16)]
        self.nb = [self.inb('n', i) for i in range(16)]
        self.abstract = abstract
        self.extra = None
        self.roots = ()        # nodes whose state is constant
        self.rate = ctx.alg.rate
        self.ht = None
        ctx.specs[tag] = self

    # ---------- bits
    def on(self, obj):
        return obj + self.suffix

    def inb(self, obj, off):
        obj = obj + self.suffix
        return tuple([self.m.var(('in', obj, off, i)) for i in range(8)])

    def inbyte(self, which, off):
        f = self.data.get(which)
        if f is not None:
            return f(off)
        return self.inb(which, off)

    def out(self, node):
        return self.apps.out(node, self.p.maxr)

    def outbyte(self, node, b):
        o = self.out(node)
        return tuple([o[self.p.bytepos(b, i)] for i in range(8)])

    def pack(self, bs):
        """bytes -> state bits"""
        st = [ZERO] * self.p.nbits
        for b, w in enumerate(bs):
            for i in range(8):
                st[self.p.bytepos(b, i)] = w[i]
        return tuple(st)

    def cbytes(self, by):
        return [BYTE[x] for x in by]

    def zero(self, n):
        return [BYTE[0]] * n

    # ---------- nodes
    def init_A(self):
        X = self.pack(self.nb + self.cbytes(self.alg.IV_A) + self.zero(self.p.nbytes - 24))
        return ((self.tag, 'A'), 0), X, self.alg.sH

    def variant(self, st, L, t):
        rate = self.rate
        if st.need(lsub(L, lmul(ladd(t, 1), rate))):
            return 'full'
        rem = lsub(L, lmul(t, rate))
        if not isinstance(rem, int):
            self.eng.concretize(st, rem)
        return rem if rem >= 0 else None

    def absorb(self, st, node, which, v):
        o = list(self.out(node))
        t = node[1]
        n = self.rate if v == 'full' else v
        for b in range(n):
            w = self.inbyte(which, ladd(lmul(t, self.rate), b))
            for i in range(8):
                j = self.p.bytepos(b, i)
                o[j] = o[j] ^ w[i]
        if v != 'full':
            j = self.p.bytepos(v, 7)
            o[j] = o[j] ^ ONE
        return o

    def nexts(self, st, node):
        ch, t = node
        k = ch[1]
        if k == 'A' or k == 'H':
            L = st.lens.get('ad' if k == 'A' else 'm')
            if L is None:
                return ()
            v = self.variant(st, L, t)
            if v is None:
                return ()
            key = (node, v)
            r = self.cache.get(key)
            if r is None:
                X = self.absorb(st, node, 'ad' if k == 'A' else 'm', v)
                if v == 'full':
                    nm = (ch, ladd(t, 1))
                else:
                    nm = ((self.tag, 'D' if k == 'A' else 'HF', t, v), 0)
                r = self.cache[key] = ((nm, tuple(X), self.alg.sH if k == 'A' else 12),)
            return r
        if k == 'D':
            L = st.lens.get('c')
            if L is None:
                return ()
            first = False
            if not st.need(ladd(t, -1)):
                if t != 0:
                    return ()
                first = True
            v = self.variant(st, L, t)
            if v is None:
                return ()
            key = (node, v)
            r = self.cache.get(key)
            if r is None:
                X = self.absorb(st, node, 'c', v)
                if first:
                    j = self.p.bytepos(self.p.nbytes - 1, 0)
                    X[j] = X[j] ^ ONE
                nm = (ch, ladd(t, 1)) if v == 'full' else ((self.tag, 'F') + ch[2:] + (t, v), 0)
                r = self.cache[key] = ((nm, tuple(X), self.alg.sH),)
            return r
        if k in ('F', 'KA'):
            key = (ch[2:], 'T')
            r = self.cache.get(key)
            if r is None:
                F = ((self.tag, 'F') + ch[2:], 0)
                KA = ((self.tag, 'KA') + ch[2:], 0)
                n = self.p.nbytes
                X = self.pack([self.outbyte(KA, b) for b in range(16)] + [self.outbyte(F, b) for b in range(16, n)])
                r = self.cache[key] = ((((self.tag, 'T') + ch[2:], 0), X, self.alg.sH),)
            return r
        if k == 'KE':
            r = self.cache.get('E0')
            if r is None:
                n = self.p.nbytes
                X = self.pack([self.outbyte(node, b) for b in range(n - 16)] + self.nb)
                r = self.cache['E0'] = ((((self.tag, 'E'), 0), X, self.alg.sE),)
            return r
        if k == 'E':
            return (((ch, ladd(t, 1)), self.out(node), self.alg.sE),)
        if k == 'HF':
            if isinstance(t, int) and t < 3:
                return (((ch, t + 1), self.out(node), 12),)
            return ()
        if k == 'R':
            if not isinstance(t, int) or t > 127:
                return ()
            r = self.cache.get(node)
            if r is None:
                o = list(self.out(node))
                j = self.p.bytepos(0, 7)
                o[j] = o[j] ^ self.yb[t // 8][7 - t % 8]
                nm = (ch, t + 1) if t < 127 else ((self.tag, 'RKF'), 0)
                r = self.cache[node] = ((nm, tuple(o), self.alg.sB if t < 127 else self.alg.sK),)
            return r
        return ()

    # ---------- keystream / ciphertext
    def ks(self, off):
        """keystream byte at off"""
        if self.abstract:
            return tuple([self.m.var(('ks', 'std', off, i)) for i in range(8)])
        q, r = self.eng.divmod_struct(None, off, self.rate)
        if q is None:
            raise Undecided('keystream offset ' + repr(off))
        return self.outbyte(((self.tag, 'E'), q), r)


class Summary:
    """verified contract of a permutation routine: state layout and number of rounds"""

    def __init__(self, layout, R):
        self.layout, self.R = layout, R


def asc_layouts():
    """(name, f(byteoffset, bit) -> state index)"""
    def native(o, i):
        return (o // 8) * 64 + (o % 8) * 8 + i

    def bytes_(o, i):
        return (o // 8) * 64 + (7 - o % 8) * 8 + i

    def bi(lo):
        def f(o, i):
            h = (o % 8) // 4
            b = (o % 4) * 8 + i
            return (o // 8) * 64 + 2 * b + (h if lo == 0 else 1 - h)
        return f

    def bi8(o, i):
        return (o // 8) * 64 + 8 * i + (o % 8)

    def bi8r(o, i):
        return (o // 8) * 64 + 8 * i + 7 - (o % 8)
    return [('64-bit words', native), ('bytes', bytes_), ('bit-interleaved e,o', bi(0)), ('bit-interleaved o,e', bi(1)),
            ('byte-interleaved', bi8), ('byte-interleaved, reversed', bi8r)]


def kec_layouts():
    return [('little-endian lanes', SP.PERMS['k'].bytepos)]


class Result:
    """outcome of one verification unit (one function against its contract)"""

    def __init__(self, unit):
        self.unit = unit
        self.status = 'proved'
        self.reason = ''
        self.failures = []
        self.obl = {}
        self.time = 0.0
        self.info = {}


class Ctx:
    """all verification units of one implementation"""

    def __init__(self, impl, mods, deadline=None):
        self.impl = impl
        self.alg = SP.ALGS[impl.alg]
        self.mgr = Mgr()
        self.eng = Engine(mods, self.mgr, impl.ptr_bits)
        self.eng.deadline = deadline
        if impl.ssrc:
            import asm, impls
            try:
                asm.install(self.eng, impl, impls.REPO)
            except asm.Bad as e:
                raise impls.BuildError(str(e))
        self.apps = SP.Apps(self.mgr, self.alg.perm)
        self.eng.appsubst = self.apps.appsubst
        self.eng.onheader = self.onheader
        self.mgr.prime_hook = self.hook
        self.specs = {}
        self.rkinst = {}
        self.permsum = {}
        self.absorbed = {}
        self.permtry = {}
        self.results = []
        self.cur_res = None
        self.active = None
        self.nid = 0
        self.used = {}
        self.in_summary = 0
        self.maxlen = MAXLEN[impl.ptr_bits]

    # ------------------------------------------------------------ rewriting on demand
    lasthook = None
    allrounds = False

    def hook(self, a, b):
        st = self.eng.cur
        if st is None:
            return False
        atoms = self.mgr.atoms
        nodes = set()
        for i in a | b:
            d = atoms[i]
            if d[0] == 'y':
                c = d[1]
                if c[0] != 'app':
                    nodes.add((c, d[2]))
            elif d[0] == 'z':
                # inside a permutation: not the first use of a finished state
                return False
        hit = False
        if self.active is not None:
            nodes.update(self.active.roots)
        key = (nodes, st.trail, self.active, tuple(st.lens.items()))
        if key == self.lasthook:
            return False
        self.lasthook = key
        for node in nodes:
            s = self.specs.get(node[0][0])
            if s is None:
                continue
            for nm, X, R in s.nexts(st, node):
                if self.apps.prime(X, R, nm):
                    hit = True
        s = self.active
        if s is not None and s.extra is not None:
            if s.extra(st):
                hit = True
        return hit

    # ------------------------------------------------------------ forgetting how a phase was reached
    def onheader(self, st, lp):
        """replace the state after the AD phase by an arbitrary one (code and specification alike)"""
        s = self.active
        if s is None or 'ad' not in st.lens or st.ghost.get('D*'):
            return
        mgr = self.mgr
        eng = self.eng
        found = set()

        def old(polys):
            """does a value mention anything but the state after the AD phase? (None: give up)"""
            hit = False
            for p in polys:
                for i in p:
                    d = mgr.atoms[i]
                    if d[0] in ('z', 'and', 'hv'):
                        hit = True
                    elif d[0] == 'y':
                        c = d[1]
                        if c[0] == 'app':
                            hit = True
                        elif c[0] != s.tag or c[1] in ('KE', 'E'):
                            continue
                        elif c[1] == 'D':
                            if d[2] != 0:
                                return None
                            found.add(c)
                        elif c[1] == 'A':
                            hit = True
                            foundA.add((c, d[2]))
                        else:
                            return None
            return hit
        regs, mem = self.live_vals(st)
        foundA = set()
        if old(regs) is not False:
            if not found and len(foundA) == 1:
                self.pending_D(st, s, foundA.pop(), regs, mem)
            return
        stale = []
        for oid, t, c, e in mem:
            h = old(e)
            if h is None:
                return
            if h:
                if st.mem[oid].kind != 'stack' or t:
                    return
                stale.append((oid, c, len(e)))
        if len(found) != 1:
            return
        ch = found.pop()
        ta, ra = ch[2], ch[3]
        if ta == '*' or lsub(st.lens['ad'], ladd(lmul(ta, s.rate), ra)) != 0:
            return
        # temporaries left over from the AD phase become arbitrary
        for oid, c, n in stale:
            o = st.obj_w(oid)
            o.g[()][c] = tuple([mgr.var(('hv', 'D*', oid, c, i)) for i in range(n)])
        # rename everywhere (memory, registers)
        self.rename(st, ch, (s.tag, 'D', '*', '*'))
        st.ghost['D*'] = 1

    def pending_D(self, st, s, node, regs, mem):
        """the state just before the last permutation of the AD phase becomes arbitrary (code and specification alike)"""
        mgr, eng = self.mgr, self.eng
        rem = lsub(st.lens['ad'], lmul(node[1], s.rate))
        if not isinstance(rem, int) or not 0 <= rem < s.rate:
            return
        X = self.absorbed.get((s.tag, node, rem))
        if X is None:
            X = self.absorbed[s.tag, node, rem] = s.absorb(st, node, 'ad', rem)
        idx = {p: j for j, p in enumerate(X) if p and p != ONE}
        atoms = mgr.atoms
        A = node[0]
        # every register that depends on the AD phase holds bits of that state
        for p in regs:
            if p not in idx and any(atoms[i][0] in ('z', 'and', 'hv') or atoms[i][0] == 'y' and
                                    (atoms[i][1] == A or atoms[i][1][0] == 'app') for i in p):
                return
        D = [mgr.var(('pre', 'Din', j, 0)) if p in idx else p for j, p in enumerate(X)]
        self.apps.prime(tuple(D), self.alg.sH, ((s.tag, 'D', '*', '*'), 0))
        m = {p: D[j] for p, j in idx.items()}

        def val(v):
            t = type(v)
            if t is tuple:
                if len(v) == 4 and v[0] == 'v':
                    return ('v', val(v[1])) + v[2:]
                return tuple([m.get(p, p) for p in v])
            if t is sym.Agg:
                return sym.Agg([val(x) for x in v])
            return v
        for fr in st.frames:
            for n, v in fr.env.items():
                fr.env[n] = val(v)
        for oid, t, c, e in mem:
            e2 = val(e)
            if any(i for p in e2 for i in p if atoms[i][0] in ('z', 'and') or atoms[i][0] == 'y' and atoms[i][1] == A):
                if st.mem[oid].kind == 'stack' and not t:
                    # a temporary left over from the AD phase becomes arbitrary
                    e2 = tuple([mgr.var(('hv', 'D*', oid, c, i)) for i in range(len(e2))])
            if e2 != e:
                st.obj_w(oid).g[t][c] = e2
        st.ghost['D*'] = 1

    def live_vals(self, st):
        """-> (bits in live registers, [(object, linear part, offset, bits)] of reachable memory)"""
        eng = self.eng
        objs, done = set(), set()
        regs, mem = [], []

        def val(v, out):
            t = type(v)
            if t is Ptr:
                if v.obj is not None:
                    objs.add(v.obj)
            elif t is tuple:
                if len(v) == 4 and v[0] == 'v':
                    val(v[1], out)
                else:
                    out.extend(v)
            elif t is sym.Agg:
                for y in v:
                    val(y, out)
        for i, fr in enumerate(st.frames):
            for v in eng.live_env(fr, i == len(st.frames) - 1).values():
                val(v, regs)
        while objs - done:
            oid = (objs - done).pop()
            done.add(oid)
            o = st.mem.get(oid)
            if o is None:
                continue
            for t, d in o.g.items():
                for c, e in d.items():
                    if type(e) is tuple and not (len(e) == 4 and e[0] == 'v'):
                        mem.append((oid, t, c, e))
                    else:
                        val(e, regs)
            for r in o.regions:
                for v in r.vals.values():
                    val(v, regs)
        return regs, mem

    # ------------------------------------------------------------ state construction
    def newstate(self):
        st = State()
        return st

    def obj(self, st, name, size, kind, data=None, ro=False):
        st.mem[name] = Obj(name, name, size, kind, data, ro)
        st.owned.add(name)
        return Ptr(name, 0)

    def length(self, st, name, var, lo=0):
        v = lvar(var)
        st.assume(ladd(v, -lo))
        st.assume(lsub(self.maxlen, v))
        st.lens[name] = v
        return v

    # ------------------------------------------------------------ running a unit
    def run_unit(self, *a, **k):
        eng = self.eng
        eng.wrapseen = False
        r = self.run_unit1(*a, **k)
        if r.status == 'undecided' and eng.wrapseen and not eng.wrapok:
            # lengths that do not fit a narrow counter: once more, with wrapping inside loops taken into account
            self.results.remove(r)
            eng.wrapok = True
            r2 = self.run_unit1(*a, **k)
            eng.wrapok = False
            if r2.status == 'undecided' and not r2.failures:
                self.results.remove(r2)
                self.results.append(r)
                return r
            r2.time += r.time
            return r2
        return r

    def run_unit1(self, name, fnname, build, final, spec_of, contracts=None, tolerate=None):
        """build(st) -> args; final(st) checks the postcondition"""
        import time
        eng = self.eng
        res = Result(name)
        t0 = time.time()
        saved = (eng.failures, eng.failkeys, eng.sites, eng.cur, eng.contracts, self.active, self.cur_res, eng.symhdr,
                 eng.allow_branch)
        eng.failures, eng.failkeys, eng.sites, eng.symhdr = [], set(), {}, set()
        eng.contracts = contracts if contracts is not None else self.contracts()
        eng.allow_branch = None
        eng.failtime = None
        self.cur_res = res
        raw0 = self.mgr.raw_ands
        rl = self.mgr.raw_limit
        self.mgr.raw_limit = raw0 + 6000
        steps0 = eng.steps
        try:
            self.active = spec_of
            st = self.newstate()
            args = build(st)
            fn = eng.fns.get(fnname)
            if fn is None:
                raise Undecided('function ' + fnname + ' not found')
            eng.enter(st, fn, args)
            eng.explore([st], final=final)
        except Undecided as e:
            res.status, res.reason = 'undecided', str(e)
        except sym.Enough:
            pass
        except RawLimit:
            res.status, res.reason = 'undecided', 'products outside the specification'
        except Fork as e:
            res.status, res.reason = 'undecided', 'fork outside the engine'
        except (RecursionError, KeyError, ValueError, IndexError, TypeError, AttributeError, NotImplementedError) as e:
            import traceback
            res.status, res.reason = 'undecided', 'engine: ' + traceback.format_exc()[-800:]
        res.failures = eng.failures
        for f in res.failures:
            f.unit = name
        if res.failures and res.status == 'proved':
            res.status = 'failed'
        for (kind, *_), n in eng.sites.items():
            res.obl[kind] = res.obl.get(kind, 0) + 1
        res.info['raw'] = self.mgr.raw_ands - raw0
        res.info['steps'] = eng.steps - steps0
        res.time = time.time() - t0
        (eng.failures, eng.failkeys, eng.sites, eng.cur, eng.contracts, self.active, self.cur_res, eng.symhdr,
         eng.allow_branch) = saved
        self.mgr.raw_limit = rl
        self.results.append(res)
        return res

    def ob(self, st, kind, good, msg, extra=None):
        """one checked specification obligation"""
        eng = self.eng
        if good:
            k = (kind, msg, 0, 0)
            eng.sites[k] = eng.sites.get(k, 0) + 1
        else:
            self.specfail(st, kind, msg, extra)
        return good

    def specfail(self, st, kind, msg, extra=None):
        eng = self.eng
        n = sum(1 for f in eng.failures if f.kind == kind)
        if n < 4:
            f = sym.Failure(kind, self.cur_res.unit if self.cur_res else '?', 0, msg, st, extra)
            eng.failures.append(f)

    # ------------------------------------------------------------ contracts
    def contracts(self, level='fn'):
        c = {}
        for n, f in self.eng.fns.items():
            if self.perm_shape(f):
                c[n] = self.perm_contract
        f = self.eng.fns.get('isap_rk')
        if f is not None and self.rk_shape(f):
            c['isap_rk'] = self.rk_contract
        for n in ('KeccakP400_Permute_Nrounds',):
            if n not in self.eng.fns:
                c[n] = self.perm_contract
        return c

    def perm_shape(self, f):
        ps = [p for p in f.params if p[0] == ('ptr',)]
        others = [p for p in f.params if p[0] != ('ptr',)]
        if any(p[0][0] != 'i' for p in others) or len(others) > 1:
            return False
        if any(p[2] is not None for p in f.params):
            return False
        return len(ps) in (1, 5)

    def rk_shape(self, f):
        sig = [p[0][0] for p in f.params]
        return sig in (['ptr', 'ptr', 'ptr', 'ptr', 'i'], ['ptr', 'ptr', 'ptr', 'i', 'ptr', 'i'])

    # -- permutation routines
    def perm_contract(self, eng, st, vals, ins):
        name = ins.a[0][1].strip('"')
        ptrs = [v for v in vals if isinstance(v, Ptr)]
        ints = tuple(v for v in vals if type(v) is int)
        if len(ptrs) + len(ints) != len(vals) or any(p.obj is None for p in ptrs):
            return NotImplemented
        key = (name, ints, len(ptrs))
        s = self.permsum.get(key, 0)
        if s == 0:
            s = self.permsum[key] = self.perm_summary(name, vals, ptrs, ints)
        if s is None:
            return NotImplemented
        n = self.alg.perm.nbytes // len(ptrs)
        X = [None] * self.alg.perm.nbits
        for k, p in enumerate(ptrs):
            o = eng.bounds(st, p, n, 'permutation state')
            for b in range(n):
                e = eng.load_byte(st, o, ladd(p.off, b))
                if type(e) is int:
                    e = BYTE[e]
                elif len(e) != 8:
                    return NotImplemented
                for i in range(8):
                    X[s.layout[1](k * n + b, i)] = e[i]
        X = tuple(X)
        # inside another permutation routine only the specification's own applications are folded
        nested = any(f.fn.name in eng.contracts and eng.contracts[f.fn.name] == self.perm_contract for f in st.frames) \
            or self.in_summary
        O = self.apply(st, X, s.R, nested)
        if O is None:
            return NotImplemented
        self.used[key] = self.used.get(key, 0) + 1
        for k, p in enumerate(ptrs):
            for b in range(n):
                eng.store(st, Ptr(p.obj, ladd(p.off, b)), eng.norm(tuple([O[s.layout[1](k * n + b, i)] for i in range(8)])), 1)
        return 0

    def apply(self, st, X, R, nested=False):
        """output bits of P_R(X), named after the specification's node when X is its input"""
        nodes = set()
        atoms = self.mgr.atoms
        i = self.apps.ids.get((X, R))
        if i is not None and i in self.apps.primed:
            return self.apps.out(self.apps.primed[i], self.alg.perm.maxr)
        for p in X:
            for a in p:
                d = atoms[a]
                if d[0] == 'y' and d[1][0] != 'app':
                    nodes.add((d[1], d[2]))
        if self.active is not None:
            nodes.update(self.active.roots)
        cand = []
        for node in nodes:
            sp = self.specs.get(node[0][0])
            if sp is not None:
                cand += sp.nexts(st, node)
        sp = self.active
        if sp is not None and sp.extra is not None:
            sp.extra(st)
            i = self.apps.ids.get((X, R))
            if i is not None and i in self.apps.primed:
                return self.apps.out(self.apps.primed[i], self.alg.perm.maxr)
        for nm, X2, R2 in cand:
            if R2 == R and X2 == X:
                return self.apps.out(nm, self.alg.perm.maxr)
        if nested:
            return None
        return self.apps.generic(X, R)

    def perm_rounds(self):
        a = self.alg
        r = {a.sH, a.sB, a.sE, a.sK}
        if a.perm.name == 'ascon':
            r |= {12, 7}
        if self.allrounds:
            r |= {12, 7, 6, 1} if a.perm.name == 'ascon' else {20, 16, 12, 8, 1}
        return sorted(r)

    def perm_summary(self, name, vals, ptrs, ints):
        """verify the routine on an arbitrary state; -> Summary or None (no permutation contract)"""
        eng = self.eng
        fn = eng.fns.get(name)
        ext = None
        if fn is None:
            ext = eng.extern.get(name)
            if ext is None:
                return None
        if fn is not None and any(n in ('isap_rk', 'isap_mac', 'isap_enc') for n in callees(eng, fn)):
            return None
        n = self.alg.perm.nbytes // len(ptrs)
        lays = asc_layouts() if self.alg.perm.name == 'ascon' else kec_layouts()
        hint = getattr(self, 'lay_hint', None)
        if hint:
            lays = [l for l in lays if l[0] == hint] + [l for l in lays if l[0] != hint]
        for lay in lays:
            tag = f'pm{len(ptrs)}'
            pre = [f'{tag}.{k}' for k in range(len(ptrs))]
            X = [None] * self.alg.perm.nbits
            for k in range(len(ptrs)):
                for b in range(n):
                    for i in range(8):
                        X[lay[1](k * n + b, i)] = self.mgr.var(('pre', pre[k], b, i))
            X = tuple(X)
            for R in self.perm_rounds():
                self.apps.prime(X, R, ((tag, 'P', lay[0], R), 0))
            saved = (eng.failures, eng.failkeys, eng.sites, eng.cur, eng.contracts, self.active, eng.symhdr, eng.allow_branch)
            eng.failures, eng.failkeys, eng.sites, eng.symhdr = [], set(), {}, set()
            # the routine itself is entered, nested routines keep their contracts
            eng.contracts = {k: v for k, v in eng.contracts.items() if k != name}
            self.active = None
            rl = self.mgr.raw_limit
            self.mgr.raw_limit = self.mgr.raw_ands + 30
            finals = []
            found = None
            self.in_summary += 1
            try:
                st = self.newstate()
                args = []
                k = 0
                for v in vals:
                    if isinstance(v, Ptr):
                        args.append(self.obj(st, pre[k], n, 'out'))
                        k += 1
                    else:
                        args.append(v)
                if fn is not None:
                    eng.enter(st, fn, args)
                    eng.explore([st], final=finals.append)
                else:
                    eng.cur = st
                    ext(eng, st, args, None)
                    finals.append(st)
                if len(finals) == 1 and not eng.failures:
                    s = finals[0]
                    for R in self.perm_rounds():
                        O = self.apps.out(((tag, 'P', lay[0], R), 0), self.alg.perm.maxr)
                        if all(self.byte(s, pre[k], b) == tuple([O[lay[1](k * n + b, i)] for i in range(8)])
                               for k in range(len(ptrs)) for b in range(n)):
                            found = Summary(lay, R)
                            break
            except (Undecided, RawLimit, Fork):
                pass
            self.in_summary -= 1
            sites = eng.sites
            (eng.failures, eng.failkeys, eng.sites, eng.cur, eng.contracts, self.active, eng.symhdr, eng.allow_branch) = saved
            self.mgr.raw_limit = rl
            if found:
                self.lay_hint = lay[0]
                res = Result(f'{name}{ints or ""}')
                res.obl = {'perm': self.alg.perm.nbits}
                for (kind, *_), c in sites.items():
                    res.obl[kind] = res.obl.get(kind, 0) + 1
                res.info = {'layout': lay[0], 'rounds': found.R, 'kind': 'perm'}
                self.results.append(res)
                return found
        return None

    def perm_entry(self, name, R, lay, raw):
        """explores the entry point on an arbitrary state in this layout; -> (final states, expected bits, byte map)"""
        eng = self.eng
        n = self.alg.perm.nbytes
        X = [None] * self.alg.perm.nbits
        on = 'vp ' + lay[0]         # states of different layouts share no variables
        for b in range(n):
            for i in range(8):
                X[lay[1](b, i)] = self.mgr.var(('pre', on, b, i))
        nm = (('vp', lay[0], R), 0)
        self.apps.prime(tuple(X), R, nm)
        saved = (eng.failures, eng.failkeys, eng.sites, eng.cur, eng.contracts, self.active, eng.symhdr, eng.allow_branch)
        eng.failures, eng.failkeys, eng.sites, eng.symhdr = [], set(), {}, set()
        eng.contracts = {k: v for k, v in self.contracts().items() if not k.startswith('vp_')}
        eng.allow_branch = None
        self.active = None
        rl = self.mgr.raw_limit
        self.mgr.raw_limit = self.mgr.raw_ands + raw
        self.in_summary += 1
        finals, err = [], None
        try:
            st = self.newstate()
            a = [self.obj(st, on, n, 'out')]
            eng.enter(st, eng.fns[name], a)
            eng.explore([st], final=finals.append)
        except (Undecided, RawLimit, Fork) as e:
            err = f'{type(e).__name__}: {e}'
        self.in_summary -= 1
        fails, sites = eng.failures, eng.sites
        (eng.failures, eng.failkeys, eng.sites, eng.cur, eng.contracts, self.active, eng.symhdr, eng.allow_branch) = saved
        self.mgr.raw_limit = rl
        O = self.apps.out(nm, self.alg.perm.maxr)
        exp = [tuple([O[lay[1](b, i)] for i in range(8)]) for b in range(n)]
        return finals, exp, err, fails, sites

    def byte(self, st, oid, off):
        e = self.eng.load_byte(st, st.mem[oid], off)
        return BYTE[e] if type(e) is int else e

    # -- isap_rk
    def rk_contract(self, eng, st, vals, ins):
        f = eng.fns['isap_rk']
        if len(vals) == 5:
            k, iv, y, out, n = vals
            ylen = None
        else:
            k, iv, y, ylen, out, n = vals
        n = eng.norm(n)
        ylen = eng.norm(ylen)
        if type(n) is not int or (ylen is not None and ylen != 16) or not all(isinstance(p, Ptr) for p in (k, iv, y, out)):
            return NotImplemented
        alias = None
        if y.obj == out.obj:
            alias = lsub(y.off, out.off)
            if not isinstance(alias, int):
                return NotImplemented
        if k.obj == out.obj or iv.obj == out.obj:
            return NotImplemented
        inst = self.rk_instance(n, ylen, alias)
        if inst is None:
            return NotImplemented
        rd = lambda p, c: [self.rb(st, p, i) for i in range(c)]
        for p, c, w in ((k, 16, 'key'), (iv, 8, 'IV'), (y, 16, 'Y')):
            eng.bounds(st, p, c, f'isap_rk {w}')
        kb, ivb, yb = rd(k, 16), rd(iv, 8), rd(y, 16)
        nm = self.rk_name(st, kb, ivb, yb)
        if self.forget_F(st, nm):
            nm = ((nm[0][0], 'KA') + ('*',) * 4, 0)
        O = self.apps.out(nm, self.alg.perm.maxr)
        lo, hi, cells = inst
        eng.bounds(st, Ptr(out.obj, ladd(out.off, lo)), hi - lo, 'isap_rk out')
        for off, bs in cells.items():
            w = tuple([O[b] if type(b) is int else b[0] for b in bs])
            eng.store(st, Ptr(out.obj, ladd(out.off, off)), eng.norm(w), 1)
        self.used[('isap_rk', n, alias)] = self.used.get(('isap_rk', n, alias), 0) + 1
        return 0

    def rb(self, st, p, i):
        o = st.mem[p.obj]
        if o.kind == 'mut':
            self.eng.fail(st, 'mutable', f'read of mutable static object {o.name}')
        e = self.eng.load_byte(st, o, ladd(p.off, i))
        if type(e) is int:
            return BYTE[e]
        if len(e) != 8:
            raise Undecided('byte of a pointer')
        return e

    def forget_F(self, st, nm):
        """the state before key derivation becomes arbitrary (code and specification alike)"""
        ch = nm[0]
        s = self.active
        if ch[1] != 'KA' or ch[0] != s.tag or 'ad' not in st.lens or 'c' not in st.lens or ch[4:] == ('*', '*'):
            return False
        ta, ra, t, r = ch[2:]
        if lsub(st.lens['c'], ladd(lmul(t, s.rate), r)) != 0:
            return False
        if ta != '*' and lsub(st.lens['ad'], ladd(lmul(ta, s.rate), ra)) != 0:
            return False
        self.rename(st, (s.tag, 'F') + ch[2:], (s.tag, 'F') + ('*',) * 4)
        st.ghost['F*'] = 1
        return True

    def rename(self, st, a, b):
        eng = self.eng
        S = Rename(self.mgr, a, b)
        val = lambda x: eng.subst_val(S, x)
        for fr in st.frames:
            # in place: the running block holds on to this dictionary
            for n, v in fr.env.items():
                fr.env[n] = val(v)
        for oid in list(st.mem):
            o = st.mem[oid]
            n = eng.subst_obj(S, o)
            if n is not o:
                st.mem[oid] = n
                st.owned.add(oid)

    def rk_name(self, st, kb, ivb, yb):
        s = self.active
        if s is not None and kb == s.kb:
            if ivb == s.cbytes(self.alg.IV_KE) and yb == s.nb:
                return ((s.tag, 'KE'), 0)
            if ivb == s.cbytes(self.alg.IV_KA):
                atoms = self.mgr.atoms
                for p in yb[0]:
                    for a in p:
                        d = atoms[a]
                        if d[0] == 'y' and d[1][0] == s.tag and d[1][1] == 'F':
                            node = (d[1], 0)
                            if yb == [s.outbyte(node, b) for b in range(16)]:
                                return ((s.tag, 'KA') + d[1][2:], 0)
        return (('x', 'RKX', tuple(kb), tuple(ivb), tuple(yb)), 0)

    def rk_instance(self, n, ylen, alias):
        key = (n, ylen, alias)
        if key in self.rkinst:
            return self.rkinst[key]
        self.rkinst[key] = None
        eng = self.eng
        f = eng.fns['isap_rk']
        tag = 'rk'
        s = self.specs.get(tag) or Spec(self, tag)
        s.ivb = [s.inb('iv', i) for i in range(8)]
        s.yb = [s.inb('y', i) for i in range(16)]
        X0 = s.pack(s.kb + s.ivb + s.zero(self.alg.perm.nbytes - 24))
        self.apps.prime(X0, self.alg.sK, ((tag, 'R'), 0))
        N = self.alg.perm.nbytes + 14
        box = []

        def build(st):
            k = self.obj(st, 'k', 16, 'in', ro=True)
            iv = self.obj(st, 'iv', 8, 'in', ro=True)
            if alias is None:
                y = self.obj(st, 'y', 16, 'in', ro=True)
                out = self.obj(st, 'out', N, 'out')
            else:
                out = self.obj(st, 'out', N, 'in', lambda o: s.inb('y', o - alias) if alias <= o < alias + 16
                               else tuple([self.mgr.var(('pre', 'out', o, i)) for i in range(8)]))
                y = Ptr('out', alias)
            return [k, iv, y, out, n] if ylen is None else [k, iv, y, ylen, out, n]

        def final(st):
            node = ((tag, 'RKF'), 0)
            O = s.out(node)
            inv = {}
            for j, p in enumerate(O):
                inv[p] = j
            want = {self.alg.perm.bytepos(b, i) for b in range(n) for i in range(8)}
            o = st.mem['out']
            cells = {}
            bad = False
            for t, d in o.g.items():
                if t:
                    raise Undecided('isap_rk output at a symbolic offset')
                for c, e in d.items():
                    if type(e) is int:
                        e = BYTE[e]
                    elif len(e) != 8:
                        bad = True
                        continue
                    bs = []
                    for i, p in enumerate(e):
                        j = inv.get(p)
                        if j is not None:
                            want.discard(j)
                            bs.append(j)
                        elif not p or p == ONE:
                            bs.append((p,))
                        elif p == (s.inb('y', c - alias)[i] if alias is not None and alias <= c < alias + 16 else
                                   self.mgr.var(('pre', 'out', c, i))):
                            bs.append(None)
                        else:
                            bad = True
                            bs.append((p,))
                    cells[c] = bs
            if o.regions:
                raise Undecided('isap_rk output region')
            cells = {c: bs for c, bs in cells.items() if not all(b is None for b in bs)}
            if any(b is None for bs in cells.values() for b in bs):
                bad = True
            self.ob(st, 'rk', not bad and not want,
                    f'session key (outlen {n}): the output holds exactly the first {n} bytes of the specified key state')
            if not bad and not want:
                box.append((min(cells), max(cells) + 1, cells))
        res = self.run_unit(f'isap_rk[outlen={n}{"" if alias is None else ", in place"}]', 'isap_rk', build, final, s,
                            contracts={k: v for k, v in eng.contracts.items() if k != 'isap_rk'})
        r = None
        if box and all(b == box[0] for b in box):
            r = box[0]
        if r is None:
            # the routine misses its contract: continue callers with the canonical layout, if there is one
            r = self.rk_default(n, alias)
        self.rkinst[key] = r
        return r

    def rk_default(self, n, alias):
        """layout that the callers may assume when the routine itself fails its contract"""
        hint = getattr(self, 'lay_hint', None)
        f = self.eng.fns['isap_rk']
        p = self.alg.perm
        if len(f.params) == 6 or p.name != 'ascon':
            return (0, n, {b: [p.bytepos(b, i) for i in range(8)] for b in range(n)})
        for nm, lay in asc_layouts():
            if nm == hint:
                return (0, n, {b: [lay(b, i) for i in range(8)] for b in range(n)})
        return None


class Rename(Subst):
    """rename a chain"""

    def __init__(self, mgr, a, b):
        self.mgr, self.a, self.b = mgr, a, b
        self.vars = frozenset()
        self.pm = {}

    def lin(self, l):
        return l

    def poly(self, p):
        r = self.pm.get(p)
        if r is None:
            r = p
            atoms = self.mgr.atoms
            for i in p:
                d = atoms[i]
                if d[0] == 'y' and d[1] == self.a:
                    r = r ^ frozenset((i,)) ^ self.mgr.var(('y', self.b) + d[2:])
            self.pm[p] = r
        return r


def callees(eng, fn, stop=()):
    seen = set()
    work = [fn]
    while work:
        f = work.pop()
        for b in f.order:
            for ins in f.block(b).ins:
                if ins.op == 'call' and ins.a[0][0] == 'g':
                    n = ins.a[0][1].strip('"')
                    if n not in seen:
                        seen.add(n)
                        if n in eng.fns and n not in stop:
                            work.append(eng.fns[n])
    return seen
