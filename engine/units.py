"""Verification units: each function of an implementation against its contract."""
from gf2 import ZERO, ONE, as_int, Subst
from lin import Lin, ladd, lmul, lsub, lvar, lvars
import sym, intrin
from sym import Ptr, Undecided, Fork, BYTE, TAU
from contracts import Ctx, Spec, bits_of, callees

U64 = 64


def sig(f):
    return [p[0][0] if p[0][0] != 'i' else p[0][1] for p in f.params]


def is_mac(f, stp=None):
    s = sig(f)
    b = ['ptr', 'ptr', 'ptr', 'i', 'ptr', 'i', 'ptr']
    t = ['i' if isinstance(x, int) else x for x in s]
    return t == b or t == b + ['ptr']


def is_enc(f):
    return ['i' if isinstance(x, int) else x for x in sig(f)] == ['ptr', 'ptr', 'ptr', 'i', 'ptr']


def count(ctx, st, L):
    """full blocks and remainder of a stream of L bytes"""
    r = ctx.alg.rate
    if isinstance(L, int):
        return L // r, L % r
    q, m = ctx.eng.divmod_struct(st, L, r)
    if q is None:
        q, m = ctx.eng.divmod(st, L, r)
        if not isinstance(m, int):
            ctx.eng.concretize(st, m)
    return q, m


def special(poly, mgr):
    """uninitialised / unrelated data in a value"""
    for i in poly:
        d = mgr.atoms[i]
        if d[0] in ('un', 'mut'):
            return d[0]
    return None


def deep_special(mgr, poly, memo):
    r = memo.get(poly)
    if r is None:
        memo[poly] = r = False
        for i in poly:
            d = mgr.atoms[i]
            if d[0] in ('un', 'mut'):
                r = d[0]
            elif d[0] == 'and':
                r = deep_special(mgr, d[1], memo) or deep_special(mgr, d[2], memo)
            if r:
                break
        memo[poly] = r
    return r


class Missing(Exception):
    pass


class Units:
    def __init__(self, ctx):
        self.ctx = ctx
        self.eng = ctx.eng
        self.mgr = ctx.mgr
        self.impl = ctx.impl

    def w(self, v):
        """word of bits from a loaded value"""
        return v

    def eqbytes(self, st, kind, oid, off, exp, msg):
        ctx = self.ctx
        for b, w in enumerate(exp):
            g = ctx.rb(st, Ptr(oid, off), b)
            self.note_special(st, g)
            if g != w and not self.smt_equal(st, g, w):
                ctx.specfail(st, kind, msg + f' (byte {b})', extra=('diff', bits_of([g]), bits_of([w])))
                return False
            ctx.ob(st, kind, True, msg)
        return True

    def smt_equal(self, st, g, w):
        """equality that does not hold syntactically: random refutation, then z3 (under the path's bit conditions)"""
        import report
        g, w = [x if type(x) is tuple else BYTE[x] if type(x) is int else None for x in (g, w)]
        if g is None or w is None or len(g) != len(w):
            return False
        ps = [a ^ b for a, b in zip(g, w) if a != b]
        if 'hv' in report.kinds(self.mgr, ps):
            return False
        m = None
        for seed in range(2):
            E = report.Eval(self.mgr, m, seed)
            ok = (1 << report.W) - 1
            for q, v in st.bconds:
                e = E.poly(q)
                ok &= e if v else ~e
            d = 0
            for p in ps:
                d |= E.poly(p)
            if ok & d & ((1 << report.W) - 1):
                return False
        for p in ps:
            if report.zsolve(self.mgr, m, list(st.bconds) + [(p, 1)], 10000) != 'unsat':
                return False
        k = ('smt', 'equality', 0, 0)
        self.eng.sites[k] = self.eng.sites.get(k, 0) + 1
        return True

    def note_special(self, st, word):
        for p in word:
            s = deep_special(self.mgr, p, self.ctx.__dict__.setdefault('_sp', {}))
            if s == 'un':
                self.ctx.specfail(st, 'uninit', 'a result depends on uninitialised memory')
                return

    # ------------------------------------------------------------ streams
    def stream(self, st, kind, oid, start, length, exp, msg):
        """bytes [start, start+length) of oid equal exp(i)"""
        ctx, eng = self.ctx, self.eng
        o = st.mem[oid]
        pos = 0
        guard = 0
        while True:
            rest = lsub(length, pos)
            if not (rest > 0 if isinstance(rest, int) else st.need(ladd(rest, -1))):
                break
            guard += 1
            if guard > 200:
                raise Undecided('output stream too fragmented')
            at = ladd(start, pos)
            reg = None
            for r in o.regions:
                d = lsub(at, r.base)
                if isinstance(d, int) and d == 0:
                    reg = r
                    break
                if not isinstance(d, int) and st.dec(d) is True and st.dec(lmul(d, -1)) is True:
                    reg = r
                    break
            if reg is not None:
                for k in range(reg.stride):
                    v = reg.vals.get(k)
                    s2 = st.clone()
                    s2.assume(lvar(TAU))
                    s2.assume(lsub(lsub(reg.count, 1), lvar(TAU)))
                    e = exp(ladd(pos, ladd(lmul(lvar(TAU), reg.stride), k)))
                    if type(v) is int:
                        v = BYTE[v]
                    if v is not None:
                        self.note_special(st, v)
                    if v is None:
                        ctx.specfail(st, kind, msg + ' (all full blocks): not written')
                        return False
                    if v != e and not self.smt_equal(s2, v, e):
                        ctx.specfail(s2, kind, msg + ' (all full blocks)', extra=('diff', bits_of([v]), bits_of([e])))
                        return False
                    ctx.ob(st, kind, True, msg)
                pos = ladd(pos, lmul(reg.count, reg.stride))
                continue
            e = eng.load_byte(st, o, at)
            if type(e) is int:
                e = BYTE[e]
            self.note_special(st, e)
            x = exp(pos)
            if e != x and not self.smt_equal(st, e, x):
                ctx.specfail(st, kind, msg + f' (byte {pos!r})', extra=('diff', bits_of([e]), bits_of([x])))
                return False
            ctx.ob(st, kind, True, msg)
            pos = ladd(pos, 1)
        return True

    # ------------------------------------------------------------ isap_mac
    def mac(self, name='isap_mac'):
        ctx, eng = self.ctx, self.eng
        f = eng.fns[name]
        s = Spec(ctx, 'mac')
        nm, X, R = s.init_A()
        ctx.apps.prime(X, R, nm)
        lr = len(f.params) == 8
        self.lrmap = None

        def build(st):
            la, lc = ctx.length(st, 'ad', 'Lad'), ctx.length(st, 'c', 'Lc')
            a = [ctx.obj(st, 'k', 16, 'in', ro=True), ctx.obj(st, 'n', 16, 'in', ro=True),
                 ctx.obj(st, 'ad', la, 'in', ro=True), la, ctx.obj(st, 'c', lc, 'in', ro=True), lc,
                 ctx.obj(st, 'tag', 16, 'out')]
            if lr:
                a.append(ctx.obj(st, 'lr', 16, 'out'))
            return a

        def final(st):
            self.check_tag(st, s, 'tag', 0)
            if lr:
                F = s.out(((s.tag, 'F') + self.path(st, s), 0))
                inv = {p: j for j, p in enumerate(F)}
                got = [p for b in range(16) for p in ctx.byte(st, 'lr', b)]
                js = [inv.get(p) for p in got]
                ctx.ob(st, 'lr', None not in js and len(set(js)) == 128,
                       'the comparison key is 128 distinct bits of the authentication state before key derivation')
        return ctx.run_unit(name, name, build, final, s)

    def path(self, st, s):
        if st.ghost.get('F*'):
            return ('*',) * 4
        ad = ('*', '*') if st.ghost.get('D*') else count(self.ctx, st, st.lens['ad'])
        return ad + count(self.ctx, st, st.lens['c'])

    def check_tag(self, st, s, oid, off):
        T = ((s.tag, 'T') + self.path(st, s), 0)
        return self.eqbytes(st, 'tag', oid, off, [s.outbyte(T, b) for b in range(16)],
                            'the tag is the specified function of (key, nonce, AD, ciphertext)')

    # ------------------------------------------------------------ isap_enc
    def enc(self, name='isap_enc'):
        ctx = self.ctx
        s = Spec(ctx, 'enc')

        def build(st):
            # callers only enter with a non-empty message (checked at the call)
            lm = ctx.length(st, 'm', 'Lm', lo=0)
            for nm, X, R in s.nexts(st, ((s.tag, 'KE'), 0)):
                ctx.apps.prime(X, R, nm)
            return [ctx.obj(st, 'k', 16, 'in', ro=True), ctx.obj(st, 'n', 16, 'in', ro=True),
                    ctx.obj(st, 'm', lm, 'in', ro=True), lm, ctx.obj(st, 'c', lm, 'out')]

        def final(st):
            def exp(i):
                a, b = s.inb('m', i), s.ks(i)
                return tuple([x ^ y for x, y in zip(a, b)])
            self.stream(st, 'keystream', 'c', 0, st.lens['m'], exp, 'output byte i is input byte i xor the specified keystream byte i')
        return ctx.run_unit(name, name, build, final, s)

    # ------------------------------------------------------------ crypto_hash
    def hash(self, name='crypto_hash'):
        import spec as SP
        ctx = self.ctx
        s = Spec(ctx, 'hash')
        s.rate = 8
        X0 = s.pack(s.cbytes(SP.HASH_IV) + s.zero(32))
        ctx.apps.prime(X0, 12, ((s.tag, 'H'), 0))
        s.roots = (((s.tag, 'H'), 0),)

        def build(st):
            lm = ctx.length(st, 'm', 'Lm')
            return [ctx.obj(st, 'out', 32, 'out'), ctx.obj(st, 'm', lm, 'in', ro=True), lm]

        def final(st):
            self.retval(st, 0)
            L = st.lens['m']
            q, r = self.eng.divmod_struct(st, L, 8)
            if q is None:
                q, r = self.eng.divmod(st, L, 8)
                if not isinstance(r, int):
                    self.eng.concretize(st, r)
            for i in range(4):
                node = ((s.tag, 'HF', q, r), i)
                if not self.eqbytes(st, 'hash', 'out', 8 * i, [s.outbyte(node, b) for b in range(8)],
                                    f'digest block {i} is the specified Ascon-Hash output'):
                    return
        return ctx.run_unit(name, name, build, final, s)

    def retval(self, st, v, neg=False):
        r = self.eng.norm(st.ret)
        ctx = self.ctx
        if isinstance(r, Lin):
            r = self.eng.urep(st, r, 32)
        if type(r) is tuple:
            self.note_special(st, r)
            ctx.specfail(st, 'ret', 'return value depends on data', extra=r)
            return False
        if neg:
            return ctx.ob(st, 'ret', type(r) is int and r >> 31 == 1, 'a rejected ciphertext gives a negative return value')
        return ctx.ob(st, 'ret', type(r) is int and r & 0xffffffff == v, f'the return value is {v}')

    # ------------------------------------------------------------ contracts of isap_mac / isap_enc at API level
    def mac_contract(self, s, fname):
        ctx, eng = self.ctx, self.eng
        f = eng.fns[fname]
        wa, wc = f.params[3][0][1], f.params[5][0][1]
        calls = []

        def h(eng, st, vals, ins):
            k, n, ad, la, c, lc, tag = vals[:7]
            la, lc = self.val(st, la, wa), self.val(st, lc, wc)
            for p, L, w in ((k, 16, 'key'), (n, 16, 'nonce'), (ad, la, 'AD'), (c, lc, 'ciphertext')):
                intrin.check_range(eng, st, p, L, f'{fname} reads {w}')
            good = [ctx.rb(st, k, i) for i in range(16)] == s.kb and [ctx.rb(st, n, i) for i in range(16)] == s.nb
            good = good and lsub(la, st.lens['ad']) == 0 and lsub(lc, st.lens['c']) == 0
            if good:
                for p, L, w in ((ad, la, 'ad'), (c, lc, 'c')):
                    t = intrin.read_template(eng, st, p, L)
                    if t is not None and t != s.inbyte(w, lvar(TAU)):
                        good = False
            if good:
                nm = ('std',)
            else:
                eng.uid += 1
                nm = ('other', eng.uid)
            intrin.check_range(eng, st, tag, 16, f'{fname} writes tag')
            for b in range(16):
                eng.store(st, Ptr(tag.obj, ladd(tag.off, b)), self.macbyte(nm, 'T', b), 1)
            if len(vals) == 8:
                lr = vals[7]
                intrin.check_range(eng, st, lr, 16, f'{fname} writes lr')
                for b in range(16):
                    eng.store(st, Ptr(lr.obj, ladd(lr.off, b)), self.macbyte(nm, 'lr', b), 1)
            ctx.used[(fname,)] = ctx.used.get((fname,), 0) + 1
            return 0
        return h

    def macbyte(self, nm, what, b):
        return tuple([self.mgr.var(('mac',) + nm + (what, 8 * b + i)) for i in range(8)])

    def val(self, st, v, w):
        v = self.eng.norm(v)
        if type(v) is tuple:
            self.eng.fail(st, 'secret-addr', 'a length depends on data')
            raise Undecided('data dependent length')
        return self.eng.urep(st, v, w)

    def enc_contract(self, s, fname):
        ctx, eng = self.ctx, self.eng
        f = eng.fns[fname]
        wm = f.params[3][0][1]

        def h(eng, st, vals, ins):
            k, n, m, lm, c = vals
            lm = self.val(st, lm, wm)
            if not (lm > 0 if isinstance(lm, int) else st.need(ladd(lm, -1))):
                return 0
            for p, L, w in ((k, 16, 'key'), (n, 16, 'nonce'), (m, lm, 'input')):
                intrin.check_range(eng, st, p, L, f'{fname} reads {w}')
            intrin.check_range(eng, st, c, lm, f'{fname} writes output')
            good = [ctx.rb(st, k, i) for i in range(16)] == s.kb and [ctx.rb(st, n, i) for i in range(16)] == s.nb
            if good:
                nm = 'std'
            else:
                eng.uid += 1
                nm = f'other{eng.uid}'
            t = intrin.read_template(eng, st, m, lm)
            ks = tuple([self.mgr.var(('ks', nm, lvar(TAU), i)) for i in range(8)])
            intrin.write_region(eng, st, c, lm, tuple([x ^ y for x, y in zip(t, ks)]))
            ctx.used[(fname,)] = ctx.used.get((fname,), 0) + 1
            return 0
        return h

    # ------------------------------------------------------------ API
    def api_contracts(self, s, name):
        c = self.ctx.contracts()
        import contracts
        if 'isap_rk' in contracts.callees(self.eng, self.eng.fns[name], stop=('isap_mac', 'isap_enc')):
            # computes (part of) tag or keystream itself: verified down to the permutation calls
            return c
        fm, fe = self.eng.fns.get('isap_mac'), self.eng.fns.get('isap_enc')
        if fm is not None and fe is not None and is_mac(fm) and is_enc(fe):
            c['isap_mac'] = self.mac_contract(s, 'isap_mac')
            c['isap_enc'] = self.enc_contract(s, 'isap_enc')
            s.abstract = True
        return c

    def tagbytes(self, st, s):
        """specified tag of the path"""
        if s.abstract:
            return [self.macbyte(('std',), 'T', b) for b in range(16)]
        T = ((s.tag, 'T') + self.path(st, s), 0)
        return [s.outbyte(T, b) for b in range(16)]

    def start(self, st, s):
        if not s.abstract:
            nm, X, R = s.init_A()
            self.ctx.apps.prime(X, R, nm)
            for nm, X, R in s.nexts(st, ((s.tag, 'KE'), 0)):
                self.ctx.apps.prime(X, R, nm)

    def encrypt(self, name='crypto_aead_encrypt'):
        ctx = self.ctx
        s = Spec(ctx, 'aeE', suffix='@E')

        def ct(i):
            a, b = s.inb('m', i), s.ks(i)
            return tuple([x ^ y for x, y in zip(a, b)])
        s.data['c'] = ct
        con = self.api_contracts(s, name)

        def build(st):
            la, lm = ctx.length(st, 'ad', 'Lad'), ctx.length(st, 'c', 'Lm')
            self.start(st, s)
            c = ctx.obj(st, 'c', ladd(lm, 16), 'out')
            return [c, ctx.obj(st, 'clen', 8, 'out'),
                    ctx.obj(st, 'm', lm, 'in', s.on('m'), True), lm, ctx.obj(st, 'ad', la, 'in', s.on('ad'), True), la,
                    Ptr(None, 0), ctx.obj(st, 'n', 16, 'in', s.on('n'), True), ctx.obj(st, 'k', 16, 'in', s.on('k'), True)]

        def final(st):
            self.retval(st, 0)
            L = st.lens['c']
            self.lenval(st, 'clen', ladd(L, 16))
            self.stream(st, 'ciphertext', 'c', 0, L, ct, 'ciphertext byte i is plaintext byte i xor keystream byte i')
            self.eqbytes(st, 'tag', 'c', L, self.tagbytes(st, s), 'the tag follows the ciphertext')
        return ctx.run_unit(name, name, build, final, s, contracts=con)

    def lenval(self, st, oid, L):
        v = self.eng.norm(self.eng.load(st, Ptr(oid, 0), 8))
        good = isinstance(v, (int, Lin))
        if good:
            v = self.eng.urep(st, v, 64)
            d = lsub(v, L)
            good = d == 0 if isinstance(d, int) else (st.dec(d) is True and st.dec(lmul(d, -1)) is True)
        return self.ctx.ob(st, 'len', good, f'*{oid} is set to the specified length')

    def decrypt(self, name='crypto_aead_decrypt'):
        ctx, eng, mgr = self.ctx, self.eng, self.mgr
        s = Spec(ctx, 'aeD', suffix='@D')
        con = self.api_contracts(s, name)
        fm = eng.fns.get('isap_mac')
        stp = fm is not None and len(fm.params) == 8
        self.dec_stp = stp

        def build(st):
            la = ctx.length(st, 'ad', 'Lad')
            lc = ctx.length(st, 'clen', 'Lc')
            st.lens['c'] = ladd(lc, -16)
            self.start(st, s)
            return [ctx.obj(st, 'm', ladd(lc, -16), 'out'), ctx.obj(st, 'mlen', 8, 'out'), Ptr(None, 0),
                    ctx.obj(st, 'c', lc, 'in', s.on('c'), True), lc, ctx.obj(st, 'ad', la, 'in', s.on('ad'), True), la,
                    ctx.obj(st, 'n', 16, 'in', s.on('n'), True), ctx.obj(st, 'k', 16, 'in', s.on('k'), True)]

        def recv(st):
            return [s.inb('c', ladd(st.lens['c'], b)) for b in range(16)]

        if stp:
            lrb = [self.macbyte(('std',), 'lr', b) for b in range(16)]

            def extra(st):
                from contracts import asc_layouts
                lays = asc_layouts()
                hit = False
                hint = getattr(ctx, 'lay_hint', lays[0][0])
                lay = dict(lays)[hint]
                for which, tb in (('T', self.tagbytes(st, s)), ('S', recv(st))):
                    X = list(s.pack(tb + s.zero(24)))
                    for b in range(16):
                        for i in range(8):
                            X[lay(16 + b, i)] = lrb[b][i]
                    if ctx.apps.prime(tuple(X), 7, ((s.tag, 'PV', which), 0)):
                        hit = True
                return hit
            s.extra = extra

        def diffs(st):
            if stp:
                from contracts import asc_layouts
                lay = dict(asc_layouts())[getattr(ctx, 'lay_hint', '64-bit words')]
                a, b = s.out(((s.tag, 'PV', 'T'), 0)), s.out(((s.tag, 'PV', 'S'), 0))
                # the first 128 bits of the state, in the order in which the implementation stores them
                return [a[j] ^ b[j] for o in range(16) for j in [lay(o, i) for i in range(8)]]
            else:
                a, b = self.tagbytes(st, s), recv(st)
            return [x ^ y for p, q in zip(a, b) for x, y in zip(p, q)]

        def allow(eng, st, p):
            if st.bconds:
                return False
            bc = BoolCheck(mgr, diffs(st))
            r = bc.iff(p) or bc.only(p)
            if r:
                k = ('decision', 'branch', 0, 0)
                eng.sites[k] = eng.sites.get(k, 0) + 1
            return bool(r)

        def final(st):
            L = st.lens['c']
            r = eng.norm(st.ret)
            m = st.mem['m']
            wrote = any(d for d in m.g.values()) or m.regions
            if isinstance(L, int) and L < 0 or (not isinstance(L, int) and not st.need(L)):
                self.retval(st, 0, neg=True)
                ctx.ob(st, 'release', not wrote, 'a too short ciphertext leaves the plaintext buffer untouched')
                return
            bc = BoolCheck(mgr, diffs(st))
            for q, v in st.bconds:
                self.note_special(st, (q,))
            if type(r) is tuple:
                # the value is computed from the comparison: the two cases r = 0 and r != 0
                self.note_special(st, r)
                h, z = bc.hyp(st.bconds), 1
                for b in r:
                    z = bc.And(z, bc.neg(bc.poly(b)))
                hn = bc.And(h, bc.neg(z))
                if hn:
                    t = bc.prove(hn, bc.neg(bc.eqn))
                    ctx.ob(st, 'decision-reject', t is True, 'rejection implies that some of the 128 bits differ', extra=('reject', t))
                    t = bc.prove(hn, bc.poly(r[-1]))
                    ctx.ob(st, 'ret', t is True, 'a rejected ciphertext gives a negative return value')
                    ctx.ob(st, 'release', not wrote, 'a rejected ciphertext leaves the plaintext buffer untouched')
                h = bc.And(h, z)
                if not h:
                    return
                r = 0
            else:
                h = bc.hyp(st.bconds)
            if r == 0:
                t = bc.prove(h, bc.eqn)
                ctx.ob(st, 'decision', t is True, 'acceptance implies that all 128 bits agree', extra=('accept', t))
                self.lenval(st, 'mlen', L)

                def pt(i):
                    a, b = s.inb('c', i), s.ks(i)
                    return tuple([x ^ y for x, y in zip(a, b)])
                self.stream(st, 'plaintext', 'm', 0, L, pt, 'plaintext byte i is ciphertext byte i xor keystream byte i')
            else:
                self.retval(st, 0, neg=True)
                t = bc.implies_ne(st.bconds)
                if t is None:
                    raise Undecided('solver')
                ctx.ob(st, 'decision-reject', t is True, 'rejection implies that some of the 128 bits differ', extra=('reject', t))
                ctx.ob(st, 'release', not wrote, 'a rejected ciphertext leaves the plaintext buffer untouched')
        self.allow = allow
        orig = ctx.run_unit

        # allow_branch is reset by run_unit: install it from build
        def build2(st):
            eng.allow_branch = allow
            return build(st)
        return ctx.run_unit(name, name, build2, final, s, contracts=con)

    # ------------------------------------------------------------ one job
    def one(self, w):
        e = self.eng
        if w == 'mac':
            if 'isap_mac' not in e.fns or not is_mac(e.fns['isap_mac']):
                raise Missing('no isap_mac with the expected signature')
            self.mac()
        elif w == 'enc':
            if 'isap_enc' not in e.fns or not is_enc(e.fns['isap_enc']):
                raise Missing('no isap_enc with the expected signature')
            self.enc()
        else:
            fn = {'encrypt': 'crypto_aead_encrypt', 'decrypt': 'crypto_aead_decrypt', 'hash': 'crypto_hash'}[w]
            if fn not in e.fns:
                raise Missing(f'no function {fn}')
            getattr(self, w)()

    # ------------------------------------------------------------ permutation routines (C07)
    def perms(self, entries):
        import contracts, report, time
        ctx = self.ctx
        ctx.allrounds = True
        lays = contracts.asc_layouts() if ctx.alg.perm.name == 'ascon' else contracts.kec_layouts()
        ok = None
        for name, R in entries:
            t0 = time.time()
            res = contracts.Result(name)
            res.info = {'kind': 'perm', 'rounds': R}
            done = False
            for lay in [l for l in lays if ok in (None, l[0])]:
                fin, exp, err, fails, sites = ctx.perm_entry(name, R, lay, 60)
                if err is None and len(fin) == 1 and not fails and [ctx.byte(fin[0], 'vp ' + lay[0], b) for b in range(len(exp))] == exp:
                    ok = lay[0]
                    res.obl = {'perm': ctx.alg.perm.nbits}
                    for (kind, *_), c in sites.items():
                        res.obl[kind] = res.obl.get(kind, 0) + 1
                    res.info['layout'] = ok
                    done = True
                    break
            if not done:
                self.perm_refute(res, name, R, [l for l in lays if l[0] == ok] or lays)
            res.time = time.time() - t0
            ctx.results.append(res)

    def perm_refute(self, res, name, R, lays):
        """no layout fits: look for a state on which the routine differs from the specification"""
        import report
        ctx = self.ctx
        open_, state, why = '', None, ''
        for lay in lays:
            fin, exp, err, fails, sites = ctx.perm_entry(name, R, lay, 9000)
            if err or not fin:
                open_ = err or 'no execution path'
                break
            bad = None
            for st in fin:
                got = [ctx.byte(st, 'vp ' + lay[0], b) for b in range(len(exp))]
                ps = [x ^ y for g, e in zip(got, exp) for x, y in zip(g, e) if x != y]
                if not ps:
                    continue
                if 'hv' in report.kinds(self.mgr, ps):
                    open_ = 'over-approximated values'
                    break
                bad = self.perm_model(st, ps)
                if bad:
                    break
            if open_ or not bad:
                open_ = open_ or f'layout {lay[0]}: neither proved nor refuted'
                break
            if bad[0] is not None or state is None:
                state = bad
        if open_:
            res.status, res.reason = 'undecided', f'{name}: {open_}'
            return
        f = sym.Failure('perm', name, 0, f'{name[3:]} computes {R} rounds of the permutation', None, None)
        f.unit = name
        f.ready = {'definite': True, 'state': state[0].hex() if state[0] else None, 'entry': name, 'rounds': R,
                   'why': '' if state[0] else 'on some state in the middle of the permutation'}
        res.status = 'failed'
        res.failures = [f]

    def perm_model(self, st, ps):
        import report
        ctx = self.ctx
        for seed in range(4):
            E = report.Exact(ctx.apps, seed)
            ok = (1 << report.W) - 1
            for q, v in st.bconds:
                e = E.poly(q)
                ok &= e if v else ~e
            d = 0
            for p in ps:
                d |= E.poly(p)
            ok &= d & ((1 << report.W) - 1)
            if ok:
                bit = (ok & -ok).bit_length() - 1
                b = bytearray(ctx.alg.perm.nbytes)
                for k, v in E.leaves.items():
                    if k[0] == 'pre':
                        b[k[2]] |= ((v >> bit) & 1) << k[3]
                return (bytes(b),)
        if st.bconds:
            for p in ps[:16]:
                if isinstance(report.zsolve(self.mgr, None, list(st.bconds) + [(p, 1)], 5000), dict):
                    return (None,)
        return None

    # ------------------------------------------------------------ everything
    def all(self, want=None):
        e = self.eng
        out = []
        if 'isap_mac' in e.fns and is_mac(e.fns['isap_mac']):
            self.mac()
        if 'isap_enc' in e.fns and is_enc(e.fns['isap_enc']):
            self.enc()
        self.encrypt()
        self.decrypt()
        if 'crypto_hash' in e.fns:
            self.hash()
        return self.ctx.results


class BoolCheck:
    """propositional reasoning about data dependent conditions: reduced ordered BDDs over the
    128 difference bits (first in the order) and the other atoms"""
    LIMIT = 400000

    def __init__(self, mgr, diffs):
        self.mgr = mgr
        self.nodes = {}
        self.tab = [None, None]          # 0 = false, 1 = true
        self.xm, self.am = {}, {}
        self.memo = {}
        self.avar = {}
        # change of variables: atom -j-1 stands for difference j; solve the differences for pivot atoms
        self.piv = {}                    # atom -> poly (without it) over the other atoms and -j-1
        self.nd = len(diffs)
        vals = []
        for j, p in enumerate(diffs):
            row = self.lin(p - ONE) ^ frozenset((-j - 1,))
            pv = [i for i in row if i > 0 and mgr.atoms[i][0] != 'and']
            if not pv:
                # a constant difference or one that depends on the others
                vals.append((j, row ^ frozenset((-j - 1,)), 0 in p))
                continue
            a = max(pv)
            rest = row ^ frozenset((a,))
            for k, r in list(self.piv.items()):
                if a in r:
                    self.piv[k] = r ^ frozenset((a,)) ^ rest
            self.piv[a] = rest
            vals.append((j, None, 0 in p))
        self.dv = []
        for j, lin, c in vals:
            v = self.mk(j, 0, 1) if lin is None else self.poly(lin)
            self.dv.append(self.neg(v) if c else v)
        e = 1
        for v in reversed(self.dv):
            e = self.And(self.neg(v), e)
        self.eqn = e

    def lin(self, p):
        r = p
        for i in p:
            x = self.piv.get(i)
            if x is not None:
                r = r ^ frozenset((i,)) ^ x
        return r

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.nodes.get(k)
        if r is None:
            if len(self.tab) > self.LIMIT:
                raise Undecided('decision too complex')
            r = self.nodes[k] = len(self.tab)
            self.tab.append(k)
        return r

    def neg(self, a):
        return self.Xor(a, 1)

    def top(self, a, b):
        va = self.tab[a][0] if a > 1 else 1 << 60
        vb = self.tab[b][0] if b > 1 else 1 << 60
        v = min(va, vb)
        a0, a1 = self.tab[a][1:] if va == v else (a, a)
        b0, b1 = self.tab[b][1:] if vb == v else (b, b)
        return v, a0, a1, b0, b1

    def Xor(self, a, b):
        if a == b:
            return 0
        if a == 0:
            return b
        if b == 0:
            return a
        if a > b:
            a, b = b, a
        k = (a, b)
        r = self.xm.get(k)
        if r is None:
            v, a0, a1, b0, b1 = self.top(a, b)
            r = self.xm[k] = self.mk(v, self.Xor(a0, b0), self.Xor(a1, b1))
        return r

    def And(self, a, b):
        if a == b or b == 1:
            return a
        if a == 1:
            return b
        if a == 0 or b == 0:
            return 0
        if a > b:
            a, b = b, a
        k = (a, b)
        r = self.am.get(k)
        if r is None:
            v, a0, a1, b0, b1 = self.top(a, b)
            r = self.am[k] = self.mk(v, self.And(a0, b0), self.And(a1, b1))
        return r

    def poly(self, p):
        c = 0 in p
        q = p ^ ONE if c else p
        r = self.memo.get(q)
        if r is None:
            r, rest = 0, q
            # undo the expansion of disjunctions: a + b + ab, a + ab
            for i in sorted((i for i in q if self.mgr.atoms[i][0] == 'and') if len(q) > 1 else (), reverse=True):
                d = self.mgr.atoms[i]
                if i in rest:
                    rest = rest ^ frozenset((i,))
                    a, b = d[1:3]
                    n, which = min((len(rest), 0), (len(rest ^ a), 1), (len(rest ^ b), 2), (len(rest ^ a ^ b), 3))
                    x, y = self.poly(a), self.poly(b)
                    if which == 3:
                        rest = rest ^ a ^ b
                        t = self.neg(self.And(self.neg(x), self.neg(y)))
                    elif which == 1:
                        rest = rest ^ a
                        t = self.And(x, self.neg(y))
                    elif which == 2:
                        rest = rest ^ b
                        t = self.And(y, self.neg(x))
                    else:
                        t = self.And(x, y)
                    r = self.Xor(r, t)
            for i in sorted(self.lin(rest), key=lambda i: (i > 0, abs(i))):
                r = self.Xor(r, self.atom(i))
            self.memo[q] = r
        return self.neg(r) if c else r

    def atom(self, i):
        r = self.avar.get(i)
        if r is None:
            if i < 0:
                r = self.mk(-i - 1, 0, 1)
            else:
                d = self.mgr.atoms[i]
                if d[0] == 'and':
                    r = self.And(self.poly(d[1]), self.poly(d[2]))
                else:
                    r = self.mk(1000 + i, 0, 1)
            self.avar[i] = r
        return r

    def prove(self, hyp, goal):
        """True or a model: the list of difference bits that are set"""
        bad = self.And(hyp, self.neg(goal))
        if bad == 0:
            return True
        on = set()
        other = False
        while bad > 1:
            v, lo, hi = self.tab[bad]
            if hi != 0:
                if v < 1000:
                    on.add(v)
                else:
                    other = True
                bad = hi
            else:
                bad = lo
        return {'differing_bits': sorted(on), 'free': other}

    def iff(self, p):
        try:
            e = self.poly(p)
            if e == self.eqn:
                return 'eq'
            if self.neg(e) == self.eqn:
                return 'ne'
        except RecursionError:
            pass
        return None

    def only(self, p):
        '''the condition depends on the compared differences alone (it is the decision, right or wrong)'''
        try:
            work, seen = [self.poly(p)], set()
        except (RecursionError, Undecided):
            return None
        while work:
            n = work.pop()
            if n > 1 and n not in seen:
                seen.add(n)
                v, lo, hi = self.tab[n]
                if v >= 1000:
                    return None
                work += [lo, hi]
        return 'own'

    def hyp(self, bconds):
        h = 1
        for p, v in bconds:
            e = self.poly(p)
            h = self.And(h, e if v else self.neg(e))
        return h

    def implies_eq(self, bconds):
        return self.prove(self.hyp(bconds), self.eqn)

    def implies_ne(self, bconds):
        return self.prove(self.hyp(bconds), self.neg(self.eqn))
