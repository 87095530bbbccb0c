"""LLVM intrinsics used by the package."""
from gf2 import ZERO, ONE, as_int
from lin import Lin, ladd, lsub, lmul, lvar


def _ew(t):
    return t[2][1], t[1]


def lookup(eng, name, tys, rty, mod):
    from sym import Ptr, Undecided, Region, TAU
    if name.startswith(('llvm.memcpy', 'llvm.memmove')):
        def f(st, a):
            return memcpy(eng, st, a[0], a[1], a[2])
        return f
    if name.startswith('llvm.memset'):
        def f(st, a):
            return memset(eng, st, a[0], a[1], a[2])
        return f
    if '.pternlog.' in name:
        w = mod.bits(rty)

        def f(st, a):
            A, B, C = (eng.bits(st, x, w) for x in a[:3])
            imm = a[3] & 0xff
            m = eng.mgr
            if imm == 0x96:
                return eng.norm(tuple([x ^ y ^ z for x, y, z in zip(A, B, C)]))
            if imm == 0x69:
                return eng.norm(tuple([x ^ y ^ z ^ ONE for x, y, z in zip(A, B, C)]))
            # algebraic normal form
            co = [(imm >> i) & 1 for i in range(8)]
            for b in range(3):
                for i in range(8):
                    if i >> b & 1:
                        co[i] ^= co[i ^ (1 << b)]
            out = []
            for x, y, z in zip(A, B, C):
                r = ONE if co[0] else ZERO
                for i, v in ((1, (z,)), (2, (y,)), (4, (x,))):
                    if co[i]:
                        r = r ^ v[0]
                if co[3]:
                    r = r ^ m.AND(y, z)
                if co[5]:
                    r = r ^ m.AND(x, z)
                if co[6]:
                    r = r ^ m.AND(x, y)
                if co[7]:
                    r = r ^ m.AND(m.AND(x, y), z)
                out.append(r)
            return eng.norm(tuple(out))
        return f
    if '.permvar.' in name:
        ew, n = _ew(rty)
        w = ew * n

        def f(st, a):
            V = eng.bits(st, a[0], w)
            ix = eng.bits(st, a[1], w)
            out = ()
            for i in range(n):
                k = as_int(ix[i * ew:i * ew + ew])
                if k is None:
                    raise Undecided('data dependent permutation index')
                k %= n
                out += V[k * ew:k * ew + ew]
            return eng.norm(out)
        return f
    for nm, op in (('.pslli.w', 'shl'), ('.psrli.w', 'lshr'), ('.pslli.d', 'shl'), ('.psrli.d', 'lshr'), ('.pslli.q', 'shl'), ('.psrli.q', 'lshr')):
        if nm in name:
            ew, n = _ew(rty)

            def f(st, a, op=op):
                V = eng.bits(st, a[0], ew * n)
                k = a[1] if type(a[1]) is int else as_int(a[1])
                if k is None:
                    raise Undecided('shift count')
                return eng.norm(_shift(V, ew, n, [k] * n, op))
            return f
    for nm, op in (('.psllv', 'shl'), ('.psrlv', 'lshr')):
        if nm in name:
            ew, n = _ew(rty)

            def f(st, a, op=op):
                V = eng.bits(st, a[0], ew * n)
                B = eng.bits(st, a[1], ew * n)
                ks = [as_int(B[i * ew:i * ew + ew]) for i in range(n)]
                if None in ks:
                    raise Undecided('shift counts')
                return eng.norm(_shift(V, ew, n, ks, op))
            return f
    if name.startswith('llvm.masked.load'):
        ew, n = _ew(rty)

        def f(st, a):
            p, _, mask, pas = a
            mask = mask if type(mask) is int else as_int(mask)
            if mask is None:
                raise Undecided('data dependent mask')
            P = eng.bits(st, pas, ew * n)
            out = ()
            nb = ew // 8
            i = 0
            while i < n:
                if mask >> i & 1:
                    out += eng.bits(st, eng.load(st, Ptr(p.obj, ladd(p.off, i * nb)), nb), ew)
                else:
                    out += P[i * ew:i * ew + ew]
                i += 1
            return eng.norm(out)
        return f
    if name.startswith('llvm.masked.store'):
        ew, n = _ew(tys[0])

        def f(st, a):
            v, p, _, mask = a
            mask = mask if type(mask) is int else as_int(mask)
            if mask is None:
                raise Undecided('data dependent mask')
            V = eng.bits(st, v, ew * n)
            nb = ew // 8
            # all disjointness / bounds decisions first (an undecided one restarts the instruction)
            idx = [i for i in range(n) if mask >> i & 1]
            for i in idx:
                eng.bounds(st, Ptr(p.obj, ladd(p.off, i * nb)), nb, 'store')
            for i in idx:
                eng.store(st, Ptr(p.obj, ladd(p.off, i * nb)), eng.norm(V[i * ew:i * ew + ew]), nb)
        return f
    if name.startswith(('llvm.fshl', 'llvm.fshr')):
        w, n = _ew(rty) if rty[0] == 'vec' else (rty[1], 1)

        def f(st, a):
            A, B, C = eng.bits(st, a[0], w * n), eng.bits(st, a[1], w * n), eng.bits(st, a[2], w * n)
            out = ()
            for j in range(0, w * n, w):
                k = as_int(C[j:j + w])
                if k is None:
                    raise Undecided('funnel shift amount')
                k %= w
                x = B[j:j + w] + A[j:j + w]
                out += x[w - k:2 * w - k] if name.startswith('llvm.fshl') else x[k:k + w]
            return eng.norm(out)
        return f
    if rty[0] == 'vec':
        return None
    if name.startswith('llvm.bswap'):
        w = rty[1]

        def f(st, a):
            A = eng.bits(st, a[0], w)
            return eng.norm(sum([A[i:i + 8] for i in range(w - 8, -1, -8)], ()))
        return f
    for nm, pred in (('llvm.umin', 'ult'), ('llvm.umax', 'ugt'), ('llvm.smin', 'slt'), ('llvm.smax', 'sgt')):
        if name.startswith(nm):
            def f(st, a, pred=pred):
                return a[0] if eng.truth(st, eng.icmp(st, pred, a[0], a[1], rty[1])) else a[1]
            return f
    if name.startswith('llvm.abs'):
        return None
    return None


def _shift(V, ew, n, ks, op):
    out = ()
    for i in range(n):
        e = V[i * ew:i * ew + ew]
        k = ks[i]
        if k >= ew:
            e = (ZERO,) * ew
        elif op == 'shl':
            e = (ZERO,) * k + e[:ew - k]
        else:
            e = e[k:] + (ZERO,) * k
        out += e
    return out


def _len(eng, st, n):
    from sym import Undecided
    n = eng.norm(n)
    if type(n) is tuple:
        raise Undecided('data dependent length')
    if isinstance(n, Lin):
        n = eng.urep(st, n, eng.pb)
    return n


def memcpy(eng, st, d, s, n):
    from sym import Ptr, Undecided, Region, TAU, Obj
    n = _len(eng, st, n)
    if isinstance(n, Lin):
        from sym import normf
        if sat_big(st, n):
            return copy_region(eng, st, d, s, n)
        eng.concretize(st, n)
    if n == 0:
        return
    so = eng.bounds(st, s, n, 'memcpy read')
    do = eng.bounds(st, d, n, 'memcpy write')
    # read everything (byte entries), then write
    if isinstance(s.off, Lin) and isinstance(so.size, int):
        eng.concretize(st, s.off, 600)
    if so.kind == 'mut':
        eng.fail(st, 'mutable', f'read of mutable static object {so.name}')
    es = [eng.load_byte(st, so, ladd(s.off, i)) for i in range(n)]
    store_entries(eng, st, d, es)


def store_entries(eng, st, d, es):
    from sym import Ptr
    i = 0
    n = len(es)
    ops = []
    while i < n:
        e = es[i]
        if type(e) is tuple and len(e) == 4 and e[0] == 'v' and e[2] == 0 and i + e[3] <= n:
            ops.append((i, e[1], e[3]))
            i += e[3]
        else:
            ops.append((i, e, 1))
            i += 1
    # one trial store decides disjointness for the whole range; failures restart before any write
    for i, v, k in ops:
        eng.store(st, Ptr(d.obj, ladd(d.off, i)), v, k)


def sat_big(st, n):
    from lin import sat
    return sat(st.conslist() + [ladd(n, -600)]) is not False


def memset(eng, st, d, v, n):
    from sym import Ptr, Undecided
    n = _len(eng, st, n)
    if isinstance(n, Lin):
        if sat_big(st, n):
            raise Undecided('memset of symbolic length')
        eng.concretize(st, n)
    if n == 0:
        return
    eng.bounds(st, d, n, 'memset write')
    if isinstance(d.off, int):
        for i in range(n):
            eng.store(st, Ptr(d.obj, d.off + i), v, 1)
    else:
        for i in range(n):
            eng.store(st, Ptr(d.obj, ladd(d.off, i)), v, 1)


def read_template(eng, st, p, n):
    """byte template (in TAU) of the n bytes at p, or None when empty"""
    from sym import Ptr, Undecided, TAU, Fork
    if st.dec(lsub(0, n) if not isinstance(n, int) else -n) is True:
        return None
    s2 = st.clone()
    s2.assume(lvar(TAU))
    s2.assume(lsub(lsub(n, 1), lvar(TAU)))
    o = eng.bounds(s2, Ptr(p.obj, ladd(p.off, lvar(TAU))), 1, 'read')
    e = eng.load_byte(s2, o, ladd(p.off, lvar(TAU)))
    if type(e) is int:
        from sym import BYTE
        return BYTE[e]
    if len(e) != 8:
        raise Undecided('template')
    return e


def write_region(eng, st, p, n, vals):
    """write n bytes at p: byte TAU has value vals (8 polys over TAU)"""
    from sym import Ptr, Undecided, Region
    if isinstance(n, int):
        from gf2 import Subst
        from sym import TAU
        for i in range(n):
            eng.store(st, Ptr(p.obj, ladd(p.off, i)), eng.norm(Subst(eng.mgr, {TAU: i}, eng.appsubst).word(vals)), 1)
        return
    o = st.mem[p.obj]
    end = ladd(p.off, n)
    if o.ro:
        eng.fail(st, 'frame', f'write to {o.name}, which must stay unchanged')
    for t, d in o.g.items():
        from sym import mkl
        for c in (min(d), max(d)) if d else ():
            x = mkl(t, c)
            if st.dec(lsub(x, end)) is not True and st.dec(lsub(lsub(p.off, 1), x)) is not True:
                raise Undecided('bulk write over written bytes')
    for r in o.regions:
        if st.dec(lsub(r.base, end)) is not True and st.dec(lsub(p.off, r.end())) is not True:
            raise Undecided('bulk write over a written region')
    o = st.obj_w(p.obj)
    o.regions = o.regions + (Region(p.off, 1, n, {0: vals}),)


def copy_region(eng, st, d, s, n):
    from sym import Undecided
    eng.bounds(st, s, n, 'memcpy read') if isinstance(n, int) else check_range(eng, st, s, n, 'memcpy read')
    check_range(eng, st, d, n, 'memcpy write')
    t = read_template(eng, st, s, n)
    if t is None:
        return
    write_region(eng, st, d, n, t)


def check_range(eng, st, p, n, what):
    """bounds of a symbolic-length range"""
    from sym import Ptr, Abort
    if st.dec(lmul(n, -1)) is True:
        return
    o = st.mem.get(p.obj) if isinstance(p, Ptr) else None
    if o is None:
        eng.fail(st, 'bounds', what + ' through an invalid pointer')
        raise Abort()
    a, b = st.dec(p.off), st.dec(lsub(o.size, ladd(p.off, n)))
    if a is not True or b is not True:
        eng.fail(st, 'bounds', f'{what} of {n} bytes at {p.off} of {o.name} (size {o.size})')
        raise Abort()
    eng.ok(st, 'bounds')


def memcmp(eng, st, vals, ins):
    """comparison of two ranges of constant length; its time depends on the position of the first difference"""
    from sym import BYTE
    a, b, n = vals[:3]
    n = _len(eng, st, n)
    if isinstance(n, Lin):
        eng.concretize(st, n, 64)
        n = _len(eng, st, n)
    w = []
    for p in (a, b):
        if n:
            o = eng.bounds(st, p, n, 'memcmp read')
            es = [eng.load_byte(st, o, ladd(p.off, i)) for i in range(n)]
            w.append([BYTE[e] if type(e) is int else e for e in es])
    if not n:
        return 0
    eq = ONE
    for x, y in zip(*w):
        for p, q in zip(x, y):
            d = p ^ q
            if d == ONE:
                return 1
            if d:
                eq = eng.mgr.AND(eq, d ^ ONE)
    if eq == ONE:
        return 0
    eng.fail(st, 'vartime', 'memcmp of data stops at the first difference')
    # zero exactly when the ranges are equal; the sign and magnitude of other values are not modelled
    return (eq ^ ONE,) + (ZERO,) * 31
