"""Specification of ISAP v2.0 (NIST LWC final round), Ascon-p, Keccak-p[400] and
Ascon-Hash v1.2, at the level of single bits over gf2 polynomials.

Written from the specification documents, independent of /repo; validated against
the official KATs by selftest() (same tables, evaluated on concrete bits).
"""
from gf2 import ZERO, ONE, CB
from lin import Lin, ladd, lmul, lsub


class Perm:
    """One permutation family: PRE (linear), chi products, POST (linear)."""

    def finish(self):
        self.PRE = [tuple(x) for x in self.PRE]
        self.POST = [tuple(x) for x in self.POST]


class Ascon(Perm):
    name = 'ascon'
    nbits = 320
    nbytes = 40
    maxr = 12

    def __init__(self):
        def b(l, i):
            return l * 64 + (i & 63)
        self.PRE, self.CHI, self.POST = [], [], []
        src = {0: (0, 4), 1: (1,), 2: (2, 1), 3: (3,), 4: (4, 3)}
        for l in range(5):
            for i in range(64):
                self.PRE.append([b(s, i) for s in src[l]])
                self.CHI.append((b((l + 1) % 5, i), b((l + 2) % 5, i)))
        mix = {0: (0, 4), 1: (1, 0), 2: (2,), 3: (3, 2), 4: (4,)}
        rot = {0: (19, 28), 1: (61, 39), 2: (1, 6), 3: (10, 17), 4: (7, 41)}
        for l in range(5):
            for i in range(64):
                s = {}
                for r in (0,) + rot[l]:
                    for m in mix[l]:
                        k = b(m, i + r)
                        s[k] = s.get(k, 0) ^ 1
                self.POST.append([k for k, v in s.items() if v])
        self.finish()

    def consts(self, R):
        """per round: (set of PRE indices complemented, set of POST indices complemented)"""
        out = []
        for r in range(12 - R, 12):
            c = ((0xf - r) << 4) | r
            pre = {2 * 64 + i for i in range(8) if (c >> i) & 1}
            post = {2 * 64 + i for i in range(64)}
            out.append((pre, post))
        return out

    @staticmethod
    def bytepos(b, i):
        """state index of bit i (LSB first) of byte b"""
        return (b // 8) * 64 + (7 - b % 8) * 8 + i


class Keccak400(Perm):
    name = 'keccakp400'
    nbits = 400
    nbytes = 50
    maxr = 20

    def __init__(self):
        def b(x, y, z):
            return ((x % 5) + 5 * (y % 5)) * 16 + (z & 15)
        # rho offsets, generated as in FIPS 202
        off = {(0, 0): 0}
        x, y = 1, 0
        for t in range(24):
            off[(x, y)] = ((t + 1) * (t + 2) // 2) % 16
            x, y = y, (2 * x + 3 * y) % 5
        self.PRE = [None] * 400
        self.CHI = [None] * 400
        self.POST = [(j,) for j in range(400)]
        for x in range(5):
            for y in range(5):
                for z in range(16):
                    # theta then rho then pi: B[y][2x+3y][z+off] = theta(A)[x][y][z]
                    s = [b(x, y, z)]
                    s += [b(x - 1, yy, z) for yy in range(5)]
                    s += [b(x + 1, yy, z - 1) for yy in range(5)]
                    self.PRE[b(y, 2 * x + 3 * y, z + off[(x, y)])] = s
        for x in range(5):
            for y in range(5):
                for z in range(16):
                    self.CHI[b(x, y, z)] = (b(x + 1, y, z), b(x + 2, y, z))
        self.finish()
        # round constants by the LFSR of FIPS 202
        def rc(t):
            R = [1, 0, 0, 0, 0, 0, 0, 0]
            for _ in range(t % 255):
                R = [0] + R
                R[0] ^= R[8]
                R[4] ^= R[8]
                R[5] ^= R[8]
                R[6] ^= R[8]
                R = R[:8]
            return R[0]
        self.RC = []
        for ir in range(20):
            s = set()
            for j in range(5):
                if rc(j + 7 * ir):
                    s.add((1 << j) - 1)
            self.RC.append(s)

    def consts(self, R):
        return [((), set(self.RC[r])) for r in range(20 - R, 20)]

    @staticmethod
    def bytepos(b, i):
        return (b // 2) * 16 + (b % 2) * 8 + i


PERMS = {'a': Ascon(), 'k': Keccak400()}


class Alg:
    def __init__(self, name, perm, rate, sH, sB, sE, sK):
        self.name = name
        self.perm = PERMS[perm]
        self.rate = rate           # bytes
        self.sH, self.sB, self.sE, self.sK = sH, sB, sE, sK
        tail = [128, rate * 8, 1, sH, sB, sE, sK]
        self.IV_A = bytes([1] + tail)
        self.IV_KA = bytes([2] + tail)
        self.IV_KE = bytes([3] + tail)
        self.n = self.perm.nbytes


ALGS = {
    'isapa128av20': Alg('isapa128av20', 'a', 8, 12, 1, 6, 12),
    'isapa128v20': Alg('isapa128v20', 'a', 8, 12, 12, 12, 12),
    'isapk128av20': Alg('isapk128av20', 'k', 18, 16, 1, 8, 8),
    'isapk128v20': Alg('isapk128v20', 'k', 18, 20, 12, 12, 12),
}
HASH_IV = bytes([0x00, 0x40, 0x0c, 0x00, 0x00, 0x00, 0x01, 0x00])


# ---------------------------------------------------------------- concrete evaluation (self test)
def run_concrete(perm, st, R):
    """st: list of 0/1"""
    for pre, post in perm.consts(R):
        a = [0] * perm.nbits
        for j, s in enumerate(perm.PRE):
            v = 1 if j in pre else 0
            for k in s:
                v ^= st[k]
            a[j] = v
        y = [a[j] ^ ((1 ^ a[p]) & a[q]) for j, (p, q) in enumerate(perm.CHI)]
        n = [0] * perm.nbits
        for j, s in enumerate(perm.POST):
            v = 1 if j in post else 0
            for k in s:
                v ^= y[k]
            n[j] = v
        st = n
    return st


def _tobits(perm, by):
    st = [0] * perm.nbits
    for b, v in enumerate(by):
        for i in range(8):
            st[perm.bytepos(b, i)] = (v >> i) & 1
    return st


def _tobytes(perm, st, n=None):
    return bytes(sum(st[perm.bytepos(b, i)] << i for i in range(8)) for b in range(n or perm.nbytes))


def c_rk(alg, k, iv, y):
    p = alg.perm
    st = _tobits(p, k + iv + bytes(p.nbytes - 24))
    st = run_concrete(p, st, alg.sK)
    for t in range(128):
        st[p.bytepos(0, 7)] ^= (y[t // 8] >> (7 - t % 8)) & 1
        st = run_concrete(p, st, alg.sB if t < 127 else alg.sK)
    return _tobytes(p, st)


def c_blocks(m, rate):
    m = m + b'\x80'
    m += bytes(-len(m) % rate)
    return [m[i:i + rate] for i in range(0, len(m), rate)]


def c_mac(alg, k, n, ad, c):
    p = alg.perm
    st = run_concrete(p, _tobits(p, n + alg.IV_A + bytes(p.nbytes - 24)), alg.sH)

    def absorb(st, s):
        for blk in c_blocks(s, alg.rate):
            x = _tobits(p, blk + bytes(p.nbytes - alg.rate))
            st = run_concrete(p, [a ^ b for a, b in zip(st, x)], alg.sH)
        return st
    st = absorb(st, ad)
    st[p.bytepos(p.nbytes - 1, 0)] ^= 1
    st = absorb(st, c)
    by = _tobytes(p, st)
    ka = c_rk(alg, k, alg.IV_KA, by[:16])[:16]
    st = run_concrete(p, _tobits(p, ka + by[16:]), alg.sH)
    return _tobytes(p, st, 16)


def c_enc(alg, k, n, m):
    p = alg.perm
    st = _tobits(p, c_rk(alg, k, alg.IV_KE, n)[:p.nbytes - 16] + n)
    out = b''
    for i in range(0, len(m), alg.rate):
        st = run_concrete(p, st, alg.sE)
        ks = _tobytes(p, st, alg.rate)
        out += bytes(a ^ b for a, b in zip(m[i:i + alg.rate], ks))
    return out


def c_hash(m):
    p = PERMS['a']
    st = run_concrete(p, _tobits(p, HASH_IV + bytes(32)), 12)
    for blk in c_blocks(m, 8):
        x = _tobits(p, blk + bytes(32))
        st = run_concrete(p, [a ^ b for a, b in zip(st, x)], 12)
    out = b''
    for i in range(4):
        out += _tobytes(p, st, 8)
        if i < 3:
            st = run_concrete(p, st, 12)
    return out


def _kat(path):
    rec, cur = [], {}
    for l in open(path):
        if ' = ' in l or l.rstrip().endswith('='):
            a, b = l.split('=', 1)
            cur[a.strip()] = b.strip()
        elif cur:
            rec.append(cur)
            cur = {}
    if cur:
        rec.append(cur)
    return rec


def selftest(repo='/repo', counts=(1, 2, 40, 300, 648, 1089)):
    import os
    n = 0
    for a, alg in ALGS.items():
        f = f'{repo}/crypto_aead/{a}/LWC_AEAD_KAT_128_128.txt'
        rec = {int(r['Count']): r for r in _kat(f)}
        for c in counts:
            r = rec[c]
            k, nn, pt, ad, ct = (bytes.fromhex(r[x]) for x in ('Key', 'Nonce', 'PT', 'AD', 'CT'))
            e = c_enc(alg, k, nn, pt)
            assert e + c_mac(alg, k, nn, ad, e) == ct, (a, c)
            n += 1
    f = f'{repo}/crypto_aead_hash/isapa128av20/LWC_HASH_KAT_256.txt'
    for r in _kat(f)[:40]:
        m = bytes.fromhex(r['Msg'])
        assert c_hash(m).hex() == r['MD'].lower()
        n += 1
    return n


# ---------------------------------------------------------------- symbolic evaluation
class Apps:
    """Applications of a permutation to symbolic states.

    atoms: ('z', i, r, j)           chi output j of round r (not the last) of application i
           ('y', chain, t, j)       chi output j of the last round of the node chain[t]
           ('y', ('app', i), 0, j)  the same for an application that is no node of the specification
    """

    def __init__(self, mgr, perm):
        self.m = mgr
        self.p = perm
        self.ids = {}          # (X, R) -> app id
        self.defs = []         # app id -> (X, R)
        self.avars = []        # app id -> index variables
        self.primed = {}       # app id -> final name
        self._out = {}
        self.evicted = set()
        self.owned = {}
        self.recent = []

    def appid(self, X, R):
        k = (X, R)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.defs)
            self.defs.append(k)
            vs = set()
            for p in X:
                for a in p:
                    v = self.m.lv.get(a)
                    if v:
                        vs |= v
            self.avars.append(frozenset(vs))
        return i

    def mark(self, i, poly):
        v = self.avars[i]
        if v:
            for a in poly:
                self.m.lv[a] = v
        return poly

    def appsubst(self, d, S):
        """image of the atom d of an application under the substitution S"""
        if d[0] == 'z':
            i = d[1]
            X, R = self.defs[i]
            j = self.appid(S.word(X), R)
            return self.mark(j, self.m.var(('z', j, d[2], d[3])))
        i = d[1][1]
        X, R = self.defs[i]
        X2 = S.word(X)
        j = self.appid(X2, R)
        nm = self.primed.get(j)
        if nm is None:
            nm = (('app', j), 0)
        p = self.m.var(('y',) + nm + (d[3],))
        return self.mark(j, p) if nm[0] == ('app', j) else p

    def out(self, name, R):
        """state after the application whose last-round chi outputs are the atoms ('y',)+name+(j,)"""
        key = (name, R)
        r = self._out.get(key)
        if r is None:
            ys = [self.m.var(('y',) + name + (j,)) for j in range(self.p.nbits)]
            if name[0][0] == 'app':
                for y in ys:
                    self.mark(name[0][1], y)
            r = self._out[key] = self.post(ys, self.p.consts(R)[-1][1])
        return r

    def post(self, y, cs):
        if self.p.name == 'keccakp400':
            o = list(y)
            for j in cs:
                o[j] = o[j] ^ ONE
            return tuple(o)
        out = []
        for j, s in enumerate(self.p.POST):
            v = y[s[0]]
            for k in s[1:]:
                v = v ^ y[k]
            out.append(v)
        for j in cs:
            out[j] = out[j] ^ ONE
        return tuple(out)

    def pre(self, X, cs):
        out = []
        if self.p.name == 'keccakp400':
            # theta via column parities
            col = {}
            for x in range(5):
                for z in range(16):
                    v = X[x * 16 + z]
                    for y in range(1, 5):
                        v = v ^ X[(x + 5 * y) * 16 + z]
                    col[(x, z)] = v
            for j, s in enumerate(self.p.PRE):
                k = s[0]
                x, z = (k // 16) % 5, k % 16
                out.append(X[k] ^ col[((x - 1) % 5, z)] ^ col[((x + 1) % 5, (z - 1) % 16)])
            return out
        for j, s in enumerate(self.p.PRE):
            v = X[s[0]]
            for k in s[1:]:
                v = v ^ X[k]
            out.append(v)
        for j in cs:
            out[j] = out[j] ^ ONE
        return out

    def prime(self, X, R, name):
        """register rewrite rules for the products of all rounds of P_R(X); last round named by name"""
        i = self.appid(X, R)
        if i in self.primed:
            if i not in self.evicted or self.primed[i] != name:
                return False
            self.evicted.discard(i)
        self.primed[i] = name
        self.evict(i, name)
        mine, cds = self.owned[i] = ([], [])
        m = self.m
        cs = self.p.consts(R)
        CHI = self.p.CHI
        S = X
        for r in range(R):
            a = self.pre(S, cs[r][0])
            y = []
            last = r == R - 1
            for j, (p, q) in enumerate(CHI):
                A, B = a[p], a[q]
                base = a[j] ^ B                 # y = a_j + B + A*B
                k = None
                if not A or not B or A == ONE or B == ONE:
                    k = m.AND(A, B)
                else:
                    ca, cb = 0 in A, 0 in B
                    A0 = A ^ ONE if ca else A
                    B0 = B ^ ONE if cb else B
                    lin = ZERO
                    if ca:
                        lin = lin ^ B0
                    if cb:
                        lin = lin ^ A0
                    if ca and cb:
                        lin = lin ^ ONE
                    # A*B = A0*B0 + lin
                    if A0 == B0:
                        k = A0 ^ lin
                    else:
                        e = m.known(A0, B0)
                        if e is not None:
                            k = e ^ lin
                if k is not None:
                    if last:
                        d = ('y',) + name + (j,)
                        if d in m.ids:
                            v = m.var(d)
                            if v != base ^ k:
                                raise RuntimeError('specification atom already in use')
                        elif d not in m.aliases:
                            m.define(d, base ^ k)
                    else:
                        y.append(base ^ k)
                    continue
                v = m.var(('y',) + name + (j,)) if last else self.mark(i, m.var(('z', i, r, j)))
                # A0*B0 = v + a_j + B + A*B + A0*B0, kept as a lazy sum of shared polys
                val = [v, a[j]]
                if not ca:
                    val.append(B)
                if cb:
                    val.append(A0)
                m.add_rule(A0, B0, tuple(val), r == 0)
                mine.append((A0, B0, r))
                if len(v) == 1:
                    for t in v:
                        m.chidef[t] = (A0, (a[j], B) if ca else (a[j],))
                        cds.append(t)
                y.append(v)
            if last:
                break
            S = self.post(y, cs[r][1])
        return True

    KEEP = 6

    def evict(self, i, name):
        """forget the rules of applications far behind in a re-keying chain (they are registered again on demand)"""
        if name[0][1] != 'R':
            return
        q = self.recent
        q.append(i)
        while len(q) > self.KEEP:
            j = q.pop(0)
            if j in q:
                continue
            ks, cds = self.owned.pop(j)
            m = self.m
            for a, b, r in ks:
                m.drop_rule(a, b)
            for a, b, r in ks:
                if r:
                    m.pk.pop(a, None)
                    m.pk.pop(b, None)
            for t in cds:
                m.chidef.pop(t, None)
                d = m.atoms[t]
                if d[0] == 'z':
                    # the number stays reserved; the description is interned again if it is ever needed
                    m.ids.pop(d, None)
                    m.singletons.pop(t, None)
            self.evicted.add(j)

    def generic(self, X, R):
        i = self.appid(X, R)
        nm = self.primed.get(i)
        if nm is not None:
            return self.out(nm, R)
        return self.out((('app', i), 0), R)


if __name__ == '__main__':
    import time
    t = time.time()
    print('kat', selftest(), time.time() - t)
