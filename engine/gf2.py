"""Bit-level value domain: GF(2) polynomials over interned atoms.

A bit is a frozenset of atom ids, read as the XOR of these atoms; atom 0 is the
constant 1.  Equality of frozensets is equality of the linear form.  Nonlinear
terms are atoms ('and', a, b) whose operands are canonical bits.  Rewrite rules
registered by the specification (see spec.py: prime) replace the products that
the specification computes, so that an implementation which inlines a
permutation is folded back to the specification's state bits as it executes.
"""
from lin import Lin

ZERO = frozenset()
ONE = frozenset((0,))
CB = (ZERO, ONE)


def xorall(ps):
    r = ps[0]
    for p in ps[1:]:
        r = r ^ p
    return r


class RawLimit(Exception):
    pass


class Mgr:
    def __init__(self):
        self.atoms = [('one',)]
        self.ids = {('one',): 0}
        self.pk = {}           # poly -> small int, for canonical ordering
        self.rules = {}        # (poly,poly) -> polys whose sum is the product (rounds after the first)
        self.rules0 = {}       # the same for products of first rounds
        self.partners = {}     # poly -> set(poly)
        self.prime_hook = None
        self.raw_ands = 0      # products created without a rule
        self.singletons = {}
        self.aliases = {}      # desc -> poly
        self.lv = {}           # atom id -> frozenset of index variables in it
        self.raw_limit = None
        self.chidef = {}       # atom id of a chi output y = u + (1+v)w -> (const-free v, y on v0=1)

    # -- atoms
    def atom(self, desc):
        i = self.ids.get(desc)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(desc)
            self.ids[desc] = i
            v = self.descvars(desc)
            if v:
                self.lv[i] = v
        return i

    def descvars(self, d):
        out = ()
        for x in d:
            if isinstance(x, Lin):
                out += tuple(v for v, _ in x.t)
            elif isinstance(x, frozenset):
                for a in x:
                    if a in self.lv:
                        out += tuple(self.lv[a])
            elif isinstance(x, tuple):
                out += tuple(self.descvars(x))
        return frozenset(out)

    def define(self, desc, poly):
        if desc in self.ids or desc in self.aliases:
            raise ValueError('redefinition ' + repr(desc))
        self.aliases[desc] = poly

    def known(self, a, b):
        """value of the product of two constant-free polys if a rule or an atom exists"""
        if self.key(a) > self.key(b):
            a, b = b, a
        r = self.rules.get((a, b)) or self.rules0.get((a, b))
        if r is not None:
            return xorall(r)
        i = self.ids.get(('and', a, b))
        if i is not None:
            return self.singletons[i]
        return None

    def var(self, desc):
        if desc in self.aliases:
            return self.aliases[desc]
        i = self.atom(desc)
        p = self.singletons.get(i)
        if p is None:
            p = self.singletons[i] = frozenset((i,))
        return p

    def key(self, p):
        k = self.pk.get(p)
        if k is None:
            k = self.pk[p] = len(self.pk)
        return k

    # -- products
    def AND(self, a, b):
        if not a or not b:
            return ZERO
        if a == ONE:
            return b
        if b == ONE:
            return a
        ca = 0 in a
        cb = 0 in b
        if ca:
            a0 = a ^ ONE
        else:
            a0 = a
        if cb:
            b0 = b ^ ONE
        else:
            b0 = b
        r = self.prod(a0, b0)
        if cb:
            r = r ^ a0
        if ca:
            r = r ^ b0
        if ca and cb:
            r = r ^ ONE
        return r

    def prod(self, a, b):
        """product of two constant-free nonconstant polys"""
        if a == b:
            return a
        ka, kb = self.key(a), self.key(b)
        if ka > kb:
            a, b = b, a
        r = self.rules.get((a, b))
        if r is not None:
            return xorall(r)
        r = self.rules0.get((a, b))
        if r is not None:
            # a first-round product: the specification may have to follow, even though this product is known
            if self.prime_hook is not None:
                self.prime_hook(a, b)
            return xorall(r)
        aid = self.ids.get(('and', a, b))
        if aid is not None:
            return self.singletons[aid]
        if self.prime_hook is not None and self.prime_hook(a, b):
            r = self.rules.get((a, b)) or self.rules0.get((a, b))
            if r is not None:
                return xorall(r)
        # {a,b,a+b} span: a*b determines all three products
        s = a ^ b
        sc = 0 in s
        s0 = s ^ ONE if sc else s     # never has a constant here (a,b const free)
        r = self._rule(a, s0)
        if r is not None:
            return r ^ a              # a*s = a + ab
        r = self._rule(b, s0)
        if r is not None:
            return r ^ b
        # absorb: a * (a*z) = a*z
        r = self._absorb(a, b)
        if r is not None:
            return r
        r = self._absorb(b, a)
        if r is not None:
            return r
        r = self._chi(a, b)
        if r is not None:
            return r
        r = self._chi(b, a)
        if r is not None:
            return r
        r = self._split(a, b)
        if r is not None:
            return r
        r = self._split(b, a)
        if r is not None:
            return r
        self.raw_ands += 1
        if self.raw_limit is not None and self.raw_ands > self.raw_limit:
            raise RawLimit()
        return self.var(('and', a, b))

    def _rule(self, a, b):
        if self.key(a) > self.key(b):
            a, b = b, a
        r = self.rules.get((a, b)) or self.rules0.get((a, b))
        return None if r is None else xorall(r)

    def _absorb(self, a, b):
        """b contains and-atoms having factor a"""
        hit = None
        for i in b:
            d = self.atoms[i]
            if d[0] == 'and' and (d[1] == a or d[2] == a):
                hit = hit or []
                hit.append(i)
        if not hit:
            return None
        m = frozenset(hit)
        rest = b ^ m
        return (self.AND(a, rest)) ^ m

    def _chi(self, a, b):
        """a*b where b contains a chi output y = u + (1+v)w and a is v: a*y = a*u"""
        for i in b:
            d = self.chidef.get(i)
            if d is not None and d[0] == a:
                return self.AND(a, b ^ frozenset((i,)) ^ xorall(d[1]))
        return None

    def _split(self, q, p):
        """q*p where p = r1 + r2 (+q) with known products q*r1, q*r2"""
        ps = self.partners.get(q)
        if not ps:
            return None
        for cand, extra in ((p, ZERO), (p ^ q, q)):
            for r in ps:
                o = cand ^ r
                if 0 in o:
                    o = o ^ ONE
                    add = q
                else:
                    add = ZERO
                if o in ps or not o or o == q:
                    t = self._rule(q, r)
                    u = self._rule(q, o) if (o and o != q) else (o if o == q else ZERO)
                    if t is not None and u is not None:
                        return t ^ u ^ add ^ extra
        return None

    def add_rule(self, a, b, r, first=False):
        """a, b: constant free, nonconstant, distinct polys; a*b == sum of the polys in r (lazily added)"""
        if self.key(a) > self.key(b):
            a, b = b, a
        (self.rules0 if first else self.rules)[(a, b)] = r
        self.partners.setdefault(a, set()).add(b)
        self.partners.setdefault(b, set()).add(a)

    def drop_rule(self, a, b):
        if self.key(a) > self.key(b):
            a, b = b, a
        if self.rules.pop((a, b), None) is None:
            self.rules0.pop((a, b), None)
        for x, y in ((a, b), (b, a)):
            ps = self.partners.get(x)
            if ps is not None:
                ps.discard(y)
                if not ps:
                    del self.partners[x]

    def OR(self, a, b):
        return a ^ b ^ self.AND(a, b)

    # -- words (tuples of bits, LSB first)
    def const(self, v, w):
        return tuple([CB[(v >> i) & 1] for i in range(w)])

    def vars(self, prefix, w):
        return tuple([self.var(prefix + (i,)) for i in range(w)])

    def wand(self, a, b):
        A = self.AND
        return tuple([A(x, y) for x, y in zip(a, b)])

    def wor(self, a, b):
        A = self.AND
        return tuple([x ^ y ^ A(x, y) for x, y in zip(a, b)])

    def wxor(self, a, b):
        return tuple([x ^ y for x, y in zip(a, b)])

    def wnot(self, a):
        return tuple([x ^ ONE for x in a])

    def wadd(self, a, b, cin=ZERO):
        out = []
        c = cin
        for x, y in zip(a, b):
            s = x ^ y
            out.append(s ^ c)
            # carry = xy + c(x^y)
            if not c:
                c = self.AND(x, y)
            else:
                c = self.AND(x, y) ^ self.AND(c, s)
        return tuple(out)

    def weq(self, a, b):
        r = ONE
        for x, y in zip(a, b):
            d = x ^ y ^ ONE
            r = self.AND(r, d)
            if not r:
                return ZERO
        return r

    def ite(self, c, a, b):
        return tuple([y ^ self.AND(c, x ^ y) for x, y in zip(a, b)])


def as_int(t):
    """int if all bits constant, else None"""
    v = 0
    for i, p in enumerate(t):
        if p:
            if p == ONE:
                v |= 1 << i
            else:
                return None
    return v


class Subst:
    """Substitute linear expressions for index variables inside atoms."""

    def __init__(self, mgr, lmap, appsubst=None):
        self.mgr = mgr
        self.lmap = lmap
        self.vars = frozenset(lmap)
        self.am = {}
        self.pm = {}
        self.appsubst = appsubst

    def lin(self, l):
        if isinstance(l, int):
            return l
        for v, _ in l.t:
            if v in self.vars:
                return l.subst(self.lmap)
        return l

    def walk(self, x):
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, frozenset):
            return self.poly(x)
        if isinstance(x, tuple):
            return tuple([self.walk(y) for y in x])
        return x

    def atom(self, i):
        """-> poly"""
        r = self.am.get(i)
        if r is None:
            m = self.mgr
            lv = m.lv.get(i)
            if lv is None or not (lv & self.vars):
                r = m.singletons.get(i)
                if r is None:
                    r = m.singletons[i] = frozenset((i,))
            else:
                d = m.atoms[i]
                if d[0] == 'and':
                    r = m.AND(self.poly(d[1]), self.poly(d[2]))
                elif d[0] == 'z' or (d[0] == 'y' and type(d[1]) is tuple and d[1][0] == 'app'):
                    r = self.appsubst(d, self)
                else:
                    r = m.var(tuple([self.walk(x) for x in d]))
            self.am[i] = r
        return r

    def poly(self, p):
        r = self.pm.get(p)
        if r is None:
            lvs = self.mgr.lv
            hit = [i for i in p if i in lvs and lvs[i] & self.vars]
            if not hit:
                r = p
            else:
                r = p.difference(hit)
                for i in hit:
                    r = r ^ self.atom(i)
            self.pm[p] = r
        return r

    def word(self, t):
        return tuple([self.poly(p) for p in t])
