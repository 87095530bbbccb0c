"""Linear integer expressions over symbolic lengths / iteration counters and a
small decision layer over z3 (linear integer arithmetic)."""
import z3


class Lin:
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t, c):
        self.t = t      # sorted tuple of (var, coef), coef != 0
        self.c = c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        s = ' + '.join((f'{k}*{v}' if k != 1 else v) for v, k in self.t)
        if self.c:
            s += f' + {self.c}'
        return '<' + s + '>'

    def subst(self, m):
        r = self.c
        for v, k in self.t:
            e = m.get(v)
            if e is None:
                r = ladd(r, Lin(((v, k),), 0))
            else:
                r = ladd(r, lmul(e, k))
        return r


def mk(t, c):
    if not t:
        return c
    return Lin(t, c)


def lvar(v):
    return Lin(((v, 1),), 0)


def ladd(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        if a == 0:
            return b
        return Lin(b.t, b.c + a)
    if isinstance(b, int):
        if b == 0:
            return a
        return Lin(a.t, a.c + b)
    d = dict(a.t)
    for v, k in b.t:
        n = d.get(v, 0) + k
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return mk(tuple(sorted(d.items())), a.c + b.c)


def lmul(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(tuple((v, c * k) for v, c in a.t), a.c * k)


def lsub(a, b):
    return ladd(a, lmul(b, -1))


def lvars(a):
    return () if isinstance(a, int) else tuple(v for v, _ in a.t)


class Stats:
    z3_queries = 0
    z3_time = 0.0
    quick = 0


_zv = {}


def zlin(a):
    if isinstance(a, int):
        return z3.IntVal(a)
    s = []
    for v, k in a.t:
        x = _zv.get(v)
        if x is None:
            x = _zv[v] = z3.Int(v)
        s.append(x if k == 1 else x * k)
    if a.c:
        s.append(z3.IntVal(a.c))
    return z3.Sum(s) if len(s) > 1 else s[0]


_cache = {}


def sat(cons):
    """cons: iterable of Lin f meaning f >= 0.  True/False/None(unknown)"""
    import time
    cs = frozenset(c for c in cons if not (isinstance(c, int) and c >= 0))
    for c in cs:
        if isinstance(c, int) and c < 0:
            return False
    r = _cache.get(cs)
    if r is None:
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 20000)
        for c in cs:
            s.add(zlin(c) >= 0)
        q = s.check()
        Stats.z3_queries += 1
        Stats.z3_time += time.time() - t
        r = 'sat' if q == z3.sat else 'unsat' if q == z3.unsat else 'unknown'
        _cache[cs] = r
    return True if r == 'sat' else False if r == 'unsat' else None


def model(cons, prefer=()):
    s = z3.Solver()
    s.set('timeout', 20000)
    for c in cons:
        s.add(zlin(c) >= 0)
    if s.check() != z3.sat:
        return None
    # prefer small models
    vs = sorted({v for c in cons for v in lvars(c)})
    lo, m = 32, None
    for bound in (64, 512, 70000, 1 << 34):
        m = bounded(s, vs, bound)
        if m is not None:
            # halve the distance a few times
            for _ in range(4):
                mid = (lo + bound) // 2
                m2 = bounded(s, vs, mid) if mid > lo else None
                if m2 is None:
                    lo = mid
                else:
                    m, bound = m2, mid
            break
        lo = bound
    else:
        s.check()
        m = s.model()
    return {v: (m.eval(zlin(lvar(v)), model_completion=True).as_long()) for v in vs}


def bounded(s, vs, bound):
    s.push()
    for v in vs:
        s.add(zlin(lvar(v)) <= bound)
    m = s.model() if s.check() == z3.sat else None
    s.pop()
    return m


def connected(cons, vs):
    """constraints (transitively) sharing variables with vs"""
    vs = set(vs)
    rest = [(c, set(lvars(c))) for c in cons]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for c, s in rest:
            if s & vs:
                out.append(c)
                vs |= s
                ch = True
            else:
                nr.append((c, s))
        rest = nr
    return out


def decide(cons, f):
    """Is f >= 0 implied (True), refuted (False) or open (None) under cons?"""
    if isinstance(f, int):
        return f >= 0
    nf = lsub(-1, f)
    for g in cons:
        if not isinstance(g, int):
            if g.t == f.t:
                if f.c >= g.c:
                    Stats.quick += 1
                    return True
            elif g.t == nf.t:
                if nf.c >= g.c:
                    Stats.quick += 1
                    return False
    rel = connected(cons, lvars(f))
    if sat(rel + [nf]) is False:
        return True
    if sat(rel + [f]) is False:
        return False
    return None


def implied(cons, f):
    if isinstance(f, int):
        return f >= 0
    for g in cons:
        if not isinstance(g, int) and g.t == f.t and f.c >= g.c:
            Stats.quick += 1
            return True
    return sat(connected(cons, lvars(f)) + [lsub(-1, f)]) is False
