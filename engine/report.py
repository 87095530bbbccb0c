"""Counterexamples: turns a failed obligation into a concrete input where that is possible.

A failure is `definite` when an assignment of the path's lengths, of the input bits and of the (arbitrary) outputs of
permutation calls exists under which the path is taken and the obligation is false."""
import random, hashlib, time
import z3
from lin import Lin, model, lvars

W = 256                      # random assignments evaluated at a time


class Eval:
    def __init__(self, mgr, m, seed, fixed=None):
        self.mgr, self.m, self.seed = mgr, m, seed
        self.memo = {}
        self.fixed = fixed or {}
        self.leaves = {}

    def lin(self, x):
        if isinstance(x, Lin):
            return x.c + sum(k * self.m.get(v, 0) for v, k in x.t)
        if isinstance(x, tuple):
            return tuple(self.lin(y) for y in x)
        return x

    def key(self, d):
        if any(isinstance(x, frozenset) for x in d):
            return None
        # without a model every atom stays an independent unknown
        return d if self.m is None else self.lin(d)

    def atom(self, i):
        r = self.memo.get(i)
        if r is None:
            d = self.mgr.atoms[i]
            if i == 0:
                r = (1 << W) - 1
            elif d[0] == 'and':
                r = self.poly(d[1]) & self.poly(d[2])
            else:
                k = self.key(d)
                if k is None:
                    k = ('atom', i)
                if k in self.fixed:
                    r = ((1 << W) - 1) * self.fixed[k]
                else:
                    h = hashlib.sha256(repr((self.seed, k)).encode()).digest()
                    r = int.from_bytes(h, 'little')
                self.leaves[k] = r
            self.memo[i] = r
        return r

    def poly(self, p):
        # iterative post-order to avoid deep recursion
        stack = [p]
        seen = set()
        while stack:
            q = stack[-1]
            todo = []
            for i in q:
                if i and i not in self.memo:
                    d = self.mgr.atoms[i]
                    if d[0] == 'and' and i not in seen:
                        seen.add(i)
                        todo += [d[1], d[2]]
            if not todo:
                stack.pop()
                for i in q:
                    self.atom(i)
            else:
                stack += todo
        r = 0
        for i in p:
            r ^= self.atom(i)
        return r


class Exact(Eval):
    """evaluation in which the outputs of permutation applications are computed"""

    def __init__(self, apps, seed):
        Eval.__init__(self, apps.m, None, seed)
        self.apps = apps
        self.names = {nm: i for i, nm in apps.primed.items()}
        self.runs = {}

    def atom(self, i):
        d = self.mgr.atoms[i] if i else None
        if i and i not in self.memo and d[0] in ('z', 'y'):
            if d[0] == 'z':
                a, r, j = d[1], d[2], d[3]
            else:
                a = self.names.get((d[1], d[2]), d[1][1] if d[1][0] == 'app' else None)
                r, j = -1, d[3]
            if a is not None:
                self.memo[i] = self.run(a)[r][j]
        return Eval.atom(self, i)

    def run(self, a):
        """chi outputs of every round of application a"""
        x = self.runs.get(a)
        if x is None:
            X, R = self.apps.defs[a]
            p = self.apps.p
            S = [self.poly(q) for q in X]
            full = (1 << W) - 1
            x = []
            for pre, post in p.consts(R):
                v = []
                for j, s in enumerate(p.PRE):
                    t = full if j in pre else 0
                    for k in s:
                        t ^= S[k]
                    v.append(t)
                y = [v[j] ^ ((full ^ v[q]) & v[w]) for j, (q, w) in enumerate(p.CHI)]
                x.append(y)
                S = []
                for j, s in enumerate(p.POST):
                    t = full if j in post else 0
                    for k in s:
                        t ^= y[k]
                    S.append(t)
            self.runs[a] = x
        return x


def kinds(mgr, ps):
    """leaf kinds occurring in the polynomials"""
    out, todo, seen = set(), list(ps), set()
    while todo:
        for i in todo.pop():
            if i in seen:
                continue
            seen.add(i)
            d = mgr.atoms[i]
            if d[0] == 'and':
                todo += [d[1], d[2]]
            else:
                out.add(d[0])
    return out


def zsolve(mgr, m, eqs, ms=20000):
    """eqs: [(poly, value)] -> {leaf key: bit} or None / 'unsat'"""
    E = Eval(mgr, m, 0)
    memo, leaf = {}, {}

    def atom(i):
        r = memo.get(i)
        if r is None:
            d = mgr.atoms[i]
            if i == 0:
                r = z3.BoolVal(True)
            elif d[0] == 'and':
                r = z3.And(poly(d[1]), poly(d[2]))
            else:
                k = E.key(d) or ('atom', i)
                r = leaf.get(k)
                if r is None:
                    r = leaf[k] = z3.Bool(str(len(leaf)))
            memo[i] = r
        return r

    def poly(p):
        r = None
        for i in p:
            r = atom(i) if r is None else z3.Xor(r, atom(i))
        return z3.BoolVal(False) if r is None else r
    s = z3.Solver()
    s.set('timeout', ms)
    for p, v in eqs:
        s.add(poly(p) if v else z3.Not(poly(p)))
    r = s.check()
    if r == z3.unsat:
        return 'unsat'
    if r != z3.sat:
        return None
    mo = s.model()
    return {k: int(z3.is_true(mo.eval(x, model_completion=True))) for k, x in leaf.items()}


def inputs(leaves, bit):
    """{object: {offset: byte}} from assigned input bits"""
    out = {}
    for k, v in leaves.items():
        if k[0] == 'in' and isinstance(k[2], int):
            b = (v >> bit) & 1
            o = out.setdefault(k[1], {})
            o[k[2]] = o.get(k[2], 0) | (b << k[3])
    return out


def analyse(ctx, f):
    mgr = ctx.mgr
    d = {'kind': f.kind, 'unit': getattr(f, 'unit', '?'), 'fn': f.fn, 'line': f.line, 'msg': f.msg, 'definite': False,
         'why': '', 'lens': {}, 'inputs': {}}
    if getattr(f, 'ready', None):
        d.update(f.ready)
        return d
    try:
        m = model(f.cons) if f.cons else {}
        if m is None:
            d['why'] = 'the path condition has no model'
            return d
        E = Eval(mgr, m, 0)
        d['lens'] = {k: E.lin(v) for k, v in f.lens.items()}
        x = f.extra
        eqs = [(q, v) for q, v in f.bconds]
        d['conds'] = len(eqs)
        pairs = None
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'diff':
            pairs = [(a ^ b) for a, b in zip(x[1], x[2]) if a != b]
        ps = [q for q, _ in eqs] + (pairs or [])
        if isinstance(x, frozenset):
            ps.append(x)
        if isinstance(x, tuple) and len(x) == 2 and x[0] in ('accept', 'reject') and isinstance(x[1], dict):
            d['model'] = x[1]
            if x[1].get('free'):
                d['why'] = 'the decision also depends on other data'
        ks = kinds(mgr, ps)
        d['leafkinds'] = sorted(ks)
        if 'hv' in ks:
            d['why'] = 'over-approximated values are involved'
            return d
        if not eqs and pairs is None:
            d['definite'] = True
            return d
        if pairs is None and f.kind in ('secret-branch', 'secret-addr', 'vartime', 'decision', 'decision-reject'):
            pass
        for seed in range(4):
            E = Eval(mgr, m, seed)
            ok = (1 << W) - 1
            for q, v in eqs:
                e = E.poly(q)
                ok &= e if v else ~e
            if pairs is not None and ok:
                df = 0
                for p in pairs:
                    df |= E.poly(p)
                ok &= df
            ok &= (1 << W) - 1
            if ok:
                bit = (ok & -ok).bit_length() - 1
                d['inputs'] = inputs(E.leaves, bit)
                d['definite'] = True
                return d
        unk = False
        end = time.time() + 25
        for p in (pairs[:8] if pairs is not None else [None]):
            left = int(1000 * (end - time.time()))
            r = zsolve(mgr, m, eqs + ([(p, 1)] if p is not None else []), min(20000, left)) if left > 500 else None
            if r is None:
                unk = True
            elif r != 'unsat':
                d['inputs'] = inputs({k: v for k, v in r.items()}, 0)
                d['definite'] = True
                return d
        if pairs is not None and len(pairs) > 8:
            unk = True
        d['why'] = 'solver gave no answer' if unk else 'no assignment falsifies the obligation'
        if not unk:
            d['refuted'] = True
        return d
    except RecursionError:
        d['why'] = 'formula too deep'
        return d
