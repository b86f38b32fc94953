"""Normal forms of value-graph terms: generalised polynomials with rational exponents over atoms, idempotent 0/1 atoms for
conditions, algebraic power atoms, and sums split into single-monomial bodies.  Two terms with the same normal form denote
the same function of the program's inputs; the normal form of a difference being 0 is the proof of an equality obligation."""
import time
from fractions import Fraction
from . import nodes as nd
from .nodes import *

F1 = Fraction(1)
BUDGET = 30             # seconds for one equality; beyond it the obligation is treated as too large


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ('key', 'id', 'kind', 'node', 'dat')

    def __repr__(self):
        return 'A%d:%s' % (self.id, show(self.node) if self.node is not None else self.key)


BOOLK = {'gt', 'eq', 'is', 'b', 'igt'}


class Ctx:
    """normalisation context: assumptions are names of positive quantities and truth values of conditions"""
    def __init__(self, positive=(), limit=60000, opaque_sums=False):
        self.opaque_sums = opaque_sums
        self.tab = {}
        self.pos_names = positive if callable(positive) else (lambda n, s=frozenset(positive): n.op == 'sym' and n.a[0] in s)
        self.memo = {}
        self.limit = limit
        self.mmemo = {}
        self.imp = {}
        self.leadmemo = {}
        self.known = []
        self.deadline = float('inf')
        self.assume = {}    # atom id -> 0/1

    # ---- atoms
    def atom(self, kind, key, node, dat=None):
        k = (kind, key)
        a = self.tab.get(k)
        if a is None:
            a = Atom()
            a.key, a.kind, a.node, a.dat, a.id = k, kind, node, dat, len(self.tab)
            self.tab[k] = a
        return a

    def pk(self, p):
        """hashable key of a polynomial"""
        return tuple(sorted(((tuple((a.id, e) for a, e in m), c) for m, c in p.items())))

    # ---- polynomials: {((atom, exp), ...) sorted by atom id: coef}
    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def padd(self, p, q, k=F1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pscale(self, p, k):
        return {m: c * k for m, c in p.items()} if k else {}

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > self.limit * 4:
            raise TooBig('product of %d and %d terms' % (len(p), len(q)))
        r = {}
        for m1, c1 in p.items():
            if time.monotonic() > self.deadline:
                raise TooBig('more than %d s' % BUDGET)
            for m2, c2 in q.items():
                t = self.mmul(m1, m2)
                cc = c1 * c2
                for m, c in t.items():
                    v = r.get(m, 0) + c * cc
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
            if len(r) > self.limit:
                raise TooBig('polynomial with %d terms' % len(r))
        return r

    def mmul(self, m1, m2):
        if not m1:
            return {m2: F1}
        if not m2:
            return {m1: F1}
        k = (m1, m2)
        r = self.mmemo.get(k)
        if r is None:
            d = dict(m1)
            for a, e in m2:
                d[a] = d.get(a, 0) + e
            r = self.reduce(d)
            self.mmemo[k] = r
        return r

    def reduce(self, d):
        """canonical polynomial of a product of atoms"""
        # idempotent and exclusive conditions
        seen_is = {}
        for a in list(d):
            if d[a] == 0:
                del d[a]
                continue
            k = a.kind
            if k in BOOLK:
                d[a] = F1
                v = self.assume.get(a.id)
                if v is not None:
                    if v == 0:
                        return {}
                    del d[a]
                    continue
                if k == 'is':
                    t = a.dat[0]
                    if seen_is.setdefault(t, a) is not a:
                        return {}
                elif k == 'gt':
                    e = self.tab.get(('eq', a.key[1]))
                    if e is not None and e in d:
                        return {}
        # implied and contradictory comparisons
        gs = [a for a in d if a.kind == 'gt']
        for x in range(len(gs)):
            for y in range(x + 1, len(gs)):
                a, b = gs[x], gs[y]
                if a not in d or b not in d:
                    continue
                r = self.imply(a, b)
                if r == 0:
                    return {}
                if r == 1:
                    del d[b]
                elif r == 2:
                    del d[a]
        for e in [a for a in d if a.kind == 'eq'] if gs else ():
            for a in gs:
                if a in d:
                    r = self.imply_eq(e.dat, a.dat)
                    if r == 0:
                        return {}
                    if r == 1:
                        del d[a]
        # powers of sums
        for a in sorted(d, key=lambda x: x.id):
            if a.kind == 'pow':
                q = d[a]
                base = a.dat
                if q > 0:
                    n = int(-(-q // 1))
                    d2 = dict(d)
                    d2[a] = q - n
                    r = self.reduce(d2)
                    b = self.ppow_int(base, n)
                    return self.pmul(r, b)
                if q <= -1:
                    lm, lc, units = self.lead_laurent(base)
                    if not lm:
                        if len(base) == 1:      # power of a number
                            d2 = dict(d)
                            d2[a] = q + 1
                            return self.pscale(self.reduce(d2), 1 / lc)
                        continue
                    if all(x in units or x in d and (d[x] >= e if e > 0 else d[x] <= e) for x, e in lm):
                        d2 = dict(d)
                        for x, e in lm:
                            d2[x] = d2.get(x, 0) - e
                        d3 = dict(d2)
                        d3[a] = q + 1
                        r = self.pscale(self.reduce(d3), 1 / lc)
                        rest = {m: c for m, c in base.items() if m != lm}
                        return self.padd(r, self.pmul(self.reduce(d2), rest), -1 / lc)
        # x * [x-stuff == 0]
        for a in list(d):
            if a.kind == 'eq':
                base = a.dat
                lm, lc = self.lead(base)
                if lm and all(e > 0 for x, e in lm) and all(x in d and d[x] >= e for x, e in lm):
                    d2 = dict(d)
                    for x, e in lm:
                        d2[x] = d2[x] - e
                    rest = {m: c for m, c in base.items() if m != lm}
                    return self.pmul(self.reduce(d2), self.pscale(rest, -1 / lc)) if rest else {}
        return {tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id)): F1}

    def imply(self, a, b):
        """1: a > 0 implies b > 0; 2: b implies a; 0: both cannot hold"""
        k = (a.id, b.id)
        if self.known:
            return self.imply0(a.dat, b.dat)
        r = self.imp.get(k)
        if r is None:
            r = self.imp[k] = self.imply0(a.dat, b.dat)
        return r

    def imply0(self, p, q):
        for m, c in p.items():
            if m and m in q:
                l = q[m] / c
                break
        else:
            return -1
        d = self.padd(q, p, -l)         # q - l p
        if l > 0:
            if not d or self.ispos(d):
                return 1
            if self.ispos(self.pscale(d, -F1)):
                return 2
            return -1
        # q + |l| p
        if not d or self.ispos(self.pscale(d, -F1)):
            return 0
        return -1

    def imply_eq(self, p, q):
        """1: p == 0 implies q > 0; 0: p == 0 implies q <= 0"""
        for m, c in p.items():
            if m and m in q:
                d = self.padd(q, p, -q[m] / c)
                if self.ispos(d):
                    return 1
                if not d or self.ispos(self.pscale(d, -F1)):
                    return 0
                return -1
        return -1

    def lead_laurent(self, p):
        """leading monomial of p over the ring in which positive inputs are invertible"""
        key = self.pk(p)
        r = self.leadmemo.get(key)
        if r is None:
            U = {a for m in p for a, e in m if a.kind == 'x' and self.positive_atom(a)}

            def nu(m):
                return tuple((a, e) for a, e in m if a not in U)
            g = {}
            for m in p:
                g.setdefault(nu(m), []).append(m)
            t = max(g, key=lambda m: (sum(e for _, e in m), tuple((-a.id, e) for a, e in m)))
            if t and len(g[t]) == 1:
                m = g[t][0]
                r = (m, p[m], U)
            else:
                m, c = self.lead(p)
                r = (m, c, ())
            self.leadmemo[key] = r
        return r

    def lead(self, p):
        m = max(p, key=lambda m: (sum(e for _, e in m), tuple((-a.id, e) for a, e in m)))
        return m, p[m]

    def ppow_int(self, p, n):
        r = {(): F1}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def boolatom_in(self, p):
        best = None
        for m in p:
            for a, e in m:
                if a.kind in BOOLK and (best is None or a.id < best.id):
                    best = a
        return best

    def cofactor(self, p, a, v):
        r = {}
        for m, c in p.items():
            if any(x is a for x, _ in m):
                if not v:
                    continue
                m = tuple(t for t in m if t[0] is not a)
            else:
                if v:
                    # other enumerators are excluded once one holds; gt excludes eq
                    if a.kind == 'is' and any(x.kind == 'is' and x.dat[0] == a.dat[0] for x, _ in m):
                        continue
                    if a.kind == 'gt' and any(x.kind == 'eq' and x.key[1] == a.key[1] for x, _ in m):
                        continue
                    if a.kind == 'eq' and any(x.kind == 'gt' and x.key[1] == a.key[1] for x, _ in m):
                        continue
            x = r.get(m, 0) + c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    def shannon(self, p, f):
        """f applied to a polynomial free of conditions"""
        a = self.boolatom_in(p)
        if a is None:
            return f(p)
        x = self.under(a, 1, lambda: self.shannon(self.cofactor(p, a, 1), f))
        y = self.under(a, -1, lambda: self.shannon(self.cofactor(p, a, 0), f))
        A = {((a, F1),): F1}
        return self.padd(y, self.pmul(A, self.padd(x, y, -F1)))

    def shannonN(self, ps, f):
        for i, p in enumerate(ps):
            a = self.boolatom_in(p)
            if a is not None:
                x = self.under(a, 1, lambda: self.shannonN([self.cofactor(q, a, 1) for q in ps], f))
                y = self.under(a, -1, lambda: self.shannonN([self.cofactor(q, a, 0) for q in ps], f))
                A = {((a, F1),): F1}
                return self.padd(y, self.pmul(A, self.padd(x, y, -F1)))
        return f(ps)

    def under(self, a, sign, f):
        """evaluate f knowing the outcome of a comparison"""
        if a.kind != 'gt':
            return f()
        self.known.append((self.prim1(a.dat), sign))
        try:
            return f()
        finally:
            self.known.pop()

    def prim1(self, p):
        lm, lc = self.lead(p)
        return self.pk(self.pscale(p, 1 / lc)), (1 if lc > 0 else -1)

    def sign_known(self, a):
        """sign of a power's base decided by the comparisons in force (a base of 0 is not considered)"""
        if not self.known or a.kind != 'pow':
            return 0
        k, s = self.prim1(a.dat)
        for q, sg in self.known:
            if q[0] == k:
                return q[1] * sg * s
        return 0

    def positive_atom(self, a):
        if a.kind == 'pow':
            return self.sumsq(a.dat) or self.sign_known(a) > 0
        return a.kind == 'x' and a.node is not None and self.pos_names(a.node)

    def sumsq(self, p):
        """non-negative by construction (a sum of even powers, or squares of differences recognised syntactically)"""
        return all(c > 0 and all(e % 2 == 0 or self.positive_atom(a) for a, e in m) for m, c in p.items())

    # ---- powers
    def ppow(self, p, q):
        q = Fraction(q)
        if q == 0:
            return {(): F1}
        if q == 1:
            return p
        if not p:
            return {} if q > 0 else {((self.atom('fn', ('inf', q), fn('inf')), F1),): F1}
        if q.denominator == 1 and q > 0 and (len(p) == 1 or q <= 8):
            return self.ppow_int(p, int(q))
        return self.shannon(p, lambda p: self.ppow0(p, q))

    def ppow0(self, p, q):
        if not p:
            return {} if q > 0 else {((self.atom('fn', ('inf', q), fn('inf')), F1),): F1}
        lm, lc = self.lead(p)
        if len(p) == 1:
            m, c = lm, lc
            out = {}
            keep = []
            sg = []
            for a, e in m:
                if q.denominator == 1 or self.positive_atom(a) or e.denominator != 1:
                    out[a] = e * q
                elif (e / 2).denominator == 1 and (e * q).denominator == 1:
                    out[a] = e * q          # |a|^(e q)
                    if (e * q) % 2:
                        sg.append(a)
                else:
                    keep.append((a, e))
            r = self.reduce(out) if out else {(): F1}
            for a in sg:                    # |a| = a (2 [a > 0] - 1)
                g = self.gt(a.dat if a.kind == 'pow' else {((a, F1),): F1})
                r = self.pmul(r, self.padd(self.pscale(g, Fraction(2)), {(): F1}, -F1))
            k = nd._isq(abs(c) if q.denominator == 1 else c, q) if (c > 0 or q.denominator == 1) else None
            if k is not None:
                if c < 0 and q.denominator == 1 and int(q) % 2:
                    k = -k
                r = self.pscale(r, k)
                c = F1
            if keep or c != 1:
                b = {tuple(keep): c}
                a = self.powatom(b)
                r = self.pmul(r, {((a, q),): F1})
            return r
        # common positive factor
        if q.denominator == 1:
            cand = self.common(p, lambda a: True)
        else:
            cand = self.common(p, self.positive_atom)
        if cand:
            inv = {tuple(sorted(((a, -e) for a, e in cand.items()), key=lambda t: t[0].id)): F1}
            p2 = self.pmul(p, inv)
            r = self.reduce({a: e * q for a, e in cand.items()})
            return self.pmul(r, self.ppow0(p2, q))
        lm, lc = self.lead(p)
        k = None
        if q.denominator == 1:
            k = nd._isq(lc, q)
        elif lc > 0:
            k = nd._isq(lc, q)
        if k is not None and lc != 1:
            return self.pscale(self.ppow0(self.pscale(p, 1 / lc), q), k)
        a = self.powatom(p)
        return self.reduce({a: q})

    def powatom(self, p):
        return self.atom('pow', self.pk(p), self.pnode(p), p)

    def common(self, p, ok):
        """monomial dividing every term (exponent minimum), over allowed atoms"""
        d = None
        for m in p:
            x = {a: e for a, e in m if ok(a) and a.kind not in BOOLK and a.kind != 'pow'}
            if d is None:
                d = x
            else:
                n = {}
                for a in set(d) | set(x):
                    e = min(d.get(a, 0), x.get(a, 0))
                    if e != 0:
                        n[a] = e
                d = n
        return d or {}

    # ---- back to nodes
    def pnode(self, p):
        r = ZERO
        for m, c in p.items():
            t = C(c)
            for a, e in m:
                t = mul(t, pw(a.node if not nd.isbool(a.node) else b2n(a.node), e))
            r = add(r, t)
        return r

    # ---- nodes to polynomials
    def poly(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._poly(n)
            self.memo[n] = r
        return r

    def var(self, a):
        return self.reduce({a: F1})

    def _poly(self, n):
        op, a = n.op, n.a
        if op == 'c':
            return self.const(a[0])
        if op == 'true':
            return {(): F1}
        if op == 'false':
            return {}
        if op == 'sum':
            r = self.const(a[0])
            for x, c in a[1]:
                r = self.padd(r, self.poly(x), c)
            return r
        if op == 'prod':
            r = {(): F1}
            for x, e in a[0]:
                r = self.pmul(r, self.ppow(self.poly(x), e))
            return r
        if op == 'ite':
            c = self.poly(a[0])
            if not c:
                return self.poly(a[2])
            x, y = self.poly(a[1]), self.poly(a[2])
            return self.padd(y, self.pmul(c, self.padd(x, y, -F1)))
        if op == 'not':
            return self.padd({(): F1}, self.poly(a[0]), -F1)
        if op == 'and':
            r = {(): F1}
            for x in sorted(a[0], key=lambda t: (t.op == 'or', t.id)):
                r = self.pmul(r, self.poly(x))
            return r
        if op == 'or':
            r = {(): F1}
            for x in a[0]:
                r = self.pmul(r, self.padd({(): F1}, self.poly(x), -F1))
            return self.padd({(): F1}, r, -F1)
        if op == 'pos':
            return self.shannon(self.poly(a[0]), self.gt)
        if op == 'ipos':
            return self.shannon(self.poly(a[0]), self.igt)
        if op == 'zero':
            t = nd._eqlit(n)
            if t is not None:
                e = nd.enum_of(t[0])
                if e is not None:
                    return self.is_(t[0], t[1], e)
            return self.shannon(self.poly(a[0]), self.eq)
        if op == 'sel':
            A = self.canon_arr(a[0])
            ps = [self.poly(x) for x in a[1]]
            return self.shannonN(ps, lambda ps: self.var(self.atom('x', ('sel', A, tuple(self.pk(p) for p in ps)), mk('sel', a[0], tuple(self.pnode(p) for p in ps)))))
        if op == 'fn':
            ps = [self.poly(x) if isinstance(x, N) and scalar(x) else x for x in a[1]]
            ks = [p if isinstance(p, dict) else None for p in ps]

            def build(qs):
                it = iter(qs)
                args, keys = [], []
                for p, x in zip(ks, a[1]):
                    if p is None:
                        args.append(x)
                        keys.append(x)
                    else:
                        y = next(it)
                        args.append(self.pnode(y))
                        keys.append(self.pk(y))
                return self.fnpoly(a[0], args, keys)
            return self.shannonN([p for p in ks if p is not None], build)
        if op == 'nsum':
            return self.nsum(*a)
        if op in ('bigmax', 'bigmin', 'argmax', 'argmin', 'nprod', 'exists'):
            return self.binder(n)
        if op in ('sym', 'undef', 'rec', 'opaque'):
            return self.var(self.atom('x', n, n))
        if op in ('bsym', 'brec'):
            return self.var(self.atom('b', n, n))
        if op == 'guarded':
            return self.var(self.atom('x', ('guarded', self.pk(self.poly(a[0])), self.pk(self.poly(a[1]))), n))
        return self.var(self.atom('b' if isbool(n) else 'x', n, n))

    def canon_arr(self, A):
        return A

    def fnpoly(self, name, args, keys):
        if name in ('max2', 'min2'):
            i = sorted(range(2), key=lambda k: repr(keys[k]))
            args, keys = [args[k] for k in i], [keys[k] for k in i]
            if keys[0] == keys[1]:
                return self.poly(args[0])
        return self.var(self.atom('x', ('fn', name, tuple(keys)), mk('fn', name, tuple(args))))

    # ---- conditions
    def strip_positive(self, p):
        c = self.common(p, self.positive_atom)
        if c:
            inv = {tuple(sorted(((a, -e) for a, e in c.items()), key=lambda t: t[0].id)): F1}
            p = self.pmul(p, inv)
        # clear denominators whose sign is known, and even powers of the others
        for _ in range(6):
            best = None
            for m in p:
                for a, e in m:
                    if a.kind == 'pow' and e < 0 and e.denominator == 1 and (best is None or e < best[1] and a is best[0]):
                        best = (a, e)
            if best is None:
                break
            a, e = best
            s = self.sign_known(a)
            k = -e if s else -e + (-e) % 2
            p = self.pmul(p, self.ppow_int(a.dat, int(k)))
            if s < 0 and k % 2:
                p = self.pscale(p, -F1)
            if any(x is a and f == e for m in p for x, f in m):
                break
        return p

    def half(self, p):
        """(A, B, S) when p == A + B*sqrt(S) with A free of S's root"""
        at = None
        for m in p:
            for a, e in m:
                if a.kind == 'pow' and e.denominator == 2:
                    if at is None:
                        at = a
                    elif at is not a:
                        return None
        if at is None:
            return None
        A, B = {}, {}
        for m, c in p.items():
            d = dict(m)
            if at in d:
                # monomial * S^(q), q = k - 1/2
                q = d[at]
                if q.denominator != 2:
                    return None
                d[at] = q - Fraction(1, 2)   # divide by sqrt(S)
                B = self.padd(B, self.reduce(d), c)
            else:
                A[m] = c
        return A, B, at.dat

    def ispos(self, p):
        """term known to be positive for every input"""
        return bool(p) and all(c > 0 and all(self.positive_atom(a) or (e.denominator == 1 and e % 2 == 0 and False) for a, e in m) for m, c in p.items())

    def prim(self, p):
        lm, lc = self.lead(p)
        return self.pscale(p, 1 / abs(lc)), lc > 0

    def gt(self, p):
        if not p:
            return {}
        if set(p) == {()}:
            return {(): F1} if p[()] > 0 else {}
        p = self.strip_positive(p)
        if self.ispos(p):
            return {(): F1}
        if self.ispos(self.pscale(p, -F1)):
            return {}
        h = self.half(p)
        if h is not None:
            A, B, S = h
            if self.ispos(A) and self.ispos(self.pscale(B, -F1)):   # A > |B| sqrt(S)
                return self.gt(self.padd(self.pmul(A, A), self.pmul(self.pmul(B, B), S), -F1))
            if self.ispos(B) and self.ispos(self.pscale(A, -F1)):
                return self.gt(self.padd(self.pmul(self.pmul(B, B), S), self.pmul(A, A), -F1))
            if not A and self.ispos(B):                              # sqrt(S) > 0
                return self.padd({(): F1}, self.eq(S), -F1) if self.sumsq_like(S) else self.gt(S)
        q, sg = self.prim(p)
        if sg:
            return self.var(self.atom('gt', self.pk(q), pos(self.pnode(q)), q))
        q = self.pscale(q, -F1)
        k = self.pk(q)
        g = self.atom('gt', k, pos(self.pnode(q)), q)
        e = self.atom('eq', k, zero(self.pnode(q)), q)
        r = self.padd({(): F1}, self.var(g), -F1)
        return self.padd(r, self.var(e), -F1)

    def sumsq_like(self, S):
        return self.sumsq(S)

    def eq(self, p):
        if not p:
            return {(): F1}
        if set(p) == {()}:
            return {}
        p = self.strip_positive(p)
        if self.ispos(p) or self.ispos(self.pscale(p, -F1)):
            return {}
        q, sg = self.prim(p)
        if not sg:
            q = self.pscale(q, -F1)
        return self.var(self.atom('eq', self.pk(q), zero(self.pnode(q)), q))

    def igt(self, p):
        if not p:
            return {}
        if set(p) == {()}:
            return {(): F1} if p[()] > 0 else {}
        n = self.pnode(p)
        b = pos(n, True)
        if b is TRUE:
            return {(): F1}
        if b is FALSE:
            return {}
        q, sg = self.prim_int(p)
        if sg:
            return self.var(self.atom('igt', self.pk(p), pos(n, True), p))
        q = self.padd({(): F1}, p, -F1)
        return self.padd({(): F1}, self.var(self.atom('igt', self.pk(q), pos(self.pnode(q), True), q)), -F1)

    def prim_int(self, p):
        q = {m: c for m, c in p.items() if m}
        lm, lc = self.lead(q)
        return p, lc > 0

    def is_(self, t, k, vals):
        tp = self.poly(t)
        if len(tp) == 1:
            (m, c), = tp.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                ta = m[0][0]
                if k not in vals:
                    return {}
                if k == vals[-1]:
                    r = {(): F1}
                    for v in vals[:-1]:
                        r = self.padd(r, self.is_(t, v, vals), -F1)
                    return r
                return self.var(self.atom('is', (ta.id, k), zero(sub(ta.node, C(k))), (ta.id, k)))
        return self.shannon(self.padd(tp, self.const(k), -F1), self.eq)

    # ---- binders
    def height(self, n, memo={}):
        r = memo.get(n)
        if r is None:
            h = 0
            st = []
            nd._kids(n.a, st)
            for x in st:
                h = max(h, self.height(x))
            r = h
            if n.op in nd.BINDERS:
                r = h + 1
            memo[n] = r
        return r

    def beta(self, h):
        return mk('sym', 'β%d' % h, 'bound')

    def nsum(self, b, lo, hi, body):
        if self.opaque_sums and not any(x.op == 'nsum' for x in nd.walk(body)):
            self.opaque_sums = False
            try:
                p = self.nsum(b, lo, hi, body)
            finally:
                self.opaque_sums = True
            if len(p) <= 1:
                return p
            lm, lc = self.lead(p)
            p = self.pscale(p, 1 / lc)
            return self.pscale(self.var(self.atom('x', ('osum', self.pk(p)), mk('nsum', b, lo, hi, body))), lc)
        if lo is not ZERO:
            body = subst(body, {b: add(b, lo)})
            hi = sub(hi, lo)
        h = self.height(body)
        be = self.beta(h)
        LR = nd.LOOPRANGE
        LR[be] = (ZERO, hi)
        body = subst(body, {b: be})
        p = self.poly(body)
        hp = self.poly(hi)
        r = {}
        for m, c in p.items():
            dep = [(a, e) for a, e in m if be in a.node.bv]
            out = tuple((a, e) for a, e in m if be not in a.node.bv)
            if not dep:
                t = self.pmul({out: c}, hp)
            else:
                hh = max(self.height(a.node) for a, _ in dep)
                if hh != h:
                    b2 = self.beta(hh)
                    LR[b2] = (ZERO, hi)
                    d = {}
                    dn = self.pnode({tuple(dep): F1})
                    dn = subst(dn, {be: b2})
                    dp = self.poly(dn)
                    if len(dp) != 1:
                        t = {out: c}
                        key = ('nsum', self.pk(hp), self.pk(dp), hh)
                        node = mk('nsum', b2, ZERO, hi, dn)
                        t = self.pmul(t, self.var(self.atom('x', key, node)))
                        r = self.padd(r, t)
                        continue
                    (dm, dc), = dp.items()
                    c = c * dc
                    dep = list(dm)
                    bb = b2
                else:
                    bb = be
                key = ('nsum', self.pk(hp), self.pk({tuple(dep): F1}))
                node = mk('nsum', bb, ZERO, hi, self.pnode({tuple(dep): F1}))
                t = self.pmul({out: c}, self.var(self.atom('x', key, node, dat=(bb, hi, tuple(dep)))))
            r = self.padd(r, t)
        return r

    def binder(self, n):
        b, lo, hi, body = n.a
        if lo is not ZERO:
            body = subst(body, {b: add(b, lo)})
            hi = sub(hi, lo)
        h = self.height(body)
        be = self.beta(h)
        nd.LOOPRANGE[be] = (ZERO, hi)
        body = subst(body, {b: be})
        p = self.poly(body)
        if n.op == 'exists' and not p:
            return {}
        node = mk(n.op, be, ZERO, hi, body)
        return self.var(self.atom('b' if n.op == 'exists' else 'x', (n.op, self.pk(self.poly(hi)), self.pk(p)), node))

    # ---- queries
    def equal(self, a, b):
        return not self.diff(a, b)

    def diff(self, a, b):
        self.deadline = time.monotonic() + BUDGET
        try:
            r = self.padd(self.poly(a), self.poly(b), -F1)
            return {} if r and self.vanishes(r) else r
        finally:
            self.deadline = float('inf')

    def vanishes(self, r, depth=0):
        """zero for every input: the terms under [p == 0] are compared where p is zero"""
        if not r:
            return True
        if depth > 4:
            return False
        e = min((a for m in r for a, k in m if a.kind == 'eq'), key=lambda a: a.id, default=None)
        if e is None:
            return False
        r0 = {m: c for m, c in r.items() if all(a is not e for a, k in m)}
        if not self.vanishes(r0, depth + 1):
            return False
        r1 = {tuple(t for t in m if t[0] is not e): c for m, c in r.items() if m not in r0}
        p = e.dat
        for m, c in p.items():
            for x, k in m:
                if x.kind != 'x' or k not in (1, -1) or not self.positive_atom(x) or \
                        sum(1 for m2 in p for y, _ in m2 if y is x) != 1 or not all(self.positive_atom(y) for y, _ in m if y is not x):
                    continue
                # c x^k w + rest == 0
                inv = {tuple((y, -j) for y, j in m if y is not x): -1 / c}
                v = self.pmul({m2: c2 for m2, c2 in p.items() if m2 != m}, inv)
                if k == -1:
                    v = self.ppow(v, Fraction(-1))
                vn = self.pnode(v)
                if x.node in nd.walk(vn):
                    continue
                q = self.poly(subst(self.pnode(r1), {x.node: vn}))
                if self.vanishes(q, depth + 1):
                    return True
        return False


def scalar(x):
    return not nd.isarr(x) and x.op not in ('seq', 'seqbase', 'str', 'sequpd', 'seqrec')


def showp(p, lim=6):
    if not p:
        return '0'
    out = []
    for m, c in list(p.items())[:lim]:
        s = '*'.join((show(a.node) if e == 1 else '(%s)^%s' % (show(a.node), e)) for a, e in m)
        out.append(('%s*%s' % (c, s) if c != 1 else s) if s else str(c))
    if len(p) > lim:
        out.append('... %d more terms' % (len(p) - lim))
    return ' + '.join(out)
