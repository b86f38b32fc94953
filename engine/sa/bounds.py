"""Extents: relations between the sizes of the containers over the life of a computer, and every array access of a step stays inside."""
import itertools
from . import nodes as nd
from .nodes import *
from .model import Model, Anchor
from .values import *
from .interp import St
from .environ import Built
from . import store, sample
from .sample import Point, Undef, h01
import math

ROWS = 4000         # constraints kept by the elimination before giving up


# ---------------------------------------------------------------- linear integer entailment
class Lin:
    """conjunction of c0 + sum c_i a_i >= 0 over integer atoms"""
    def __init__(self):
        self.rows = []
        self.ne = []

    def ge(self, n):
        k, d = nd._lin(n)
        self.rows.append((k, d))

    def copy(self):
        r = Lin()
        r.rows, r.ne = list(self.rows), list(self.ne)
        return r


def tight(k, d):
    """integer tightening"""
    den = 1
    for c in d.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in d.values():
        g = math.gcd(g, int(c * den))
    if g == 0:
        return k, d
    f = Fraction(den, g)
    return Fraction(math.floor(k * f)), {a: c * f for a, c in d.items()}


def infeasible(rows):
    """no integer point (Fourier-Motzkin elimination with tightening; False if not shown)"""
    rows = [tight(k, d) for k, d in rows]
    while True:
        rest = {}
        for k, d in rows:
            d = {a: c for a, c in d.items() if c}
            if not d:
                if k < 0:
                    return True
                continue
            key = frozenset(d.items())
            if key not in rest or rest[key] > k:
                rest[key] = k
        rows = [(k, dict(key)) for key, k in rest.items()]
        if not rows:
            return False
        cnt = {}
        for k, d in rows:
            for a, c in d.items():
                p = cnt.setdefault(a, [0, 0])
                p[c > 0] += 1
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x.id))
        up = [(k, d) for k, d in rows if d.get(a, 0) < 0]
        lo = [(k, d) for k, d in rows if d.get(a, 0) > 0]
        new = [(k, d) for k, d in rows if not d.get(a, 0)]
        if len(up) * len(lo) + len(new) > ROWS:
            return False
        for k1, d1 in lo:
            for k2, d2 in up:
                c1, c2 = d1[a], -d2[a]
                d = {}
                for x, c in d1.items():
                    d[x] = d.get(x, 0) + c * c2
                for x, c in d2.items():
                    d[x] = d.get(x, 0) + c * c1
                d.pop(a)
                new.append(tight(k1 * c2 + k2 * c1, d))
        rows = new


class Prover:
    """entailment of integer comparisons; `fact(atom)` yields terms known to be >= 0 for an atom"""
    def __init__(self, fact, rep=None):
        self.fact, self.rep = fact, rep or {}
        self.memo = {}

    def norm(self, n):
        return subst(n, self.rep) if self.rep else n

    def saturate(self, F, extra):
        """add what is known about the atoms that occur"""
        seen = set()
        todo = [r for r in F.rows] + [nd._lin(x) for x in extra]
        while todo:
            k, d = todo.pop()
            for a in d:
                if a in seen:
                    continue
                seen.add(a)
                for t in self.fact(a):
                    t = nd._lin(self.norm(t))
                    F.rows.append(t)
                    todo.append(t)
        return F

    def assume(self, F, c, want=True):
        """conjoin the condition; disjunctions are dropped (weaker)"""
        op = c.op
        if op in ('true', 'false'):
            return (op == 'true') == want
        if op == 'not':
            return self.assume(F, c.a[0], not want)
        if op == 'ipos':
            F.ge(sub(c.a[0], ONE) if want else neg(c.a[0]))
        elif op == 'zero':
            if want:
                F.ge(c.a[0])
                F.ge(neg(c.a[0]))
            else:
                F.ne.append(c.a[0])
        elif op == 'and' and want or op == 'or' and not want:
            return all([self.assume(F, x, want) for x in c.a[0]])
        return True

    def entails(self, F, goal, depth=0):
        """goal >= 0 in every case"""
        it = next((a for k, d in [nd._lin(goal)] + F.rows for a in d if a.op == 'ite'), None)
        if it is not None and depth < 8:
            for w in (True, False):
                G = Lin()
                m = {it: it.a[1] if w else it.a[2]}
                for k, d in F.rows:
                    G.ge(subst(nd._mksum(k, d), m))
                G.ne = [subst(x, m) for x in F.ne]
                if not self.assume(G, subst(it.a[0], m), w):
                    continue
                if not self.entails(G, subst(goal, m), depth + 1):
                    return False
            return True
        G = self.saturate(F.copy(), [goal])
        nxt = next((a for k, d in G.rows for a in d if a.op == 'ite'), None)
        if nxt is not None and depth < 8 and it is None:
            return self.entails(G, goal, depth)
        k, d = nd._lin(goal)
        negated = (-k - 1, {a: -c for a, c in d.items()})
        if infeasible(G.rows + [negated]):
            return True
        for x in G.ne:      # x != 0 and x >= 0 give x >= 1
            k, d = nd._lin(x)
            for s in (1, -1):
                if infeasible(G.rows + [(-s * k - 1, {a: -s * c for a, c in d.items()})]):
                    G.rows.append((s * k - 1, {a: s * c for a, c in d.items()}))
                    break
        return infeasible(G.rows + [negated])


# ---------------------------------------------------------------- sizes
def lower(n, positive):
    """a constant lower bound of a term over positive parameters"""
    def isp(x):     # > 0
        if x.op == 'c':
            return x.a[0] > 0
        if x.op == 'sym':
            return x.a[0] in positive
        if x.op == 'sum':
            return x.a[0] >= 0 and all(c > 0 and isp(y) for y, c in x.a[1])
        if x.op == 'prod':
            return all(isp(y) for y, _ in x.a[0])
        return False
    if n.op == 'c':
        return n.a[0]
    if n.op == 'sum':
        t = n.a[0]
        for y, c in n.a[1]:
            b = lower(y, positive) if c > 0 else None
            if b is None:
                return None
            t += c * b
        return t
    if n.op == 'prod':
        t = Fraction(1)
        for y, e in n.a[0]:
            b = lower(y, positive)
            if e.denominator != 1 or e < 0:
                return 0 if isp(n) else None
            if b is None or b < 0:
                if e % 2:
                    return None
                b = 0
            t *= b ** int(e)
        return t
    if n.op == 'fn' and n.a[0] == 'ceil' and isp(n.a[1][0]):
        return Fraction(1)
    return Fraction(0) if isp(n) else None


def containers(v, pre=()):
    if isinstance(v, Struct):
        for k, x in v.f.items():
            yield from containers(x, pre + (('f', k),))
    elif isinstance(v, (SArr, SeqV)):
        yield pre, v


def dimsof(v):
    if isinstance(v, SArr):
        return list(v.dims)
    s = v.n
    if isinstance(s, N) and s.op == 'seq' and not s.a[0]:
        return [ZERO]
    return None


class Sizes:
    """what holds between the sizes after construction and any sequence of appending and stepping"""
    def __init__(self, config, m):
        self.m, self.config = m, config
        self.B = Built(config)
        S, st = self.B.computer()
        self.init = {}
        for p, v in containers(S):
            for k, d in enumerate(dimsof(v) or ()):
                self.init[p, k] = d
        self.sym, self.after = {}, {}
        for p, v in containers(m.S0):
            for k, d in enumerate(dimsof(v) or ()):
                if d.op == 'sym':
                    self.sym[p, k] = d
        for p, v in containers(m.st.mem['S']):
            for k, d in enumerate(dimsof(v) or ()):
                self.after[p, k] = d
        self.add_accesses = []
        ma = store.added(config, m.ir, self.add_accesses)
        self.ma = ma
        self.added = {}
        for p, v in containers(ma.st.mem['S']):
            for k, d in enumerate(dimsof(v) or ()):
                self.added[p, k] = d
        self.q = ma.Q.dims[0]
        self.vars = [k for k in self.sym if k in self.init and k in self.after and k in self.added]
        self.psize = m.psize
        self.solve()

    def nonneg(self, a):
        if a in self.names or a is self.q:
            yield a

    def solve(self):
        self.names = {self.sym[v] for v in self.vars}
        # equal sizes: coarsest stable partition
        part = {}
        for v in self.vars:
            part.setdefault(self.init[v], []).append(v)
        part = list(part.values())
        while True:
            rep = {}
            for cl in part:
                r = next((self.sym[v] for v in cl if self.sym[v] is self.psize), self.sym[cl[0]])
                for v in cl:
                    rep[self.sym[v]] = r
            P = Prover(self.nonneg, rep)
            new = []
            for cl in part:
                groups = []
                for v in cl:
                    for g in groups:
                        w = g[0]
                        if all(self.same(P, d[v], d[w]) for d in (self.added, self.after)):
                            g.append(v)
                            break
                    else:
                        groups.append([v])
                new += groups
            if len(new) == len(part):
                break
            part = new
        self.part, self.rep = part, rep
        P = Prover(self.nonneg, rep)
        # sizes given by every appending and kept by the step
        self.given = {}
        for v in self.vars:
            s, a = self.sym[v], self.added[v]
            if self.rep[s] is self.psize or a is s:
                continue
            free = {x for x in nd.walk(a) if x.op == 'sym'}
            if not free <= self.names or s in free:
                continue
            if all(self.same(P, self.after[w], self.sym[w]) and self.same(P, self.added[w], self.sym[w]) for w in self.vars if self.sym[w] in free) \
                    and self.same(P, self.after[v], s):
                self.given[s] = a
        # not smaller than the number of particles
        big = {self.sym[v] for v in self.vars if self.rep[self.sym[v]] is not self.psize}
        pv = next((v for v in self.vars if self.sym[v] is self.psize), None)
        while pv:
            bad = set()
            P = Prover(lambda a: itertools.chain(self.nonneg(a), [sub(a, self.psize)] if a in big else []), rep)
            for v in self.vars:
                s = self.sym[v]
                if s in big and not (self.init[v] is self.init[pv] and all(P.entails(Lin(), P.norm(sub(d[v], d[pv]))) for d in (self.added, self.after))):
                    bad.add(s)
            if not bad:
                break
            big -= bad
        self.big = big if pv else set()
        # constant lower bounds of sizes that never change
        self.least = {}
        P = Prover(self.nonneg, rep)
        for v in self.vars:
            s = self.sym[v]
            b = lower(self.init[v], self.B.positive)
            if b is not None and b > 0 and self.same(P, self.added[v], s) and self.same(P, self.after[v], s):
                self.least[s] = b

    def same(self, P, a, b):
        a, b = P.norm(a), P.norm(b)
        if a is b:
            return True
        d = sub(a, b)
        return P.entails(Lin(), d) and P.entails(Lin(), neg(d))

    # ---- a concrete life of the sizes
    def history(self, m, seed):
        """sizes before each step of: construct, append, step, step, append, step"""
        par = {}

        def scalar(name):
            if name in par:
                return par[name]
            r = h01(seed, name)
            t = name.lower()
            if 'min' in t:
                return -0.3 * r
            if t.startswith('$max') and t not in ('$maxdt',):
                return 0.5 + r
            if 'l_0' in t and 'r_e' not in t:
                return 0.05
            if 'r_e' in t:
                return 2.1 + r
            return 0.1 + 0.2 * r
        p = Conc(seed, m, scalar)
        cur = {}
        for v in self.vars:
            cur[v] = p.ev(self.init[v])
        out = []
        for op in ((5, 'step', 'step', 3, 'step') if seed % 2 else (700, 'step', 3, 'step')):
            vals = {self.sym[v].a[0]: x for v, x in cur.items()}
            if op != 'step':
                vals[self.q.a[0]] = float(op)
            out.append((op, vals))
            q = Conc(seed, m, lambda name: vals[name] if vals.get(name) is not None else unknown(name))
            src = self.after if op == 'step' else self.added
            new = {}
            for v in self.vars:
                try:
                    new[v] = q.ev(src[v])
                except (Undef, KeyError):
                    new[v] = None
            cur = new
        return out


def unknown(name):
    raise Undef()


class Conc(Point):
    """concrete values of sizes, counters and table entries"""
    def __init__(self, seed, m, scalar, psize=None, cap=None):
        Point.__init__(self, seed, m, set())
        self._scalar = scalar
        if psize is not None:
            self.P = int(psize)
        self.cap = cap
        self.last = None

    def scalar(self, name):
        return self._scalar(name)

    def _ev(self, n, op, a):
        if op == 'fn' and a[0] in ('floor', 'ceil', 'trunc', 'imod', 'idiv'):
            x = [self.ev(y) for y in a[1]]
            if a[0] == 'floor':     # any whole number; small ones and those about the extents are the interesting ones
                h = h01(self.seed, 'floor', n.id, *sorted(self.env.values()))
                return float(int(h * 14) - 2)
            if a[0] == 'imod':
                return float(int(x[0]) % int(x[1]))
            if a[0] == 'idiv':
                return float(int(x[0]) // int(x[1]))
            return float({'ceil': math.ceil, 'trunc': math.trunc}[a[0]](x[0]))
        return Point._ev(self, n, op, a)

    def element(self, arr, idx):
        nm = nd.aname(arr)
        if nm and self.m.gridname and nm.startswith(self.m.gridname + '.') and idx[-1] == 0 and self.last is not None:
            r = h01(self.seed, 'count', idx)
            n = int(self.last) - int(r * 6) if r < 0.5 else int(r * 20)
            return float(max(0, min(n, self.P - 1)))
        return Point.element(self, arr, idx)

    def nbrow(self, i):
        n = self.P - 1
        full = h01(self.seed, 'full', i) < 0.5
        n = max(0, min(n, self.cap)) if full else min(n, 3)
        return [j if j < i else j + 1 for j in range(n)]


# ---------------------------------------------------------------- accesses
class Access:
    def __init__(self, root, path, idx, dims, pc, loc, fn, loops):
        self.root, self.path, self.idx, self.dims, self.pc, self.loc, self.fn, self.loops = root, path, idx, dims, pc, loc, fn, loops

    def key(self):
        return self.root, self.path, self.idx, self.dims, self.pc


def collect(recs, entry='step'):
    seen, out = set(), []
    for r in recs:
        kind, root, steps, pc, loc, at, fn_, ext, loops = r
        for path, idx, dims in ext:
            k = (root, path, idx, dims, pc, loops)
            if k in seen or pc is FALSE:
                continue
            seen.add(k)
            idx = tuple(x if isinstance(x, N) else C(x) for x in idx)
            g = pc
            for L in reversed(loops):
                if getattr(L, 'hmap', None) is not None:
                    idx = tuple(subst(x, L.hmap) for x in idx)
                    dims = tuple(subst(x, L.hmap) for x in dims)
                    g = subst(g, L.hmap)
            out.append(Access(root.split('~')[0], '.'.join(str(x) for _, x in path), idx, dims, g, loc, fn_, loops))
            out[-1].entry = entry
    uniq = {}
    for a in out:
        uniq.setdefault(a.key(), a)
    return list(uniq.values())


class Bounds:
    def __init__(self, rep, config):
        from .check import model
        self.rep, self.config = rep, config
        m = Model_bounds(config)
        self.m = m
        self.S = Sizes(config, m)
        gd = next((v for p, v in containers(m.S0) if isinstance(v, SArr) and m.gridname and '.'.join(['S'] + [str(x) for _, x in p]).startswith(m.gridname + '.') and len(v.dims) == m.D + 1), None)
        self.grid = gd
        self.cap = None
        if gd is not None:
            # at most what the surrounding cells hold, without the particle itself
            self.cap = sub(scale(sub(gd.dims[-1], ONE), 3 ** m.D), ONE)

    def facts(self, a):
        S, m = self.S, self.m
        yield from S.nonneg(a)
        if a in S.big:
            yield sub(a, S.psize)
        if a in S.least:
            yield sub(a, C(S.least[a]))
        g = S.given.get(a)
        if g is not None and self.some:
            yield sub(a, g)
            yield sub(g, a)
        if a.op == 'sel' and nd.aname(a.a[0]) == m.nbname and a.a[1][-1] is ZERO:
            yield a
            if self.cap is not None:
                yield sub(self.cap, a)
        r = nd.LOOPRANGE.get(a)
        if r is None:
            r = nd.idx_range(a)
        if r is not None:
            yield sub(a, r[0])
            yield sub(sub(r[1], ONE), a)
        if a.op == 'fn' and a.a[0] == 'imod' and a.a[1][1].op == 'c':
            yield a
            yield sub(sub(a.a[1][1], ONE), a)
        if a.op == 'fn' and a.a[0] == 'idiv':
            yield a
        if a.op == 'sel' and nd.aname(a.a[0]) and m.gridname and nd.aname(a.a[0]).startswith(m.gridname + '.'):
            yield a
        if a.op == 'sel' and nd.aname(a.a[0]) == m.nbname:
            yield a

    def prove(self, acc):
        S = self.S
        self.some = any(self.psize_loop(L) for L in acc.loops)
        P = Prover(self.facts, S.rep)
        F = Lin()
        if not P.assume(F, P.norm(acc.pc)):
            return True
        for k, (i, d) in enumerate(zip(acc.idx, acc.dims)):
            i, d = P.norm(i), P.norm(d)
            if not P.entails(F, i) or not P.entails(F, sub(sub(d, i), ONE)):
                return k
        return True

    def psize_loop(self, L):
        return L.binder is not None and isinstance(L.hi, N) and subst(L.hi, self.S.rep) is self.S.psize

    def witness(self, acc, k):
        S, m = self.S, self.m
        loopvars = {L.binder for L in acc.loops if L.binder is not None}
        if any(x.op == 'sel' and nd.aname(x.a[0]) in p0.X for p0 in [Point(0, m, set())] for x in outside(acc.pc)):
            return None
        hidden = {x for n in (acc.idx[k], acc.dims[k]) for x in nd.walk(n) if x.op in ('sym', 'rec', 'brec', 'seqrec') and x not in loopvars and x not in S.names and not known(x)}
        if hidden:
            return None
        for seed in range(60):
            try:
                hist = S.history(m, seed)
            except (Undef, OverflowError, ZeroDivisionError, ValueError):
                continue
            for n, (op, sizes) in enumerate(hist):
                if (op == 'step') != (acc.entry == 'step'):
                    continue
                ps = sizes.get(S.psize.a[0])
                if ps is None:
                    continue

                def scalar(name):
                    if name in sizes:
                        if sizes[name] is None:
                            raise Undef()
                        return sizes[name]
                    return 0.3 + h01(seed, n, name)
                cap = None
                if self.cap is not None:
                    try:
                        cap = int(Conc(seed, m, scalar).ev(self.cap))
                    except Undef:
                        pass
                p = Conc(seed * 7 + n, m, scalar, ps, cap if cap is not None else 3)
                p.last = sizes.get(self.grid.dims[-1].a[0]) if self.grid is not None and self.grid.dims[-1].op == 'sym' else None
                try:
                    ok = True
                    for L in acc.loops:
                        if L.binder is None:
                            continue
                        lo, hi = int(p.ev(L.lo)), int(p.ev(L.hi))
                        if lo >= hi:
                            ok = False
                            break
                        r = h01(seed, n, L.binder.id)
                        p.env[L.binder] = float(hi - 1 if r < 0.5 else lo if r < 0.7 else lo + int((hi - lo) * (r - 0.7) / 0.3))
                    if not ok or not p.ev(acc.pc):
                        continue
                    i, d = p.ev(acc.idx[k]), p.ev(acc.dims[k])
                except (Undef, OverflowError, ZeroDivisionError, ValueError, RecursionError, TypeError):
                    continue
                if i < 0 or i >= d:
                    return '%s with %d particles: index %d, extent %d' % ('a step' if op == 'step' else 'appending %d particles to a computer' % op, ps, i, d)
        return None

    def run(self):
        rep, m, S = self.rep, self.m, self.S
        acc = collect(m.accesses) + collect(S.add_accesses, 'append')
        rep.facts['accesses_checked'] = len(acc)
        rep.facts['sizes'] = len(S.vars)
        rep.facts['equal_sizes'] = [['.'.join(str(x) for _, x in p) + '[%d]' % k for p, k in cl] for cl in S.part if len(cl) > 1]
        groups = {}
        for a in acc:
            groups.setdefault((a.root + ('.' + a.path if a.path else ''), tuple(a.loc)[:2]), []).append(a)
        for (obj, loc), aa in sorted(groups.items(), key=lambda t: (t[0][1], t[0][0])):
            status, why = 'ok', ''
            for a in aa:
                r = self.prove(a)
                if r is True:
                    continue
                if self.traversal(a):
                    s = self.searched()
                    if s is True:
                        rep.add('accesses_decided_by_the_traversal_enumeration')
                        continue
                    status, why = 'undecided', s
                    continue
                w = self.witness(a, r)
                if w:
                    status, why = 'diff', 'index %s, extent %s: %s' % (show(a.idx[r])[:160], show(a.dims[r])[:160], w)
                    break
                status, why = 'undecided', 'index %s, extent %s, condition %s' % (show(a.idx[r])[:200], show(a.dims[r])[:120], show(a.pc)[:300])
            rep.ob('access', '%s in %s, line %s' % (obj, aa[0].fn.split('::')[-1], loc[1]), status, why, m.ir.loc(aa[0].loc))
        self.capacity()

    def capacity(self):
        """room for every particle the surrounding blocks can hold"""
        m, S = self.m, self.S
        s = m.nb.dims[-1]
        if self.cap is None or s.op != 'sym':
            self.rep.ob('capacity', 'neighbour table', 'undecided', 'grid storage not found')
            return
        self.some = True
        P = Prover(self.facts, S.rep)
        if P.entails(Lin(), P.norm(sub(s, add(self.cap, ONE)))):
            self.rep.ob('capacity', 'the neighbour table has room for every particle the surrounding blocks can hold', 'ok')
            return
        for seed in range(20):
            try:
                for op, sizes in S.history(m, seed):
                    p = Conc(seed, m, lambda name: sizes[name])
                    have, need = p.ev(s), p.ev(self.cap)
                    if have < need + 1:
                        self.rep.ob('capacity', 'the neighbour table has room for every particle the surrounding blocks can hold', 'diff',
                                    'extent %d where a particle may have %d neighbours' % (have, need))
                        return
            except (Undef, KeyError, TypeError, ZeroDivisionError, OverflowError):
                continue
        self.rep.ob('capacity', 'the neighbour table has room for every particle the surrounding blocks can hold', 'undecided', show(s)[:200])

    def traversal(self, a):
        """accesses inside the loop that builds the neighbour rows"""
        if self.search is None:
            self.search = self.analyse_search()
        return self.search[1] is not None and any(L is self.search[1] for L in a.loops)

    search = None

    def analyse_search(self):
        from .grid import Search
        from .enum import Undecided, Wrong
        from .check import Report
        r = Report(self.config)
        try:
            s = Search(self.m, r)
        except Undecided as e:
            return r, None
        s.run()
        return r, s.P

    def searched(self):
        bad = [o for o in self.search[0].obs if o[2] != 'ok']
        return True if not bad else 'the neighbour search is not decided: %s, %s' % bad[0][:2]


def outside(n):
    """nodes of a condition that are not below a block number"""
    st, seen = [n], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if not (x.op == 'fn' and x.a[0] == 'floor'):
            nd._kids(x.a, st)


def known(x):
    if x.op != 'sym':
        return False
    t = x.a[0]
    return t.startswith('$') or '#' not in t


def locstr(m, loc):
    return m.ir.loc(loc)


def Model_bounds(config):
    from .source import export
    m = Model(export('step', config), config)
    m.accesses = []
    m.I.recs.append(m.accesses)
    m.I.bounds = m.accesses
    m.run('verif::step', [])
    return m


def accesses(rep, config):
    Bounds(rep, config).run()


def covered(rep, config):
    """every array the step indexes by particle number has an element for every particle"""
    b = Bounds(rep, config)
    m, S = b.m, b.S
    objs = {}
    for a in collect(m.accesses):
        if a.root != 'S':
            continue
        for k, (i, d) in enumerate(zip(a.idx, a.dims)):
            r = nd.LOOPRANGE.get(i) or nd.idx_range(i)
            if r is not None and r[0] is ZERO and subst(r[1], S.rep) is S.psize:
                objs.setdefault((a.path, k), {}).setdefault((d, a.pc), a)
    for (path, k), aa in sorted(objs.items()):
        status, why, loc = 'ok', '', next(iter(aa.values())).loc
        for a in aa.values():
            r = b.prove(a)
            if r is True or r != k or b.traversal(a):
                continue
            w = b.witness(a, r)
            status, why, loc = ('diff' if w else 'undecided'), '%s: extent %s%s' % (a.fn.split('::')[-1], show(a.dims[r])[:160], ': ' + w if w else ''), a.loc
            if w:
                break
        rep.ob('extent', '%s covers all particles (dimension %d)' % (path, k + 1), status, why, m.ir.loc(loc))
