"""The candidate enumeration of the neighbour search as a finite transition system.

The loop that collects neighbours is given by its summary: initial values, conditions and next values of the carried variables
as expressions. They are evaluated per class of (position of the particle's block at the low border / inside / at the high
border of each axis) with symbolic slot numbers and symbolic block populations; what is decided is that from the first state
on exactly the stored slots of all existing blocks around the particle's block are visited, each once."""
import itertools
import math
from . import nodes as nd
from .nodes import *
from .values import Unsupported


class Undecided(Exception):
    pass


class Wrong(Exception):
    pass


def lin_sign(d, nonneg):
    """sign of a linear form over symbols >= 0: '+', '-', '0', '>=', '<=' or None"""
    k, t = nd._lin(d)
    if not t:
        return '0' if k == 0 else '+' if k > 0 else '-'
    if any(s not in nonneg for s in t):
        return None
    if all(c > 0 for c in t.values()):
        return '+' if k > 0 else '>=' if k == 0 else None
    if all(c < 0 for c in t.values()):
        return '-' if k < 0 else '<=' if k == 0 else None
    return None


class Abs:
    """evaluation of expressions of the neighbour search for one class of block positions"""
    def __init__(self, env, cls):
        self.env, self.cls = env, cls
        self.nonneg = set()
        self.sub = dict(env.base)
        self.bad = []
        self.mid = []
        for ax in range(env.D):
            a, b = sym('$a%d' % ax), sym('$b%d' % ax)
            self.nonneg |= {a, b}
            bi, n = {'low': (ZERO, add(C(3), b)), 'mid': (add(ONE, a), add(C(3), add(a, b))), 'high': (add(C(2), a), add(C(3), a))}[cls[ax]]
            self.sub[env.shape[ax]] = n
            self.mid.append(bi)
        self.cnt = {}
        self.memo = {}
        self.fuel = 200000

    def valid(self, o):
        return all(not (c == 'low' and x < 0) and not (c == 'high' and x > 0) for c, x in zip(self.cls, o))

    def offsets(self):
        return [o for o in itertools.product((-1, 0, 1), repeat=self.env.D) if self.valid(o)]

    def count(self, o):
        if o not in self.cnt:
            s = sym('$n' + ''.join('mzp'[x + 1] for x in o))
            self.nonneg.add(s)
            self.cnt[o] = s
        return self.cnt[o]

    # ---- evaluation
    def ev(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.memo[n] = self.ev1(n)
        return r

    def ev1(self, n):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided('enumeration too large')
        op = n.op
        if n in self.sub:
            return self.sub[n]
        if op in ('c', 'true', 'false') or op in nd.BASES:
            return n
        if op == 'ite':
            c = self.ev(n.a[0])
            if c is TRUE:
                return self.ev(n.a[1])
            if c is FALSE:
                return self.ev(n.a[2])
            return ite_any(c, self.ev(n.a[1]), self.ev(n.a[2]))
        if op in ('and', 'or'):
            out = []
            for x in sorted(n.a[0], key=lambda y: any(z.op in ('sel', 'rec', 'brec') for z in nd.walk(y))):
                v = self.ev(x)
                if op == 'and' and v is FALSE:
                    return FALSE
                if op == 'or' and v is TRUE:
                    return TRUE
                out.append(v)
            return band(*out) if op == 'and' else bor(*out)
        if op in ('rec', 'brec'):
            return self.unrolled(n)
        if op == 'sel' and n.a[0] is self.env.data:
            return self.slot([self.ev(x) for x in n.a[1]])
        if op == 'fn' and n.a[0] == 'floor':
            for ax, f in enumerate(self.env.blocks):
                if n is f or self.env.same(n, f):
                    return self.mid[ax]
        a = self.evt(n.a)
        return self.fold(nd.rebuild(n, a) if a != n.a else n)

    def evt(self, a):
        return tuple(self.ev(x) if isinstance(x, N) else self.evt(x) if isinstance(x, tuple) else x for x in a)

    def fold(self, r):
        if r.op in ('ipos', 'pos', 'zero'):
            s = lin_sign(r.a[0], self.nonneg)
            if r.op == 'zero':
                if s in ('+', '-'):
                    return FALSE
                if s == '0':
                    return TRUE
                k, t = nd._lin(r.a[0])
                if t and all(x in self.nonneg for x in t) and all(c.denominator == 1 for c in t.values()) and k % math.gcd(*[int(c) for c in t.values()]):
                    return FALSE
            else:
                if s == '+':
                    return TRUE
                if s in ('-', '0', '<='):
                    return FALSE
        if r.op == 'fn' and r.a[0] in ('imod', 'idiv'):
            x, y = r.a[1]
            if x.op == 'ite':
                return self.ev_ite(x, lambda z: self.fold(fn(r.a[0], z, y)))
            v = self.divmod(x, y)
            if v is not None:
                return v[r.a[0] == 'imod']
        return r

    def ev_ite(self, x, f):
        if x.op == 'ite':
            return ite_any(x.a[0], self.ev_ite(x.a[1], f), self.ev_ite(x.a[2], f))
        return f(x)

    def divmod(self, x, y):
        if not isc(y) or cval(y) <= 0:
            return None
        m = cval(y)
        k, t = nd._lin(x)
        if any(c % m or c < 0 for c in t.values()) or k < 0 or any(s not in self.nonneg for s in t):
            return None
        q = k // m
        r = C(q)
        for s, c in t.items():
            r = add(r, scale(s, c / m))
        return r, C(k - q * m)

    def slot(self, idx):
        D = self.env.D
        o = []
        for ax in range(D):
            d = sub(idx[ax], self.mid[ax])
            if not isc(d):
                if idx[ax].op == 'ite':
                    c = idx[ax]
                    x, y = [list(idx) for _ in range(2)]
                    x[ax], y[ax] = c.a[1], c.a[2]
                    return ite_any(c.a[0], self.slot(x), self.slot(y))
                raise Undecided('block index %s' % show(idx[ax])[:80])
            o.append(int(cval(d)))
        o = tuple(o)
        if max(map(abs, o)) > 1 or not self.valid(o):
            self.bad.append('block %s of a particle at the %s border is read' % (o, '/'.join(self.cls)))
            return mk('fn', 'outside', (C(0),))
        if idx[D] is ZERO:
            return self.count(o)
        return mk('item', o, sub(idx[D], ONE))

    def unrolled(self, n):
        L = self.env.loops.get(n.a[0])
        if L is None:
            raise Undecided('loop value %s' % show(n)[:80])
        key = ('loop', n.a[0]) + tuple(self.ev(x) for x in n.a[2])
        r = self.memo.get(key)
        if r is None:
            if isinstance(L.hi, N) and L.hi.op == 'fn' and L.hi.a[0] == 'iters':
                lo, hi = ZERO, None
            else:
                lo, hi = self.ev(L.lo), self.ev(L.hi)
                if not isc(lo) or not isc(hi):
                    raise Undecided('loop bounds %s..%s' % (show(lo)[:40], show(hi)[:40]))
                lo, hi = int(cval(lo)), int(cval(hi))
            vals = {k: self.ev(subst(L.flat_i[k], {})) for k in L.unresolved if isinstance(L.flat_h[k], N) and not isarr(L.flat_h[k])}
            r = self.memo[key] = self.run(L, int(cval(lo)) if isinstance(lo, N) else lo, hi, vals, 0)
        for k, h in L.flat_h.items():
            if isinstance(h, N) and h.a and h.a[0] == n.a[1]:
                if k in r:
                    return r[k]
        raise Undecided('loop value %s' % show(n)[:80])

    def at(self, L, t, vals, exprs):
        """expressions of a loop body for iteration t with the given carried values"""
        s = Abs.__new__(Abs)
        s.__dict__.update(self.__dict__)
        s.sub = dict(self.sub)
        s.memo = {}
        if L.binder is not None:
            s.sub[L.binder] = C(t)
        for k, v in vals.items():
            s.sub[L.flat_h[k]] = v
        out = [None if e is None else s.ev(subst(e, L.hmap)) for e in exprs]
        self.fuel = s.fuel
        return out

    def run(self, L, t, hi, vals, depth):
        if depth > 64:
            raise Undecided('loop does not end')
        ks = list(vals)
        ind = getattr(L, 'ind', None)

        def leave(vs):
            r = dict(vs)
            if ind is not None:
                r[ind] = self.at(L, t, vals, [L.indinfo['expr']])[0]
            return r
        if hi is not None and t >= hi:
            return leave(vals)
        g, = self.at(L, t, vals, [L.whilecond])
        if g is FALSE:
            return leave(vals)
        res = None
        if L.brk_vals or getattr(L, 'breaks', None):
            bg, = self.at(L, t, vals, [L.brkguard])
            if bg is not FALSE:
                kk = [k for k in set(L.brk_vals) & (set(ks) | {ind})]
                bv = dict(zip(kk, self.at(L, t, vals, [L.brk_vals[k] for k in kk])))
                out = {k: bv.get(k, vals.get(k)) for k in ks + ([ind] if ind is not None else [])}
                if bg is TRUE:
                    res = out
                else:
                    nv = dict(zip(ks, self.at(L, t, vals, [L.flat_p[k] for k in ks])))
                    res = join(bg, out, self.run(L, t + 1, hi, nv, depth + 1))
        if res is None:
            nv = dict(zip(ks, self.at(L, t, vals, [L.flat_p[k] for k in ks])))
            res = self.run(L, t + 1, hi, nv, depth + 1)
        return res if g is TRUE else join(g, res, leave(vals))


def join(c, a, b):
    return {k: ite_any(c, a[k], b[k]) for k in a if k in b and a[k] is not None and b[k] is not None}


class Env:
    pass


class Need(Exception):
    pass


def tree(n, asm, A, leaf):
    """walks a decision tree over `block populated` tests, splitting on the first test the evaluation meets"""
    todo = [dict(asm)]
    while todo:
        a = todo.pop()
        try:
            r = under(n, a, A, {})
        except Need as e:
            o = e.args[0]
            for pop in (True, False):
                todo.append({**a, o: pop})
            continue
        leaf(r, a)


def under(n, asm, A, memo):
    """value of an expression under population assumptions; Need(block) if it depends on another block"""
    r = memo.get(n)
    if r is not None:
        return r
    op = n.op
    if op in ('c', 'true', 'false') or op in nd.BASES:
        r = n
    elif op == 'ite':
        c = truth(n.a[0], asm, A, memo)
        r = under(n.a[1] if c else n.a[2], asm, A, memo)
    elif nd.isbool(n):
        r = TRUE if truth(n, asm, A, memo) else FALSE
    else:
        a = ut(n.a, asm, A, memo)
        r = n if a == n.a else A.fold(nd.rebuild(n, a))
    memo[n] = r
    return r


def ut(a, asm, A, memo):
    return tuple(under(x, asm, A, memo) if isinstance(x, N) else ut(x, asm, A, memo) if isinstance(x, tuple) else x for x in a)


def truth(c, asm, A, memo):
    if c is TRUE or c is FALSE:
        return c is TRUE
    r = memo.get(c)
    if r is not None:
        return r is TRUE
    if c.op == 'not':
        r = not truth(c.a[0], asm, A, memo)
    elif c.op in ('and', 'or'):
        need = None
        r = c.op == 'and'
        for x in c.a[0]:
            try:
                if truth(x, asm, A, memo) != (c.op == 'and'):
                    r = not r
                    need = None
                    break
            except Need as e:
                need = need or e
        if need is not None:
            raise need
    elif c.op == 'ite':
        r = truth(c.a[1] if truth(c.a[0], asm, A, memo) else c.a[2], asm, A, memo)
    else:
        v = lit(c, asm, A)
        if v is None:
            d = A.fold(nd.rebuild(c, ut(c.a, asm, A, memo)))
            if d is TRUE or d is FALSE:
                v = d is TRUE
            else:
                v = lit(d, asm, A)
                if v is None:
                    os = sorted({A.rev[s] for s in nd.walk(d) if s in A.rev and A.rev[s] not in asm})
                    if not os:
                        raise Undecided('condition %s' % show(d)[:100])
                    raise Need(os[0])
        r = v
    memo[c] = TRUE if r else FALSE
    return r


def lit(x, asm, A):
    """truth of a population test under the assumptions, None if unknown"""
    if x.op in ('ipos', 'pos', 'zero'):
        k, t = nd._lin(x.a[0])
        if len(t) == 1:
            s, c = next(iter(t.items()))
            o = A.rev.get(s)
            if o is not None and o in asm:
                pop = asm[o]
                # populated: n >= 1, empty: n = 0
                lo, hi = (1, None) if pop else (0, 0)
                v = [k + c * lo] + ([k + c * hi] if hi is not None else [])
                if x.op == 'zero':
                    if hi is not None:
                        return v[0] == 0
                    if (c > 0 and v[0] > 0) or (c < 0 and v[0] < 0):
                        return False
                    return None
                if hi is not None:
                    return v[0] > 0
                if c > 0 and v[0] > 0:
                    return True
                if c < 0 and v[0] <= 0:
                    return False
    return None


def enumeration(env, L):
    """checks the traversal of the candidate loop L. env: D, data, shape, blocks, base, loops, same, cand, cond
    returns (number of classes, number of transitions) or raises Wrong/Undecided"""
    S = [k for k in L.unresolved if isinstance(L.flat_h[k], N) and not isarr(L.flat_h[k]) and k in env.state]
    if getattr(L, 'ind', None) is not None:
        raise Undecided('the candidate loop is a counted loop')
    if not S:
        raise Undecided('the candidate loop has no state')
    hs = [L.flat_h[k] for k in S]
    ntr = 0
    ncl = 0
    bad = set()
    for cls in itertools.product(('low', 'mid', 'high'), repeat=env.D):
        A0 = Abs(env, cls)
        offs = A0.offsets()
        for o in offs:
            A0.count(o)
        A0.rev = {s: o for o, s in A0.cnt.items()}
        A0.sub.update(env.outer)
        init = mk('vec', tuple(A0.ev(subst(L.flat_i[k], {})) for k in S))
        ncl += 1

        def view(A, vec):
            """(item, more) of a state"""
            B = Abs.__new__(Abs)
            B.__dict__.update(A.__dict__)
            B.memo = {}
            B.sub = dict(A.sub)
            B.sub.update(zip(hs, vec.a[0]))
            return B
        states = {}
        order = []
        ends = set()

        def see(expect_after, what):
            got = []

            def leaf(n, asm):
                if n.op != 'vec':
                    raise Undecided('state')
                if not all(isc(x) for x in n.a[0]):
                    raise Undecided('state %s' % show(n)[:100])
                empty = {o for o, p in asm.items() if not p}
                B = view(A0, n)
                go = B.ev(env.cond)
                if go is FALSE:
                    got.append((None, n, empty, asm))
                    return
                if go is not TRUE:
                    raise Undecided('loop condition %s' % show(go)[:100])
                c = B.ev(env.cand)
                if c.op != 'item':
                    if c.op == 'fn' and c.a[0] == 'outside':
                        raise Wrong('; '.join(A0.bad[:1]) or 'a block outside the grid is read')
                    raise Undecided('candidate %s' % show(c)[:100])
                o, l = c.a
                if l is not ZERO:
                    raise Wrong('%s: the first particle taken from block %s is number %s' % (what, o, show(l)))
                if asm.get(o) is not True:
                    raise Wrong('%s (%s border): goes to block %s although it may be empty' % (what, '/'.join(cls), o))
                if o in states and states[o] is not n:
                    raise Undecided('several states for one block')
                states[o] = n
                got.append((o, n, empty, asm))
            return got, leaf
        got, leaf = see(None, 'start')
        tree(init, {}, A0, leaf)
        order = check_chain(got, offs, 'start', cls)
        for k, o in enumerate(order):
            # transition inside the block and to the next one
            l, e = sym('$l'), sym('$e')
            s0 = states[o]
            step = None
            for mode in ('probe', 'more', 'last'):
                A = Abs.__new__(Abs)
                A.__dict__.update(A0.__dict__)
                A.memo, A.sub, A.cnt, A.nonneg = {}, dict(A0.sub), dict(A0.cnt), set(A0.nonneg) | {l, e}
                if mode == 'probe':
                    A.cnt[o] = add(C(2), e)
                    cur = s0
                else:
                    cur = mk('vec', tuple(add(x, mul(l, sub(y, x))) for x, y in zip(s0.a[0], step.a[0])))
                    A.cnt[o] = add(l, add(C(2), e)) if mode == 'more' else add(l, ONE)
                A.rev = {s: p for p, s in A.cnt.items() if p != o}
                B = view(A, cur)
                if B.ev(env.cond) is not TRUE:
                    raise Wrong('block %s (%s border): the traversal ends before a stored particle' % (o, '/'.join(cls)))
                c = B.ev(env.cand)
                want = ZERO if mode == 'probe' else l
                if c.op != 'item' or c.a[0] != o or c.a[1] is not want:
                    if c.op == 'item' and c.a[0] == o and isc(sub(c.a[1], want)):
                        raise Wrong('block %s: particle %s is taken where %s is due' % (o, show(c.a[1]), show(want)))
                    raise Undecided('candidate %s' % show(c)[:100])
                nx = mk('vec', tuple(B.ev(subst(L.flat_p[k2], {})) for k2 in S))
                ntr += 1
                if mode == 'probe':
                    if not all(isc(x) for x in nx.a[0]):
                        raise Undecided('next state %s' % show(nx)[:100])
                    step = nx
                    if step is s0:
                        raise Wrong('block %s: the traversal does not advance' % (o,))
                    V = view(A, nx)
                    c2 = V.ev(env.cand) if V.ev(env.cond) is TRUE else None
                    if c2 is None or c2.op != 'item' or c2.a[0] != o or c2.a[1] is not ONE:
                        raise Wrong('block %s with two or more particles (%s border): the second particle is not visited after the first' % (o, '/'.join(cls)))
                elif mode == 'more':
                    want = mk('vec', tuple(add(x, sub(z, y)) for x, y, z in zip(cur.a[0], s0.a[0], step.a[0])))
                    if nx is not want:
                        raise Wrong('block %s: after particle l of more than l+1 the next one is not l+1' % (o,))
                else:
                    A0b = A0
                    got, leaf = see(None, 'after the last particle of block %s' % (o,))
                    tree(nx, {}, A, leaf)
                    rest = check_chain(got, order[k + 1:], 'after block %s' % (o,), cls)
                    if rest != order[k + 1:]:
                        raise Wrong('the order of the blocks changes')
        bad |= set(A0.bad)
    if bad:
        raise Wrong('; '.join(sorted(bad)[:2]))
    return ncl, ntr


def check_chain(got, offs, what, cls):
    """the leaves of a `next block` decision: every remaining block once, after exactly the earlier ones were found empty"""
    best = {}
    end = None
    for o, n, empty, asm in got:
        if o is None:
            end = empty if end is None else end & empty
        else:
            best.setdefault(o, []).append((empty, asm))
    missing = [o for o in offs if o not in best]
    extra = [o for o in best if o not in offs]
    w = '%s (%s border)' % (what, '/'.join(cls))
    if missing:
        raise Wrong('%s: block %s is never visited' % (w, missing[0]))
    if extra:
        raise Wrong('%s: block %s is visited again' % (w, extra[0]))
    if end is None and True:
        raise Wrong('%s: the traversal does not end' % w)
    if set(offs) - end:
        raise Wrong('%s: the traversal ends although block %s may hold particles' % (w, sorted(set(offs) - end)[0]))
    pre = {o: set.intersection(*[e for e, _ in v]) for o, v in best.items()}
    order = sorted(best, key=lambda o: (len(pre[o]), o))
    for k, o in enumerate(order):
        if set(order[:k]) - pre[o]:
            raise Wrong('%s: block %s is skipped when block %s is populated' % (w, order[0] if not pre[o] else sorted(set(order[:k]) - pre[o])[0], o))
    return order
