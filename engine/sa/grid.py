"""Neighbour search: the candidate grid is cleared and filled, every stored slot around a particle is visited once, and exactly
the enabled particles nearer than the search radius are listed."""
import itertools
from . import nodes as nd
from .nodes import *
from .model import Model, Anchor
from .values import *
from .interp import ALLDEFS, fresh2
from .spec import Spec, expand
from .simp import rewrite, ctx
from .enum import Abs, Env, Undecided, Wrong, enumeration, lin_sign
from . import nf


class Ev(Abs):
    """evaluation under substitutions with a set of symbols known to be >= 0"""
    def __init__(self, sub, nonneg):
        self.sub, self.nonneg, self.memo, self.fuel = dict(sub), set(nonneg), {}, 100000
        self.env = Env()
        self.env.data, self.env.blocks, self.env.loops = None, [], {}


def leafcases(v, old):
    """(guard, value) pairs of an ite tree; leaves that are `old` dropped"""
    if v.op == 'ite':
        return [(band(v.a[0], g), x) for g, x in leafcases(v.a[1], old)] + [(band(bnot(v.a[0]), g), x) for g, x in leafcases(v.a[2], old)]
    return [] if v is old else [(TRUE, v)]


def final_key(m):
    return (('S', m.neighref.s), ('[]',))


def store_into(A, base):
    """(index, value) of the single store that makes A from base, None otherwise"""
    if A.op == 'astore' and A.a[0] is base:
        return A.a[1], A.a[2]
    if A.op == 'aite' or A.op == 'ite':
        a, b = A.a[1], A.a[2]
        ra = store_into(a, base) if a is not base else None
        rb = store_into(b, base) if b is not base else None
        if ra and b is base:
            return ra[0], ite_any(A.a[0], ra[1], mk('sel', base, ra[0]))
        if rb and a is base:
            return rb[0], ite_any(A.a[0], mk('sel', base, rb[0]), rb[1])
    return None


def mainloop(m):
    """(candidate loop, particle loop) of the neighbour search"""
    I = m.I
    key = final_key(m)
    ws = [L for L in I.loops if key in L.unresolved]
    inner = [L for L in ws if isinstance(L.flat_p[key], N) and not (set(nd.walk(L.flat_p[key])) & {x for x in nd.walk(L.flat_p[key]) if x.op in ('arec', 'rec') or x.op == 'aver' and (ALLDEFS.get(x.a[:2]) or (0, TRUE))[1].op == 'arec'})]
    return ws, key


class Search:
    def __init__(self, m, rep):
        self.m, self.rep = m, rep
        self.s = Spec(m, m.ir.macros)
        self.D = m.D
        self.loc = '?'
        I = m.I
        nb = I.read(m.neighref, m.st).lv[()]
        if nb.op in ('aite', 'ite') and any(x.op == 'abase' for x in nb.a[1:]):
            g = nb.a[0] if nb.a[1].op == 'abase' else bnot(nb.a[0])
            nb = [x for x in nb.a[1:] if x.op != 'abase'][0]
            if self.diff(ite(g, ONE, ZERO), ZERO, {m.psize.a[0]} if m.psize.op == 'sym' else ()):
                self.ob('search', 'the neighbours are searched in every step', 'the lists of an earlier step are used if %s' % show(g)[:240])
        d = ALLDEFS.get(nb.a[:2]) if nb.op == 'aver' else None
        if d is None or d[1] is None or d[1].op != 'arec':
            raise Undecided('the neighbour table is not written by one loop')
        byid = {L.id: L for L in I.loops}
        self.byid = byid
        self.P = P = byid[d[1].a[0]]
        self.loc = P.loc
        self.nb0 = d[1].a[2] if len(d[1].a) > 2 else None
        self.key = key = final_key(m)
        if key not in P.unresolved:
            raise Undecided('table loop')
        self.i = P.binder
        if self.nb0 is None or self.nb0.op != 'abase':
            raise Undecided('the neighbour table is written before the search')

    def real(self, n, *loops):
        for L in loops:
            n = subst(n, L.hmap)
        return n

    def diff(self, a, b, extra=()):
        p = nf.Ctx(self.s.positive | set(extra)).diff(a, b)
        return nf.showp(p, 3) if p else ''

    def ob(self, name, where, why, loc=None):
        self.rep.ob(name, where, 'diff' if why else 'ok', why, loc or self.loc)

    def stale(self, v):
        """a row's length as it was before the row was built"""
        h, i = self.P.flat_h[self.key], self.i
        for _ in range(4):
            if v is mk('sel', h, (i, ZERO)):
                return True
            if v.op != 'sel' or v.a[1] != (i, ZERO):
                return False
            d = ALLDEFS.get(v.a[0].a[:2]) if v.a[0].op == 'aver' else None
            L = self.byid.get(d[1].a[0]) if d is not None and d[1] is not None and d[1].op == 'arec' else None
            if L is None or L.flat_i.get(self.key) is None:
                return False
            v = select(L.flat_i[self.key], (i, ZERO))
        return False

    # ---- outer loop: one row per enabled particle
    def rows(self):
        m, P, key = self.m, self.P, self.key
        if P.generic or P.lo is not ZERO or P.hi is not m.psize or P.whilecond is not TRUE:
            lo, hi = P.lo, P.hi
            if not P.generic and P.whilecond is TRUE and isinstance(hi, N):
                self.ob('neighbour rows', 'every particle', 'rows %s to %s of %s are built' % (show(lo), show(hi), show(m.psize)))
                return
            raise Undecided('particle loop of the search')
        self.ob('neighbour rows', 'every particle', '')
        i, h = self.i, P.flat_h[key]
        cnt = select(P.flat_p[key], (i, ZERO))
        cases = leafcases(cnt, select(h, (i, ZERO)))
        if len(cases) != 1:
            for g, v in cases:
                if self.stale(v) and self.diff(ite(self.real(g, P), ONE, ZERO), ZERO):
                    self.ob('neighbour list', 'the length of the list is set in every search',
                            'the length left by the search before is kept if %s' % show(self.real(g, P))[:240])
                    return True
            raise Undecided('neighbour count is not set once')
        g, c = cases[0]
        entry = P.st0.mem['S']
        self.ty = m.I.nav(entry, m.parts.s).lv[m.leafpaths('TYPE')[0]]
        self.X = [m.I.nav(entry, m.parts.s).lv[p] for p in m.leafpaths('X')]
        x0 = [m.I.read(m.parts, m.start).lv[p] for p in m.leafpaths('X')]
        if any(a is not b for a, b in zip(self.X, x0)):
            raise Undecided('positions change before the search')
        en = bnot(zero(sub(select(self.ty, (i,)), C(self.s.DISABLED))))
        g = self.real(g, P)
        self.ob('neighbour rows', 'a row is built exactly for enabled particles', self.diff(ite(g, ONE, ZERO), ite(en, ONE, ZERO)))
        if c.op != 'rec':
            raise Undecided('neighbour count %s' % show(c)[:80])
        L = self.byid.get(c.a[0])
        self.L = L
        e = [k for k, hv in L.flat_h.items() if isinstance(hv, N) and hv.a and hv.a[0] == c.a[1]]
        if len(e) != 1 or key not in L.unresolved:
            raise Undecided('neighbour count')
        self.ek = e[0]
        init = L.flat_i[self.ek]
        self.ob('neighbour list', 'starts empty', '' if init is ZERO else 'the list position starts at %s' % show(init), L.loc)

    # ---- candidate loop
    def filter(self):
        m, P, L, key, i = self.m, self.P, self.L, self.key, self.i
        h = L.flat_h[key]
        E = L.flat_h[self.ek]
        st = store_into(L.flat_p[key], h)
        if st is None:
            raise Undecided('the candidate loop writes the table in several places')
        idx, val = st
        if len(idx) != 2 or idx[0] is not i:
            raise Undecided('row index %s' % ', '.join(show(x) for x in idx))
        self.ob('neighbour list', 'entries are written at the end of the list', self.diff(idx[1], add(E, ONE)), L.loc)
        cases = leafcases(val, mk('sel', h, idx))
        vals = {x for _, x in cases}
        if len(vals) != 1:
            raise Undecided('several candidate values')
        self.cand = vals.pop()
        g = bor(*[x for x, _ in cases])
        nxt = L.flat_p[self.ek]
        cand = self.real(self.cand, L, P)
        cs = cand.a[0] if cand.op == 'sel' else None
        if cand.op != 'sel':
            raise Undecided('candidate %s' % show(cand)[:80])
        self.data = cs
        J = fresh2('sym', 'j', 'bound')
        nd.LOOPRANGE[J] = (ZERO, m.psize)

        def j(n):
            return rewrite(subst(n, {self.cand: J}), lambda y: J if y is cand else None)
        gj = j(self.real(j(g), L, P))
        if any(x is cand or x is self.cand for x in walk(gj)):
            raise Undecided('candidate guard')
        s = self.s
        dx = [sub(select(a, (J,)), select(a, (i,))) for a in self.X]
        r2 = s.dot(dx, dx)
        refs = [('not the particle itself', bnot(zero(sub(J, i)))), ('enabled', bnot(zero(sub(select(self.ty, (J,)), C(s.DISABLED))))),
                ('nearer than the search radius', pos(sub(s.NL, sqrt(r2))))]
        ref = band(*[x for _, x in refs])
        gj = m.diffvars(gj, i)
        ref2 = m.diffvars(ref, i)
        why = self.diff(ite(gj, ONE, ZERO), ite(ref2, ONE, ZERO), {s.NL.a[0]})
        self.ob('neighbour list', 'lists exactly the other enabled particles nearer than the search radius', why, L.loc)
        n2 = j(self.real(j(nxt), L, P))
        e2 = self.real(E, P)
        self.ob('neighbour list', 'the list grows by one per listed particle', self.diff(m.diffvars(sub(n2, e2), i), ite(gj, ONE, ZERO), {s.NL.a[0]}), L.loc)

    def grid0(self):
        """grid dimensions and blocks"""
        m = self.m
        gr = m.st.mem['S']
        gp = tuple(('f', x) for x in m.gridname.split('.')[1:])
        self.gridv = m.I.nav(gr, gp)
        arr = [(k, v) for k, v in self.gridv.f.items() if isinstance(v, SArr) and len(v.dims) == self.D + 1]
        if len(arr) != 1:
            raise Undecided('grid storage')
        self.gk, ga = arr[0]
        self.shape = ga.dims
        vecs = [v for v in self.gridv.f.values() if isinstance(v, Vec)]
        nums = [v for v in self.gridv.f.values() if isinstance(v, N) and not nd.isbool(v)]
        if len(vecs) != 1 or len(nums) != 1:
            raise Undecided('grid fields')
        self.origin, self.len = vecs[0].c, nums[0]
        self.blocks = [fn('floor', div(sub(select(x, (self.i,)), o), self.len)) for x, o in zip(self.X, self.origin)]

    def traverse(self):
        m, P, L = self.m, self.P, self.L
        env = Env()
        env.D, env.shape, env.blocks, env.loops = self.D, self.shape, self.blocks, self.byid
        env.data = self.data
        env.base = {}
        env.outer = {}

        def same(n, f):
            return not self.diff(n, f)
        env.same = same
        env.cond = self.real(L.whilecond, L, P)
        env.cand = self.real(self.cand, L, P)
        used = set()
        for e in (env.cond, env.cand):
            used |= {x for x in walk(e)}
        keys = [k for k in L.unresolved if isinstance(L.flat_h[k], N) and not isarr(L.flat_h[k]) and k != self.ek]
        state = {k for k in keys if L.flat_h[k] in used}
        while True:
            more = set(state)
            for k in state:
                w = set(walk(L.flat_p[k]))
                more |= {q for q in keys if L.flat_h[q] in w}
            if more == state:
                break
            state = more
        env.state = state
        env.P = P
        ncl, ntr = enumeration(env, L)
        self.rep.add('border_classes', ncl)
        self.rep.add('traversal_transitions', ntr)
        self.ob('traversal', 'each stored slot of every block around the particle is visited once', '', L.loc)

    # ---- the grid
    def fill(self):
        m = self.m
        D = self.D
        d = self.data
        df = ALLDEFS.get(d.a[:2]) if d.op == 'aver' else None
        if df is None or df[1] is None or df[1].op != 'arec':
            raise Undecided('grid content %s' % show(d)[:60])
        Q = self.byid[df[1].a[0]]
        key = (('S', tuple(('f', x) for x in m.gridname.split('.')[1:]) + (('f', self.gk),)), ('[]',))
        if key not in Q.flat_h:
            raise Undecided('grid content')
        if Q.par:
            raise Undecided('grid filled by a parallel loop')
        i = Q.binder
        if Q.generic or Q.whilecond is not TRUE:
            raise Undecided('loop that fills the grid')
        full = Q.lo is ZERO and Q.hi is m.psize
        self.ob('grid', 'every particle is entered', '' if full else 'particles %s to %s of %s are entered' % (show(Q.lo), show(Q.hi), show(m.psize)), Q.loc)
        h = Q.flat_h[key]
        p = Q.flat_p[key]
        tk = (('S', m.parts.s), ('[]',) + m.leafpaths('TYPE')[0])
        th = Q.flat_h.get(tk)
        tp = Q.flat_p.get(tk)
        entry = Q.st0.mem['S']
        T0 = m.I.nav(entry, m.parts.s).lv[m.leafpaths('TYPE')[0]]
        X = [m.I.nav(entry, m.parts.s).lv[q] for q in m.leafpaths('X')]
        b = [fn('floor', div(sub(select(x, (i,)), o), self.len)) for x, o in zip(X, self.origin)]
        inr = band(*[y for ax in range(D) for y in (pos(add(b[ax], ONE), True), pos(sub(self.shape[ax], b[ax]), True))])
        ti = select(T0, (i,)) if tp is None else select(th, (i,))
        en = bnot(zero(sub(ti, C(self.s.DISABLED))))
        g = band(en, inr)
        bs = [sym('$b%d' % ax) for ax in range(D)]
        c, e = sym('$c'), sym('$e')

        def at(idx, extra=None):
            v = self.real(select(p, idx), Q)
            hh = self.real(mk('sel', h, idx), Q)
            sub_ = {}
            ct = self.real(mk('sel', h, tuple(b) + (ZERO,)), Q)
            ev = Ev({}, {c, e})
            ev.sub[ct] = extra if extra is not None else c
            ev.sub[mk('sel', self.real(h, Q), tuple(bs) + (ZERO,))] = ev.sub[ct]
            return ev.ev(v), ev.ev(hh)

        def check(label, idx, new, cc=None):
            v, old = at(idx, cc)
            want = ite_any(g2, new, old) if new is not None else old
            self.ob('grid', label, self.diff(v, want), Q.loc)
        h2 = self.real(h, Q)
        g2 = self.real(g, Q)
        # b as real nodes appear both as index and value
        bb = tuple(self.real(x, Q) for x in b)
        check('the count of the particle\'s block grows by one', bb + (ZERO,), add(c, ONE))
        check('the particle is put into the next free slot', bb + (add(c, ONE),), i)
        check('slots in use are kept', bb + (add(e, ONE),), None, add(c, add(e, ONE)))
        check('other slots are kept', bb + (add(c, add(e, C(2))),), None)
        for ax in range(D):
            idx = list(bb)
            idx[ax] = add(bb[ax], add(e, ONE))
            check('other blocks are kept (axis %d)' % ax, tuple(idx) + (ZERO,), None)
        # a full block is an error, and nothing else is
        t = self.real(bor(*[x.pc for x in Q.throws]), Q)
        ev = Ev({self.real(mk('sel', h, tuple(b) + (ZERO,)), Q): c}, {c, e})
        t = subst(t, ev.sub)
        want = subst(band(self.real(g, Q), pos(sub(add(c, C(2)), self.shape[-1]), True)), ev.sub)
        self.ob('grid', 'exactly a particle without room in its block is an error', self.diff(ite(t, ONE, ZERO), ite(want, ONE, ZERO)), Q.loc)
        # a particle outside is disabled
        if tp is not None:
            tv = self.real(select(tp, (i,)), Q)
            old = self.real(ti, Q)
            self.ob('grid', 'exactly the enabled particles outside all blocks are disabled',
                    self.diff(tv, ite_any(band(self.real(en, Q), bnot(self.real(inr, Q))), C(self.s.DISABLED), old)), Q.loc)
            tl = ALLDEFS.get(self.ty.a[:2]) if self.ty.op == 'aver' else None
        else:
            raise Undecided('types are not written where the grid is filled')
        # starts from all counts zero
        d0 = Q.flat_i[key]
        ps = [fresh2('sym', 'p', 'bound') for _ in range(D)]
        for q, n in zip(ps, self.shape):
            nd.LOOPRANGE[q] = (ZERO, n)
        v = select(d0, tuple(ps) + (ZERO,))
        z = ctx(expand(v, {n for n in walk(v) if n.op == 'aver' and (ALLDEFS.get(n.a[:2]) or (0, TRUE))[1].op == 'arec'}))
        if z is ZERO:
            self.ob('grid', 'every block is emptied before', '', Q.loc)
        else:
            n_ = [show(x) for x in self.shape]
            ds = ALLDEFS.get(d0.a[:2]) if d0.op == 'aver' else None
            unk = any(x.op in ('rec', 'arec') for x in walk(z)) or ds is not None and ds[1] is not None and ds[1].op == 'arec'
            if unk:
                self.rep.ob('grid', 'every block is emptied before', 'undecided', show(z)[:200], Q.loc)
            else:
                self.ob('grid', 'every block is emptied before', 'the count of block (%s) of shape (%s) starts from %s' % (', '.join(map(show, ps)), ', '.join(n_), show(z)[:300]), Q.loc)

    def run(self):
        for f in (self.rows, self.filter, self.grid0, self.traverse, self.fill):
            try:
                if f():
                    return
            except Undecided as e:
                self.rep.ob(f.__name__, 'search', 'undecided', str(e), self.loc)
                if f.__name__ in ('rows', 'filter', 'grid0'):
                    return
            except Wrong as e:
                self.ob('traversal', 'each stored slot of every block around the particle is visited once', str(e), self.L.loc)


def search(rep, m):
    try:
        S = Search(m, rep)
    except Undecided as e:
        rep.ob('search', 'search', 'undecided', str(e))
        return
    S.run()
