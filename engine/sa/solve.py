"""The linear solver's contract: what holds whenever it returns, and when it gives up."""
import itertools
from . import nodes as nd
from .nodes import *
from . import nf
from .interp import Interp, lits
from .values import flatten
from .model import Anchor


def linear(p):
    if p.op in ('lin', 'lvprod'):
        return True
    if p.op == 'aite':
        return any(isinstance(x, N) and isarr(x) and linear(x) for x in p.a[1:])
    return False


def iterative(L):
    """a loop that updates whole vectors by linear algebra"""
    return any(isinstance(p, N) and isarr(p) and linear(p) for p in L.flat_p.values())


class Algebra:
    """linear combinations of vectors and of their products with one matrix; inner products expand to symbols"""
    def __init__(self, A, symmetric, vmap=None):
        self.A, self.symmetric, self.vmap = A, symmetric, vmap or {}
        self.memo, self.smemo, self.rev = {}, {}, {}

    def vec(self, n):
        if n in self.memo:
            return self.memo[n]
        if n in self.vmap:
            r = self.vec(self.vmap[n])
        elif n.op == 'lin':
            r = {}
            for v, k in n.a[0]:
                k = self.scal(k)
                for t, c in self.vec(v).items():
                    r[t] = add(r[t], mul(k, c)) if t in r else mul(k, c)
        elif n.op == 'lvprod' and n.a[0] is self.A:
            r = {(v, q + 1): c for (v, q), c in self.vec(n.a[1]).items()}
        else:
            r = {(n, 0): ONE}
        r = {t: c for t, c in r.items() if not self.is0(c)}
        self.memo[n] = r
        return r

    def is0(self, c):
        if isc(c):
            return cval(c) == 0
        try:
            return nf.Ctx(set()).equal(c, ZERO)
        except Exception:
            return False

    def gram(self, u, v):
        out = ZERO
        for (a, p), c in u.items():
            for (b, q), d in v.items():
                if self.symmetric:
                    (x, y), z = sorted((a.id, b.id)), (p + q, 0)
                else:
                    (x, z0), (y, z1) = sorted(((a.id, p), (b.id, q)))
                    z = (z0, z1)
                s = sym('$gram %d %d %d %d' % (x, y, z[0], z[1]))
                out = add(out, mul(mul(c, d), s))
        return out

    def scal(self, n):
        """the scalar or condition with its inner products expanded"""
        if not any(x.op == 'fn' and x.a[0] == 'inner' for x in walk(n)):
            return n
        todo = [x for x in walk(n) if x.op == 'fn' and x.a[0] == 'inner' and x not in self.smemo]
        m = {}
        for x in todo:
            u, v = x.a[1]
            self.smemo[x] = self.gram(self.vec(u), self.vec(v))
        for x in walk(n):
            if x.op == 'fn' and x.a[0] == 'inner':
                m[x] = self.smemo[x]
        return subst(n, m)


class Entail:
    """implication between conditions over the same finite set of comparison atoms"""
    def __init__(self, positive):
        self.ctx = nf.Ctx(positive)
        self.atoms = {}
        self.facts = []

    def key(self, x):
        if x.op in ('pos', 'zero', 'ipos'):
            e = x.a[0]
            p = self.ctx.poly(root(e))
            if not p:
                return ('const', False if x.op != 'zero' else True)
            items = sorted(p.items(), key=repr)
            lead = items[0][1]
            scale_ = abs(lead)
            if x.op == 'zero':
                scale_ = lead
            return (('pos' if x.op != 'zero' else 'zero'), tuple((m, c / scale_) for m, c in items))
        return ('atom', x)

    def neg(self, k):
        return (k[0], tuple((m, -c) for m, c in k[1]))

    def ev(self, x, val):
        if x is TRUE:
            return True
        if x is FALSE:
            return False
        if x.op == 'and':
            return all(self.ev(y, val) for y in x.a[0])
        if x.op == 'or':
            return any(self.ev(y, val) for y in x.a[0])
        if x.op == 'not':
            return not self.ev(x.a[0], val)
        if x.op in ('ite', 'bite') and isbool(x):
            return self.ev(x.a[1], val) if self.ev(x.a[0], val) else self.ev(x.a[2], val)
        k = self.key(x)
        if k[0] == 'const':
            return k[1]
        return val[k]

    def collect(self, x, out):
        if x is TRUE or x is FALSE:
            return
        if x.op in ('and', 'or'):
            for y in x.a[0]:
                self.collect(y, out)
        elif x.op == 'not':
            self.collect(x.a[0], out)
        elif x.op in ('ite', 'bite') and isbool(x):
            for y in x.a:
                self.collect(y, out)
        else:
            k = self.key(x)
            if k[0] != 'const':
                out.setdefault(k, x)

    def implies(self, hyp, goal):
        """None if every assignment that satisfies hyp satisfies goal, else a counterexample"""
        at = {}
        hyp = list(hyp) + self.facts
        for x in hyp + [goal]:
            self.collect(x, at)
        ks = list(at)
        if len(ks) > 14:
            raise Anchor('too many conditions')
        for bits in itertools.product((False, True), repeat=len(ks)):
            val = dict(zip(ks, bits))
            bad = False
            for k in ks:
                if k[0] == 'pos' and val[k]:
                    n = self.neg(k)
                    if val.get(n):
                        bad = True
                    for z in (('zero', k[1]), ('zero', n[1])):
                        if val.get(self.normz(z)):
                            bad = True
            if bad:
                continue
            if all(self.ev(x, val) for x in hyp) and not self.ev(goal, val):
                return {show(at[k])[:120]: v for k, v in val.items()}
        return None

    def normz(self, z):
        items = z[1]
        lead = items[0][1]
        return ('zero', tuple((m, c / lead) for m, c in items))


def root(e):
    """a difference of two square roots (or of a root and a tolerance times a root) has the sign of the difference of the squares"""
    k, t = nd._lin(e)
    if k != 0 or len(t) != 2:
        return e
    out = ZERO
    anyroot = False
    for m, c in t.items():
        q, f = nd._fac(m)
        for b, p in f.items():
            if p.denominator == 2:
                anyroot = True
        s = scale(pw(m, Fraction(2)), c * abs(c))
        out = add(out, s)
    return out if anyroot else e


def solver(rep, config):
    from .check import export
    from .model import Model
    old = Interp.plain_exit
    Interp.plain_exit = staticmethod(iterative)
    try:
        m = Model(export('step', config), config)
        m.run('verif::step_dt', None)
    finally:
        Interp.plain_exit = old
    Ls = [L for L in m.I.loops if iterative(L)]
    if len(Ls) != 1:
        rep.ob('solver', 'iteration', 'undecided', '%d iterative loops' % len(Ls))
        return
    L = Ls[0]
    fn_ = L.fn.replace('OpenMps::', '')
    xk = [k for k in L.flat_h if k[1] == ('[]',) and k[0][1][-1:] == (('f', 'x'),) and isarr(L.flat_h[k])]
    if len(xk) != 1:
        raise Anchor('solution vector of the solver not found')
    xk = xk[0]
    base = xk[0][1][:-1]
    st0 = L.st0
    bnode = m.I.nav(st0.mem['S'], base + (('f', 'b'),)).lv[()]
    # the matrix: the one the vectors are multiplied with
    mats = {x.a[0] for p in list(L.flat_p.values()) + list(L.flat_i.values()) if isinstance(p, N) for x in walk(p) if x.op == 'lvprod'}
    if len(mats) != 1:
        rep.ob('solver', 'matrix', 'diff' if len(mats) > 1 else 'undecided', 'the iteration multiplies with %d different matrices' % len(mats), L.loc)
        return
    A = mats.pop()
    Aval = m.I.nav(st0.mem['S'], base + (('f', 'A'),)).lv[()]
    rep.ob('solver', 'the matrix is the assembled one', 'ok' if A is Aval else 'diff', '' if A is Aval else '%s instead of %s' % (show(A)[:100], show(Aval)[:100]), L.loc)
    # every value over the state at the head; what the loop leaves alone is replaced by its value
    known = {c for c in lits(st0.pc)}
    base_pc = lits(st0.pc)
    V = View()
    V.p = {k: see(p, L, known) if isinstance(p, N) else p for k, p in L.flat_p.items()}
    V.c = {k: see(p, L, known) if isinstance(p, N) else p for k, p in L.flat_c.items()}
    V.cond = see(L.cond, L, known)
    V.breaks = [[see(c, L, known) for c in lits(s.pc) if c not in base_pc] for s in L.breaks]
    V.rets = [[see(c, L, known) for c in lits(s.pc) if c not in base_pc] for s, _ in L.rets]
    xi, xh, xp = L.flat_i[xk], L.flat_h[xk], V.p[xk]
    tolv = m.I.nav(st0.mem['S'], base + (('f', 'allowableResidual'),))
    # symbols held by the head after the loop test
    heads = {k: h for k, h in L.flat_h.items() if isinstance(h, N)}

    alg0 = Algebra(A, False)
    res = lambda x: lvlin({bnode: ONE, lvprod(A, x): C(-1)})
    R0 = alg0.scal(inner(res(xi), res(xi)))
    # vectors that always hold the residual
    resid = {}
    cand = [k for k, h in heads.items() if isarr(h) and k != xk]
    eq = lambda al, u, v: al.vec(u).keys() == al.vec(v).keys() and all(nf.Ctx(set()).equal(al.vec(u)[t], al.vec(v)[t]) for t in al.vec(u))
    changed = True
    keep = [k for k in cand if V.p[k] is not None and eq(alg0, L.flat_i[k], res(xi))]
    cont = cont_assume(L, V)

    def invariants(cont, keep):
        """vectors equal to the residual and scalars equal to its square whenever the loop goes on"""
        keep = list(keep)
        changed = True
        while changed:
            changed = False
            vm = {heads[k]: res(xh) for k in keep}
            for k in list(keep):
                al = Algebra(A, False, vm)
                if not eq(al, assume(V.p[k], cont), res(assume(xp, cont))):
                    keep.remove(k)
                    changed = True
        al = Algebra(A, False, {heads[k]: res(xh) for k in keep})
        scal = {k: h for k, h in heads.items() if h.op == 'sym' and V.p[k] is not None and h not in L.hmap and nf.Ctx(set()).equal(alg0.scal(L.flat_i[k]), R0)}
        changed = True
        while changed:
            changed = False
            sm = {h: al.scal(inner(res(xh), res(xh))) for h in scal.values()}
            for k in list(scal):
                want = al.scal(inner(res(assume(xp, cont)), res(assume(xp, cont))))
                got = al.scal(assume(V.p[k], cont))
                if not nf.Ctx(set()).equal(subst(got, sm), subst(want, sm)):
                    del scal[k]
                    changed = True
        sm = {h: al.scal(inner(res(xh), res(xh))) for h in scal.values()}
        return keep, al, scal, sm
    _, al_out, _, sm_out = invariants(set(), keep)
    keep, al, scal, sm = invariants(cont, keep)
    fix = lambda n: subst(al.scal(subst(n, L.hmap)), sm)
    fix_out = lambda n: subst(al_out.scal(subst(n, L.hmap)), sm_out)
    names = {k: k[0][0].split('~')[0] if k[0][0] != 'S' else '.'.join(x for _, x in k[0][1]) for k in heads}
    rep.add('residual_vectors', len(keep))
    rep.add('residual_scalars', len(scal))

    eps2R0 = mul(mul(tolv, tolv), R0)

    def small(x):
        r = al.scal(inner(res(x), res(x)))
        r = subst(r, sm)
        return bor(pos(sub(eps2R0, r)), zero(eps2R0))
    ent = Entail({tolv.a[0]} if tolv.op == 'sym' else set())
    # a square is not negative; the tolerance is positive
    ent.facts = [bor(pos(eps2R0), zero(eps2R0)), bnot(pos(neg(eps2R0))), bor(pos(R0), zero(R0)), bnot(pos(neg(R0))), bor(bnot(zero(R0)), zero(eps2R0)), bor(bnot(zero(eps2R0)), zero(R0))]
    # flags that imply convergence
    flags = [k for k, h in heads.items() if h.op == 'bsym' and V.p[k] is not None]
    good = []
    for k in flags:
        for sign in (True, False):
            lit = (lambda n, s=sign: n if s else bnot(n))
            if ent.implies([alg0.scal(lit(L.flat_i[k]))], bor(zero(eps2R0), pos(sub(eps2R0, R0)))) is None:
                good.append((k, sign))
    changed = True
    while changed:
        changed = False
        for k, sign in list(good):
            hyp = [fix(lit_(V.p[k], sign))] + [bor(lit_(heads[q], not s), small(xh)) for q, s in good] + [fix(c) for c in lits(V.cond)]
            if ent.implies(hyp, small(xp)) is not None:
                good.remove((k, sign))
                changed = True
    facts = [bor(lit_(heads[q], not s), small(xh)) for q, s in good]
    rep.add('convergence_flags', len(good))
    heads_after = lambda k: V.c[k] if V.c.get(k) is not None else heads[k]
    # throws after the loop, as conditions over the state in which the loop is left
    back = {}
    for k, h in heads.items():
        if h in L.hmap:
            continue
        if isarr(h):
            continue
        back[(('brec' if h.op == 'bsym' else 'rec'), h.a[0])] = h
    ex = m.I.nav(L.exit.mem['S'], base + (('f', 'x'),)).lv[()]
    after = []
    for t in m.I.throws[0]:
        if getattr(t, 'inner', None) is None and any(y is ex for y in walk(m.I.nav(t.mem['S'], base + (('f', 'x'),)).lv[()])):
            after.append(t)

    def thrown(vals):
        """condition under which the code after the loop throws, when the loop is left with these values"""
        out = []
        for t in after:
            pc = band(*[c for c in lits(t.pc) if c not in base_pc])
            mp = {}
            for x in walk(pc):
                if x.op in ('rec', 'brec') and x.a[0] == L.id:
                    h = [(k, y) for k, y in heads.items() if y.a and y.a[0] == x.a[1]]
                    if not h:
                        raise Anchor('value after the solver loop not followed')
                    mp[x] = vals(h[0][0])
                if x.op == 'exists' and x.a[0] is L.binder:
                    mp[x] = FALSE       # the iterations did not return
            out.append(subst(pc, mp))
        return bor(*out)
    # a system whose first residual is zero is accepted as it is
    start = {h: L.flat_i[k] for k, h in heads.items() if not isarr(h) and isinstance(L.flat_i[k], N)}
    r0 = lambda n: subst(n, {x: ZERO for x in walk(n) if x.op == 'fn' and x.a[0] == 'inner' and nf.Ctx(set()).equal(alg0.gram(alg0.vec(x.a[1][0]), alg0.vec(x.a[1][1])), R0)})
    c0 = r0(subst(V.cond, start))
    if counted(L):
        t0 = r0(thrown(lambda k: L.flat_i[k]))
    else:
        t0 = r0(thrown(lambda k: subst(heads_after(k), start)))
    dead = any(r0(c) is FALSE for c in lits(st0.pc))
    for s, g in zip(L.breaks, V.breaks):
        if c0 is TRUE and r0(subst(band(*g), start)) is TRUE and flat_at(m, s, xk) is xh:
            c0, t0 = FALSE, r0(subst(thrown(lambda k: see(flat_at(m, s, k), L, known)), start))
    for s, g in zip(L.rets, V.rets):
        if c0 is TRUE and r0(subst(band(*g), start)) is TRUE and flat_at(m, s[0], xk) is xh:
            c0 = t0 = FALSE
    if dead:
        cex = None      # the loop is not reached with a zero residual
    else:
        cex = None if c0 is FALSE and t0 is FALSE else (show(c0), show(t0))
        if cex and c0 is not FALSE and ent.implies([c0], FALSE) is None and ent.implies([t0], FALSE) is None:
            cex = None
    rep.ob('an exact solution is accepted as it is', fn_, 'ok' if cex is None else 'diff', '' if cex is None else 'with a zero residual the iteration is entered under %s, an error raised under %s' % cex, L.loc)
    # left by the loop test
    exits = [('the loop test', [bnot(V.cond)] if not counted(L) else [], heads_after, xh, L.loc)]
    for s, g in zip(L.breaks, V.breaks):
        exits.append(('break', g, lambda k, s=s: see(flat_at(m, s, k), L, known), see(flat_at(m, s, xk), L, known), L.loc))
    for name, hyp, vals, xv, loc in exits:
        th = thrown(vals)
        fx = fix_out if name == 'the loop test' else fix
        h = [fx(c) for c in hyp] + facts + [fx(bnot(th))]
        cex = ent.implies(h, small(xv))
        rep.ob('solver returns only converged solutions', '%s, left by %s' % (fn_, name), 'ok' if cex is None else 'diff', '' if cex is None else 'returns normally although the squared residual is not below tolerance^2 times the initial one: %s' % cex, loc)
    for (s, v), g in zip(L.rets, V.rets):
        h = [fix(c) for c in g] + facts
        cex = ent.implies(h, small(see(flat_at(m, s, xk), L, known)))
        rep.ob('solver returns only converged solutions', '%s, left by return' % fn_, 'ok' if cex is None else 'diff', '' if cex is None else str(cex), L.loc)
    # solution handed on unchanged
    fx = m.I.nav(m.st.mem['S'], base + (('f', 'x'),)).lv[()]
    same = any(y is ex for y in walk(fx)) and fx.op in ('aver', 'arec', 'aite')
    rep.ob('solution is handed on unchanged', fn_, 'ok' if same else 'undecided', '' if same else show(fx)[:200], L.loc)
    limit(rep, m, L, V, fn_, xk, heads)
    conjugate(rep, L, V, A, heads, xk, bnode, cont | break_assume(L, V), fn_, {heads[k] for k in keep})
    breakdown(rep, config, fn_, L.fn)


def breakdown(rep, config, fn_, qn):
    """the residual is not a number (0/0 in a singular system): every comparison with it is false, and the solver has to give up"""
    from .check import export
    from .model import Model
    from .interp import Dead
    name = 'a residual that is not a number is never taken for a solution'
    old = Interp.plain_exit
    Interp.plain_exit = staticmethod(iterative)
    try:
        m = Model(export('step', config), config)
        m.I.nanin = qn
        m.run('verif::step_dt', None)
    except Dead:
        rep.ob(name, fn_, 'ok', '', '?')
        return
    finally:
        Interp.plain_exit = old
    Ls = [L for L in m.I.loops if iterative(L)]
    mine = [t for t in m.I.throws[0] if qn in getattr(t, 'stack', [qn]) and getattr(t, 'inner', None) is None]
    if len(Ls) != 1:
        # the iteration is not even entered
        rep.ob(name, fn_, 'diff' if not Ls and not mine else 'undecided', 'returns without an error when the first residual is not a number', '?')
        return
    L = Ls[0]
    flags = {k: h for k, h in L.flat_h.items() if isinstance(h, N) and h.op == 'bsym'}

    def thrown(vals):
        out = []
        for t in mine:
            mp = {}
            for x in walk(t.pc):
                if x.op == 'brec' and x.a[0] == L.id:
                    mp[x] = next((vals[k] for k, h in flags.items() if h.a[0] == x.a[1]), x)
                elif x.op == 'exists' and x.a[0] is L.binder:
                    mp[x] = FALSE
            out.append(band(*[subst(c, mp) for c in lits(t.pc) if c not in lits(L.st0.pc)]))
        return bor(*out)
    base = lits(L.st0.pc)
    at = lambda n, s: subst(subst(n, L.hmap), {flags[k]: v for k, v in s.items()})
    s = {k: L.flat_i[k] for k in flags}
    verdict = None
    for step in range(4):
        if any(v not in (TRUE, FALSE) for v in s.values()):
            break
        c = at(L.cond, s)
        if c is FALSE:
            t = thrown(s)
            verdict = 'ok' if t is TRUE else 'diff' if t is FALSE else None
            break
        for q, _ in L.rets:
            if band(*[at(x, s) for x in lits(q.pc) if x not in base]) is TRUE:
                verdict = 'diff'
        for q in L.breaks:
            if band(*[at(x, s) for x in lits(q.pc) if x not in base]) is TRUE:
                t = thrown({k: at(flat_at(m, q, k), s) for k in flags})
                verdict = 'ok' if t is TRUE else 'diff' if t is FALSE else 'undecided'
        if verdict:
            break
        new = {k: at(L.flat_p[k], s) for k in flags}
        if all(new[k] is s[k] for k in s):
            # goes on like this until the limit is reached
            t = thrown(s)
            verdict = 'ok' if t is TRUE else 'diff' if t is FALSE else None
            break
        s = new
    rep.ob(name, fn_, verdict or 'undecided', '' if verdict == 'ok' else 'comparisons that are false for not-a-number let it return normally', L.loc)


class View:
    pass


def see(n, L, known):
    return assume(subst(n, L.hmap), known) if isinstance(n, N) else n


def lit_(n, s):
    return n if s else bnot(n)


def counted(L):
    return not L.generic and L.ind is not None


def flat_at(m, s, k):
    return flatten(m.I.getkey(s, k[0]))[k[1]]


def cont_assume(L, V):
    """literals that hold when the iteration goes on after this one: the loop test on the updated values"""
    mp = {h: V.p[k] for k, h in L.flat_h.items() if isinstance(h, N) and V.p.get(k) is not None and h not in L.hmap and not isarr(h) and isinstance(V.p[k], N)}
    c = subst(V.cond, mp)
    return {y for x in lits(c) for y in (x,)}


def break_assume(L, V):
    """what also holds when the next iteration passes the exits at its beginning"""
    mp = {h: V.p[k] for k, h in L.flat_h.items() if isinstance(h, N) and V.p.get(k) is not None and h not in L.hmap and not isarr(h) and isinstance(V.p[k], N)}
    out = set()
    for g in V.breaks:
        g = [c for c in g if c not in lits(V.cond)]
        if g and all(any(c is h or c is bnot(h) for h in mp) for c in g):
            out |= lits(bnot(subst(band(*g), mp)))
    return out


def assume(n, cont):
    m = {}
    for x in cont:
        m[x] = TRUE
        m[bnot(x)] = FALSE
    return subst(n, m)


def limit(rep, m, L, V, fn_, xk, heads):
    """the number of iterations: as many as unknowns"""
    size = L.flat_i.get((xk[0], ('#0',)))
    e = sub(L.hi, L.lo) if counted(L) else None
    if e is None:
        for k, h in heads.items():
            p, c, i0 = V.p.get(k), V.c.get(k), L.flat_i[k]
            if h.op == 'sym' and p is not None and h not in L.hmap and isc(sub(p, h)) and cval(sub(p, h)) == 1:
                for x in lits(V.cond):
                    if x.op in ('pos', 'ipos'):
                        d = add(x.a[0], h)
                        if h not in d.bv:
                            e = sub(d, i0)
    if e is None:
        for k, h in heads.items():
            if h in L.hmap and h.op == 'sym':
                p = L.hmap[h]
                for x in lits(V.cond):
                    if x.op in ('pos', 'ipos') and L.binder in (subst(x.a[0], L.hmap)).bv:
                        d = add(subst(x.a[0], L.hmap), L.binder)
                        if L.binder not in d.bv:
                            e = d
    ok = None
    if e is not None and size is not None:
        ok = samesize(m, e, size)
    if e is not None and isc(e):
        ok = False
    rep.ob('iteration limit is the number of unknowns', fn_, 'undecided' if ok is None else 'ok' if ok else 'diff', '' if ok else 'gives up after %s iterations with %s unknowns' % (show(e) if e is not None else '?', show(size) if size is not None else '?'), L.loc)


def samesize(m, a, b):
    """equal for every state whose solver arrays all have the size of the last assembled system"""
    q = sym('$q')

    def norm(x):
        mp = {}
        for y in walk(x):
            if y.op == 'sym' and ('.ppe.' in y.a[0]) and ('size' in y.a[0] or '#' in y.a[0]):
                mp[y] = q
        return subst(x, mp)
    a, b = norm(a), norm(b)
    d = sub(a, b)
    if isc(d):
        return cval(d) == 0
    # both branches of the rebuild test
    cs = {x.a[0] for y in (a, b) for x in walk(y) if x.op == 'ite'}
    if len(cs) > 3:
        return None
    for bits in itertools.product((TRUE, FALSE), repeat=len(cs)):
        mp = {}
        eqs = {}
        for c, v in zip(cs, bits):
            mp[c] = v
            if v is TRUE and c.op == 'zero':
                k, t = nd._lin(c.a[0])
                if q in t:
                    eqs[q] = add(q, scale(c.a[0], -1 / t[q]))
        x = subst(subst(d, mp), eqs)
        if not isc(x):
            return None
        if cval(x) != 0:
            return False
    return True


def conjugate(rep, L, V, A, heads, xk, bnode, cont, fn_, resid):
    """each new search direction is A-conjugate to the last one and the new residual orthogonal to it, by induction"""
    xh, xp = heads[xk], assume(V.p[xk], cont)
    al = Algebra(A, True)
    ali = al
    if resid:
        rh = sorted(resid, key=lambda h: h.id)[0]
        al = Algebra(A, True, {bnode: lvlin({rh: ONE, lvprod(A, xh): ONE})})
    dx = al.vec(lvlin({xp: ONE})) if xp.op != 'lin' else al.vec(xp)
    dirs = [(t, c) for t, c in dx.items() if t != (xh, 0)]
    res = 'the step is not along one stored direction'
    if dx.get((xh, 0)) is ONE and len(dirs) == 1 and dirs[0][0][1] == 0:
        ph = dirs[0][0][0]
        pk = [k for k, h in heads.items() if h is ph]
        # the vector kept as the residual
        rk = [k for k, h in heads.items() if isarr(h) and k != xk and h is not ph and V.p[k] is not None and
              eqq(ali, L.flat_i[k], lvlin({bnode: ONE, lvprod(A, L.flat_i[xk]): C(-1)})) and
              change(al, V.p[k], h, xp, xh, A, cont)]
        if pk and rk:
            k, rh = rk[0], heads[rk[0]]
            R, P, Q = {(rh, 0): ONE}, {(ph, 0): ONE}, {(ph, 1): ONE}
            g = al.gram
            rr, pq = g(R, R), g(P, Q)
            # induction hypotheses: (r, p) = (r, r), (r, A p) = (p, A p), scalars holding (r, r)
            hyp = {g(R, P): rr, g(R, Q): pq}
            for q, h in heads.items():
                if h.op == 'sym' and V.p[q] is not None and h not in L.hmap and ali.scal(L.flat_i[q]) is ali.scal(inner(L.flat_i[k], L.flat_i[k])):
                    hyp[h] = rr
            r1 = al.vec(assume(V.p[k], cont))
            p1 = al.vec(assume(V.p[pk[0]], cont))
            c = nf.Ctx(set())
            s = lambda n: subst(n, hyp)
            again = True
            while again:
                again = False
                for h in [h for h in hyp if not h.a[0].startswith('$gram')]:
                    q = [q for q in heads if heads[q] is h][0]
                    if not c.equal(s(sub(al.scal(assume(V.p[q], cont)), g(r1, r1))), ZERO):
                        del hyp[h]
                        again = True
            t1 = s(sub(g(r1, p1), g(r1, r1)))
            t2 = s(g(p1, Q))
            if eqq(ali, L.flat_i[pk[0]], L.flat_i[k]):
                z1, z2 = c.equal(t1, ZERO), c.equal(t2, ZERO)
                res = None if z1 and z2 else 'the new residual is not orthogonal to the last direction' if not z1 else 'the new direction is not conjugate to the last one'
            else:
                res = 'the first direction is not the first residual'
        elif pk:
            res = 'no stored vector is the residual of the current solution'
    rep.ob('directions are conjugate', fn_, 'ok' if res is None else 'diff' if not res.startswith('the step is') else 'undecided', res or '', L.loc)


def eqq(al, u, v):
    a, b = al.vec(u), al.vec(v)
    return a.keys() == b.keys() and all(nf.Ctx(set()).equal(a[t], b[t]) for t in a)


def change(al, rp, rh, xp, xh, A, cont):
    """r' - r = -A (x' - x)"""
    a = al.vec(lvlin({assume(rp, cont): ONE, rh: C(-1)}) if assume(rp, cont) is not rh else mk('lin', ()))
    b = dict(al.vec(xp))
    u = b.pop((xh, 0), None)
    if u is not ONE:
        return False
    b = {(v, q + 1): neg(c) for (v, q), c in b.items()}
    return a.keys() == b.keys() and all(nf.Ctx(set()).equal(a[t], b[t]) for t in a)
