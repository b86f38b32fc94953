"""Physical laws decided on the program's own per-stage expressions, independently of the reference formulas."""
from . import nodes as nd
from .nodes import *
from .model import Anchor
from .spec import expand
from .simp import rewrite, ctx
from .stages import Stages, verloc
from . import nf


class Steps:
    """state changes of one step, relative to the state reached before each of them"""
    def __init__(self, m):
        self.m = m
        self.st = st = Stages(m, want=set(), kinds='F')
        st.run()
        self.s = st.s

    def changes(self):
        """(name, version, value of particle i, keep) for each velocity / position version"""
        m = self.m
        D = m.D
        out = []
        allv = set()
        for f in ('X', 'U', 'P', 'N', 'TYPE'):
            for ch in self.st.V[f]:
                allv |= set(ch)
        for f in ('U', 'X'):
            for d in range(D):
                ch = self.st.V[f][d]
                for k in range(1, len(ch)):
                    out.append((f, d, k, ch[k - 1], ch[k], allv))
        return out

    def typeview(self):
        return self.st.v3

    def simp(self, n, kind='F'):
        return self.s.simp(n, self.st.v3, self.st.K[kind])

    def value(self, V, keep):
        r = self.m.rule(V)
        if r is None:
            raise Anchor('no rule for a state of a particle field')
        return expand(r, keep - {V})


def entry(s, x):
    return x.op == 'sel' and x.a[0] is s.nb and x.a[1][1] is not ZERO


def set_neighbour_type(n, s, T, k):
    return rewrite(n, lambda x: C(k) if x.op == 'sel' and x.a[0] is T and entry(s, x.a[1][0]) else None)


# ---- dummies
def dummies(rep, m):
    S = Steps(m)
    s = S.s
    T = S.st.v3.TYPE
    P, U = set(m.leafnames('P')), set(m.leafnames('U'))

    def foreign(n, names):
        for x in nd.walk(n):
            if x.op == 'sel' and nd.aname(x.a[0]) in names and x.a[1] != (m.i,):
                return x
        return None
    for f, d, k, V0, V, keep in S.changes():
        n = S.value(V, keep)
        n = ctx(set_neighbour_type(S.simp(n), s, T, s.DUMMY))
        bad = foreign(n, P | U)
        nm = '%s.%d change %d' % (f.lower(), d, k)
        status, why = 'ok', ''
        if bad is not None:
            status, why = 'diff', 'depends on %s of a dummy neighbour' % show(bad)[:120]
            t = sym('$other')
            if same(m, s, n, rewrite_once(n, lambda x: add(x, t) if x.op == 'sel' and nd.aname(x.a[0]) in P | U and x.a[1] != (m.i,) else None)):
                status, why = 'undecided', 'mentions %s of a dummy neighbour, which changes nothing at the sample points' % show(bad)[:80]
        rep.ob('dummy exerts no force', nm, status, why, verloc(V))
    if 'MPS_DS' in s.o:
        for d in range(m.D):
            ch = S.st.V['U'][d]
            n = S.value(ch[-1], set(sum(([*c] for f in ('X', 'U', 'P', 'N', 'TYPE') for c in S.st.V[f]), [])))
            n = ctx(set_neighbour_type(S.simp(n), s, T, s.DUMMY))
            old = select(ch[-2], (m.i,))
            ok = n is old or not s.ctx().diff(n, old)
            rep.ob('dummy gives no stabilising push', 'u.%d' % d, 'ok' if ok else 'undecided' if same(m, s, n, old) else 'diff', '' if ok else show(n)[:300], verloc(ch[-1]))
    if 'PRESSURE_EXPLICIT' not in s.o:
        dg, off, k, j, bad = S.st.matrix_entries()
        v3 = S.st.v3
        keep = {v3.TYPE, v3.N, v3.P} | set(v3.X) | set(v3.U)
        off = ctx(set_neighbour_type(S.simp(expand(off, keep)), s, T, s.DUMMY))
        off = ctx(rewrite(off, lambda x: C(s.DUMMY) if x.op == 'sel' and x.a[0] is T and x.a[1] == (j,) else None))
        rep.ob('dummy is not an unknown of the pressure equation', 'off-diagonal', 'ok' if off is ZERO else 'undecided' if same(m, s, off, ZERO) else 'diff', show(off)[:300], verloc(S.st.ppefield('A')))
        x = select(S.st.ppefield('x'), (m.i,))
        for kind in 'DX':
            b, x0 = S.st.rhs_and_guess(v3)
            for nm, a in (('right-hand side', b), ('initial guess', x0)):
                r = S.simp(S.value(a, keep), kind)
                rep.ob('no equation for %s particles' % ('dummy' if kind == 'D' else 'disabled'), nm, 'ok' if r is ZERO else 'undecided' if same(m, s, r, ZERO) else 'diff', show(r)[:200], verloc(a))


# ---- pair forces
def pairs(rep, m):
    """forces between two fluid particles of a fully surrounded region cancel"""
    S = Steps(m)
    s = S.s
    T = S.st.v3.TYPE
    j = sym('$pj')
    for f, d, k, V0, V, keep in S.changes():
        if f != 'U':
            continue
        n = sub(S.value(V, keep), select(V0, (m.i,)))
        n = set_neighbour_type(S.simp(n), s, T, s.FLUID)
        n = ctx(n)
        c = s.ctx()
        # fully surrounded: the particle's weighted count exceeds the reference one
        if 'MPS_SPP' in s.o:
            for v in (S.st.v1, S.st.v3):
                cond = c.poly(m.diffvars(s.simp(pos(sub(s.n0, s.density(v))), v)))
                for mono in list(cond):
                    for a, e in mono:
                        if a.kind == 'gt':
                            # n0 - n > 0 is false: either stored directly or as 1 - [n - n0 > 0] - [==]
                            c.assume[a.id] = 0 if cond == {((a, 1),): 1} else 1
                        elif a.kind == 'eq':
                            c.assume[a.id] = 0
            c.memo.clear(), c.mmemo.clear()
        try:
            p = c.poly(m.diffvars(n))
        except nf.TooBig as e:
            rep.ob('pair forces cancel', 'u.%d change %d' % (d, k), 'undecided', e, verloc(V))
            continue
        F = ZERO
        status, why = 'ok', ''
        for mono, co in p.items():
            ns = [a for a, e in mono if a.dat is not None and isinstance(a.dat, tuple) and a.node is not None and a.node.op == 'nsum']
            if not ns:
                # body forces only: nothing else may remain except what does not depend on neighbours
                if any(x.op == 'nsum' for a, e in mono if a.node is not None for x in nd.walk(a.node)):
                    status, why = 'undecided', 'term of an unrecognised form: %s' % nf.showp({mono: co}, 1)
                continue
            if len(ns) > 1:
                status, why = 'undecided', 'product of neighbour sums: %s' % nf.showp({mono: co}, 1)
                continue
            a = ns[0]
            bb, hi, dep = a.dat
            out = c.pnode({tuple(t for t in mono if t[0] is not a): co})
            body = mul(out, c.pnode({dep: 1}))
            e = mk('sel', s.nb, (m.i, add(bb, ONE)))

            def undo(x):
                if x.op == 'fn' and x.a[0] == 'D':
                    A, i0, jj = x.a[1]
                    return sub(select(A, (jj,)), select(A, (i0,)))
                return None
            body = rewrite(body, undo)
            body = rewrite(body, lambda x: j if x is e else None)
            if bb in body.bv or any(x is bb for x in nd.walk(body)):
                status, why = 'undecided', 'force depends on the position in the neighbour list: %s' % show(body)[:200]
                continue
            F = add(F, body)
        if status == 'ok':
            if F is ZERO:
                rep.ob('pair forces cancel', 'u.%d change %d' % (d, k), 'ok', 'no pair force', verloc(V))
                continue
            t = sym('$pt')
            G = subst(subst(subst(F, {m.i: t}), {j: m.i}), {t: j})
            c2 = s.ctx()
            r = c2.poly(add(F, G))
            if r:
                from . import sample
                q, w = sample.compare(F, neg(G), m, s.positive)
                if q == 'equal':
                    status, why = 'undecided', 'cancels at %d sample points' % w
                else:
                    status, why = 'diff', 'force of j on i plus force of i on j leaves %s' % nf.showp(r, 3)
        rep.ob('pair forces cancel', 'u.%d change %d' % (d, k), status, why, verloc(V))


# ---- symmetry of space
def symmetry(rep, m):
    S = Steps(m)
    s = S.s
    D = m.D
    XN, UN = m.leafnames('X'), m.leafnames('U')
    G = [x for x in s.G]
    for f, d, k, V0, V, keep in S.changes():
        n = sub(S.value(V, keep), select(V0, (m.i,)))
        n = S.simp(n)
        c = s.ctx(opaque_sums='MPS_GC' in s.o)
        nm = '%s.%d change %d' % (f.lower(), d, k)
        x = m.diffvars(n)
        allowed = set(UN) if f == 'X' else set()

        # positions only through differences
        def raw(t, names):
            seen = set()
            st = [t]
            while st:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                if y.op == 'sel' and nd.aname(y.a[0]) in names and not (y.a[0].op == 'abase' and False):
                    return y
                if y.op == 'fn' and y.a[0] == 'D':
                    st.extend(y.a[1][2:])
                    continue
                k2 = []
                nd._kids(y.a, k2)
                st.extend(k2)
            return None
        try:
            p = c.poly(x)
        except nf.TooBig as e:
            rep.ob('no preferred origin', nm, 'undecided', e, verloc(V))
            continue
        used = {a for mono in p for a, e in mono}
        bad = None
        for a in used:
            if a.node is None:
                continue
            b = raw(a.node, set(XN))
            if b is not None:
                bad = ('absolute position', b)
            b = raw(a.node, set(UN))
            if b is not None:
                # the position change is the velocity times dt, linearly; nothing else may use an absolute velocity
                if not (f == 'X' and a.node is b):
                    bad = ('absolute velocity', b)
        status, why = 'ok', ''
        if bad is not None:
            status, why = 'diff', '%s %s is used' % (bad[0], show(bad[1])[:100])
            if not shifts(m, s, n, f, d, XN, UN):
                status, why = 'undecided', why + ', but a change of frame changes nothing at the sample points'
        rep.ob('no preferred origin or frame', nm, status, why, verloc(V))
    # axes are interchangeable and mirrored consistently
    n0 = {}
    for f, d, k, V0, V, keep in S.changes():
        n0[(f, k, d)] = (S.simp(sub(S.value(V, keep), select(V0, (m.i,)))), V)

    def permute(n, pm, sg):
        arr = {}
        for f in ('X', 'U'):
            for ch in range(D):
                for idx, A in enumerate(S.st.V[f][ch]):
                    t = S.st.V[f][pm[ch]]
                    if idx < len(t):
                        arr[A] = (t[idx], sg[ch])
        gs = {G[a]: (G[pm[a]], sg[a]) for a in range(D)}

        def f(x):
            if x.op == 'sel' and x.a[0] in arr:
                A, q = arr[x.a[0]]
                y = select(A, x.a[1])
                return scale(y, Fraction(q)) if q != 1 else y
            if x in gs:
                y, q = gs[x]
                return scale(y, Fraction(q)) if q != 1 else y
            return None
        return rewrite_once(n, f)

    if any(len({len(S.st.V[f][d]) for d in range(D)}) > 1 for f in 'XU'):
        rep.ob('axes are interchangeable', 'all', 'undecided', 'components are updated in different numbers of passes')
        return
    tests = []
    for a in range(D):
        b = (a + 1) % D
        pm = list(range(D))
        pm[a], pm[b] = b, a
        if a < b:
            tests.append(('axes %d and %d exchanged' % (a, b), pm, [1] * D, a, b, 1))
        sg = [1] * D
        sg[a] = -1
        tests.append(('axis %d mirrored' % a, list(range(D)), sg, a, a, -1))
        tests.append(('axis %d mirrored' % b, list(range(D)), [-1 if q == b else 1 for q in range(D)], a, a, 1))
    for (f, k, d), (n, V) in sorted(n0.items(), key=lambda t: t[0]):
        for nm, pm, sg, a, b, q in tests:
            if a != d:
                continue
            x = permute(n, pm, sg)
            y = n0[(f, k, b)][0]
            y = scale(y, Fraction(q)) if q != 1 else y
            status, why = S.st.decide(x, y, S.st.v3, 'F')
            rep.ob('no preferred direction', '%s.%d change %d, %s' % (f.lower(), d, k, nm), status, why, verloc(V))


def same(m, s, a, b):
    """the two values agree at every sampled valuation"""
    from . import sample
    return sample.compare(a, b, m, s.positive)[0] == 'equal'


def shifts(m, s, n, f, d, XN, UN):
    """False if the values of the change n agree, at the sampled valuations, with those seen from a shifted and from a moving frame"""
    from . import sample
    for names, by in ((XN, 'shift'), (UN, 'drift')):
        t = {a: sym('$%s%d' % (by, k)) for k, a in enumerate(names)}

        def g(x):
            if x.op == 'sel' and nd.aname(x.a[0]) in t:
                return add(x, t[nd.aname(x.a[0])])
            return None
        y = rewrite_once(n, g)
        q, w = sample.compare(n, y, m, s.positive)
        if q == 'equal':
            continue
        if by == 'drift' and f == 'X':
            dt = m.dt if hasattr(m, 'dt') else None
            if dt is not None and sample.compare(add(n, mul(t[UN[d]], dt)), y, m, s.positive)[0] == 'equal':
                continue
        return True
    return False


def rewrite_once(n, f):
    """simultaneous replacement of leaves (a replaced term is not visited again)"""
    memo = {}

    def go(x):
        if not isinstance(x, N):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'sel':
            idx = tuple(go(y) for y in x.a[1])
            y = mk('sel', x.a[0], idx)
            r = f(y)
            r = y if r is None else r
        elif x.op in nd.BASES:
            r = f(x)
            r = x if r is None else r
        elif x.op in ('c', 'true', 'false', 'aver'):
            r = x
        else:
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else nd.rebuild(x, a)
        memo[x] = r
        return r
    return go(n)
