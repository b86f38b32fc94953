"""Matches the analysed step, field version by field version, against the reference chain of stages.

Every stage is compared relative to the state the analysed program itself reached before it, so a deviation is reported at
the stage that introduces it.  A stage may be spread over any number of loops or helper functions of the program: array
versions between two reference states are unfolded before the comparison."""
from . import nodes as nd
from .nodes import *
from .interp import VERLOOP, ALLDEFS
from .model import Anchor
from .spec import View, Spec, expand
from .simp import rewrite
from . import nf, sample

KINDS = 'FWDX'
KNAME = {'F': 'fluid', 'W': 'wall', 'D': 'dummy', 'X': 'disabled', None: 'any'}


class Ob:
    """one obligation: for every input, `impl` equals `spec` for a particle of the given type"""
    __slots__ = ('stage', 'label', 'kind', 'status', 'detail', 'loc', 'config')

    def __init__(self, stage, label, kind, status, detail, loc, config):
        self.stage, self.label, self.kind, self.status, self.detail, self.loc, self.config = stage, label, kind, status, detail, loc, config


def verloc(V):
    while V is not None:
        if V.op == 'aver':
            L = VERLOOP.get(V.a[:2])
            return getattr(L, 'loc', None) or '?'
        if V.op in ('astore', 'amap'):
            V = V.a[0]
        else:
            return '?'
    return '?'


class Stages:
    def __init__(self, m, want=None, heavy=False, kinds=KINDS):
        self.m, self.heavy, self.kinds = m, heavy, kinds
        self.selkinds = KINDS       # a stage's result is told apart from intermediate versions by all particle types
        self.limit = 60000 if heavy else 3000
        self.s = Spec(m, m.ir.macros)
        self.o = m.ir.macros
        self.config = m.config
        self.want = want
        self.obs = []
        s = self.s
        self.V = {f: [m.versions(a) for a in m.final(f)] for f in ('X', 'U', 'P', 'N', 'TYPE')}
        self.ptr = {}
        self.K = {'F': s.FLUID, 'W': s.WALL, 'D': s.DUMMY, 'X': s.DISABLED}

    # ---- decisions
    def decide(self, impl, spec, v, kind):
        s = self.s
        a, b = s.simp(impl, v, self.K.get(kind)), s.simp(spec, v, self.K.get(kind))
        if a is b:
            return 'ok', ''
        x, y = self.m.diffvars(a), self.m.diffvars(b)
        gc = 'MPS_GC' in self.o
        why = ''
        # sums as units first (cheap), then fully normalised
        for k in ({'opaque_sums': True}, {}):
            try:
                d = s.ctx(limit=self.limit if gc else 60000, **k).diff(x, y)
                if not d:
                    return 'ok', ''
                why = nf.showp(d, 4)
            except nf.TooBig as e:
                why = why or 'normal form too large (%s)' % e
            if not k:
                break
            r, w = sample.compare(a, b, m=self.m, positive=s.positive, kind=self.K.get(kind))
            if r == 'differ':
                return 'diff', 'values %.6g and %.6g at sample point %d; difference %s' % (w[1], w[2], w[0], why)
            if r == 'equal' and gc and not self.heavy:
                return 'undecided', 'agrees at %d sample points, not proven' % w
        if r == 'equal':
            return 'undecided', 'agrees at %d sample points, not proven' % w
        return 'diff', why

    def wants(self, stage):
        return self.want is None or stage in self.want

    def compare(self, stage, label, impl, spec, v, loc, kinds=None):
        """record one obligation per particle type; True when all hold"""
        good = True
        for k in kinds or self.kinds:
            st, why = self.decide(impl, spec, v, k)
            self.obs.append(Ob(stage, label, k, st, why, loc, self.config))
            good &= st != 'diff'
        return good

    def same(self, impl, spec, v, kinds=None):
        for k in kinds or self.kinds:
            if self.decide(impl, spec, v, k)[0] == 'diff':
                return False
        return True

    # ---- versions
    def chain(self, f, d=0):
        return self.V[f][d]

    def cur(self, f, d=0):
        return self.V[f][d][self.ptr.get((f, d), 0)]

    def advance(self, stage, f, d, spec, v, left, keep):
        """find the version of field f (component d) that realises this stage; `left` = stages of this field still to come"""
        ch = self.V[f][d]
        p = self.ptr.get((f, d), 0)
        keep = keep | {ch[p]}
        label = f.lower() + ('.%d' % d if len(self.V[f]) > 1 else '')
        rest = range(p + 1, len(ch))
        exp = p + 1 if len(ch) - 1 - p == left + 1 else None
        order = list(rest)
        if left == 0:
            order = order[-1:]
        elif exp is not None:
            order = [exp]
        if not order:
            # no later version: the stage must leave the field as it is
            impl, loc, q = select(ch[p], (self.m.i,)), verloc(ch[p]), p
        else:
            q = None
            if len(order) > 1:
                for c in order:
                    if self.same(self.val(ch[c], keep), spec, v, self.selkinds):
                        q = c
                        break
            if q is None:
                q = order[0]
            impl, loc = self.val(ch[q], keep), verloc(ch[q])
        self.ptr[(f, d)] = q
        if not self.wants(stage):
            return
        self.compare(stage, label, impl, spec, v, loc)

    def val(self, V, keep):
        r = self.m.rule(V)
        if r is None:
            raise Anchor('no rule for an intermediate state of a particle field')
        return expand(r, keep)

    # ---- the reference chain
    def run(self):
        m, s, o, i = self.m, self.s, self.o, self.m.i
        D = m.D
        ty = self.V['TYPE'][0][-1]
        v0 = View([self.cur('X', d) for d in range(D)], [self.cur('U', d) for d in range(D)], self.cur('P'), self.cur('N'), ty)
        base = {ty}
        act = lambda v: band(bnot(s.isK(v, s.DUMMY)), bnot(s.isK(v, s.DISABLED)))
        implicit = 'PRESSURE_EXPLICIT' not in o
        ds = 'MPS_DS' in o

        # density before the step's motion
        self.advance('density', 'N', 0, ite(act(v0), s.number_density(v0), s.at(v0.N)), v0, 1, base | set(v0.X) | set(v0.U))
        v1 = v0.but(N=self.cur('N'))
        self.v1 = v1
        # explicit motion
        a = s.acceleration(v1)
        fl, di = s.isK(v1, s.FLUID), s.isK(v1, s.DISABLED)
        keep = base | set(v1.X) | set(v1.U) | {v1.N, v1.P}
        t1 = add(s.t0, s.dt)
        rem = 1 + ds
        for d in range(D):
            un = add(s.at(v1.U[d]), mul(s.dt, a[d]))
            w = fn('wall', C(d), i, t1, s.dt)
            self.advance('explicit', 'U', d, ite(fl, un, ite(di, s.at(v1.U[d]), div(sub(w, s.at(v1.X[d])), s.dt))), v1, rem, keep)
            self.advance('explicit', 'X', d, ite(fl, add(s.at(v1.X[d]), mul(s.dt, un)), ite(di, s.at(v1.X[d]), w)), v1, rem, keep)
        v2 = v1.but(X=[self.cur('X', d) for d in range(D)], U=[self.cur('U', d) for d in range(D)])
        # density after it
        self.advance('density2', 'N', 0, ite(act(v2), s.number_density(v2), s.at(v2.N)), v2, 0, base | set(v2.X) | set(v2.U))
        v3 = v2.but(N=self.cur('N'))
        self.v3 = v3
        # pressure
        if implicit:
            self.ppe(v1, v3)
            px = self.ppefield('x')
            raw = select(px, (i,))
            c = pos(neg(raw))
            if s.surf is not None:
                c = bor(c, s.surface(v3))
            pn = ite(act(v3), ite(c, ZERO, raw), s.at(v3.P))
            extra = {px}
        else:
            rho = mul(div(s.Rho, s.n0), s.at(v3.N))
            pn = ite(pos(sub(rho, s.Rho)), mul(mul(s.cs, s.cs), sub(rho, s.Rho)), ZERO)
            extra = set()
        kinds = self.kinds
        if not implicit:
            self.kinds = [k for k in kinds if k in 'FW']
            self.selkinds = 'FW'
        self.advance('pressure', 'P', 0, pn, v3, 0, base | set(v3.X) | set(v3.U) | {v3.N} | extra)
        self.kinds, self.selkinds = kinds, KINDS
        v4 = v3.but(P=self.cur('P'))
        # pressure gradient
        keep = base | set(v4.X) | set(v4.U) | {v4.N, v4.P}
        if self.wants('gradient'):
            g = s.gradient(v4, s.density(v4))
        else:
            g = [ZERO] * D
        for d in range(D):
            self.advance('gradient', 'U', d, ite(fl, add(s.at(v4.U[d]), g[d]), s.at(v4.U[d])), v4, 0 + ds, keep)
            self.advance('gradient', 'X', d, ite(fl, add(s.at(v4.X[d]), mul(s.dt, g[d])), s.at(v4.X[d])), v4, 0 + ds, keep)
        if ds:
            v5 = v4.but(X=[self.cur('X', d) for d in range(D)], U=[self.cur('U', d) for d in range(D)])
            keep = keep | set(v5.X) | set(v5.U)
            g = s.stabilise(v5, v4.X) if self.wants('stabilise') else [ZERO] * D
            for d in range(D):
                self.advance('stabilise', 'U', d, ite(fl, add(s.at(v5.U[d]), g[d]), s.at(v5.U[d])), v5, 0, keep)
                self.advance('stabilise', 'X', d, ite(fl, add(s.at(v5.X[d]), mul(s.dt, g[d])), s.at(v5.X[d])), v5, 0, keep)
        return self

    # ---- pressure equation
    def ppefield(self, nm):
        v = self.m.st.mem['S']
        try:
            return v.f['ppe'].f[nm].lv[()]
        except (KeyError, AttributeError):
            raise Anchor('pressure equation member ppe.%s not found' % nm)

    def rhs_and_guess(self, v3):
        """(b, initial x) as array versions"""
        b = self.ppefield('b')
        x = self.ppefield('x')
        xs, todo = {}, [x]
        while todo:     # the assembled versions behind the solution, whichever way the solver is left
            for y in nd.walk(todo.pop()):
                if y.op == 'aver' and y.a[0].startswith('S.') and y not in xs:
                    d = nd.vdef(y) or (ALLDEFS.get(y.a[:2]) or (None, None))[1]
                    xs[y] = d
                    if d is not None and d.op == 'arec' and isinstance(d.a[2], N):
                        todo.append(d.a[2])
        names = {y.a[0] for y in xs if y.a[0].endswith('ppe.x')}
        c = [y for y, d in xs.items() if y.a[0] in names and d is not None and d.op == 'amap']
        if not c:
            raise Anchor('no initial guess for the pressure equation')
        return b, max(c, key=lambda y: y.a[1])

    def excluded(self, v):
        s = self.s
        c = bor(s.isK(v, s.DUMMY), s.isK(v, s.DISABLED))
        return bor(c, s.surface(v)) if s.surf is not None else c

    def ppe(self, v1, v3):
        s, m, o = self.s, self.m, self.o
        ex = self.excluded(v3)
        keep = {v3.TYPE, v3.N, v3.P} | set(v3.X) | set(v3.U) | {v1.N} | set(v1.X) | set(v1.U)
        if self.wants('source') or self.wants('guess'):
            b, x0 = self.rhs_and_guess(v3)
        if self.wants('source'):
            sp = s.speed(v3, s.density(v3))
            if 'MPS_ECS' in o:
                sp = add(sp, s.ecs(v1, s.density(v1)))
            sp = neg(mul(div(s.Rho, mul(s.n0, s.dt)), sp))
            self.compare('source', 'b', self.val(b, keep), ite(ex, ZERO, sp), v3, verloc(b))
        if self.wants('guess'):
            self.compare('guess', 'x', self.val(x0, keep), ite(ex, ZERO, s.at(v3.P)), v3, verloc(x0))
        if self.wants('matrix'):
            self.matrix(v3, ex, keep)

    def layers(self, A):
        """(base, [(binders, guard, pattern, value)] oldest first) of a matrix built by assignments"""
        out = []
        while True:
            if A.op == 'aver':
                d = nd.vdef(A)
                if d is None:
                    d = ALLDEFS.get(A.a[:2])
                    d = d[1] if d else None
                if d is None:
                    return A, out[::-1]
                A = d
            elif A.op == 'amap':
                out.append(A.a[1:])
                A = A.a[0]
            else:
                return A, out[::-1]

    def stored(self, n):
        """row buffers of the state before the step whose contents a value is taken from"""
        for x in nd.walk(n):
            if x.op == 'aseq':
                for y in nd.walk(x.a[0]):
                    if y.op in ('sym', 'abase') and '.ppe.' in str(y.a[0]) and not str(y.a[0]).endswith('.size'):
                        yield y

    def matrix_entries(self):
        """(diagonal value, off-diagonal value for the neighbour list's k-th entry, k, problems)"""
        m, s = self.m, self.s
        A = self.ppefield('A')
        base, ls = self.layers(A)
        bad = []
        if not (base.op == 'afill' and base.a[0] is ZERO):
            bad.append('the matrix is not cleared before it is assembled')
        k = sym('$k')
        hi = mk('sel', s.nb, (m.i, ZERO))
        nd.LOOPRANGE[k] = (ZERO, hi)
        j = mk('sel', s.nb, (m.i, add(k, ONE)))
        dg, off = ZERO, ZERO
        for binders, guard, pat, val in ls:
            if guard is FALSE:
                continue
            bs = [x[0] for x in binders]
            if len(pat) == 2 and pat[0] is pat[1] and len(bs) == 1 and pat[0] is bs[0]:
                b, lo, h = binders[0]
                if lo is not ZERO or h is not m.psize:
                    bad.append('diagonal entries are not set for every particle')
                mp = {b: m.i}
                dg = ite(subst(guard, mp), subst(val, mp), dg)
                continue
            if len(pat) == 2 and len(bs) == 2:
                row = [x for x in binders if x[0] is pat[0]]
                if row:
                    (b, lo, h), = row
                    (kb, klo, khi), = [x for x in binders if x[0] is not b]
                    e = pat[1]
                    if e.op == 'sel' and e.a[0] is s.nb and e.a[1][0] is b and lo is ZERO and h is m.psize:
                        # neighbour entry b,(kb + c)
                        c = sub(e.a[1][1], kb)
                        if not (c.bv & {kb}) and not (kb in set(nd.walk(c))):
                            mp = {b: m.i, kb: sub(add(k, ONE), c)}
                            lo2, hi2 = subst(klo, mp), subst(khi, mp)
                            g = band(subst(guard, mp), nd.in_range(subst(mp[kb], mp), lo2, hi2))
                            off = ite(g, subst(subst(val, {b: m.i}), {kb: mp[kb]}), off)
                            continue
            stale = sorted({show(x)[:60] for y in pat + (val,) for x in self.stored(y)})
            if stale:
                bad.append('the matrix receives entries kept from an earlier step (%s)' % ', '.join(stale[:2]))
            else:
                bad.append('matrix assignment of an unrecognised form')
        return dg, off, k, j, bad

    def matrix(self, v3, ex, keep):
        s, m, o = self.s, self.m, self.o
        loc = verloc(self.ppefield('A'))
        dg, off, k, j, bad = self.matrix_entries()
        for b in bad:
            self.obs.append(Ob('matrix', 'structure', None, 'diff' if 'unrecognised' not in b else 'undecided', b, loc, self.config))
        if any('unrecognised' in b for b in bad):
            return
        dx = s.dx(v3, j)
        r2 = s.dot(dx, dx)
        near = pos(sub(mul(s.Re, s.Re), r2))
        coef = s.lap_coef(r2)
        c = band(bnot(ex), near, bnot(s.isK(v3, s.DUMMY, j)))
        if s.surf is not None:
            c = band(c, bnot(s.surface(v3, j)))
        self.compare('matrix', 'off-diagonal', expand(off, keep), ite(c, coef, ZERO), v3, loc)
        tot = s.sum(v3, lambda j, dx, r2: s.notdummy(v3, j, s.lap_coef(r2)))
        if 'MPS_SPP' in o:
            cs, dxs, r = s.spp(v3, s.density(v3))
            tot = add(tot, ite(cs, s.lap_coef(mul(r, r)), ZERO))
        self.compare('matrix', 'diagonal', expand(dg, keep), ite(ex, ONE, neg(tot)), v3, loc)
