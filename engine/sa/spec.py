"""Reference semantics of one time step, written from the published particle method and the option descriptions, plus the
matching of the analysed program's successive field versions against its stages."""
from . import nodes as nd
from .nodes import *
from .interp import fresh2, VERLOOP, ALLDEFS
from .simp import rewrite, ctx
from . import nf

HALF = Fraction(1, 2)


class View:
    """field arrays at one moment"""
    def __init__(self, X, U, P, N, TYPE):
        self.X, self.U, self.P, self.N, self.TYPE = X, U, P, N, TYPE

    def but(self, **k):
        v = View(self.X, self.U, self.P, self.N, self.TYPE)
        v.__dict__.update(k)
        return v


class Spec:
    def __init__(self, m, opts):
        self.m, self.o, self.D, self.i = m, opts, m.D, m.i
        e = lambda n: m.envval((n,))
        I = m.I
        self.n0 = I.num(m.acc('OpenMps::Environment::N0', m.env, m.st)[0], m.st)
        self.lam = None if 'MPS_HL' in opts else I.num(m.acc('OpenMps::Environment::Lambda', m.env, m.st)[0], m.st)
        self.Re, self.Rho, self.Nu, self.L0, self.MaxDx, self.MaxDt = (e(x) for x in ('R_e', 'Rho', 'Nu', 'L_0', 'MaxDx', 'MaxDt'))
        self.G = e('G').c
        self.NL = e('NeighborLength')
        self.cs = e('C') if 'PRESSURE_EXPLICIT' in opts else None
        self.surf = None if 'MPS_SPP' in opts else e('SurfaceRatio')
        self.dt = m.dt
        self.t0 = I.num(m.acc('OpenMps::Environment::T', m.env, m.start)[0], m.start)
        self.nb = I.read(m.neighref, m.st).lv[()]
        self.positive = {x.a[0] for x in (self.n0, self.Re, self.Rho, self.L0, self.MaxDx, self.Nu) if x.op == 'sym'} | {'dt'}
        if m.psize.op == 'sym':
            self.positive.add(m.psize.a[0])     # obligations are about a particle: there is one
        for x in (self.lam, self.cs, self.surf):
            if x is not None and x.op == 'sym':
                self.positive.add(x.a[0])
        self.FLUID, self.WALL, self.DUMMY, self.DISABLED = (m.T[k] for k in ('FLUID', 'WALL', 'DUMMY', 'DISABLED'))

    def ctx(self, **k):
        return nf.Ctx(self.positive, **k)

    # ---- pieces
    def at(self, A, i=None):
        return select(A, (i or self.i,))

    def vec(self, V, i=None):
        return [self.at(a, i) for a in V]

    def typ(self, v, i=None):
        return self.at(v.TYPE, i)

    def isK(self, v, k, i=None):
        return zero(sub(self.typ(v, i), C(k)))

    def dx(self, v, j):
        return [sub(b, a) for a, b in zip(self.vec(v.X), self.vec(v.X, j))]

    def dot(self, a, b):
        r = ZERO
        for x, y in zip(a, b):
            r = add(r, mul(x, y))
        return r

    def W(self, r):
        return ite(band(pos(r), pos(sub(self.Re, r))), sub(div(self.Re, r), ONE), ZERO)

    def sum(self, v, f):
        k = fresh2('sym', 'k', 'bound')
        hi = mk('sel', self.nb, (self.i, ZERO))
        nd.LOOPRANGE[k] = (ZERO, hi)
        j = mk('sel', self.nb, (self.i, add(k, ONE)))
        dx = self.dx(v, j)
        r2 = self.dot(dx, dx)
        c = pos(sub(mul(self.Re, self.Re), r2))
        b = f(j, dx, r2)
        if isinstance(b, list):
            return [nsum(k, ZERO, hi, ite(c, x, ZERO)) for x in b]
        return nsum(k, ZERO, hi, ite(c, b, ZERO))

    def notdummy(self, v, j, x):
        c = self.isK(v, self.DUMMY, j)
        if isinstance(x, list):
            return [ite(c, ZERO, y) for y in x]
        return ite(c, ZERO, x)

    # ---- the method
    def density(self, v):
        """sum of weights over neighbours, dummies included"""
        return self.sum(v, lambda j, dx, r2: self.W(sqrt(r2)))

    def number_density(self, v):
        n = self.density(v)
        return nmax(n, self.n0) if 'MPS_SPP' in self.o else n

    def spp(self, v, nraw):
        """(active condition, displacement to the virtual surface particle, its distance)"""
        g = self.sum(v, lambda j, dx, r2: [mul(self.W(sqrt(r2)), x) for x in dx])
        g = [div(x, self.n0) for x in g]
        rg = sqrt(self.dot(g, g))
        eps = sym('EPSILON')
        w = sub(self.n0, nraw)
        r = div(self.Re, add(w, ONE))
        c = band(pos(w), pos(sub(rg, eps)))
        return c, [neg(mul(div(r, rg), x)) for x in g], r

    def viscosity(self, v):
        def f(j, dx, r2):
            r = sqrt(r2)
            du = [sub(b, a) for a, b in zip(self.vec(v.U), self.vec(v.U, j))]
            if 'MPS_HL' in self.o:
                k = div(scale(mul(self.Nu, self.Re), Fraction(5 - self.D)), mul(self.n0, pw(r, 3)))
            else:
                k = mul(div(scale(self.Nu, Fraction(2 * self.D)), mul(self.lam, self.n0)), self.W(r))
            return self.notdummy(v, j, [mul(k, x) for x in du])
        return self.sum(v, f)

    def acceleration(self, v):
        return [add(g, a) for g, a in zip(self.G, self.viscosity(v))]

    def speed(self, v, nraw):
        if 'MPS_HS' in self.o:
            def f(j, dx, r2):
                du = [sub(b, a) for a, b in zip(self.vec(v.U), self.vec(v.U, j))]
                return div(self.dot(dx, du), pw(sqrt(r2), 3))
            s = neg(mul(self.Re, self.sum(v, f)))
            return ite(pos(sub(self.n0, nraw)), ZERO, s) if 'MPS_SPP' in self.o else s
        return div(sub(self.at(v.N), self.n0), self.dt)

    def ecs(self, v, nraw):
        s = self.speed(v, nraw)
        e = div(sub(self.at(v.N), self.n0), self.n0)
        return add(mul(nabs(e), s), mul(nabs(s), e))

    def lap_coef(self, r2):
        r = sqrt(r2)
        if 'MPS_HL' in self.o:
            return div(scale(self.Re, Fraction(5 - self.D)), mul(self.n0, pw(r, 3)))
        return mul(div(C(2 * self.D), mul(self.lam, self.n0)), self.W(r))

    def surface(self, v, i=None):
        return pos(sub(self.surf, div(self.at(v.N, i), self.n0)))

    def gradient(self, v, nraw):
        """velocity change by the pressure gradient, midpoint form"""
        def pair(p, dx, r2):
            k = mul(div(p, r2), self.W(sqrt(r2)))
            return [mul(k, x) for x in dx]

        def f(j, dx, r2):
            return self.notdummy(v, j, pair(add(self.at(v.P), self.at(v.P, j)), dx, r2))
        if 'MPS_GC' in self.o:
            Cm = self.corrective(v, nraw)
            g = self.sum(v, lambda j, dx, r2: self.notdummy(v, j, self.matvec(Cm, pair(add(self.at(v.P), self.at(v.P, j)), dx, r2))))
            k = neg(div(mul(self.dt, self.at(v.N)), mul(self.Rho, self.n0)))
        else:
            g = self.sum(v, f)
            k = neg(div(scale(self.dt, Fraction(self.D)), mul(self.Rho, self.n0)))
        if 'MPS_SPP' in self.o:
            c, dx, r = self.spp(v, nraw)
            s = pair(self.at(v.P), dx, mul(r, r))
            if 'MPS_GC' in self.o:
                s = self.matvec(Cm, s)
            g = [add(x, ite(c, y, ZERO)) for x, y in zip(g, s)]
        return [mul(k, x) for x in g]

    def stabilise(self, v, orig):
        d = sub(self.L0, self.MaxDx)
        d2 = mul(d, d)

        def f(j, dx, r2):
            dx0 = [sub(self.at(a, j), self.at(a)) for a in orig]
            n = sqrt(self.dot(dx0, dx0))
            e = [div(x, n) for x in dx0]
            par = self.dot(dx, e)
            perp = [sub(x, mul(par, y)) for x, y in zip(dx, e)]
            k = sub(sqrt(sub(d2, self.dot(perp, perp))), par)
            c = pos(sub(d2, r2))
            return self.notdummy(v, j, [ite(c, mul(k, y), ZERO) for y in e])
        g = self.sum(v, f)
        k = neg(div(ONE, scale(mul(self.dt, self.n0), Fraction(2))))
        return [mul(k, x) for x in g]

    def matvec(self, M, x):
        return [self.dot(r, x) for r in M]

    def moment(self, v, nraw):
        D = self.D

        def f(j, dx, r2):
            k = div(self.W(sqrt(r2)), r2)
            return [mul(k, mul(dx[a], dx[b])) for a in range(D) for b in range(D)]
        g = self.sum(v, f)
        if 'MPS_SPP' in self.o:
            c, dx, r = self.spp(v, nraw)
            s = f(None, dx, mul(r, r))
            g = [add(x, ite(c, y, ZERO)) for x, y in zip(g, s)]
        return [g[a * D:(a + 1) * D] for a in range(D)]

    def corrective(self, v, nraw):
        M = self.moment(v, nraw)
        D = self.D

        def minor(r, c):
            return [[M[a][b] for b in range(D) if b != c] for a in range(D) if a != r]

        def det(m):
            if len(m) == 1:
                return m[0][0]
            if len(m) == 2:
                return sub(mul(m[0][0], m[1][1]), mul(m[0][1], m[1][0]))
            r = ZERO
            for c in range(3):
                t = mul(m[0][c], det([[x for k, x in enumerate(row) if k != c] for row in m[1:]]))
                r = add(r, neg(t) if c % 2 else t)
            return r
        dt = det(M)
        z = zero(dt)
        return [[ite(z, div(C(D), self.n0) if a == b else ZERO, div(scale(det(minor(b, a)), Fraction((-1) ** (a + b))), dt)) for b in range(D)] for a in range(D)]

    # ---- assumptions about neighbour lists (established by the neighbour-list property)
    def clean(self, n, v):
        nb, T = self.nb, v.TYPE
        dis = self.DISABLED

        def entry(x):
            return x.op == 'sel' and x.a[0] is nb and x.a[1][1] is not ZERO

        def f(x):
            if x.op == 'zero':
                l = nd._eqlit(x)
                if l is not None and l[0].op == 'sel' and l[0].a[0] is T and entry(l[0].a[1][0]):
                    if l[1] == dis:
                        return FALSE
                    if l[1] == self.FLUID:      # one of the three that a neighbour can be, expressed by the other two
                        return band(*[bnot(zero(sub(l[0], C(k)))) for k in (self.WALL, self.DUMMY)])
                d = x.a[0]
                if d.op == 'sum' and d.a[0] == 0 and len(d.a[1]) == 2:
                    (p, a), (q, b) = d.a[1]
                    if a == -b:
                        if entry(p) and p.a[1][0] is q or entry(q) and q.a[1][0] is p:
                            return FALSE
            return None
        return rewrite(n, f)

    def typed(self, n, v, k, i=None):
        """n for a particle i of type k"""
        n = rewrite(n, lambda x: C(k) if x.op == 'sel' and x.a[0] is v.TYPE and x.a[1] == ((i or self.i),) else None)
        return n

    def simp(self, n, v, k=None):
        n = self.clean(n, v)
        if k is not None:
            n = self.typed(n, v, k)
        return ctx(n)


def expand(n, keep):
    """unfold every array version not in `keep` (a set of version nodes)"""
    old = nd.EXPAND[0]
    nd.EXPAND[0] = lambda A: A not in keep
    memo = {}

    def f(x):
        if x.op == 'sel' and x.a[0].op in ('aver', 'amap', 'astore', 'aite') and x.a[0] not in keep:
            r = select(x.a[0], x.a[1])
            if r is not x:
                return rewrite(r, f, memo)
        return None
    try:
        return rewrite(n, f, memo)
    finally:
        nd.EXPAND[0] = old
