"""Dimensional consistency: every quantity the step computes is given a physical dimension by inference over the value graph;
quantities that are added, compared or alternatives of each other must have the same dimension.  A step that passes gives the same
result in every system of units."""
import re
from fractions import Fraction
from . import nodes as nd
from .nodes import *
from .model import Anchor
from .laws import Steps, expand
from .environ import Built
from .stages import verloc
from .solve import iterative
from .values import *

L_, T_, M_ = 'length', 'time', 'mass'


def U(**k):
    return {({'L': L_, 'T': T_, 'M': M_}[a]): Fraction(v) for a, v in k.items() if v}


ONE_ = {}
LENGTH, TIME, SPEED, ACC = U(L=1), U(T=1), U(L=1, T=-1), U(L=1, T=-2)
PRESSURE, DENSITY, VISC = U(M=1, L=-1, T=-2), U(M=1, L=-3), U(L=2, T=-1)
PARAMS = {'maxDt': TIME, 'courant': ONE_, 'g': ACC, 'rho': DENSITY, 'nu': VISC, 'surfaceRatio': ONE_, 'r_eByl_0': ONE_, 'c': SPEED, 'l_0': LENGTH,
          'minX': LENGTH, 'minY': LENGTH, 'minZ': LENGTH, 'maxX': LENGTH, 'maxY': LENGTH, 'maxZ': LENGTH}
FIELDS = {'X': LENGTH, 'U': SPEED, 'P': PRESSURE, 'N': ONE_, 'TYPE': ONE_}
SAME = {'max2', 'min2', 'abs', 'fabs', 'neg'}
TINY = Fraction(1, 10 ** 100)


def name(u):
    if u is None:
        return 'any'
    if not u:
        return 'a pure number'
    return ' '.join(k if v == 1 else '%s^%s' % (k, v) for k, v in sorted(u.items(), key=lambda x: str(x[0])))


def times(a, b, q=1):
    r = dict(a)
    for k, v in b.items():
        w = r.get(k, 0) + v * q
        if w:
            r[k] = w
        else:
            r.pop(k, None)
    return r


class Clash(Exception):
    pass


class Infer:
    """dimension of every node; None = fits any dimension (zero, infinity)"""
    def __init__(self, atoms):
        self.atoms = atoms          # function: name -> dimension, or None for an unknown that is inferred
        self.var = {}               # solved unknowns
        self.memo = {}
        self.bad = []               # (what, one, other)
        self.count = 0
        self.loopvars = {}

    def res(self, u):
        if u is None:
            return None
        while True:
            k = next((k for k in u if k in self.var), None)
            if k is None:
                return u
            e = u[k]
            u = times({a: b for a, b in u.items() if a != k}, self.var[k], e)

    def unify(self, a, b, what):
        """None or the common dimension"""
        if a is None:
            return b
        if b is None:
            return a
        self.count += 1
        a, b = self.res(a), self.res(b)
        d = times(a, b, -1)
        if not d:
            return a
        v = [k for k in d if k not in (L_, T_, M_)]
        if v:
            k = v[0]
            e = d.pop(k)
            self.var[k] = {x: -y / e for x, y in d.items()}
            return self.res(a)
        self.bad.append((what, a, b))
        return a

    def leaf(self, nm, ver=0):
        u = self.atoms(re.sub(r'#\d+$', '', nm).replace('.[]', '') if not re.match(r'[a-z]\w*#', nm) else nm)
        if u is not None:
            return u
        return {(nm, ver): Fraction(1)}

    def dim(self, n):
        r = self.memo.get(n, self)
        if r is self:
            self.memo[n] = {('?', n.id): Fraction(1)} if n.op in ('rec', 'brec') else None
            r = self._dim(n)
            self.memo[n] = r
        return self.res(r)

    def pure(self, n, what):
        self.unify(self.dim(n), ONE_, what)
        return ONE_

    def _dim(self, n):
        op, a = n.op, n.a
        if op == 'c':
            return None if a[0] == 0 or abs(a[0]) < TINY or abs(a[0]) > 1 / TINY else ONE_
        if op in ('true', 'false', 'bsym'):
            return ONE_
        if op in ('sym', 'abase', 'seqbase'):
            if a[0] in ('EPSILON', 'INFINITY') or 'numeric_limits' in a[0]:
                return None
            return self.leaf(a[0])
        if op == 'sum':
            u = None
            parts = ([(C(a[0]), 1)] if a[0] != 0 else []) + list(a[1])
            for x, c in parts:
                u = self.unify(u, self.dim(x), n)
            return u
        if op == 'prod':
            u = {}
            for x, e in a[0]:
                d = self.dim(x)
                if d is None:
                    return None if e > 0 else {}
                u = times(u, d, e)
            return u
        if op == 'ite':
            self.dim(a[0])
            return self.unify(self.dim(a[1]), self.dim(a[2]), n)
        if op in ('not',):
            self.dim(a[0])
            return ONE_
        if op in ('and', 'or'):
            for x in a[0]:
                self.dim(x)
            return ONE_
        if op in ('pos', 'ipos', 'zero'):
            self.dim(a[0])
            return ONE_
        if op == 'sel':
            for x in a[1]:
                self.pure(x, n)
            return self.dim(a[0])
        if op == 'aver':
            return self.leaf(a[0], a[1])
        if op in ('nsum', 'bigmax', 'bigmin', 'exists', 'argmax', 'argmin'):
            self.unify(self.leaf(a[0].a[0]), ONE_, n)
            self.pure(a[1], n)
            self.pure(a[2], n)
            u = self.dim(a[3])
            return ONE_ if op in ('exists', 'argmax', 'argmin') else u
        if op == 'guarded':
            self.dim(a[0])
            return self.dim(a[1])
        if op == 'fn':
            f = a[0]
            args = [x for x in a[1] if isinstance(x, N) and x.op != 'str']
            if f == 'wall':
                for x in args[-2:]:
                    self.unify(self.dim(x), TIME, n)
                return LENGTH
            if f in SAME:
                u = None
                for x in args:
                    u = self.unify(u, self.dim(x), n)
                return u
            if f == 'inner' and len(args) == 2:
                x, y = self.dim(args[0]), self.dim(args[1])
                return None if x is None or y is None else times(x, y)
            for x in args:
                if not isarr(x):
                    self.pure(x, n)
            return ONE_
        # vectors of the linear solver
        if op == 'lin':
            u = None
            for v, k in a[0]:
                x, y = self.dim(v), self.dim(k)
                u = self.unify(u, None if x is None or y is None else times(x, y), n)
            return u
        if op == 'lvprod':
            x, y = self.dim(a[0]), self.dim(a[1])
            return None if x is None or y is None else times(x, y)
        if op == 'inner':
            x, y = self.dim(a[0]), self.dim(a[1])
            return None if x is None or y is None else times(x, y)
        if op == 'afill':
            return self.dim(a[0])
        if op == 'aite':
            self.dim(a[0])
            return self.unify(self.dim(a[1]), self.dim(a[2]), n)
        if op in ('rec', 'brec'):
            return self.memo[n]
        raise Unknown(op)


class Unknown(Exception):
    pass


def atoms(m, extra=()):
    """dimension of a named quantity of the state before the step"""
    b = Built(m.config)
    par = Infer(lambda nm: PARAMS.get(nm[1:], None))
    env = {}
    pre = m.envname

    def put(k, v):
        if isinstance(v, N):
            try:
                env[k] = par.dim(v)
            except Unknown:
                env[k] = None
        elif isinstance(v, Vec):
            for q, x in enumerate(v.c):
                put('%s.%d' % (k, q), x)
        elif isinstance(v, Struct):
            for q, x in v.f.items():
                put('%s.%s' % (k, q), x)
    for k, v in b.E.f.items():
        put('%s.%s' % (pre, k), v)
    if 'PRESSURE_EXPLICIT' not in m.ir.macros:
        def tol(k, v):      # the solver's tolerance, relative to the initial residual
            if v is b.eps:
                env[k] = ONE_
            elif isinstance(v, Struct):
                for q, x in v.f.items():
                    tol('%s.%s' % (k, q), x)
        C0, _ = b.computer()
        tol(pre.split('.')[0], C0)
    roles = {}
    for f, u in FIELDS.items():
        for nm in m.leafnames(f):
            roles[nm] = u
    roles[m.nbname] = ONE_
    fix = {'dt': TIME, '$i': ONE_, '$k': ONE_}
    tn = m.I.num(m.acc('OpenMps::Environment::T', m.env, m.start)[0], m.start)
    dn = m.I.num(m.acc('OpenMps::Environment::Dt', m.env, m.start)[0], m.start)
    for x in (tn, dn):
        if x.op == 'sym':
            fix[x.a[0]] = TIME

    def f(nm):
        if nm in fix:
            return fix[nm]
        if nm in roles:
            return roles[nm]
        if env.get(nm) is not None:
            return env[nm]
        if nm.endswith('.size') or '.shape' in nm or nm.startswith(('k#', 'i#', 'j#')):
            return ONE_
        return None
    return f, env, par


def consistent(rep, m):
    at, env, par = atoms(m)
    for what, x, y in par.bad:
        rep.ob('parameters', 'dimensions', 'diff', '%s: %s and %s' % (show(what)[:160], name(x), name(y)), 'Environment.hpp')
    if not par.bad:
        rep.ob('parameters', 'dimensions', 'ok', '%d agreements' % par.count)
    inf = Infer(at)
    seen = [0]

    def check(stage, what, n, want, loc, const1=False):
        """n has dimension `want` and is consistent in itself"""
        try:
            if isinstance(n, list):
                for x in n[1:]:
                    inf.unify(inf.dim(x), want, x)
                n = n[0]
            if const1:          # a row of the matrix that stands for itself alone may have any scale
                n = rewrite_top(n)
            u = inf.dim(n)
            u = inf.unify(u, want, n) if want is not None else u
        except Unknown as e:
            rep.ob(stage, what, 'undecided', 'no dimension rule for %s' % e, loc)
            del inf.bad[seen[0]:]
            return
        new = inf.bad[seen[0]:]
        seen[0] = len(inf.bad)
        if new:
            w, x, y = new[0]
            rep.ob(stage, what, 'diff', 'dimensions disagree in %s: %s and %s' % (show(w)[:200], name(inf.res(x)), name(inf.res(y))), loc)
        else:
            rep.ob(stage, what, 'ok', '', loc)
    S = Steps(m)
    V = S.st.V
    allv = {v for f in V for ch in V[f] for v in ch}
    for f in ('X', 'U', 'P', 'N', 'TYPE'):
        for d, ch in enumerate(V[f]):
            for k in range(1, len(ch)):
                try:
                    n = S.value(ch[k], allv)
                    n = [S.simp(n, x) for x in 'FWDX'] + [n] * (f == 'TYPE')
                except Anchor as e:
                    rep.ob('state', '%s.%d, change %d' % (f.lower(), d, k), 'undecided', str(e), verloc(ch[k]))
                    continue
                check('state', '%s.%d, change %d' % (f.lower(), d, k), n, FIELDS[f], verloc(ch[k]))
    if 'PRESSURE_EXPLICIT' not in m.ir.macros:
        b, x0 = S.st.rhs_and_guess(S.st.v3)
        check('pressure equation', 'right-hand side', S.st.val(b, allv), times(PRESSURE, LENGTH, -2), verloc(b))
        check('pressure equation', 'initial guess', S.st.val(x0, allv), PRESSURE, verloc(x0))
        dg, off, k, j, bad = S.st.matrix_entries()
        if not any('unrecognised' in x for x in bad):
            loc = verloc(S.st.ppefield('A'))
            check('pressure equation', 'off-diagonal', expand(off, allv), times(ONE_, LENGTH, -2), loc)
            check('pressure equation', 'diagonal', expand(dg, allv), times(ONE_, LENGTH, -2), loc, True)
        for a, u in ((b, times(PRESSURE, LENGTH, -2)), (x0, PRESSURE), (S.st.ppefield('A'), times(ONE_, LENGTH, -2)), (S.st.ppefield('x'), PRESSURE)):
            if a.op == 'aver':
                inf.unify(inf.leaf(*a.a[:2]), u, a)
        for L in m.I.loops:
            if iterative(L):
                for A in {x.a[0] for p in list(L.flat_p.values()) + list(L.flat_i.values()) if isinstance(p, N) for x in nd.walk(p) if x.op == 'lvprod'}:
                    if A.op == 'aver':
                        inf.unify(inf.leaf(*A.a[:2]), times(ONE_, LENGTH, -2), A)
        # the solver: what it keeps from one iteration to the next keeps its dimension; its conditions compare like with like
        solver(m, inf, check)
    # conditions of every loop and choice of the step
    conditions(m, inf, check)


def rewrite_top(n):
    if n.op == 'ite':
        x, y = rewrite_top(n.a[1]), rewrite_top(n.a[2])
        if x is ONE:
            return y
        if y is ONE:
            return x
        return ite(n.a[0], x, y)
    return n


def solver(m, inf, check):
    for L in m.I.loops:
        if iterative(L):
            used = {x for n in list(L.flat_p.values()) + [L.cond] if isinstance(n, N) for x in nd.walk(n)}
            for k, h in L.flat_h.items():
                if h not in used:       # written before it is read: it may hold something else in every iteration
                    continue
                i, p = L.flat_i.get(k), L.flat_p.get(k)
                if isinstance(h, N) and isinstance(i, N) and isinstance(p, N) and h is not p and not nd.isbool(p):
                    inf.unify(inf.dim(h), inf.dim(i), i)
                    check('solver', '.'.join(str(x) for x in k[0] if not isinstance(x, N))[:60], p, inf.dim(h), L.loc)


def conditions(m, inf, check):
    done = set()
    by = {}
    for L in m.I.loops:
        conds = by.setdefault(L.loc, [])
        stack = list(L.flat_p.values()) + list(L.flat_i.values()) + [L.cond] + [r[3] for r in L.acc]
        for n in stack:
            if not isinstance(n, N):
                continue
            for x in nd.walk(n):
                if x.op in ('pos', 'zero') and x not in done:
                    done.add(x)
                    conds.append(x)
    conds = by.setdefault('the ways a step is given up', [])
    for t in (m.I.throws[0] if m.I.throws else ()):
        for x in nd.walk(t.pc):
            if x.op in ('pos', 'zero') and x not in done:
                done.add(x)
                conds.append(x)
    for loc, conds in by.items():
        if conds:
            check('comparisons', '%d in the loop at %s' % (len(conds), loc), conds, ONE_, loc)


def timestep(rep, m):
    at, env, par = atoms(m)
    inf = Infer(at)
    try:
        inf.unify(inf.dim(m.envval(('dt',))), TIME, m.envval(('dt',)))
        inf.unify(inf.dim(m.envval(('t',))), TIME, m.envval(('t',)))
    except Unknown as e:
        rep.ob('time step', 'dimension', 'undecided', 'no dimension rule for %s' % e)
        return
    for w, x, y in inf.bad[:1]:
        rep.ob('time step', 'dimension', 'diff', 'dimensions disagree in %s: %s and %s' % (show(w)[:200], name(inf.res(x)), name(inf.res(y))))
    if not inf.bad:
        rep.ob('time step', 'dimension', 'ok')
