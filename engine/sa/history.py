"""No hidden state: what a step computes depends on the particles, the time, the parameters and the callbacks only, not on what
earlier steps left in work arrays, nor on anything outside the computer."""
from . import nodes as nd
from .nodes import *
from .model import Anchor
from .laws import Steps, expand
from .stages import verloc
from .solve import iterative
from .sample import Point, Undef
from .values import *


class Leaves:
    def __init__(self, m, S):
        self.m, self.s = m, S.s
        self.ok = {v for f in S.st.V for ch in S.st.V[f] for v in ch}
        self.names = {nm for f in S.st.V for nm in m.leafnames(f)}
        self.ok.add(S.s.nb)
        self.sizes = {m.psize}
        self.implicit = 'PRESSURE_EXPLICIT' not in m.ir.macros
        if self.implicit:
            self.px = S.st.ppefield('x')
            self.ok.add(self.px)
        self.env = set()

        def put(v):
            if isinstance(v, N):
                self.env.add(v)
            elif isinstance(v, Vec):
                for x in v.c:
                    put(x)
            elif isinstance(v, Struct):
                for x in v.f.values():
                    put(x)
        put(m.start.mem['S'].f[m.envname.split('.')[-1]])
        self.fixed = {m.i, m.dt} | self.env

    def foreign(self, n):
        """(leaves that are not part of the particles, the time or the parameters, constructs that hide what they depend on)"""
        bad, hidden = [], []
        seen = set()
        bound = set()
        stack = [n]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.ok or x in self.fixed or x in self.sizes:
                continue
            if x.op in nd.BINDERS:
                bound.add(x.a[0])
            if x.op == 'sym':
                nm = x.a[0]
                if nm in ('EPSILON', 'INFINITY', '$k') or '#' in nm or nm.endswith('.size') or '.shape' in nm or self.construction(nm):
                    continue
                bad.append(x)
            elif x.op in ('abase', 'bsym', 'seqbase'):
                bad.append(x)
            elif x.op == 'aver':
                bad.append(x)
            elif x.op in ('rec', 'brec', 'seqrec', 'opaque'):
                hidden.append(x)
            else:
                nd._kids(x.a, stack)
        return bad, hidden

    def construction(self, nm):
        """members the computer keeps from its construction on: never written by a step"""
        return nm in self.constant()

    def constant(self):
        if not hasattr(self, '_const'):
            a, b = {}, {}

            def put(k, v, out):
                if isinstance(v, N):
                    out[k] = v
                elif isinstance(v, Vec):
                    for q, x in enumerate(v.c):
                        put('%s.%d' % (k, q), x, out)
                elif isinstance(v, Struct):
                    for q, x in v.f.items():
                        put('%s.%s' % (k, q), x, out)
            put('S', self.m.start.mem['S'], a)
            put('S', self.m.st.mem['S'], b)
            self._const = {k for k, v in a.items() if b.get(k) is v and v.op == 'sym' and v.a[0] == k}
        return self._const


class Shift(Point):
    """the same valuation with one name's values replaced"""
    def __init__(self, seed, m, name, kind):
        super().__init__(seed, m, set(), kind)
        self.moved = name

    def scalar(self, name):
        r = super().scalar(name)
        return r + 0.37 if name == self.moved else r

    def element(self, arr, idx):
        r = super().element(arr, idx)
        k = nd.aname(arr) if arr.op != 'aver' else arr.a[:2]
        return r + 0.37 if k == self.moved else r


def depends(m, n, leaf, kind):
    key = leaf.a[:2] if leaf.op == 'aver' else leaf.a[0]
    ok = 0
    for seed in range(60):
        try:
            a, b = Shift(seed, m, None, kind).ev(n), Shift(seed, m, key, kind).ev(n)
        except (Undef, OverflowError, ZeroDivisionError, RecursionError, ValueError, KeyError, TypeError):
            continue
        if abs(a - b) > 1e-9 * (1 + abs(a) + abs(b)):
            return True
        ok += 1
    return False if ok >= 5 else None


def step(rep, m):
    S = Steps(m)
    V = S.st.V
    lv = Leaves(m, S)
    allv = lv.ok

    def check(stage, what, n, loc, kind=None):
        bad, hidden = lv.foreign(n)
        for x in bad:
            d = depends(m, n, x, S.st.K.get(kind))
            if d:
                rep.ob(stage, what, 'diff', 'depends on %s, which is neither a particle\'s data nor a parameter' % show(x)[:80], loc)
                return
        if bad or hidden:
            rep.ob(stage, what, 'undecided', 'mentions %s' % ', '.join(sorted({show(x)[:60] for x in bad + hidden})[:3]), loc)
        else:
            rep.ob(stage, what, 'ok', '', loc)
    for f in ('X', 'U', 'P', 'N', 'TYPE'):
        for d, ch in enumerate(V[f]):
            lab = f.lower() + ('.%d' % d if len(V[f]) > 1 else '')
            for k in range(1, len(ch)):
                loc = verloc(ch[k])
                try:
                    n = S.value(ch[k], allv)
                except Anchor as e:
                    rep.ob('state', '%s, change %d' % (lab, k), 'undecided', str(e), loc)
                    continue
                for kind in 'FWDX':
                    check('state', '%s, change %d (%s particle)' % (lab, k, {'F': 'fluid', 'W': 'wall', 'D': 'dummy', 'X': 'disabled'}[kind]),
                          S.simp(n, kind) if f != 'TYPE' else n, loc, kind)
    for nm in ('t', 'dt'):
        check('time', nm, m.envval((nm,)), 'Environment.hpp')
    if lv.implicit:
        b, x0 = S.st.rhs_and_guess(S.st.v3)
        for what, a in (('right-hand side', b), ('initial guess', x0)):
            n = S.st.val(a, allv)
            for kind in 'FWDX':
                check('pressure equation', '%s (%s)' % (what, kind), S.simp(n, kind), verloc(a), kind)
        dg, off, k, j, bad = S.st.matrix_entries()
        loc = verloc(S.st.ppefield('A'))
        stale = [x for x in bad if 'unrecognised' not in x]
        if stale:
            rep.ob('pressure equation', 'matrix', 'diff', stale[0], loc)
        elif bad:
            rep.ob('pressure equation', 'matrix', 'undecided', bad[0], loc)
        else:
            for kind in 'FWDX':
                for what, n in (('diagonal', dg), ('off-diagonal', off)):
                    check('pressure equation', 'matrix %s (%s)' % (what, kind), S.simp(expand(n, allv), kind), loc, kind)
        solver(rep, m, lv)


def solver(rep, m, lv):
    """the solver starts from the equation and the guess alone"""
    for L in m.I.loops:
        if not iterative(L):
            continue
        read = set()
        for p in list(L.flat_p.values()) + [L.cond]:
            if isinstance(p, N):
                for x in nd.walk(p):
                    read.add(x)
        for k, h in L.flat_h.items():
            i = L.flat_i.get(k)
            if not isinstance(h, N) or not isinstance(i, N) or h not in read:
                continue
            # a vector that is only written over is not read before
            bad = [x for x in nd.walk(i) if x.op in ('abase', 'bsym') and x not in lv.ok]
            lab = '.'.join(str(x[1]) for x in k[0][1] if isinstance(x, tuple) and isinstance(x[1], str)) or str(k[0][0]).split('~')[0]
            rep.ob('solver', 'start of ' + lab, 'diff' if bad else 'ok', 'starts from %s, left by an earlier step' % show(bad[0])[:80] if bad else '', L.loc)


def timestep(rep, m):
    S = m
    names = {nm for f in ('X', 'U', 'P', 'N', 'TYPE') for nm in m.leafnames(f)}
    envs = m.envname + '.'
    n = m.envval(('dt',))
    bad = []
    for x in nd.walk(n):
        if x.op in ('sym', 'abase') and not (x.a[0] in names or x.a[0].startswith(envs) or '#' in x.a[0] or x.a[0].endswith('.size') or x.a[0] in ('EPSILON', 'INFINITY')):
            bad.append(x)
        elif x.op in ('rec', 'brec', 'opaque'):
            rep.ob('time', 'choice of the step', 'undecided', 'mentions %s' % show(x)[:80])
            return
    rep.ob('time', 'choice of the step', 'diff' if bad else 'ok', 'depends on %s' % show(bad[0])[:80] if bad else '', 'Computer.hpp')
