"""Definedness: no quotient with divisor zero, no root of a negative number, and no value that was never set enters a result of a
step or a derived parameter.  Divisors are proved non-zero from signs and from the conditions under which they are evaluated."""
import itertools
from . import nodes as nd
from . import nf
from .nodes import *
from .model import Anchor
from .laws import Steps, expand
from .stages import verloc
from .environ import Built, Num
from .sample import Point, Ieee, Undef, nf_scalar
from .simp import ctx as simpctx, rewrite
from .values import *


def addall(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


class Signs:
    def __init__(self, m, positive, distinct, counts=()):
        self.m, self.positive, self.distinct, self.counts = m, positive, distinct, counts
        self.memo = {}

    def sign(self, n, g):
        """'+' positive, '0+' not negative, '-', '0-', '0', None; g: the conditions that hold"""
        k = (n, g)
        if k not in self.memo:
            self.memo[k] = None
            self.memo[k] = self._sign(n, g)
        return self.memo[k]

    def _sign(self, n, g):
        s = self.plain(n, g)
        if s in ('+', '-'):
            return s
        for x in self.stripped(n, g):
            for c, v in g:
                t = self.implied(x, c, v)
                if t:
                    return t
        return s

    def implied(self, n, c, v):
        if c.op in ('pos', 'ipos'):
            t = c.a[0] if v else nd.neg(c.a[0])        # t > 0, or t >= 0
            strict = v or c.op == 'ipos'
            for sg, x in (('+', n), ('-', nd.neg(n)), ('+', nd.sqrt(n) if n.op != 'c' else n)):
                d = nd.sub(x, t)
                s = self.plain(d, frozenset()) if self.size(d) <= self.size(n) + self.size(t) else None
                if s == '+' or (strict and s in ('0+', '0')):
                    return sg
        if c.op == 'zero' and not v:
            t = c.a[0]
            q = nd.div(n, t) if t is not ZERO else None
            factors = {y for y, e in t.a[0] if e > 0} if t.op == 'prod' else ()
            if n in factors or q is not None and isc(q) and q is not ZERO:
                return '+' if self.plain(n, frozenset()) == '0+' else 'nz'
        return None

    def stripped(self, n, g):
        """n, and n without positive factors of every term"""
        out = [n]
        if n.op != 'sum' or n.a[0] != 0:
            return out
        common = None
        for x, c in n.a[1]:
            f = {y: e for y, e in (x.a[0] if x.op == 'prod' else ((x, 1),)) if self.sign(y, g) == '+'}
            common = f if common is None else {y: e for y, e in common.items() if f.get(y) == e}
        for y, e in (common or {}).items():
            for z in list(out):
                out.append(addall([scale(nd.div(x, nd.pw(y, e)), c) for x, c in z.a[1]]) if z.op == 'sum' else nd.div(z, nd.pw(y, e)))
        return out[:16]

    @staticmethod
    def size(n):
        return len(n.a[1]) + 1 if n.op == 'sum' else 1

    def plain(self, n, g):
        op, a = n.op, n.a
        if op == 'c':
            return '+' if a[0] > 0 else '-' if a[0] < 0 else '0'
        if op == 'sym':
            return '+' if a[0] in self.positive or a[0] == 'EPSILON' else '0+' if a[0] in self.counts or a[0].endswith('.size') else None
        if op == 'sum':
            d = self.distance(n)
            if d:
                return '+'
            ss = [self.sgn(x, c, g) for x, c in a[1]]
            if a[0]:
                ss.append('+' if a[0] > 0 else '-')
            for p, q in (('+', '0+'), ('-', '0-')):
                if all(s in (p, q, '0') for s in ss):
                    return p if p in ss else q
            return None
        if op == 'prod':
            neg, zero = False, False
            for x, e in a[0]:
                s = self.sign(x, g)
                if getattr(e, 'denominator', 1) % 2 == 0:
                    s = '0+' if s is None or s in ('0+',) else '+' if s in ('+', 'nz') else s
                elif e % 2 == 0 if getattr(e, 'denominator', 1) == 1 else e.numerator % 2 == 0:
                    s = '+' if s in ('+', '-', 'nz') else '0+'
                if s is None or s in ('nz', '0'):
                    return '0' if s == '0' else None
                neg ^= s in ('-', '0-')
                zero |= s in ('0+', '0-')
            return ('0-' if zero else '-') if neg else ('0+' if zero else '+')
        if op == 'ite':
            c = a[0]
            x, y = self.sign(a[1], g | conj(c, True)), self.sign(a[2], g | conj(c, False))
            if x == y:
                return x
            for p, q in (('+', '0+'), ('-', '0-')):
                if x in (p, q, '0') and y in (p, q, '0'):
                    return q
            return None
        if op == 'nsum':
            s = self.sign(a[3], g)
            return {'+': '0+', '0+': '0+', '-': '0-', '0-': '0-', '0': '0'}.get(s)
        if op == 'bigmax':
            s = self.sign(a[3], g)
            return s if s in ('+', '0+') else None
        if op == 'guarded':
            return self.sign(a[1], g | conj(a[0], True))
        if op == 'fn':
            ss = [self.sign(x, g) for x in a[1] if isinstance(x, N) and nf_scalar(x)]
            if a[0] == 'max2':
                return '+' if '+' in ss else '0+' if '0+' in ss or '0' in ss else None
            if a[0] == 'min2':
                return '+' if all(s == '+' for s in ss) else '0+' if all(s in ('+', '0+', '0') for s in ss) else None
            if a[0] in ('abs', 'fabs'):
                return '+' if ss[0] in ('+', '-', 'nz') else '0+'
            if a[0] == 'ceil' and ss[0] == '+':
                return '+'
            if a[0] in ('floor', 'ceil', 'trunc') and ss[0] in ('+', '0+'):
                return '0+'
            if a[0] == 'exp':
                return '+'
            return None
        if op in ('pos', 'ipos', 'zero', 'not', 'and', 'or', 'true', 'false', 'bsym'):
            return '0+'
        return None

    def sgn(self, x, c, g):
        s = self.sign(x, g)
        if s is None or s == 'nz':
            return s
        if c < 0:
            s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0'}[s]
        return s

    def distance(self, n):
        """the squared distance of two different particles"""
        if n.a[0] != 0:
            return False
        return self.distinct(n)


def conj(c, v):
    """the conditions that hold when c has value v"""
    if c.op == 'not':
        return conj(c.a[0], not v)
    if c.op == 'and' and v or c.op == 'or' and not v:
        r = frozenset()
        for x in c.a[0]:
            r |= conj(x, v)
        return r
    return frozenset([(c, v)])


def divisors(n, limit=200000):
    """(divisor or radicand, 'div' | 'root', conditions) of every quotient and root in n"""
    out = {}
    seen = set()
    stack = [(n, frozenset())]
    while stack:
        x, g = stack.pop()
        if (x, g) in seen:
            continue
        seen.add((x, g))
        if len(seen) > limit:
            raise Anchor('too many contexts')
        if x.op == 'ite':
            c = x.a[0]
            stack.append((c, g))
            stack.append((x.a[1], g | conj(c, True)))
            stack.append((x.a[2], g | conj(c, False)))
            continue
        if x.op == 'guarded':
            stack.append((x.a[0], g))
            stack.append((x.a[1], g | conj(x.a[0], True)))
            continue
        if x.op in ('and', 'or'):
            for y in x.a[0]:
                h = g
                for z in x.a[0]:
                    if z is not y:
                        h |= conj(z, x.op == 'and')
                stack.append((y, h))
            continue
        if x.op == 'prod':
            for b, e in x.a[0]:
                if e < 0:
                    out.setdefault((b, 'div'), set()).add(g)
                if getattr(e, 'denominator', 1) % 2 == 0:
                    out.setdefault((b, 'root'), set()).add(g)
        if x.op == 'undef':
            out.setdefault((x, 'unset'), set()).add(g)
        kids = []
        nd._kids(x.a, kids)
        for y in kids:
            stack.append((y, g))
    return out


class Prover:
    def __init__(self, m, positive, state=(), S=None):
        self.m, self.S, self.memo = m, S, {}
        self.state = set(state)         # positions of particles at some moment
        self.sg = Signs(m, positive, self.distinct)

    def distinct(self, n):
        """sum over the axes of squared differences of the same coordinate of two different particles"""
        axes = set()
        for x, c in n.a[1]:
            if c <= 0 or x.op != 'prod' or len(x.a[0]) != 1 or x.a[0][0][1] != 2:
                return False
            d = x.a[0][0][0]
            if d.op != 'sum' or d.a[0] != 0 or len(d.a[1]) != 2 or {k for _, k in d.a[1]} != {1, -1}:
                return False
            (p, _), (q, _) = d.a[1]
            if p.op != 'sel' or q.op != 'sel' or p.a[0] is not q.a[0] or p.a[0] not in self.state:
                return False
            axes.add((p.a[0], frozenset((p.a[1], q.a[1]))))
        pairs = {b for _, b in axes}
        return len(pairs) == 1 and len(axes) == self.m.D and len(next(iter(pairs))) == 2

    def proved(self, b, kind, g):
        if kind == 'unset':
            return False
        want = ('+', '-', 'nz') if kind == 'div' else ('+', '0+', '0')
        if self.sg.sign(b, frozenset()) in want or self.sg.sign(b, g) in want:
            return True
        b2 = simpctx(b, tuple(g))
        if b2 is not b and self.sg.sign(b2, g) in want:
            return True
        return kind == 'root' and self.S is not None and self.square(b2, g)

    def square(self, b, g):
        """b is a square plus something that is positive under g"""
        subs = [x for x in nd.walk(b) if x.op in ('sum', 'prod') and x is not b]
        sums = [x for x in subs if x.op == 'sum'][:12]
        scales = [ONE] + list({nd.pw(y, -1) for x in subs if x.op == 'prod' for y, e in x.a[0] if e < 0})[:4]
        for c, v in g:
            if c.op not in ('pos', 'ipos'):
                continue
            t = c.a[0] if v else nd.neg(c.a[0])
            for x in sums:
                for q in scales:
                    if self.same(nd.sub(b, t), mul(q, mul(x, x))):
                        return True
        return False

    def same(self, a, b):
        k = (a, b)
        if k not in self.memo:
            try:
                self.memo[k] = not self.S.s.ctx(limit=3000).diff(self.m.diffvars(a), self.m.diffvars(b))
            except nf.TooBig:
                self.memo[k] = False
        return self.memo[k]


class Corner(Point):
    """valuations on which divisors tend to vanish: nothing moves, nobody near, particles in a line; one parameter may be set freely"""
    MODES = ('any', 'still', 'alone', 'line', 'void')

    def __init__(self, seed, m, kind, mode, setting=None):
        super().__init__(seed, m, set(), kind)
        self.how, self.setting = mode, setting or {}
        self.last = max(m.leafnames('X'))
        self.Pn = set(m.leafnames('P'))

    def scalar(self, name):
        if name in self.setting:
            return self.setting[name]
        return super().scalar(name)

    def nbrow(self, i):
        return [] if self.how == 'alone' else super().nbrow(i)

    def element(self, arr, idx):
        nm = nd.aname(arr)
        if self.how == 'still' and (nm in self.U or nm in self.Pn):
            return 0.0
        if self.how == 'line' and nm == self.last:
            return 0.25
        if nm in self.N_ and arr.op == 'aver' and self.how in ('void', 'alone'):
            # computed in this step: zero only without neighbours, and never with surface particles
            return 0.0 if self.how == 'alone' and 'MPS_SPP' not in self.m.ir.macros else super().element(arr, idx)
        if self.how == 'void' and nm not in self.X and nm not in self.TY and nm != self.m.nbname:
            return 0.0
        return super().element(arr, idx)


class Machine(Ieee, Corner):
    pass


FAIL = (Undef, OverflowError, ZeroDivisionError, RecursionError, ValueError, KeyError, TypeError)


def witness(m, b, kind, g, K, n):
    """a valuation where b is evaluated and is zero (or negative, for a root); None if none is found"""
    if kind == 'unset':
        return 'it is never set'
    syms = sorted({x.a[0] for x in nd.walk(b) if x.op == 'sym' and '#' not in x.a[0] and x.a[0] not in ('$i', 'EPSILON')})

    free = set(b.bv).union(n.bv, *[c.bv for c, _ in g])

    def value(p, n):
        for v in free:
            p.env[v] = 0.0
        return p.ev(n)

    def holds(p):
        for c, v in g:
            if c.op in ('pos', 'ipos'):
                x = value(p, c.a[0])
                if c.op == 'pos' and v and x < 1e-9 or (c.op == 'pos' and not v and x > -1e-9 and x != 0):
                    return False
                if (x > 0) != v:
                    return False
            elif bool(value(p, c)) != v:
                return False
        return True

    def matters(mode, seed, setting=None):
        """the value the quotient is part of is not finite either (it may be the losing side of a minimum, say)"""
        try:
            r = value(Machine(seed, m, K, mode, setting), n)
            return not isinstance(r, float) or not abs(r) < float('inf')
        except FAIL:
            return True

    def bad(x):
        return abs(x) < 1e-13 if kind == 'div' else x < -1e-9
    for mode in Corner.MODES:
        for seed in range(12):
            try:
                p = Corner(seed, m, K, mode)
                if mode == 'alone' and any(True for _ in b.bv):
                    continue
                x = value(p, b)
                if bad(x) and holds(p) and matters(mode, seed):
                    return 'with %s it is %g' % (mode, x)
            except FAIL:
                continue
            if mode != 'any' or kind != 'div' or seed > 5:
                continue
            for nm in syms:
                try:
                    s0, s1 = p.scalar(nm), p.scalar(nm) + 0.21
                    f0, f1 = x, value(Corner(seed, m, K, mode, {nm: s1}), b)
                    for _ in range(12):
                        if f1 == f0:
                            break
                        s0, s1, f0 = s1, s1 - f1 * (s1 - s0) / (f1 - f0), f1
                        if s1 <= 0:
                            break
                        q = Corner(seed, m, K, mode, {nm: s1})
                        f1 = value(q, b)
                        if bad(f1):
                            if holds(q) and matters(mode, seed, {nm: s1}):
                                return 'with %s = %g it is zero' % (nm, s1)
                            break
                except FAIL:
                    continue
    return None


LABEL = {'F': 'fluid particle', 'W': 'wall particle', 'D': 'dummy particle', 'X': 'disabled particle'}


def examine(rep, m, pr, stage, what, n, loc, K=None):
    try:
        D = divisors(n)
    except Anchor as e:
        rep.ob(stage, what, 'undecided', str(e), loc)
        return
    bad = hidden = None
    cnt = 0
    for (b, kind), gs in sorted(D.items(), key=lambda t: t[0][0].id):
        for g in sorted(gs, key=len):
            cnt += 1
            if pr.proved(b, kind, g):
                continue
            hidden = hidden or 'not proven: %s %s' % ({'div': 'divisor', 'root': 'root of', 'unset': 'unset value'}[kind], show(b)[:200])
            w = witness(m, b, kind, g, K, n)
            if w:
                bad = '%s %s: %s' % ({'div': 'divisor', 'root': 'root of', 'unset': 'unset value'}[kind], show(b)[:240], w)
                break
        if bad:
            break
    rep.add('divisors', cnt)
    if bad:
        rep.ob(stage, what, 'diff', bad, loc)
    elif hidden:
        rep.ob(stage, what, 'undecided', hidden, loc)
    else:
        rep.ob(stage, what, 'ok', '%d divisors and roots' % cnt, loc)


def step(rep, m):
    S = Steps(m)
    V = S.st.V
    allv = {v for f in V for ch in V[f] for v in ch}
    pr = Prover(m, set(S.s.positive) | {'dt', m.gridname + '.blockLength'}, {v for ch in V['X'] for v in ch}, S)
    for f in ('X', 'U', 'P', 'N'):
        for d, ch in enumerate(V[f]):
            lab = f.lower() + ('.%d' % d if len(V[f]) > 1 else '')
            for k in range(1, len(ch)):
                loc = verloc(ch[k])
                try:
                    n = S.value(ch[k], allv)
                except Anchor as e:
                    rep.ob('state', '%s, change %d' % (lab, k), 'undecided', str(e), loc)
                    continue
                for kind in 'FWDX':
                    examine(rep, m, pr, 'state', '%s, change %d (%s)' % (lab, k, LABEL[kind]), S.simp(n, kind), loc, S.st.K[kind])
    if 'PRESSURE_EXPLICIT' not in m.ir.macros:
        b, x0 = S.st.rhs_and_guess(S.st.v3)
        for kind in 'FWDX':
            examine(rep, m, pr, 'pressure equation', 'right-hand side (%s)' % LABEL[kind], S.simp(S.st.val(b, allv), kind), verloc(b), S.st.K[kind])
            examine(rep, m, pr, 'pressure equation', 'initial guess (%s)' % LABEL[kind], S.simp(S.st.val(x0, allv), kind), verloc(x0), S.st.K[kind])
        dg, off, k, j, bad = S.st.matrix_entries()
        if not any('unrecognised' in x for x in bad):
            loc = verloc(S.st.ppefield('A'))
            for kind in 'FWDX':
                examine(rep, m, pr, 'pressure equation', 'off-diagonal (%s)' % LABEL[kind], S.simp(expand(off, allv), kind), loc, S.st.K[kind])
                examine(rep, m, pr, 'pressure equation', 'diagonal (%s)' % LABEL[kind], S.simp(expand(dg, allv), kind), loc, S.st.K[kind])


def timestep(rep, m):
    from .spec import Spec
    s = Spec(m, m.ir.macros)
    pr = Prover(m, set(s.positive))
    for nm, q in (('length of the step', 'dt'), ('time', 't')):
        examine(rep, m, pr, 'time step', nm, m.envval((q,)), 'Computer.hpp')


def parameters(rep, config):
    b = Built(config)
    pr = Prover(b.m, set(b.positive))
    c = nf.Ctx(b.positive)
    n0 = b.E.f.get('n0')
    fields = []

    def put(k, v):
        if isinstance(v, N):
            fields.append((k, v))
        elif isinstance(v, Vec):
            for q, x in enumerate(v.c):
                put('%s.%d' % (k, q), x)
        elif isinstance(v, Struct):
            for q, x in v.f.items():
                put('%s.%s' % (k, q), x)
    for k, v in b.E.f.items():
        put(k, v)

    def lattice(d):
        """the reference number density: positive if the influence radius reaches the next particle"""
        if d is n0:
            return True
        try:
            return isinstance(n0, N) and not c.diff(d, n0)
        except nf.TooBig:
            return False

    def zero_at(d, g):
        vs = sorted(set(d.bv).union(*[x.bv for x, _ in g]), key=lambda x: x.id)
        for scl in (1.0, 0.37):
            p = {k.a[0]: scl * (0.4 + 0.3 * q) for q, k in enumerate(b.p.values())}
            p.update({'$r_eByl_0': 2.4})
            for at in itertools.product((0.0, 1.0, -1.0, 2.0), repeat=len(vs)):
                w = Num(p)
                w.env.update(zip(vs, at))
                try:
                    if all(bool(w.ev(x)) == v for x, v in g) and abs(w.ev(d)) < 1e-13:
                        return 'zero at lattice point %s' % (at,)
                except FAIL:
                    continue
    for k, v in fields:
        bad = hidden = None
        D = divisors(v)
        for (d, kind), gs in D.items():
            for g in gs:
                if pr.proved(d, kind, g) or kind == 'div' and lattice(d):
                    continue
                hidden = 'not proven: divisor %s' % show(d)[:200]
                w = 'it is never set' if kind == 'unset' else zero_at(d, g) if kind == 'div' else None
                bad = bad or (w and 'divisor %s: %s' % (show(d)[:200], w))
        rep.ob('parameters', k, 'diff' if bad else 'undecided' if hidden else 'ok', bad or hidden or '%d divisors and roots' % len(D), 'Environment.hpp')
