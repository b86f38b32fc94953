"""Identity testing of value-graph terms: assigns pseudo-random values to the free quantities of two extracted terms and compares
the terms' values.  Nothing of the analysed program is run.  It serves two purposes: a point where the terms differ makes a failed
normal-form proof a definite inequality (with a witness), and terms that agree at every point are never reported."""
import hashlib
import math
import struct
from . import nodes as nd
from .nodes import *


class Undef(Exception):
    pass


def h01(seed, *key):
    d = hashlib.blake2b(repr((seed,) + key).encode(), digest_size=8).digest()
    return struct.unpack('<Q', d)[0] / 2.0 ** 64


class Point:
    rest = False

    """an assignment of all free quantities; `m` gives the roles of the arrays"""
    def __init__(self, seed, m, positive, kind=None):
        self.seed, self.m = seed, m
        self.P = 5 + int(h01(seed, 'P') * 4)
        self.memo = {}
        self.env = {}
        self.X = set(m.leafnames('X'))
        self.U = set(m.leafnames('U'))
        self.N_ = set(m.leafnames('N'))
        self.TY = set(m.leafnames('TYPE'))
        self.positive = positive
        self.kind = kind
        self.mode = int(h01(seed, 'mode') * 4)
        self.i = int(h01(seed, 'i') * self.P)

    def scalar(self, name):
        r = h01(self.seed, 'sym', name)
        if name == 'EPSILON':
            return 1e-9
        if name.endswith('R_e'):
            return 0.9 + r
        if name.endswith('.n0'):
            return (0.2 + 0.6 * r) * (1, 4, 0.3, 1)[self.mode]
        if name.endswith('.size') or name.endswith('psize'):
            return float(self.P)
        if name == '$i':
            return float(self.i)
        if name == '$k':
            return float(int(r * 3))
        if name.endswith('MaxDx'):
            return 0.1 * r + 0.01
        if name.endswith('L_0'):
            return 0.6 + r
        return 0.3 + r

    def nbrow(self, i):
        others = [j for j in range(self.P) if j != i]
        others.sort(key=lambda j: h01(self.seed, 'nb', i, j))
        return others[:2 + int(h01(self.seed, 'nbn', i) * (self.P - 2))]

    def type(self, i):
        return float(self.kind) if self.kind is not None and i == self.i else float(int(h01(self.seed, 'ty', (float(i),)) * 3))

    def filled(self, arr, idx):
        """a density computed in this step with surface particles is never below the reference density"""
        return arr.op == 'aver' and 'MPS_SPP' in self.m.ir.macros and self.type(int(idx[0])) < 2

    def element(self, arr, idx):
        nm = nd.aname(arr)
        key = (arr.a[0], arr.a[1]) if arr.op == 'aver' else (nm,)
        if nm == self.m.nbname:
            row = self.nbrow(int(idx[0]))
            k = int(idx[1])
            if k == 0:
                return float(len(row))
            if k - 1 >= len(row):
                raise Undef()
            return float(row[k - 1])
        if nm in self.TY:
            if self.kind is not None and int(idx[0]) == self.i:
                return float(self.kind)
            return self.type(int(idx[0]))
        r = h01(self.seed, key, idx)
        if nm in self.X:
            return (r - 0.5) * 1.6
        if nm in self.U:
            return (r - 0.5) * 2
        if nm in self.N_ and self.filled(arr, idx):
            return self.scalar('S.environment.n0') * (1 + max(0.0, r - 0.4))
        if nm in self.N_:
            return self.scalar('S.environment.n0') * (0.6 + 0.9 * r)
        return r * 2 - 0.6

    def ev(self, n):
        op, a = n.op, n.a
        if op == 'c':
            return float(a[0])
        if n in self.env:
            return self.env[n]
        k = (n, tuple(self.env[b] for b in sorted((b for b in n.bv if b in self.env), key=lambda b: b.id)))
        r = self.memo.get(k)
        if r is None:
            r = self._ev(n, op, a)
            if isinstance(r, float) and (r != r or abs(r) == math.inf):
                raise Undef()
            self.memo[k] = r
        return r

    def _ev(self, n, op, a):
        ev = self.ev
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'sum':
            return float(a[0]) + math.fsum(ev(x) * float(c) for x, c in a[1])
        if op == 'prod':
            r = 1.0
            xs = [(ev(x), e) for x, e in a[0]]
            # 0 times an undefined factor counts as 0
            if any(v == 0 and e > 0 for v, e in xs):
                return 0.0
            for v, e in xs:
                v = float(v)
                if v == 0 and e < 0:
                    raise Undef()
                if v < 0 and e.denominator % 2 == 0:
                    raise Undef()
                r *= v ** float(e) if e.denominator != 1 else v ** int(e)
            return r
        if op == 'ite':
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == 'not':
            return not ev(a[0])
        if op == 'and':
            return all(ev(x) for x in sorted(a[0], key=lambda t: t.id))
        if op == 'or':
            return any(ev(x) for x in sorted(a[0], key=lambda t: t.id))
        if op in ('pos', 'ipos'):
            return ev(a[0]) > 0
        if op == 'zero':
            return abs(ev(a[0])) < 1e-12
        if op == 'sel':
            idx = tuple(ev(x) for x in a[1])
            return self.element(a[0], idx)
        if op in ('sym', 'bsym'):
            return self.scalar(a[0]) if op == 'sym' else h01(self.seed, a[0]) > 0.5
        if op == 'nsum':
            b, lo, hi, body = a
            l, h = int(ev(lo)), int(ev(hi))
            t = []
            old = self.env.get(b)
            try:
                for k in range(l, h):
                    self.env[b] = float(k)
                    t.append(float(ev(body)))
            finally:
                if old is None:
                    self.env.pop(b, None)
                else:
                    self.env[b] = old
            return math.fsum(t)
        if op in ('bigmax', 'bigmin', 'exists'):
            b, lo, hi, body = a
            l, h = int(ev(lo)), int(ev(hi))
            t = []
            old = self.env.get(b)
            try:
                for k in range(l, h):
                    self.env[b] = float(k)
                    if op != 'exists' and body.op == 'guarded':
                        if ev(body.a[0]):
                            t.append(ev(body.a[1]))
                    else:
                        t.append(ev(body))
            finally:
                if old is None:
                    self.env.pop(b, None)
                else:
                    self.env[b] = old
            if op == 'exists':
                return any(t)
            if not t:
                raise Undef()
            return max(t) if op == 'bigmax' else min(t)
        if op == 'fn':
            name = a[0]
            args = []
            for x in a[1]:
                if isinstance(x, N) and nf_scalar(x):
                    v = ev(x)
                    args.append(round(v, 7) if isinstance(v, float) else v)
                else:
                    args.append(str(x))
            if name == 'max2':
                return max(args)
            if name == 'min2':
                return min(args)
            if name == 'ceil':
                return float(math.ceil(args[0]))
            if name == 'trunc':
                return float(math.trunc(args[0]))
            if name == 'wall' and self.rest:       # the prescribed position is where the particle is
                nm = sorted(self.X)[int(args[0])]
                return (h01(self.seed, (nm,), (float(args[1]),)) - 0.5) * 1.6
            return 0.5 + h01(self.seed, name, *args)
        raise Undef()


class Ieee:
    """mixin for Point: quotients by zero and roots of negative numbers give inf and nan and are carried on, as the machine does"""
    def ev(self, n):
        op, a = n.op, n.a
        if op == 'c':
            return float(a[0])
        if n in self.env:
            return self.env[n]
        if op == 'prod':
            r = 1.0
            for x, e in a[0]:
                v = float(self.ev(x))
                if abs(v) < 1e-13:
                    r *= math.inf if e < 0 else 0.0
                elif v < 0 and e.denominator % 2 == 0:
                    r *= math.nan if v < -1e-9 else math.inf if e < 0 else 0.0
                elif v < 0 or e.denominator == 1:
                    r *= math.copysign(abs(v) ** float(e), -1 if v < 0 and e.numerator % 2 else 1)
                else:
                    r *= v ** float(e)
            return r
        if op == 'sum':
            r = float(a[0])
            for x, c in a[1]:
                r += self.ev(x) * float(c)
            return r
        if op == 'nsum':
            try:
                return self._ev(n, op, a)
            except (ValueError, OverflowError):
                return math.nan
        if op == 'fn' and a[0] in ('max2', 'min2', 'abs'):
            v = [float(self.ev(x)) for x in a[1]]
            if any(x != x for x in v):
                return math.nan
            return max(v) if a[0] == 'max2' else min(v) if a[0] == 'min2' else abs(v[0])
        return self._ev(n, op, a)


def nf_scalar(x):
    return not nd.isarr(x) and x.op not in ('seq', 'seqbase', 'str', 'sequpd', 'seqrec')


class Tuned(Point):
    """a valuation with single quantities set by hand"""
    def __init__(self, seed, m, positive, kind, rest=False, alone=False, scalars=None, elements=None, crowd=0):
        super().__init__(seed, m, positive, kind)
        self.crowd = crowd
        if crowd:
            self.P = crowd + 3
        self.alone, self.rest, self.scalars, self.elements = alone, rest, scalars or {}, elements or {}

    def scalar(self, name):
        return self.scalars[name] if name in self.scalars else super().scalar(name)

    def element(self, arr, idx):
        k = (arr, idx)
        if self.alone and arr.op == 'aver' and nd.aname(arr) in self.N_ and 'MPS_SPP' not in self.m.ir.macros and self.type(int(idx[0])) < 2:
            return 0.0
        return self.elements[k] if k in self.elements else super().element(arr, idx)

    def nbrow(self, i):
        return [] if self.alone else [j for j in range(self.P) if j != i] if self.crowd else super().nbrow(i)


FAIL = (Undef, OverflowError, ZeroDivisionError, RecursionError, ValueError, KeyError, TypeError)


def tests(n):
    """what is compared with zero in n"""
    out = set()
    for x in nd.walk(n):
        if x.op in ('pos', 'ipos', 'zero'):
            out.add(x.a[0])
        elif x.op == 'fn' and x.a[0] in ('max2', 'min2') and len(x.a[1]) == 2:
            out.add(nd.sub(x.a[1][0], x.a[1][1]))
    return out


def critical(a, b, m, positive, kind):
    """valuations next to the thresholds that occur in one of the two only"""
    ta, tb = tests(a), tests(b)
    T = sorted(ta ^ tb, key=lambda t: t.id)[:12]
    names = m.leafnames('N') + m.leafnames('X') + m.leafnames('U') + m.leafnames('P')

    def at(p, n):
        for v in n.bv:
            p.env.setdefault(v, 0.0)
        return float(p.ev(n))
    for t in T:
        what = [('s', x) for x in nd.walk(t) if x.op == 'sym' and '#' not in x.a[0] and x.a[0] not in ('$i', '$k', 'EPSILON') and not x.a[0].endswith('size')]
        what += [('e', x) for x in nd.walk(t) if x.op == 'sel' and nd.aname(x.a[0]) in names]
        for seed in range(6):
            for how, x in what[:12]:
                try:
                    if how == 's':
                        k = x.a[0]
                        mk_ = lambda v: Tuned(seed, m, positive, kind, scalars={k: v})
                        p = mk_(1.0)
                        v0 = Point.scalar(p, k)
                    else:
                        p = Tuned(seed, m, positive, kind)
                        for y in t.bv:
                            p.env.setdefault(y, 0.0)
                        k = (x.a[0], tuple(p.ev(y) for y in x.a[1]))
                        mk_ = lambda v: Tuned(seed, m, positive, kind, elements={k: v})
                        v0 = Point.element(p, *k)
                    v1 = v0 * 1.1 + 0.01
                    f0, f1 = at(mk_(v0), t), at(mk_(v1), t)
                    for _ in range(14):
                        if f1 == f0 or abs(f1) < 1e-12:
                            break
                        v0, v1, f0 = v1, v1 - f1 * (v1 - v0) / (f1 - f0), f1
                        if how == 's' and v1 <= 0:
                            break
                        f1 = at(mk_(v1), t)
                    if abs(f1) > 1e-9 or how == 's' and v1 <= 0:
                        continue
                except FAIL:
                    continue
                for d in (-0.05, -0.005, -1e-4, 1e-4, 0.005, 0.05):
                    try:
                        v = v1 * (1 + d) if abs(v1) > 1e-6 else v1 + d
                        if how == 'e' and nd.aname(x.a[0]) in p.N_ and v < (p.scalar('S.environment.n0') if p.filled(*k) else 0):
                            continue
                        q = mk_(v)
                        y, z = q.ev(a), q.ev(b)
                        if abs(y - z) > 1e-6 * (1 + abs(y) + abs(z)):
                            return (seed, y, z)
                    except FAIL:
                        continue
    # lists longer than a constant they are compared with
    K = {abs(int(t.a[0])) for t in T if t.op == 'sum' and len(t.a[1]) == 1 and t.a[1][0][0].op == 'sel' and nd.aname(t.a[1][0][0].a[0]) == m.nbname}
    for seed, k in [(x, k) for x in range(3) for k in sorted(K) if k < 200]:
        try:
            q = Tuned(seed, m, positive, kind, crowd=k)
            y, z = q.ev(a), q.ev(b)
            if abs(y - z) > 1e-6 * (1 + abs(y) + abs(z)):
                return (seed, y, z)
        except FAIL:
            continue
    for seed, how in [(x, y) for x in range(6) for y in ('rest', 'alone')]:
        try:
            q = Tuned(seed, m, positive, kind, **{how: True})
            y, z = q.ev(a), q.ev(b)
            if abs(y - z) > 1e-6 * (1 + abs(y) + abs(z)):
                return (seed, y, z)
        except FAIL:
            continue
    return None


def compare(a, b, m, positive, kind=None, n=60, want=25):
    """('equal', points tried) or ('differ', (seed, value, value)) or ('unknown', 0)"""
    ok = 0
    for seed in range(n):
        p = Point(seed, m, positive, kind)
        try:
            x = p.ev(a)
            y = p.ev(b)
        except (Undef, OverflowError, ZeroDivisionError, RecursionError, ValueError):
            continue
        if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
            return 'differ', (seed, x, y)
        ok += 1
        if ok >= want:
            break
    if ok >= 5:
        w = critical(a, b, m, positive, kind)
        if w:
            return 'differ', w
    return ('equal', ok) if ok >= 5 else ('unknown', ok)
