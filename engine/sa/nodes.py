"""Hash-consed value graph (the abstract domain of the analysis): every value the analysed source computes is a node
that records how it was computed.  Nodes are never executed; equal nodes are the same object (value numbering)."""
from fractions import Fraction

_tab = {}
_cnt = [0]


class N:
    __slots__ = ('op', 'a', 'id', 'bv', '__weakref__')

    def __repr__(self):
        return show(self)


EMPTY = frozenset()
BASES = {'sym', 'bsym', 'abase', 'seqbase'}
BINDERS = {'nsum', 'bigmax', 'bigmin', 'exists', 'argmax', 'argmin', 'nprod'}


def mk(op, *a):
    key = (op, a)
    n = _tab.get(key)
    if n is not None:
        return n
    n = N()
    n.op, n.a = op, a
    _cnt[0] += 1
    n.id = _cnt[0]
    if op in BASES:
        n.bv = frozenset((n,)) if a[1] != 'free' else EMPTY
    else:
        bv = set()
        _coll(a, bv)
        if op in BINDERS:
            bv.discard(a[0])
        elif op == 'amap':
            for b in a[1]:
                bv.discard(b[0])
        n.bv = frozenset(bv) if bv else EMPTY
    _tab[key] = n
    return n


def _coll(a, bv):
    for x in a:
        if isinstance(x, N):
            if x.bv:
                bv |= x.bv
        elif isinstance(x, tuple):
            _coll(x, bv)


_fresh = [0]


def fresh(name, kind):
    _fresh[0] += 1
    return mk('sym', '%s#%d' % (name, _fresh[0]), kind)


def sym(name):
    return mk('sym', name, 'free')


def C(v):
    return mk('c', Fraction(v))


ZERO, ONE = C(0), C(1)
TRUE, FALSE = mk('true'), mk('false')
LOOPRANGE = {}      # bound symbol -> (lo, hi)
DEFS = {}           # (array name, version) -> (formal symbols, defining node)
ENUMS = {}          # leaf array name -> tuple of enumerator values
ASSUME_INDEX = []   # predicates node -> bool: node is a valid particle index


def isc(n):
    return n.op == 'c'


def cval(n):
    return n.a[0] if n.op == 'c' else None


# ---- numeric
def _lin(n):
    """(const, {node: coef})"""
    if n.op == 'c':
        return n.a[0], {}
    if n.op == 'sum':
        return n.a[0], dict(n.a[1])
    return Fraction(0), {n: Fraction(1)}


def _mksum(k, d):
    items = tuple(sorted(((n, c) for n, c in d.items() if c != 0), key=lambda t: t[0].id))
    if not items:
        return mk('c', Fraction(k))
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('sum', Fraction(k), items)


def add(a, b):
    if a.op == 'c' and a.a[0] == 0:
        return b
    if b.op == 'c' and b.a[0] == 0:
        return a
    k, d = _lin(a)
    k2, d2 = _lin(b)
    for n, c in d2.items():
        d[n] = d.get(n, 0) + c
    return _mksum(k + k2, d)


def scale(a, q):
    if q == 0:
        return ZERO
    if q == 1:
        return a
    k, d = _lin(a)
    return _mksum(k * q, {n: c * q for n, c in d.items()})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _fac(n):
    """(coef, {base: exp})"""
    if n.op == 'c':
        return n.a[0], {}
    if n.op == 'prod':
        return Fraction(1), dict(n.a[0])
    if n.op == 'sum' and n.a[0] == 0 and len(n.a[1]) == 1:
        m, c = n.a[1][0]
        k, d = _fac(m)
        return k * c, d
    return Fraction(1), {n: Fraction(1)}


def _mkprod(k, d):
    items = tuple(sorted(((n, e) for n, e in d.items() if e != 0), key=lambda t: t[0].id))
    if not items:
        return mk('c', Fraction(k))
    if len(items) == 1 and items[0][1] == 1:
        r = items[0][0]
    else:
        r = mk('prod', items)
    return scale(r, Fraction(k))


def mul(a, b):
    if a.op == 'c':
        return scale(b, a.a[0])
    if b.op == 'c':
        return scale(a, b.a[0])
    k, d = _fac(a)
    k2, d2 = _fac(b)
    for n, e in d2.items():
        d[n] = d.get(n, 0) + e
    return _mkprod(k * k2, d)


def _isq(f, q):
    """exact rational power or None"""
    if q.denominator == 1:
        if f == 0 and q < 0:
            return None
        return f ** int(q)
    if q.denominator == 2 and f >= 0:
        import math
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            if n == 0 and q < 0:
                return None
            return Fraction(n, d) ** int(q * 2)
    return None


def pw(a, q):
    q = Fraction(q)
    if q == 1:
        return a
    if q == 0:
        return ONE
    if a.op == 'c':
        v = _isq(a.a[0], q)
        if v is not None:
            return mk('c', v)
        return mk('prod', ((a, q),))
    if q.denominator == 1:
        k, d = _fac(a)
        if not (k == 0 and q < 0):
            return _mkprod(k ** int(q) if k else Fraction(0), {n: e * q for n, e in d.items()})
    return mk('prod', ((a, q),))


def div(a, b):
    return mul(a, pw(b, -1))


def sqrt(a):
    return pw(a, Fraction(1, 2))


def fn(name, *args):
    return mk('fn', name, args)


def nmax(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return a if a.a[0] >= b.a[0] else b
    return ite(pos(sub(b, a)), b, a)


def nmin(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return a if a.a[0] <= b.a[0] else b
    return ite(pos(sub(a, b)), b, a)


def nabs(a):
    if isc(a):
        return C(abs(a.a[0]))
    return ite(pos(neg(a)), neg(a), a)


# ---- boolean
def B(v):
    return TRUE if v else FALSE


NONZERO = set()     # counts assumed to be positive (the obligations are about an arbitrary element)


def pos(d, isint=False):
    """d > 0"""
    if d in NONZERO:
        return TRUE
    if d.op == 'c':
        return B(d.a[0] > 0)
    if d.op == 'ite' and (d.a[1].op == 'c' or d.a[2].op == 'c'):
        return ite(d.a[0], pos(d.a[1], isint), pos(d.a[2], isint))
    if isint:
        if d.op != 'c':
            k, m = _lin(d)
            for n, c in m.items():
                if c in (1, -1):
                    r = idx_range(n)
                    if r is None:
                        continue
                    rest = sub(d, scale(n, c))
                    least = add(rest, r[0]) if c == 1 else add(sub(rest, r[1]), ONE)
                    if least.op == 'c' and least.a[0] > 0:
                        return TRUE
                    most = sub(add(rest, r[1]), ONE) if c == 1 else sub(rest, r[0])
                    if most.op == 'c' and most.a[0] <= 0:
                        return FALSE
        return mk('ipos', d)
    if d.op == 'sum':   # scale to a primitive form
        k, items = d.a
        c = abs(items[0][1])
        if c != 1:
            return mk('pos', scale(d, 1 / c))
    return mk('pos', d)


def idx_range(n):
    """(lo, hi) with lo <= n < hi for loop counters and for entries assumed to be valid indices"""
    r = LOOPRANGE.get(n)
    if r is None:
        for p in ASSUME_INDEX:
            r = p(n)
            if r is not None:
                return r
    return r


def zero(d):
    if d in NONZERO:
        return FALSE
    if d.op == 'c':
        return B(d.a[0] == 0)
    if d.op == 'ite' and (d.a[1].op == 'c' or d.a[2].op == 'c'):
        return ite(d.a[0], zero(d.a[1]), zero(d.a[2]))
    if d.op == 'sum':
        c = d.a[1][0][1]
        if c != 1:
            d = scale(d, 1 / c)
        if d.op == 'sum' and len(d.a[1]) == 1:  # n + k == 0
            n, k = d.a[1][0][0], -d.a[0]
            if n.op == 'ite':
                r = _pickzero(n, k, 24)
                if r is not None:
                    return r
            e = enum_of(n)
            if e is not None and k not in e:
                return FALSE
    return mk('zero', d)


def _pickzero(n, k, depth):
    """n == k for a choice among constants"""
    if n.op == 'c':
        return B(n.a[0] == k)
    if n.op != 'ite' or depth == 0:
        return None
    a = _pickzero(n.a[1], k, depth - 1)
    b = _pickzero(n.a[2], k, depth - 1) if a is not None else None
    return None if b is None else ite(n.a[0], a, b)


def enum_of(n):
    if n.op == 'sel':
        return ENUMS.get(aname(n.a[0]))
    if n.op == 'sym':
        return ENUMS.get(n.a[0])
    return None


def aname(a):
    if a.op in ('abase', 'aver'):
        return a.a[0]
    return None


def cmp(op, a, b, isint=False):
    if op == '<':
        return pos(sub(b, a), isint)
    if op == '>':
        return pos(sub(a, b), isint)
    if op == '<=':
        return pos(add(sub(b, a), ONE), True) if isint else bnot(pos(sub(a, b)))
    if op == '>=':
        return pos(add(sub(a, b), ONE), True) if isint else bnot(pos(sub(b, a)))
    if op == '==':
        return zero(sub(a, b))
    if op == '!=':
        return bnot(zero(sub(a, b)))
    raise ValueError(op)


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    if a.op == 'ipos':
        return mk('ipos', sub(ONE, a.a[0]))
    if a.op == 'and':
        return bor(*[bnot(x) for x in a.a[0]])
    if a.op == 'or':
        return band(*[bnot(x) for x in a.a[0]])
    return mk('not', a)


def band(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.a[0]:
                s[y] = 1
        else:
            s[x] = 1
    # unit propagation with disjunctions
    for x in list(s):
        if bnot(x) in s:
            return FALSE
    # enum exclusivity: x==k1 and x==k2
    ch = True
    while ch:
        ch = False
        for x in list(s):
            if x.op == 'or':
                ys = [y for y in x.a[0] if bnot(y) not in s]
                if any(y in s for y in x.a[0]):
                    del s[x]
                    ch = True
                elif len(ys) < len(x.a[0]):
                    del s[x]
                    r = bor(*ys)
                    if r is FALSE:
                        return FALSE
                    for y in (r.a[0] if r.op == 'and' else (r,)):
                        s[y] = 1
                    ch = True
    eq = {}
    for x in s:
        t = _eqlit(x)
        if t:
            if eq.setdefault(t[0], t[1]) != t[1]:
                return FALSE
    if eq:
        for x in list(s):
            if x.op == 'not':
                t = _eqlit(x.a[0])
                if t and t[0] in eq and eq[t[0]] != t[1]:
                    del s[x]
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk('and', tuple(sorted(s, key=lambda n: n.id)))


def _eqlit(x):
    """(node, const) if x is node == const"""
    if x.op == 'zero':
        d = x.a[0]
        if d.op == 'sum' and len(d.a[1]) == 1:
            n, c = d.a[1][0]
            return n, -d.a[0] / c
        if d.op != 'sum':
            return d, Fraction(0)
    return None


def bor(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            for y in x.a[0]:
                s[y] = 1
        else:
            s[x] = 1
    for x in list(s):
        if bnot(x) in s:
            return TRUE
        if x.op == 'not' and x.a[0].op == 'and':
            if any(bnot(y) in s for y in x.a[0].a[0]):
                pass
    # absorption  a or (a and b) = a ; a or (not a and b) = a or b
    for x in list(s):
        if x.op == 'and':
            if any(y in s for y in x.a[0]):
                s.pop(x, None)
            else:
                ys = [y for y in x.a[0] if bnot(y) not in s]
                if len(ys) < len(x.a[0]):
                    s.pop(x, None)
                    r = band(*ys)
                    if r is TRUE:
                        return TRUE
                    s[r] = 1
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    # factor common literals: (a&b)|(a&!b) = a
    l = [set(x.a[0]) if x.op == 'and' else {x} for x in s]
    common = set.intersection(*l)
    if common:
        rest = [band(*(y - common)) for y in l]
        return band(*common, bor(*rest))
    return mk('or', tuple(sorted(s, key=lambda n: n.id)))


def isbool(n):
    return n.op in ('true', 'false', 'not', 'and', 'or', 'pos', 'ipos', 'zero', 'exists', 'bsym', 'brec') or (n.op == 'ite' and isbool(n.a[1]))


def b2n(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return ite(b, ONE, ZERO)


def n2b(n):
    """numeric to boolean"""
    if isbool(n):
        return n
    return bnot(zero(n))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op == 'or':
        nc = bnot(c)
        if nc.op != 'or':
            return ite(nc, b, a)
    elif c.op == 'ipos':
        nc = bnot(c)
        if nc.id < c.id:
            return ite(nc, b, a) if nc.op != 'ipos' else _ite(nc, b, a)
    return _ite(c, a, b)


def _ite(c, a, b):
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is FALSE:
        return band(c, a)
    if b is TRUE:
        return bor(bnot(c), a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a.op == 'ite' and a.a[0] is bnot(c):
        a = a.a[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


# ---- sequences (contents of growing vectors): tuple of segments
#  ('one', guard, elem)  elem: tuple of leaf nodes;  ('comp', guard, binders, elem) ; ('all', base node)
def seq(segs):
    return mk('seq', tuple(segs))


SEQ0 = seq(())


def seq_merge(c, a, b):
    if a is b:
        return a
    if a.op != 'seq':
        a = seq((('all', TRUE, a),))
    if b.op != 'seq':
        b = seq((('all', TRUE, b),))
    x, y = a.a[0], b.a[0]
    k = 0
    while k < len(x) and k < len(y) and x[k] == y[k]:
        k += 1
    if len(x) - k == 1 and len(y) - k == 1 and x[k][0] == 'one' and y[k][0] == 'one' and x[k][1] is y[k][1]:
        return seq(x[:k] + (('one', x[k][1], tuple(ite(c, p, q) for p, q in zip(x[k][2], y[k][2]))),))
    out = list(x[:k])
    for s in x[k:]:
        out.append((s[0], band(c, s[1])) + s[2:])
    for s in y[k:]:
        out.append((s[0], band(bnot(c), s[1])) + s[2:])
    return seq(s for s in out if s[1] is not FALSE)


def seq_append(s, guard, elem):
    if s.op == 'seq':
        return seq(s.a[0] + (('one', guard, elem),))
    return seq((('all', TRUE, s), ('one', guard, elem)))


# ---- arrays
def int_eq(a, b):
    if a is b:
        return True
    d = sub(a, b)
    if d.op == 'c':
        return d.a[0] == 0
    return None


def in_range(e, lo, hi):
    return band(cmp('<=', lo, e, True), cmp('<', e, hi, True))


def vdef(A):
    """definition of an array version, instantiated for the enclosing loop iterations it is used in; None if opaque"""
    d = DEFS.get(A.a[:2])
    if d is None:
        return None
    formal, node = d
    if formal == A.a[2]:
        return node
    m = {f: x for f, x in zip(formal, A.a[2]) if f is not x}
    return subst(node, m)


EXPAND = [lambda ver: True]


def select(A, idx):
    """A[idx], idx: tuple of nodes"""
    while True:
        op = A.op
        if op == 'astore':
            base, si, v = A.a
            conds = []
            ne = False
            for p, q in zip(idx, si):
                r = int_eq(p, q)
                if r is False:
                    ne = True
                    break
                if r is None:
                    conds.append(zero(sub(p, q)))
            if ne:
                A = base
                continue
            if not conds:
                return v
            return ite(band(*conds), v, select(base, idx))
        if op == 'amap':
            r = _amap_select(A, idx)
            if r is not None:
                return r
            return mk('sel', A, idx)
        if op == 'aver':
            if A.a[:2] in DEFS and EXPAND[0](A):
                A = vdef(A)
                continue
            return mk('sel', A, idx)
        if op == 'aite':
            return ite_any(A.a[0], select(A.a[1], idx), select(A.a[2], idx))
        if op == 'afill':
            return A.a[0]
        if op == 'asplit':
            return mk('fn', 'item', (A.a[0], A.a[1], idx[0]))
        if op == 'aconcat':
            a, n, b = A.a
            c = cmp('<', idx[0], n, True)
            return ite_any(c, select(a, idx), select(b, (sub(idx[0], n),) + idx[1:]))
        if op == 'lin':
            r = ZERO
            for v, k in A.a[0]:
                r = add(r, mul(k, select(v, idx)))
            return r
        return mk('sel', A, idx)


def ite_any(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.op in ('seq', 'seqbase') or b.op in ('seq', 'seqbase'):
        return seq_merge(c, a, b)
    if isarr(a):
        return amerge(c, a, b)
    return ite(c, a, b)


def _amap_select(A, idx):
    base, binders, guard, pat, val = A.a
    asg = {}
    todo = []
    bs = {b[0]: b for b in binders}
    for e, p in zip(idx, pat):
        k, d = _lin(p)
        bb = [n for n in d if n in bs]
        if len(bb) == 1 and abs(d[bb[0]]) == 1 and bb[0] not in asg and all(not (n.bv & set(bs)) for n in d if n not in bs):
            b = bb[0]
            rest = sub(p, scale(b, d[b]))
            asg[b] = scale(sub(e, rest), d[b])
        else:
            todo.append((e, p))
    if len(asg) < len(bs):
        return None
    conds = []
    for e, p in todo:
        q = subst(p, asg)
        r = int_eq(e, q)
        if r is False:
            return select(base, idx)
        if r is None:
            conds.append(zero(sub(e, q)))
    for b, lo, hi in binders:
        conds.append(in_range(asg[b], subst(lo, asg), subst(hi, asg)))
    conds.append(subst(guard, asg))
    c = band(*conds)
    v = subst(val, asg)
    if c is TRUE:
        return v
    if c is FALSE:
        return select(base, idx)
    return ite_any(c, v, select(base, idx))


ARR = {'asplit', 'abase', 'aver', 'astore', 'amap', 'aite', 'afill', 'aconcat', 'lin', 'lvprod', 'arec', 'aopaque'}


def isarr(n):
    return n.op in ARR


def astore(A, idx, v):
    if A.op == 'astore' and A.a[1] == idx:
        A = A.a[0]
    if v.op == 'sel' and v.a[0] is A and v.a[1] == idx:
        return A
    return mk('astore', A, idx, v)


def amerge(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    ca, cb = _chain(a), _chain(b)
    sa = {x.id for x in ca}
    common = None
    for y in cb:
        if y.id in sa:
            common = y
            break
    if common is not None:
        idxs = []
        for ch in (ca, cb):
            part = []
            for x in ch:
                if x is common:
                    break
                part.append(x.a[1])
            for i in reversed(part):
                if i not in idxs:
                    idxs.append(i)
        # later stores win; rebuild in order
        r = common
        for i in idxs:
            va, vb = select(a, i), select(b, i)
            r = astore(r, i, ite_any(c, va, vb))
        return r
    return mk('aite', c, a, b)


def _chain(a):
    out = [a]
    while a.op == 'astore':
        a = a.a[0]
        out.append(a)
    return out


# ---- linear algebra on long vectors
def _lv(n):
    return dict(n.a[0]) if n.op == 'lin' else {n: ONE}


def lvlin(d):
    items = tuple(sorted(((v, k) for v, k in d.items() if k is not ZERO), key=lambda t: t[0].id))
    if len(items) == 1 and items[0][1] is ONE:
        return items[0][0]
    return mk('lin', items)


def lvadd(a, b, sb=1):
    d = _lv(a)
    for v, k in _lv(b).items():
        k = scale(k, Fraction(sb))
        d[v] = add(d[v], k) if v in d else k
    return lvlin(d)


def lvscale(k, a):
    return lvlin({v: mul(k, c) for v, c in _lv(a).items()})


def lvprod(M, v):
    return mk('lvprod', M, v)


def inner(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk('fn', 'inner', (a, b))


# ---- rebuilding / substitution
def rebuild(n, a):
    op = n.op
    if op == 'sum':
        r = mk('c', a[0])
        for x, c in a[1]:
            r = add(r, scale(x, c))
        return r
    if op == 'prod':
        r = ONE
        for x, e in a[0]:
            r = mul(r, pw(x, e))
        return r
    if op == 'ite':
        return ite_any(*a)
    if op == 'not':
        return bnot(a[0])
    if op == 'and':
        return band(*a[0])
    if op == 'or':
        return bor(*a[0])
    if op == 'pos':
        return pos(a[0])
    if op == 'ipos':
        return pos(a[0], True)
    if op == 'zero':
        return zero(a[0])
    if op == 'sel':
        return select(a[0], a[1])
    if op == 'seqsel':
        return a[0]
    if op == 'astore':
        return astore(*a)
    if op == 'aite':
        return amerge(*a)
    if op == 'lin':
        d = {}
        r = None
        for v, k in a[0]:
            t = lvscale(k, v)
            r = t if r is None else lvadd(r, t)
        return r
    if op == 'fn' and a[0] == 'inner':
        return inner(*a[1])
    if op == 'fn' and a[0] in FOLD:
        return FOLD[a[0]](*a[1])
    if op == 'nsum':
        return nsum(*a)
    if op == 'seq':
        return seq(s for s in a[0] if s[1] is not FALSE)
    return mk(op, *a)


FOLD = {}


def subst(n, m, memo=None):
    """capture-avoiding by construction (binders are globally unique)"""
    if not m:
        return n
    if memo is None:
        memo = {}
    keys = set(m)
    onlybv = all(k in k.bv for k in keys)

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if onlybv and not (x.bv & keys):
            return x
        if x.op in ('c', 'true', 'false') or x.op in BASES:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        a = tuple(got(y) for y in x.a)
        r = x if a == x.a else rebuild(x, a)
        memo[x] = r
        return r

    def got(y):
        if isinstance(y, N):
            return go(y)
        if isinstance(y, tuple):
            return tuple(got(z) for z in y)
        return y
    return go(n)


# ---- folds
def nsum(b, lo, hi, body):
    """sum over b in [lo,hi) of body"""
    if body is ZERO:
        return ZERO
    if body.op == 'sum' and body.a[0] == 0 and len(body.a[1]) == 1 and body.a[1][0][1] != 1:
        return scale(nsum(b, lo, hi, body.a[1][0][0]), body.a[1][0][1])
    return mk('nsum', b, lo, hi, body)


def walk(n, seen=None):
    st = [n]
    seen = set() if seen is None else seen
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        _kids(x.a, st)


def _kids(a, st):
    for y in a:
        if isinstance(y, N):
            st.append(y)
        elif isinstance(y, tuple):
            _kids(y, st)


def show(n, d=0):
    if d > 14:
        return '…'
    s = lambda x: show(x, d + 1)
    op, a = n.op, n.a
    if op == 'c':
        v = a[0]
        return str(v) if v.denominator < 1000 else '%.6g' % float(v)
    if op in ('true', 'false'):
        return op
    if op == 'sym':
        return a[0]
    if op == 'sum':
        out = [] if a[0] == 0 else [show(mk('c', a[0]))]
        for x, c in a[1]:
            t = s(x)
            out.append(t if c == 1 else ('-' + t if c == -1 else '%s*%s' % (show(mk('c', c)), t)))
        return '(' + ' + '.join(out) + ')'
    if op == 'prod':
        return '*'.join(s(x) if e == 1 else '%s^%s' % (s(x), e) for x, e in a[0])
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(map(s, a))
    if op == 'sel':
        return '%s[%s]' % (s(a[0]), ','.join(map(s, a[1])))
    if op == 'abase':
        return a[0]
    if op == 'aver':
        return '%s@%s' % (a[0], a[1])
    if op == 'pos':
        return '%s>0' % s(a[0])
    if op == 'ipos':
        return '%s>0i' % s(a[0])
    if op == 'zero':
        return '%s==0' % s(a[0])
    if op == 'not':
        return '!(%s)' % s(a[0])
    if op in ('and', 'or'):
        return '(' + (' && ' if op == 'and' else ' || ').join(map(s, a[0])) + ')'
    if op == 'fn':
        return '%s(%s)' % (a[0], ', '.join(s(x) if isinstance(x, N) else str(x) for x in a[1]))
    if op == 'nsum':
        return 'SUM[%s=%s..%s](%s)' % (s(a[0]), s(a[1]), s(a[2]), s(a[3]))
    return '%s(%s)' % (op, ', '.join(_sh(x, s) for x in a))


def _sh(x, s):
    if isinstance(x, N):
        return s(x)
    if isinstance(x, tuple):
        return '<' + ', '.join(_sh(y, s) for y in x) + '>'
    return str(x)
