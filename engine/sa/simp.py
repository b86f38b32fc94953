"""Context-sensitive simplification of value-graph terms."""
from . import nodes as nd
from .nodes import *


def rewrite(n, f, memo=None):
    """bottom-up rebuilding; f(node) gives a replacement or None"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, N):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('c', 'true', 'false') or x.op in nd.BASES:
            r = x
        elif x.op == 'aver':
            a = tuple(go(y) for y in x.a[2])
            r = x if a == x.a[2] else mk('aver', x.a[0], x.a[1], a)
        else:
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else nd.rebuild(x, a)
        if isinstance(r, N):
            s = f(r)
            if s is not None:
                r = s
        memo[x] = r
        return r
    return go(n)


def islit(c):
    return c.op in ('pos', 'ipos', 'zero', 'bsym', 'brec', 'exists')


def facts_of(c, truth):
    """literals known when condition c has the given truth value"""
    out = []
    st = [(c, truth)]
    while st:
        x, t = st.pop()
        if x.op == 'not':
            st.append((x.a[0], not t))
        elif x.op == 'and' and t:
            st += [(y, True) for y in x.a[0]]
        elif x.op == 'or' and not t:
            st += [(y, False) for y in x.a[0]]
        elif islit(x):
            out.append((x, t))
            if x.op == 'ipos':
                out.append((bnot(x), not t))
        elif x.op in ('or', 'and'):
            out.append((x, t))
    return out


def ctx(n, facts=(), depth_limit=60):
    """simplify conditionals under the conditions that enclose them"""
    memo = {}

    def known(c, fs):
        t = fs.get(c)
        if t is not None:
            return TRUE if t else FALSE
        if c.op == 'not':
            r = known(c.a[0], fs)
            return None if r is None else bnot(r)
        if c.op == 'zero':
            l = nd._eqlit(c)
            if l is not None:
                for f, t in fs.items():
                    if t and f.op == 'zero':
                        q = nd._eqlit(f)
                        if q is not None and q[0] is l[0] and q[1] != l[1]:
                            return FALSE
        return None

    def rel(x, fs):
        """facts that can matter inside x"""
        if not fs:
            return frozenset()
        ls = lits_in(x)
        out = []
        for f, t in fs.items():
            if f in ls:
                out.append((f, t))
            elif t and f.op == 'zero':
                q = nd._eqlit(f)
                if q is not None and q[0] in terms_in(x):
                    out.append((f, t))
        return frozenset(out)

    lmemo, tmemo = {}, {}

    def lits_in(x):
        r = lmemo.get(x)
        if r is None:
            s = set()
            if islit(x) or x.op in ('or', 'and'):
                s.add(x)
            if x.op == 'not':
                s.add(x.a[0])
            st = []
            nd._kids(x.a, st)
            for y in st:
                s |= lits_in(y)
            lmemo[x] = r = frozenset(s)
        return r

    def terms_in(x):
        r = tmemo.get(x)
        if r is None:
            s = set()
            for l in lits_in(x):
                if l.op == 'zero':
                    q = nd._eqlit(l)
                    if q is not None:
                        s.add(q[0])
            tmemo[x] = r = frozenset(s)
        return r

    def go(x, fs):
        if isinstance(x, tuple):
            return tuple(go(y, fs) for y in x)
        if not isinstance(x, N) or x.op in ('c', 'true', 'false') or x.op in nd.BASES or x.op == 'aver':
            return x
        fs = dict(rel(x, fs)) if fs else fs
        key = (x, frozenset(fs.items()))
        r = memo.get(key)
        if r is not None:
            return r
        r = go1(x, fs)
        memo[key] = r
        return r

    def go1(x, fs):
        if nd.isbool(x):
            k = known(x, fs)
            if k is not None:
                return k
        if x.op == 'ite':
            c = go(x.a[0], fs)
            if c is TRUE:
                return go(x.a[1], fs)
            if c is FALSE:
                return go(x.a[2], fs)
            f1, f2 = dict(fs), dict(fs)
            for f, t in facts_of(c, True):
                f1[f] = t
            for f, t in facts_of(c, False):
                f2[f] = t
            return nd.ite_any(c, go(x.a[1], f1), go(x.a[2], f2))
        if x.op in ('and', 'or'):
            neutral = x.op == 'and'
            cur = dict(fs)
            out = []
            for y in sorted(x.a[0], key=lambda t: (t.op in ('or', 'and'), t.id)):
                z = go(y, cur)
                out.append(z)
                for f, t in facts_of(z, neutral):
                    cur[f] = t
            return band(*out) if neutral else bor(*out)
        a = tuple(go(y, fs) for y in x.a)
        return x if a == x.a else nd.rebuild(x, a)
    return go(n, dict(facts))


def sels(n, pred=None):
    return [x for x in walk(n) if x.op == 'sel' and (pred is None or pred(x))]
