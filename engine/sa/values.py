"""Structured abstract values held in the abstract memory."""
from .nodes import *


class V:
    __slots__ = ()


class Vec(V):
    """fixed-size numeric vector (ublas c_vector and vector expressions over it)"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = tuple(c)


class Mat(V):
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = tuple(tuple(x) for x in r)


class Struct(V):
    __slots__ = ('rec', 'f')

    def __init__(self, rec, f):
        self.rec, self.f = rec, f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.rec, d)


class Tup(V):
    """std::tuple, std::pair, std::array, C arrays, initializer lists of known size"""
    __slots__ = ('i', 'kind')

    def __init__(self, i, kind='tuple'):
        self.i, self.kind = tuple(i), kind


class SArr(V):
    """array of symbolic extent(s); one array node per scalar leaf of the element type"""
    __slots__ = ('kind', 'dims', 'sch', 'lv', 'name')

    def __init__(self, kind, dims, sch, lv, name=''):
        self.kind, self.dims, self.sch, self.lv, self.name = kind, tuple(dims), sch, lv, name

    def with_lv(self, lv):
        return SArr(self.kind, self.dims, self.sch, lv, self.name)


class SeqV(V):
    __slots__ = ('sch', 'n', 'name')

    def __init__(self, sch, n, name=''):
        self.sch, self.n, self.name = sch, n, name


class Ref(V):
    __slots__ = ('root', 's')

    def __init__(self, root, s=()):
        self.root, self.s = root, tuple(s)

    def at(self, *st):
        return Ref(self.root, self.s + st)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.root == self.root and o.s == self.s

    def __hash__(self):
        return hash((self.root, self.s))

    def __repr__(self):
        return 'Ref(%s%s)' % (self.root, ''.join('.%s' % x[1] if x[0] == 'f' else '[%s]' % (x[1],) for x in self.s))


class RefIte(V):
    __slots__ = ('c', 'x', 'y')

    def __init__(self, c, x, y):
        self.c, self.x, self.y = c, x, y

    def at(self, *st):
        return RefIte(self.c, self.x.at(*st), self.y.at(*st))


class Ptr(V):
    """pointer or iterator: element `idx` of the container at `ref` (idx None: the object itself)"""
    __slots__ = ('ref', 'idx', 'rev')

    def __init__(self, ref, idx=None, rev=False):
        self.ref, self.idx, self.rev = ref, idx, rev


class Null(V):
    __slots__ = ()


class Lam(V):
    __slots__ = ('rec', 'fid', 'caps', 'this')

    def __init__(self, rec, fid, caps, this):
        self.rec, self.fid, self.caps, self.this = rec, fid, caps, this


class Fn(V):
    __slots__ = ('fid',)

    def __init__(self, fid):
        self.fid = fid


class Unsupported(Exception):
    pass


# ---- element schemas
# ('n', enumvals|None) ('b',) ('vec',D) ('st',rec,((f,sch),...)) ('tup',(sch,...)) ('seq',sch) ('o',)
def leaves(s):
    k = s[0]
    if k == 'vec':
        return [(i,) for i in range(s[1])]
    if k == 'st':
        return [(f,) + p for f, q in s[2] for p in leaves(q)]
    if k == 'tup':
        return [(i,) + p for i, q in enumerate(s[1]) for p in leaves(q)]
    return [()]


def build(s, get, pre=()):
    """value of schema s from leaf nodes"""
    k = s[0]
    if k == 'vec':
        return Vec(get(pre + (i,)) for i in range(s[1]))
    if k == 'st':
        return Struct(s[1], {f: build(q, get, pre + (f,)) for f, q in s[2]})
    if k == 'tup':
        return Tup((build(q, get, pre + (i,)) for i, q in enumerate(s[1])), 'tuple')
    if k == 'seq':
        return SeqV(s[1], get(pre))
    return get(pre)


def unbuild(s, v, pre=()):
    """leaf nodes of a value"""
    k = s[0]
    if k == 'vec':
        if isinstance(v, Vec):
            return {pre + (i,): x for i, x in enumerate(v.c)}
    elif k == 'st':
        if isinstance(v, Struct):
            d = {}
            for f, q in s[2]:
                d.update(unbuild(q, v.f[f], pre + (f,)))
            return d
    elif k == 'tup':
        if isinstance(v, Tup):
            d = {}
            for i, q in enumerate(s[1]):
                d.update(unbuild(q, v.i[i], pre + (i,)))
            return d
    elif k == 'seq':
        if isinstance(v, SeqV):
            return {pre: v.n}
        if isinstance(v, Tup) and not v.i:
            return {pre: SEQ0}
    elif isinstance(v, N):
        return {pre: v}
    raise Unsupported('value %s does not fit element type %s' % (type(v).__name__, s[0]))


def subsch(s, steps):
    for k, x in steps:
        if s[0] == 'st':
            s = dict(s[2])[x]
        elif s[0] == 'tup':
            s = s[1][int(cval(x)) if isinstance(x, N) else x]
        elif s[0] == 'vec':
            s = ('n', None)
        elif s[0] == 'seq':
            raise Unsupported('path into a nested sequence')
    return s


def flatten(v, pre=()):
    """leaf nodes of any value as {path: node}; non-node parts are returned unchanged as leaves"""
    if isinstance(v, N) or isinstance(v, (Ref, RefIte, Null, Fn)) or v is None:
        return {pre: v}
    d = {}
    if isinstance(v, Vec):
        for i, x in enumerate(v.c):
            d[pre + (i,)] = x
    elif isinstance(v, Mat):
        for i, r in enumerate(v.r):
            for j, x in enumerate(r):
                d[pre + (i, j)] = x
    elif isinstance(v, Struct):
        for f, x in v.f.items():
            d.update(flatten(x, pre + (f,)))
    elif isinstance(v, Tup):
        for i, x in enumerate(v.i):
            d.update(flatten(x, pre + (i,)))
    elif isinstance(v, SArr):
        for i, x in enumerate(v.dims):
            d[pre + ('#%d' % i,)] = x
        for p, x in v.lv.items():
            d[pre + ('[]',) + p] = x
    elif isinstance(v, SeqV):
        d[pre] = v.n
    elif isinstance(v, Ptr):
        d[pre + ('ref',)] = v.ref
        d[pre + ('idx',)] = v.idx
    elif isinstance(v, Lam):
        for k, x in v.caps.items():
            d.update(flatten(x, pre + (k,)))
    else:
        raise Unsupported('flatten ' + type(v).__name__)
    return d


def mapleaves(v, f, pre=()):
    """rebuild a value with f(path, leaf)"""
    if isinstance(v, N) or isinstance(v, (Ref, RefIte, Null, Fn)) or v is None:
        return f(pre, v)
    if isinstance(v, Vec):
        return Vec(f(pre + (i,), x) for i, x in enumerate(v.c))
    if isinstance(v, Mat):
        return Mat(tuple(f(pre + (i, j), x) for j, x in enumerate(r)) for i, r in enumerate(v.r))
    if isinstance(v, Struct):
        return Struct(v.rec, {k: mapleaves(x, f, pre + (k,)) for k, x in v.f.items()})
    if isinstance(v, Tup):
        if v.kind == 'map':
            # the keys of a map do not change in place
            return Tup((Tup((x.i[0], mapleaves(x.i[1], f, pre + (i, 1))), x.kind) for i, x in enumerate(v.i)), v.kind)
        return Tup((mapleaves(x, f, pre + (i,)) for i, x in enumerate(v.i)), v.kind)
    if isinstance(v, SArr):
        return SArr(v.kind, (f(pre + ('#%d' % i,), x) for i, x in enumerate(v.dims)), v.sch,
                    {p: f(pre + ('[]',) + p, x) for p, x in v.lv.items()}, v.name)
    if isinstance(v, SeqV):
        return SeqV(v.sch, f(pre, v.n), v.name)
    if isinstance(v, Ptr):
        return Ptr(f(pre + ('ref',), v.ref), f(pre + ('idx',), v.idx), v.rev)
    if isinstance(v, Lam):
        return Lam(v.rec, v.fid, {k: mapleaves(x, f, pre + (k,)) for k, x in v.caps.items()}, v.this)
    raise Unsupported('mapleaves ' + type(v).__name__)


def merge(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, N) and isinstance(b, N):
        return ite_any(c, a, b)
    if a is None or b is None:
        return a if b is None else b
    if isinstance(a, Ref) or isinstance(a, RefIte):
        if a == b:
            return a
        if isinstance(b, (Ref, RefIte)):
            return RefIte(c, a, b)
    if isinstance(a, Vec) and isinstance(b, Vec) and len(a.c) == len(b.c):
        return Vec(ite(c, x, y) for x, y in zip(a.c, b.c))
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(tuple(ite(c, x, y) for x, y in zip(p, q)) for p, q in zip(a.r, b.r))
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.rec != b.rec:
            raise Unsupported('merge of different records')
        return Struct(a.rec, {k: merge(c, x, b.f[k]) if k in b.f else x for k, x in a.f.items()})
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.i) == len(b.i):
        return Tup((merge(c, x, y) for x, y in zip(a.i, b.i)), a.kind)
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        return SeqV(a.sch, seq_merge(c, a.n, b.n), a.name)
    if isinstance(a, SeqV) and isinstance(b, SArr) and len(b.dims) == 1 and a.n is SEQ0:
        return SArr(b.kind, (ite(c, ZERO, b.dims[0]),), b.sch, b.lv, b.name)
    if isinstance(b, SeqV) and isinstance(a, SArr) and len(a.dims) == 1 and b.n is SEQ0:
        return SArr(a.kind, (ite(c, a.dims[0], ZERO),), a.sch, a.lv, a.name)
    if isinstance(a, SArr) and isinstance(b, SArr) and len(a.dims) == len(b.dims):
        return SArr(a.kind, (ite(c, x, y) for x, y in zip(a.dims, b.dims)), a.sch,
                    {p: ite_any(c, x, b.lv[p]) for p, x in a.lv.items()}, a.name)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.ref == b.ref:
        if a.idx is b.idx:
            return a
        if a.idx is not None and b.idx is not None:
            return Ptr(a.ref, ite(c, a.idx, b.idx), a.rev)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.idx is None and b.idx is None:
        return Ptr(merge(c, a.ref, b.ref))
    if isinstance(a, Fn) and isinstance(b, Fn) and a.fid == b.fid:
        return a
    if isinstance(a, Lam) and isinstance(b, Lam) and a.rec == b.rec:
        return Lam(a.rec, a.fid, {k: merge(c, x, b.caps[k]) for k, x in a.caps.items()}, a.this)
    if isinstance(a, Null) and isinstance(b, Null):
        return a
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
