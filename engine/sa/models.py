"""Effects of library functions the analysed source calls (std, boost::multi_array, ublas, ViennaCL).
Each model states what the call does to abstract values; a call without a model havocs what it may write and is
reported as unmodelled, so obligations that depend on it come out undecided instead of wrong."""
from fractions import Fraction
from .nodes import *
from .values import *
from . import nodes as nd

M = {}
CT = {}
PROXY = ('boost::detail::multi_array::sub_array', 'boost::detail::multi_array::const_sub_array', 'viennacl::entry_proxy', 'viennacl::const_entry_proxy',
         'boost::numeric::ublas::sparse_matrix_element', 'std::_Bit_reference')


def model(*names):
    def deco(fn_):
        for n in names:
            M[n] = fn_
        return fn_
    return deco


def ctor(*names):
    def deco(fn_):
        for n in names:
            CT[n] = fn_
        return fn_
    return deco


def dispatch(I, st, f, this, args, e):
    q = f['qn']
    h = M.get(q)
    if h is None and q.startswith('std::__1::'):
        h = M.get('std::' + q[10:])
    if h is None:
        base = q.rsplit('::', 1)[-1]
        r = f.get('rec')
        if r is not None:
            rq = I.ir.rec(r)['qn']
            h = METH.get((rq, base))
            if h is None and rq in VECLIKE:
                h = METH.get(('std::vector', base))
            if h is None and rq in NUMVEC:
                h = METH.get(('numvec', base))
            if h is None and rq in ITERS:
                h = METH.get(('iter', base))
        elif f.get('op') and '::' in q:
            a = [I.ld(x, st) for x in args]
            if any(isinstance(x, (Vec, Mat)) or (isinstance(x, SArr) and x.kind in ('lv', 'mx')) for x in a):
                h = lambda I, st, f, this, args, e: linop(I, st, f['op'], args)
            elif any(isinstance(x, Ptr) for x in a):
                h = lambda I, st, f, this, args, e: I.ptrop(f['op'], I.ld(args[0], st), I.ld(args[1], st), st)
    if h is None and 'boost::numeric::ublas::' in q + ' ':
        h = None
    if h is None:
        ext = I.ext.get(q) if hasattr(I, 'ext') else None
        if ext is not None:
            return ext(I, st, f, this, args, e)
        return unknown(I, st, f, this, args, e)
    return h(I, st, f, this, args, e)


def unknown(I, st, f, this, args, e):
    """no model: havoc everything the callee could write through its parameters"""
    I.note('unmodelled', f['qn'])
    name = f['qn'].split('::')[-1]
    for p, a in zip(f['p'], args):
        ty = I.ir.ty(p['t'])
        if ty['c'] in ('r', 'p') and not I.ir.ty(ty['pt']).get('const'):
            v = I.ld(a, st) if ty['c'] == 'r' else a
            tgt = a
            if isinstance(v, Ptr):
                tgt = v.ref
            if isinstance(tgt, (Ref, RefIte)):
                try:
                    I.write(tgt, I.havoc(I.ld(tgt, st), 'unmodelled.' + name), st)
                except Unsupported:
                    pass
    if this is not None and not f.get('cm') and not f.get('static') and isinstance(this, (Ref, RefIte)):
        try:
            I.write(this, I.havoc(I.ld(this, st), 'unmodelled.' + name), st)
        except Unsupported:
            pass
    rt = f['ret']
    ty = I.ir.ty(rt)
    if ty['c'] == 'void':
        return None
    nd._fresh[0] += 1
    while ty['c'] == 'r':
        rt = ty['pt']
        ty = I.ir.ty(rt)
    v = I.sym_value(rt, 'unmodelled.%s#%d' % (name, nd._fresh[0]))
    return v


def construct(I, st, f, r, args, e):
    q = r['qn']
    h = CT.get(q)
    if h is None and q in VECLIKE:
        h = CT.get('std::vector')
    if h is not None:
        return h(I, st, f, r, args, e)
    vals = [I.ld(a, st) for a in args]
    if len(vals) == 1 and q in ITERS:
        return vals[0]
    if not args:
        return I.default_value(e['t'], r['n'])
    if r.get('repo') and 'f' in r and len(vals) == len(r['f']):
        return Struct(e['rec'], {x['n']: v for x, v in zip(r['f'], vals)})
    if any(x in q for x in ('exception', 'error')) or 'std::exception' in I.bases(q):
        return fn('exception', *[v for v in vals if isinstance(v, N)])
    ext = I.ext.get(q + '::' + r['n']) if hasattr(I, 'ext') else None
    if ext is not None:
        return ext(I, st, f, None, args, e)
    if len(vals) == 1 and isinstance(vals[0], (Vec, Mat)):
        return vals[0]
    I.note('unmodelled', f['qn'])
    return I.sym_value(e['t'], 'unmodelled.%s#%d' % (r['n'], I.nroot))


VECLIKE = {'std::vector', 'std::deque'}
NUMVEC = {'boost::numeric::ublas::c_vector', 'boost::numeric::ublas::bounded_vector', 'boost::numeric::ublas::c_matrix', 'boost::numeric::ublas::vector',
          'viennacl::vector', 'viennacl::vector_base', 'boost::numeric::ublas::compressed_matrix', 'viennacl::compressed_matrix', 'boost::numeric::ublas::matrix',
          'boost::numeric::ublas::mapped_matrix', 'boost::numeric::ublas::zero_vector', 'boost::numeric::ublas::vector_expression', 'boost::numeric::ublas::matrix_expression',
          'boost::numeric::ublas::vector_binary', 'boost::numeric::ublas::vector_binary_scalar1', 'boost::numeric::ublas::vector_binary_scalar2', 'boost::numeric::ublas::vector_unary',
          'boost::numeric::ublas::vector_matrix_binary', 'boost::numeric::ublas::vector_container', 'boost::numeric::ublas::matrix_container'}
ITERS = {'__gnu_cxx::__normal_iterator', 'std::move_iterator', 'std::__wrap_iter', 'std::reverse_iterator', 'std::__bounded_iter'}
METH = {}


def meth(rec, *names):
    def deco(fn_):
        for n in names:
            METH[(rec, n)] = fn_
        return fn_
    return deco


def nodes_of(I, st, args):
    return [I.ld(a, st) for a in args]


# ---------- utility
@model('std::forward', 'std::move', 'std::as_const', 'std::cref', 'std::ref', 'std::addressof', 'std::make_move_iterator', 'std::decay_copy')
def _id(I, st, f, this, args, e):
    if f['qn'] == 'std::move' and len(args) == 3:
        return _copy(I, st, f, this, args, e)
    return args[0]


@model('std::swap')
def _swap(I, st, f, this, args, e):
    a, b = I.ld(args[0], st), I.ld(args[1], st)
    I.write(args[0], b, st)
    I.write(args[1], a, st)


@model('std::exchange')
def _exchange(I, st, f, this, args, e):
    a = I.ld(args[0], st)
    I.write(args[0], I.ld(args[1], st), st)
    return a


@model('std::make_tuple', 'std::make_pair')
def _mktuple(I, st, f, this, args, e):
    return Tup(nodes_of(I, st, args), 'tuple')


@model('std::tie', 'std::forward_as_tuple')
def _tie(I, st, f, this, args, e):
    return Tup([I.toref(a, st) for a in args], 'tuple')


@model('std::tuple_cat')
def _tcat(I, st, f, this, args, e):
    out = []
    for a in args:
        out += I.ld(a, st).i
    return Tup(out, 'tuple')


@model('std::get')
def _get(I, st, f, this, args, e):
    ta = f.get('ta') or []
    a = args[0]
    if ta and 'i' in ta[0]:
        k = C(ta[0]['i'])
    else:
        t = ta[0]['t']
        v = I.ld(a, st)
        # by type: find the unique element type in the tuple's template arguments
        want = I.ir.ty(t)['s']
        names = [I.ir.ty(x['t'])['s'] for x in ta[1:] if 't' in x]
        if names.count(want) != 1:
            raise Unsupported('std::get by type')
        k = C(names.index(want))
    if isinstance(a, (Ref, RefIte)):
        r = a.at(('i', k))
        v = I.nav(I.ld(a, st), (('i', k),))
        if isinstance(v, Ref):
            return v
        return r
    return I.nav(a, (('i', k),))


@ctor('std::tuple', 'std::pair')
def _tupctor(I, st, f, r, args, e):
    ta = r.get('ta') or []
    vals = nodes_of(I, st, args)
    if len(vals) == 1 and isinstance(vals[0], Tup) and len(vals[0].i) == len(ta) and (f.get('copy') or f.get('move') or len(ta) > 1):
        return Tup(vals[0].i, 'tuple')
    if not vals:
        return I.default_value(e['t'], 't')
    if len(vals) == len(ta):
        return Tup(vals, 'tuple')
    raise Unsupported('tuple constructor')


@meth('std::tuple', 'operator=')
@meth('std::pair', 'operator=')
@meth('std::array', 'operator=')
@meth('std::vector', 'operator=')
@meth('numvec', 'operator=', 'assign')
def _assign(I, st, f, this, args, e):
    v = I.ld(args[0], st)
    if isinstance(v, Tup) and v.kind == 'initlist':
        c = I.ld(this, st)
        if isinstance(c, (SeqV, SArr)):
            v = SeqV(c.sch, seq(('one', TRUE, tuple(unbuild(c.sch, x)[p] for p in leaves(c.sch))) for x in v.i), c.name)
    cur = I.ld(this, st)
    if isinstance(cur, Tup) and isinstance(v, Tup) and any(isinstance(x, Ref) for x in cur.i):
        for x, y in zip(cur.i, v.i):
            if isinstance(x, Ref):
                I.write(x, y, st)
        return this
    I.write(this, v, st)
    return this


# ---------- arithmetic
def isint(I, e, k=0):
    try:
        t = I.ir.ty(e['args'][k]['t'])
        while t['c'] == 'r':
            t = I.ir.ty(t['pt'])
        return t['c'] in ('i', 'u', 'b', 'enum')
    except (KeyError, IndexError, TypeError):
        return False


@model('std::abs', 'std::fabs', 'abs', 'fabs', 'labs')
def _abs(I, st, f, this, args, e):
    n = I.num(args[0], st)
    if f['qn'] == 'abs' and e is not None and not isint(I, e):
        n = fn('trunc', n)
    return nabs(n)


@model('std::sqrt', 'sqrt', 'sqrtf')
def _sqrt(I, st, f, this, args, e):
    return sqrt(I.num(args[0], st))


@model('std::pow', 'pow')
def _pow(I, st, f, this, args, e):
    a, b = I.num(args[0], st), I.num(args[1], st)
    if isc(b) and cval(b).denominator in (1, 2):
        return pw(a, cval(b))
    return fn('pow', a, b)


@model('std::hypot', 'hypot')
def _hypot(I, st, f, this, args, e):
    r = ZERO
    for a in args:
        n = I.num(a, st)
        r = add(r, mul(n, n))
    return sqrt(r)


@model('std::fma', 'fma')
def _fma(I, st, f, this, args, e):
    a, b, c = (I.num(x, st) for x in args)
    return add(mul(a, b), c)


def _ceilfloor(name):
    def h(I, st, f, this, args, e):
        n = I.num(args[0], st)
        if isc(n):
            import math
            return C(getattr(math, name)(cval(n)))
        return fn(name, n)
    return h


for _n in ('ceil', 'floor'):
    M['std::' + _n] = M[_n] = _ceilfloor(_n)
for _n in ('round', 'trunc', 'exp', 'log', 'sin', 'cos', 'tan', 'atan2', 'cbrt', 'lround', 'isnan', 'isfinite', 'isinf', 'signbit', 'fmod', 'copysign'):
    def _mk(n):
        def h(I, st, f, this, args, e):
            xs = [I.num(a, st) for a in args]
            if I.tclass(f['ret']) == 'b':
                return mk('zero', fn('not_' + n, *xs))
            return fn(n, *xs)
        return h
    M['std::' + _n] = M[_n] = _mk(_n)


def imax(a, b, it):
    if it:
        if isc(a) and isc(b):
            return nmax(a, b)
        return ite(pos(sub(b, a), True), b, a)
    return nmax(a, b)


def imin(a, b, it):
    if it:
        if isc(a) and isc(b):
            return nmin(a, b)
        return ite(pos(sub(a, b), True), b, a)
    return nmin(a, b)


def _minmax(sel_):
    def h(I, st, f, this, args, e):
        it = e is not None and isint(I, e)
        if len(args) == 1:
            v = I.ld(args[0], st)
            r = v.i[0]
            for x in v.i[1:]:
                r = sel_(r, x, it)
            return r
        if len(args) == 3:
            raise Unsupported('min/max with comparator')
        return sel_(I.num(args[0], st), I.num(args[1], st), it)
    return h


M['std::max'] = M['std::fmax'] = M['fmax'] = _minmax(imax)
M['std::min'] = M['std::fmin'] = M['fmin'] = _minmax(imin)


@model('std::clamp')
def _clamp(I, st, f, this, args, e):
    v, lo, hi = (I.num(a, st) for a in args)
    return ite(pos(sub(lo, v)), lo, ite(pos(sub(v, hi)), hi, v))


@model('std::numeric_limits::epsilon')
def _eps(I, st, f, this, args, e):
    return sym('EPSILON')


@model('std::numeric_limits::max', 'std::numeric_limits::infinity', 'std::numeric_limits::min', 'std::numeric_limits::lowest', 'std::numeric_limits::quiet_NaN')
def _lim(I, st, f, this, args, e):
    return fn('floatconst', f['qn'].split('::')[-1])


# ---------- small vectors and matrices / long vectors
def linop(I, st, op, args):
    a = [I.ld(x, st) for x in args]
    if len(a) == 1:
        if op == '-':
            return lmap1(lambda x: neg(x), a[0], lambda v: lvscale(C(-1), v))
        if op == '+':
            return a[0]
        raise Unsupported('unary linear ' + op)
    x, y = a
    if op in ('+', '-'):
        g = add if op == '+' else sub
        if isinstance(x, Vec) and isinstance(y, Vec) and len(x.c) == len(y.c):
            return Vec(g(p, q) for p, q in zip(x.c, y.c))
        if isinstance(x, Mat) and isinstance(y, Mat):
            return Mat(tuple(g(p, q) for p, q in zip(r, s)) for r, s in zip(x.r, y.r))
        if isinstance(x, SArr) and isinstance(y, SArr) and x.kind == y.kind:
            return x.with_lv({(): lvadd(x.lv[()], y.lv[()], 1 if op == '+' else -1)})
    if op in ('*', '/'):
        if isinstance(y, N) and not isinstance(x, N):
            k = I.num(y, st) if op == '*' else pw(I.num(y, st), -1)
            return lmap1(lambda z: mul(z, k), x, lambda v: lvscale(k, v))
        if op == '*' and isinstance(x, N) and not isinstance(y, N):
            k = I.num(x, st)
            return lmap1(lambda z: mul(z, k), y, lambda v: lvscale(k, v))
        if op == '*' and isinstance(x, SArr) and isinstance(y, SArr):
            return prod_(x, y)
    if op in ('==', '!='):
        if isinstance(x, Vec) and isinstance(y, Vec):
            r = band(*[zero(sub(p, q)) for p, q in zip(x.c, y.c)])
            return r if op == '==' else bnot(r)
    raise Unsupported('linear operator %s on %s, %s' % (op, type(x).__name__, type(y).__name__))


def lmap1(g, v, lv):
    if isinstance(v, Vec):
        return Vec(g(x) for x in v.c)
    if isinstance(v, Mat):
        return Mat(tuple(g(x) for x in r) for r in v.r)
    if isinstance(v, SArr):
        return v.with_lv({(): lv(v.lv[()])})
    raise Unsupported('linear map over ' + type(v).__name__)


def prod_(x, y):
    if isinstance(x, Mat) and isinstance(y, Vec):
        return Vec(nsum_([mul(p, q) for p, q in zip(r, y.c)]) for r in x.r)
    if isinstance(x, Vec) and isinstance(y, Mat):
        return Vec(nsum_([mul(x.c[i], y.r[i][j]) for i in range(len(x.c))]) for j in range(len(y.r[0])))
    if isinstance(x, Mat) and isinstance(y, Mat):
        return Mat(tuple(nsum_([mul(x.r[i][k], y.r[k][j]) for k in range(len(y.r))]) for j in range(len(y.r[0]))) for i in range(len(x.r)))
    if isinstance(x, SArr) and x.kind == 'mx' and isinstance(y, SArr) and y.kind == 'lv':
        return SArr('lv', [x.dims[0]], ('n', None), {(): lvprod(x.lv[()], y.lv[()])}, 'prod')
    raise Unsupported('prod')


def nsum_(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def inner_(x, y):
    if isinstance(x, Vec) and isinstance(y, Vec):
        return nsum_([mul(p, q) for p, q in zip(x.c, y.c)])
    if isinstance(x, SArr) and isinstance(y, SArr):
        return inner(x.lv[()], y.lv[()])
    raise Unsupported('inner_prod')


@model('boost::numeric::ublas::inner_prod', 'viennacl::linalg::inner_prod')
def _inner(I, st, f, this, args, e):
    return inner_(I.ld(args[0], st), I.ld(args[1], st))


@model('boost::numeric::ublas::norm_2', 'viennacl::linalg::norm_2')
def _norm2(I, st, f, this, args, e):
    v = I.ld(args[0], st)
    return sqrt(inner_(v, v))


@model('boost::numeric::ublas::norm_2_square')
def _norm2s(I, st, f, this, args, e):
    v = I.ld(args[0], st)
    return inner_(v, v)


@model('boost::numeric::ublas::prod', 'viennacl::linalg::prod', 'boost::numeric::ublas::prec_prod')
def _prod(I, st, f, this, args, e):
    return prod_(I.ld(args[0], st), I.ld(args[1], st))


@model('boost::numeric::ublas::axpy_prod')
def _axpy(I, st, f, this, args, e):
    r = prod_(I.ld(args[0], st), I.ld(args[1], st))
    init = TRUE if len(args) < 4 else I.boolean(args[3], st)
    if init is not TRUE:
        raise Unsupported('axpy_prod')
    I.write(args[2], r, st)
    return args[2]


@model('boost::numeric::ublas::outer_prod')
def _outer(I, st, f, this, args, e):
    x, y = I.ld(args[0], st), I.ld(args[1], st)
    return Mat(tuple(mul(p, q) for q in y.c) for p in x.c)


@model('boost::numeric::ublas::trans')
def _trans(I, st, f, this, args, e):
    x = I.ld(args[0], st)
    return Mat(zip(*x.r))


@model('boost::numeric::ublas::noalias')
def _noalias(I, st, f, this, args, e):
    return args[0]


for _op in ('+', '-', '*', '/', '==', '!='):
    def _mk(op):
        def h(I, st, f, this, args, e):
            return linop(I, st, op, args)
        return h
    for _ns in ('boost::numeric::ublas::operator', 'viennacl::operator', 'viennacl::linalg::operator'):
        M[_ns + _op] = _mk(_op)


def compound(op):
    def h(I, st, f, this, args, e):
        tgt, src = (this, args[0]) if this is not None else (args[0], args[1])
        v = linop(I, st, op, [I.ld(tgt, st), I.ld(src, st)])
        I.write(tgt, v, st)
        return tgt
    return h


for _op in '+-*/':
    METH[('numvec', 'operator%s=' % _op)] = compound(_op)
    M['viennacl::operator%s=' % _op] = compound(_op)
for _op in '+-*/':
    METH[('numvec', 'operator' + _op)] = (lambda op: lambda I, st, f, this, args, e: linop(I, st, op, ([this] if this is not None else []) + list(args)))(_op)
METH[('numvec', 'plus_assign')] = compound('+')
METH[('numvec', 'minus_assign')] = compound('-')
M['boost::numeric::ublas::noalias_proxy::operator+='] = compound('+')
M['boost::numeric::ublas::noalias_proxy::operator-='] = compound('-')
M['boost::numeric::ublas::noalias_proxy::operator='] = _assign


@meth('numvec', 'operator[]', 'operator()', 'at_element', 'at', 'insert_element')
def _nvidx(I, st, f, this, args, e):
    if f['n'] == 'insert_element':
        idx = [('i', I.num(a, st)) for a in args[:-1]]
        r = this.at(*idx)
        I.write(r, I.ld(args[-1], st), st)
        return r
    r = I.toref(this, st)
    for a in args:
        r = r.at(('i', I.num(a, st)))
    return r


@meth('numvec', 'size')
def _nvsize(I, st, f, this, args, e):
    v = I.ld(this, st)
    if isinstance(v, Vec):
        return C(len(v.c))
    return v.dims[0]


@meth('numvec', 'size1')
def _nvsize1(I, st, f, this, args, e):
    v = I.ld(this, st)
    return C(len(v.r)) if isinstance(v, Mat) else v.dims[0]


@meth('numvec', 'size2')
def _nvsize2(I, st, f, this, args, e):
    v = I.ld(this, st)
    return C(len(v.r[0])) if isinstance(v, Mat) else v.dims[1]


@meth('numvec', 'clear')
def _nvclear(I, st, f, this, args, e):
    v = I.ld(this, st)
    if isinstance(v, Vec):
        v = Vec(ZERO for _ in v.c)
    elif isinstance(v, Mat):
        v = Mat(tuple(ZERO for _ in r) for r in v.r)
    else:
        v = v.with_lv({(): mk('afill', ZERO)})
    I.write(this, v, st)


@meth('numvec', 'resize')
def _nvresize(I, st, f, this, args, e):
    v = I.ld(this, st)
    dims = [I.num(a, st) for a in args[:len(v.dims)]]
    keep = TRUE
    if len(args) > len(v.dims):
        keep = I.boolean(args[len(v.dims)], st)
    lv = v.lv if keep is TRUE else {(): mk('afill', mk('undef', 'resized'))}
    I.write(this, SArr(v.kind, dims, v.sch, lv, v.name), st)


@meth('numvec', 'reserve', 'swap')
def _nvreserve(I, st, f, this, args, e):
    if f['n'] == 'swap':
        return _swap(I, st, f, None, [this, args[0]], e)
    return None


@ctor('boost::numeric::ublas::c_vector', 'boost::numeric::ublas::bounded_vector')
def _cvec(I, st, f, r, args, e):
    vals = nodes_of(I, st, args)
    D = r['ta'][1]['i']
    if not vals or isinstance(vals[0], N):
        if len(vals) == 2:
            return Vec(vals[1] for _ in range(D))
        return I.default_value(e['t'], 'v')
    return vals[-1]


@ctor('boost::numeric::ublas::zero_vector')
def _zvec(I, st, f, r, args, e):
    n = I.num(args[0], st) if args else ZERO
    if isc(n) and cval(n) <= 8:
        return Vec(ZERO for _ in range(int(cval(n))))
    return SArr('lv', [n], ('n', None), {(): mk('afill', ZERO)}, 'zero')


@ctor('boost::numeric::ublas::c_matrix')
def _cmat(I, st, f, r, args, e):
    vals = nodes_of(I, st, args)
    for v in vals:
        if isinstance(v, Mat):
            return v
    return I.default_value(e['t'], 'm')


@ctor('boost::numeric::ublas::vector', 'viennacl::vector')
def _lvec(I, st, f, r, args, e):
    vals = nodes_of(I, st, args)
    if vals and isinstance(vals[0], SArr):
        return vals[0]
    if not vals:
        return SArr('lv', [ZERO], ('n', None), {(): mk('afill', ZERO)}, 'lv')
    fill = ZERO if 'viennacl' in r['qn'] else mk('undef', 'lv')
    if len(vals) > 1 and isinstance(vals[1], N) and vals[1].op not in ('opaque',):
        fill = vals[1]
    return SArr('lv', [I.num(vals[0], st)], ('n', None), {(): mk('afill', fill)}, 'lv')


@ctor('boost::numeric::ublas::scalar_vector')
def _svec(I, st, f, r, args, e):
    vals = nodes_of(I, st, args)
    return SArr('lv', [vals[0]], ('n', None), {(): mk('afill', vals[1] if len(vals) > 1 else ONE)}, 'lv')


@ctor('boost::numeric::ublas::compressed_matrix', 'viennacl::compressed_matrix', 'boost::numeric::ublas::mapped_matrix', 'boost::numeric::ublas::matrix')
def _cmx(I, st, f, r, args, e):
    vals = nodes_of(I, st, args)
    if vals and isinstance(vals[0], SArr):
        return vals[0]
    d = [v for v in vals[:2]] if len(vals) >= 2 else [ZERO, ZERO]
    return SArr('mx', d, ('n', None), {(): mk('afill', ZERO)}, 'mx')


@model('viennacl::copy', 'viennacl::fast_copy', 'viennacl::async_copy')
def _vcopy(I, st, f, this, args, e):
    if len(args) == 2:
        s, d = I.ld(args[0], st), I.ld(args[1], st)
        if isinstance(s, SArr) and isinstance(d, SArr):
            I.write(args[1], SArr(d.kind, s.dims, d.sch, s.lv, d.name), st)
            return None
        if isinstance(s, SArr) and s.kind == 'vector':
            I.write(args[1], SArr(d.kind, s.dims, d.sch, s.lv, d.name), st)
            return None
    raise Unsupported('viennacl::copy')


@model('viennacl::entry_proxy::operator=', 'boost::numeric::ublas::sparse_matrix_element::operator=', 'boost::numeric::ublas::sparse_vector_element::operator=')
def _proxyasg(I, st, f, this, args, e):
    I.write(this, I.num(args[0], st), st)
    return this


def _proxycomp(op):
    def h(I, st, f, this, args, e):
        a, b = I.num(this, st), I.num(args[0], st)
        I.write(this, {'+': add, '-': sub, '*': mul, '/': div}[op](a, b), st)
        return this
    return h


for _op in '+-*/':
    for _q in ('viennacl::entry_proxy', 'boost::numeric::ublas::sparse_matrix_element'):
        M['%s::operator%s=' % (_q, _op)] = _proxycomp(_op)


def _load(I, st, f, this, args, e):
    return I.ld(this, st)


for _q in ('viennacl::entry_proxy::operator double', 'viennacl::const_entry_proxy::operator double', 'viennacl::scalar_expression::operator double', 'viennacl::scalar::operator double',
           'boost::numeric::ublas::sparse_matrix_element::operator const double &', 'boost::numeric::ublas::sparse_matrix_element::operator double'):
    M[_q] = _load
METH[('viennacl::entry_proxy', 'operator double')] = _load


@ctor('viennacl::scalar_expression', 'viennacl::scalar')
def _vscal(I, st, f, r, args, e):
    return I.ld(args[0], st) if args else ZERO


@ctor('viennacl::context')
def _vctx(I, st, f, r, args, e):
    return mk('opaque', 'context')


# ---------- multi_array
@model('boost::detail::multi_array::extent_gen::operator[]')
def _extent(I, st, f, this, args, e):
    v = I.ld(this, st)
    n = I.num(args[0], st)
    return Tup((v.i if isinstance(v, Tup) and v.kind == 'extent' else ()) + (n,), 'extent')


@ctor('boost::multi_array')
def _marray(I, st, f, r, args, e):
    ta = r['ta']
    sch = I.schema(ta[0]['t'])
    nm = I.new_root('marray')
    if not args:
        return SArr('marray', [ZERO] * ta[1]['i'], sch, {p: mk('afill', ZERO) for p in leaves(sch)}, nm)
    v = I.ld(args[0], st)
    if isinstance(v, SArr):
        return v
    if isinstance(v, N) and v.op == 'opaque' and len(args) == 1:
        return SArr('marray', [ZERO] * ta[1]['i'], sch, {p: mk('afill', ZERO) for p in leaves(sch)}, nm)
    if not (isinstance(v, Tup) and v.kind == 'extent'):
        raise Unsupported('multi_array constructor')
    return SArr('marray', v.i, sch, {p: mk('afill', ZERO) for p in leaves(sch)}, nm)


@model('boost::multi_array::resize')
def _maresize(I, st, f, this, args, e):
    v = I.ld(this, st)
    d = I.ld(args[0], st)
    I.write(this, SArr(v.kind, d.i, v.sch, v.lv, v.name), st)
    return this


@model('boost::const_multi_array_ref::shape')
def _mashape(I, st, f, this, args, e):
    v = I.ld(this, st)
    return Ptr(I.temp(st, Tup(v.dims, 'carray'), 'shape'), ZERO)


@model('boost::const_multi_array_ref::num_elements')
def _manum(I, st, f, this, args, e):
    r = ONE
    for d in I.ld(this, st).dims:
        r = mul(r, d)
    return r


@model('boost::const_multi_array_ref::size')
def _masize(I, st, f, this, args, e):
    return I.ld(this, st).dims[0]


@model('boost::multi_array_ref::operator[]', 'boost::const_multi_array_ref::operator[]', 'boost::detail::multi_array::sub_array::operator[]',
       'boost::detail::multi_array::const_sub_array::operator[]')
def _maidx(I, st, f, this, args, e):
    return this.at(('i', I.num(args[0], st)))


@model('boost::multi_array_ref::operator()', 'boost::const_multi_array_ref::operator()')
def _macall(I, st, f, this, args, e):
    v = I.ld(args[0], st)
    if isinstance(v, Tup):
        return this.at(*[('i', x) for x in v.i])
    raise Unsupported('multi_array()')


# ---------- std::array
@meth('std::array', 'operator[]', 'at')
def _arridx(I, st, f, this, args, e):
    i = I.num(args[0], st)
    if isinstance(this, (Ref, RefIte)):
        return this.at(('i', i))
    return I.nav(this, (('i', i),))


@meth('std::array', 'data', 'begin', 'cbegin')
def _arrdata(I, st, f, this, args, e):
    return Ptr(I.toref(this, st), ZERO)


@meth('std::array', 'end', 'cend')
def _arrend(I, st, f, this, args, e):
    r = I.toref(this, st)
    return Ptr(r, C(len(I.ld(r, st).i)))


@meth('std::array', 'size', 'max_size')
def _arrsize(I, st, f, this, args, e):
    return C(len(I.ld(this, st).i))


@meth('std::array', 'fill')
def _arrfill(I, st, f, this, args, e):
    v = I.ld(this, st)
    x = I.ld(args[0], st)
    I.write(this, Tup([x] * len(v.i), v.kind), st)


@meth('std::array', 'front')
def _arrfront(I, st, f, this, args, e):
    return I.toref(this, st).at(('i', ZERO))


@meth('std::array', 'back')
def _arrback(I, st, f, this, args, e):
    r = I.toref(this, st)
    return r.at(('i', C(len(I.ld(r, st).i) - 1)))


@ctor('std::array')
def _arrctor(I, st, f, r, args, e):
    if args:
        return I.ld(args[0], st)
    return I.default_value(e['t'], 'arr')


# ---------- std::vector
def vsize(v):
    if isinstance(v, SArr):
        return v.dims[0]
    if isinstance(v, SeqV):
        n = v.n
        if n.op == 'seq' and all(s[0] == 'one' for s in n.a[0]):
            r = ZERO
            for s in n.a[0]:
                r = add(r, b2n(s[1]))
            return r
        return fn('size', n)
    if isinstance(v, Tup):
        return C(len(v.i))
    if isinstance(v, N):
        return fn('size', v)
    raise Unsupported('size of ' + type(v).__name__)


@meth('std::vector', 'size')
def _vsize(I, st, f, this, args, e):
    return vsize(I.ld(this, st))


@meth('std::vector', 'empty')
def _vempty(I, st, f, this, args, e):
    return zero(vsize(I.ld(this, st)))


@meth('std::vector', 'operator[]', 'at')
def _vidx(I, st, f, this, args, e):
    i = I.num(args[0], st)
    I.access_index(this, i, st) if hasattr(I, 'access_index') else None
    return I.toref(this, st).at(('i', i))


@meth('std::vector', 'begin', 'cbegin', 'data')
def _vbegin(I, st, f, this, args, e):
    return Ptr(I.toref(this, st), ZERO)


@meth('std::vector', 'end', 'cend')
def _vend(I, st, f, this, args, e):
    r = I.toref(this, st)
    return Ptr(r, vsize(I.ld(r, st)))


@meth('std::vector', 'front')
def _vfront(I, st, f, this, args, e):
    return I.toref(this, st).at(('i', ZERO))


@meth('std::vector', 'back')
def _vback(I, st, f, this, args, e):
    r = I.toref(this, st)
    return r.at(('i', sub(vsize(I.ld(r, st)), ONE)))


@meth('std::vector', 'reserve', 'shrink_to_fit')
def _vreserve(I, st, f, this, args, e):
    I.log('w', this.root, this.s + (('f', '#capacity'),), st) if isinstance(this, Ref) and I.parstack else None
    return None


@meth('std::vector', 'capacity')
def _vcap(I, st, f, this, args, e):
    return fn('capacity', C(I.nroot))


@meth('std::vector', 'clear')
def _vclear(I, st, f, this, args, e):
    v = I.ld(this, st)
    I.write(this, SeqV(v.sch, SEQ0, v.name), st)


def fillval(I, sch, x=None):
    if x is not None:
        return unbuild(sch, x)
    return {p: (SEQ0 if sch[0] == 'seq' else ZERO) for p in leaves(sch)}


@meth('std::vector', 'resize', 'assign')
def _vresize(I, st, f, this, args, e):
    v = I.ld(this, st)
    first = I.ld(args[0], st)
    if isinstance(first, Ptr):
        raise Unsupported('vector::assign from range')
    n = I.num(first, st)
    fl = {p: mk('afill', x) for p, x in fillval(I, v.sch, I.ld(args[1], st) if len(args) > 1 else None).items()}
    if isinstance(v, SeqV) and v.n is not SEQ0:
        v = as_sarr(I, v)
    if isinstance(v, SeqV) or f['n'] == 'assign':
        nv = SArr('vector', [n], v.sch, fl, v.name)
    elif v.dims[0] is n:
        return None
    else:
        nv = SArr('vector', [n], v.sch, {p: mk('aconcat', v.lv[p], v.dims[0], fl[p]) for p in fl}, v.name)
    I.write(this, nv, st)


def as_sarr(I, v):
    n = vsize(v)
    return SArr('vector', [n], v.sch, {p: mk('aseq', v.n, p) for p in leaves(v.sch)}, v.name)


def to_seq(v):
    if isinstance(v, SeqV):
        return v
    return SeqV(v.sch, seq((('comp', TRUE, (), ()),)) if False else mk('seqof', v.dims[0], tuple(v.lv[p] for p in leaves(v.sch))), v.name)


@meth('std::vector', 'emplace')
def _vinsert1(I, st, f, this, args, e):
    v = I.ld(this, st)
    at = I.ld(args[0], st)
    if isinstance(v, SArr) and v.dims[0] is ZERO:
        v = SeqV(v.sch, SEQ0, v.name)
    if not isinstance(v, SeqV) or not isinstance(at, Ptr) or len(args) != 2 or not (at.idx is ZERO or at.idx is vsize(v)):
        raise Unsupported('vector::insert of one element')
    if at.idx is vsize(v):
        _vpush(I, st, f, this, args[1:], e)
        return at
    r = I.temp(st, SeqV(v.sch, SEQ0, v.name))
    _vpush(I, st, f, r, args[1:], e)
    new = I.ld(r, st).n.a[0]
    I.write(this, SeqV(v.sch, seq(new + (v.n.a[0] if v.n.op == 'seq' else (('all', TRUE, v.n),))), v.name), st)
    return Ptr(this, ZERO)


@meth('std::vector', 'emplace_back', 'push_back')
def _vpush(I, st, f, this, args, e):
    v = I.ld(this, st)
    vals = nodes_of(I, st, args)
    if isinstance(v, SArr) and v.dims[0] is ZERO:
        v = SeqV(v.sch, SEQ0, v.name)
    sch = v.sch
    if len(vals) == 1 and not (sch[0] == 'tup' and not isinstance(vals[0], Tup)):
        x = vals[0]
    elif sch[0] == 'tup':
        x = Tup(vals, 'tuple')
    elif sch[0] == 'st':
        # construct through the record's constructor
        x = construct_rec(I, st, sch[1], args)
    elif sch[0] == 'seq' and not vals:
        x = SeqV(sch[1], SEQ0)
    else:
        raise Unsupported('emplace_back')
    d = unbuild(sch, x)
    d = {p: (b2n(y) if isbool(y) and sch[0] != 'b' and not (sch[0] == 'st') else y) for p, y in d.items()}
    elem = tuple(d[p] for p in leaves(sch))
    if isinstance(v, SeqV):
        I.write(this, SeqV(sch, seq_append(v.n, TRUE, elem), v.name), st)
        return this.at(('i', sub(vsize(I.ld(this, st)), ONE))) if isinstance(this, Ref) else None
    n = v.dims[0]
    I.write(this, SArr(v.kind, [add(n, ONE)], sch, {p: astore(v.lv[p], (n,), y) for p, y in d.items()}, v.name), st)
    return this.at(('i', n))


def construct_rec(I, st, rec, args):
    for i, g in I.ir.functions.items():
        if g.get('rec') == rec and g['kind'] == 'ctor' and 'body' in g and len(g['p']) == len(args) and not g.get('copy') and not g.get('move'):
            r = I.ir.rec(rec)
            ref = I.temp(st, Struct(rec, {x['n']: I.default_value(x['t'], x['n']) for x in r['f']}), 'elem')
            I.inline(int(i), g, ref, args, st)
            return I.ld(ref, st)
    raise Unsupported('construct element')


@meth('std::vector', 'pop_back')
def _vpop(I, st, f, this, args, e):
    v = I.ld(this, st)
    if isinstance(v, SArr):
        I.write(this, SArr(v.kind, [sub(v.dims[0], ONE)], v.sch, v.lv, v.name), st)
        return
    raise Unsupported('pop_back')


@meth('std::vector', 'insert')
def _vinsert(I, st, f, this, args, e):
    if len(args) == 2:
        return _vinsert1(I, st, f, this, args, e)
    v = I.ld(this, st)
    pos_, b, e_ = (nodes_of(I, st, args) + [None])[:3]
    if isinstance(pos_, Ptr) and isinstance(b, Ptr) and isinstance(e_, Ptr) and b.ref == e_.ref:
        src = I.ld(b.ref, st)
        if isinstance(v, SeqV) and v.n is SEQ0:
            v = SArr('vector', [ZERO], v.sch, {p: mk('afill', ZERO) for p in leaves(v.sch)}, v.name)
        if isinstance(src, SArr) and isinstance(v, SArr) and pos_.idx is v.dims[0] and b.idx is ZERO:
            n = v.dims[0]
            lv = {p: mk('aconcat', v.lv[p], n, src.lv[p]) for p in v.lv}
            I.write(this, SArr('vector', [add(n, e_.idx)], v.sch, lv, v.name), st)
            return Ptr(this, n)
        if isinstance(src, SArr) and isinstance(v, SArr) and pos_.idx is ZERO and b.idx is ZERO:
            lv = {p: mk('aconcat', src.lv[p], e_.idx, v.lv[p]) for p in v.lv}
            I.write(this, SArr('vector', [add(v.dims[0], e_.idx)], v.sch, lv, v.name), st)
            return Ptr(this, ZERO)
    raise Unsupported('vector::insert')


@meth('std::vector', 'swap')
def _vswap(I, st, f, this, args, e):
    return _swap(I, st, f, None, [this, args[0]], e)


@ctor('std::vector')
def _vctor(I, st, f, r, args, e):
    sch = I.schema(r['ta'][0]['t'])
    vals = nodes_of(I, st, args)
    vals = [v for v in vals if not (isinstance(v, N) and v.op == 'opaque')]
    nm = I.new_root('vec')
    if not vals:
        return SeqV(sch, SEQ0, nm)
    if isinstance(vals[0], (SArr, SeqV)):
        return vals[0]
    if isinstance(vals[0], Tup):
        return SeqV(sch, seq(('one', TRUE, tuple(unbuild(sch, x)[p] for p in leaves(sch))) for x in vals[0].i), nm)
    if isinstance(vals[0], N):
        fl = fillval(I, sch, vals[1] if len(vals) > 1 else None)
        return SArr('vector', [I.num(vals[0], st)], sch, {p: mk('afill', x) for p, x in fl.items()}, nm)
    if isinstance(vals[0], Ptr) and isinstance(vals[1], Ptr):
        src = I.ld(vals[0].ref, st)
        if isinstance(src, (SArr, SeqV)) and vals[0].idx is ZERO and vals[1].idx is vsize(src):
            return src
    raise Unsupported('vector constructor')


# ---------- iterators
@meth('iter', 'operator*')
def _itderef(I, st, f, this, args, e):
    return I.deref(I.ld(this, st), st)


@meth('iter', 'operator->', 'base')
def _itarrow(I, st, f, this, args, e):
    p = I.ld(this, st)
    return p if f['n'] == 'base' else Ptr(I.deref(p, st))


@meth('iter', 'operator[]')
def _itidx(I, st, f, this, args, e):
    p = I.ld(this, st)
    return p.ref.at(('i', add(p.idx, I.num(args[0], st))))


@meth('iter', 'operator++', 'operator--')
def _itinc(I, st, f, this, args, e):
    return I.incdec(this, 1 if '++' in f['n'] else -1, bool(args), st)


@meth('iter', 'operator+', 'operator-')
def _itadd(I, st, f, this, args, e):
    return I.ptrop(f['op'], I.ld(this, st), I.ld(args[0], st), st)


@meth('iter', 'operator+=', 'operator-=')
def _itaddeq(I, st, f, this, args, e):
    v = I.ptrop(f['op'][0], I.ld(this, st), I.ld(args[0], st), st)
    I.write(this, v, st)
    return this


@model('std::begin', 'std::cbegin')
def _begin(I, st, f, this, args, e):
    return Ptr(I.toref(args[0], st), ZERO)


@model('std::end', 'std::cend')
def _end(I, st, f, this, args, e):
    r = I.toref(args[0], st)
    return Ptr(r, vsize(I.ld(r, st)))


@model('std::size')
def _size(I, st, f, this, args, e):
    return vsize(I.ld(args[0], st))


@model('std::distance')
def _distance(I, st, f, this, args, e):
    return I.ptrop('-', I.ld(args[1], st), I.ld(args[0], st), st)


@model('std::next')
def _next(I, st, f, this, args, e):
    return I.ptrop('+', I.ld(args[0], st), I.num(args[1], st) if len(args) > 1 else ONE, st)


@model('std::prev')
def _prev(I, st, f, this, args, e):
    return I.ptrop('-', I.ld(args[0], st), I.num(args[1], st) if len(args) > 1 else ONE, st)


@model('std::advance')
def _advance(I, st, f, this, args, e):
    I.write(args[0], I.ptrop('+', I.ld(args[0], st), I.num(args[1], st), st), st)


# ---------- algorithms
def rangeloop(I, st, b, e_, body, e):
    """for k in [b.idx, e_.idx): body(x, elementref)"""
    if not (isinstance(b, Ptr) and isinstance(e_, Ptr) and b.ref == e_.ref) or b.rev == 'flat':
        raise Unsupported('algorithm range')
    cr = Ref(I.new_root('it'))
    st.mem[cr.root] = b.idx
    from .interp import Out

    def step(x):
        return cmp('<', I.ld(cr, x), e_.idx, True)

    def bd(x):
        body(x, b.ref.at(('i', I.ld(cr, x))))
        I.write(cr, add(I.ld(cr, x), ONE), x)
        return Out(x)
    o = I.loop(st, step, bd, e.get('l') if e else None, None)
    if o.n is None:
        from .interp import Dead
        raise Dead()
    st.become(o.n)


@model('std::find_if', 'std::find_if_not', 'std::find')
def _findif(I, st, f, this, args, e):
    b, e_ = I.ld(args[0], st), I.ld(args[1], st)
    fv = I.ld(args[2], st)
    if not (isinstance(b, Ptr) and isinstance(e_, Ptr) and b.ref == e_.ref) or b.rev == 'flat':
        raise Unsupported('algorithm range')
    cr = Ref(I.new_root('it'))
    st.mem[cr.root] = b.idx
    from .interp import Out

    def cond(x):
        k = I.ld(cr, x)
        r = b.ref.at(('i', k))
        c = cmp('<', k, e_.idx, True)
        if c is FALSE:
            return c
        if f['n'] == 'find':
            v = I.ld(r, x)
            if not (isinstance(v, N) and isinstance(fv, N)):
                raise Unsupported('find')
            h = same_scalar(v, fv)
        else:
            h = I.boolean(I.callv(fv, [r], x), x)
        return band(c, h if f['n'] == 'find_if_not' else bnot(h))

    def bd(x):
        I.write(cr, add(I.ld(cr, x), ONE), x)
        return Out(x)
    o = I.loop(st, cond, bd, e.get('l') if e else None, None)
    if o.n is None:
        from .interp import Dead
        raise Dead()
    st.become(o.n)
    return Ptr(b.ref, I.ld(cr, st))


def same_scalar(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b))) if isbool(a) else zero(sub(a, b))


@model('std::for_each')
def _foreach(I, st, f, this, args, e):
    b, e_ = I.ld(args[0], st), I.ld(args[1], st)
    fv = I.ld(args[2], st)
    rangeloop(I, st, b, e_, lambda x, r: I.callv(fv, [r], x), e)
    return fv


@model('std::accumulate')
def _accumulate(I, st, f, this, args, e):
    b, e_ = I.ld(args[0], st), I.ld(args[1], st)
    acc = I.temp(st, I.ld(args[2], st), 'acc')
    fv = I.ld(args[3], st) if len(args) > 3 else None

    def body(x, r):
        v = I.callv(fv, [I.temp(x, I.ld(acc, x)), r], x) if fv is not None else None
        if fv is None:
            a, c = I.ld(acc, x), I.ld(r, x)
            v = linop(I, x, '+', [a, c]) if isinstance(a, (Vec, Mat)) else add(I.num(a, x), I.num(c, x))
        I.write(acc, I.ld(v, x), x)
    rangeloop(I, st, b, e_, body, e)
    return I.ld(acc, st)


@model('std::transform')
def _transform(I, st, f, this, args, e):
    b, e_, o = (I.ld(a, st) for a in args[:3])
    fv = I.ld(args[-1], st)
    if len(args) == 5:
        o = I.ld(args[3], st)
        b2 = I.ld(args[2], st)

    def body(x, r):
        k = sub(r.s[-1][1], b.idx)
        a = [r] + ([b2.ref.at(('i', add(b2.idx, k)))] if len(args) == 5 else [])
        v = I.ld(I.callv(fv, a, x), x)
        if isinstance(v, N) and isbool(v):
            v = b2n(v)
        put(I, x, o, k, v, e)
    rangeloop(I, st, b, e_, body, e)
    return o if o.rev == 'back' else Ptr(o.ref, add(o.idx, sub(e_.idx, b.idx)))


def put(I, st, o, k, v, e):
    """write the k-th element of an output range"""
    if o.rev == 'back':
        _vpush(I, st, None, o.ref, [v], e)
    elif o.rev:
        raise Unsupported('output iterator')
    else:
        I.write(o.ref.at(('i', add(o.idx, k))), v, st)


@model('std::back_inserter')
def _backins(I, st, f, this, args, e):
    return Ptr(I.toref(args[0], st), None, 'back')


@model('boost::multi_array_ref::data', 'boost::const_multi_array_ref::data')
def _madata(I, st, f, this, args, e):
    return Ptr(I.toref(this, st), ZERO, 'flat')


@model('std::fill', 'std::fill_n')
def _fill(I, st, f, this, args, e):
    b, e_ = I.ld(args[0], st), I.ld(args[1], st)
    v = I.ld(args[2], st)
    c = I.ld(b.ref, st)
    if f['n'] == 'fill_n':
        e_ = Ptr(b.ref, add(b.idx, I.num(e_, st)), b.rev)
    if b.rev == 'flat':
        n = ONE
        for d in c.dims:
            n = mul(n, d)
        if b.idx is not ZERO or e_.idx is not n:
            raise Unsupported('part of a multi_array')
        I.write(b.ref, c.with_lv({p: mk('afill', x) for p, x in unbuild(c.sch, v).items()}), st)
        return
    if isinstance(c, SArr) and b.idx is ZERO and e_.idx is c.dims[0]:
        I.write(b.ref, c.with_lv({p: mk('afill', x) for p, x in unbuild(c.sch, v).items()}), st)
        return
    rangeloop(I, st, b, e_, lambda x, r: I.write(r, v, x), e)


@model('std::copy')
def _copy(I, st, f, this, args, e):
    b, e_, o = (I.ld(a, st) for a in args[:3])
    rangeloop(I, st, b, e_, lambda x, r: put(I, x, o, sub(r.s[-1][1], b.idx), I.ld(r, x), e), e)
    return o if o.rev == 'back' else Ptr(o.ref, add(o.idx, sub(e_.idx, b.idx)))


@model('std::any_of', 'std::all_of', 'std::none_of', 'std::count_if')
def _anyof(I, st, f, this, args, e):
    b, e_ = I.ld(args[0], st), I.ld(args[1], st)
    fv = I.ld(args[2], st)
    acc = I.temp(st, ZERO if f['n'] == 'count_if' else B(f['n'] != 'any_of'), 'acc')

    def body(x, r):
        v = I.boolean(I.callv(fv, [r], x), x)
        a = I.ld(acc, x)
        I.write(acc, add(a, b2n(v)) if f['n'] == 'count_if' else bor(a, v) if f['n'] == 'any_of' else band(a, v if f['n'] == 'all_of' else bnot(v)), x)
    rangeloop(I, st, b, e_, body, e)
    return I.ld(acc, st)


def _extreme(kind):
    def h(I, st, f, this, args, e):
        b, e_ = I.ld(args[0], st), I.ld(args[1], st)
        if not (isinstance(b, Ptr) and isinstance(e_, Ptr) and b.ref == e_.ref):
            raise Unsupported(kind)
        k1, k2 = fresh2('k'), fresh2('k')
        s = st.clone()
        r1, r2 = b.ref.at(('i', k1)), b.ref.at(('i', k2))
        if len(args) > 2:
            c = I.boolean(I.callv(I.ld(args[2], st), [r1, r2], s), s)
        else:
            c = pos(sub(I.num(r2, s), I.num(r1, s)))
        key = None
        if c.op in ('pos', 'ipos'):
            k, m = nd._lin(c.a[0])
            a2 = {n: co for n, co in m.items() if k2 in n.bv}
            a1 = {n: co for n, co in m.items() if k1 in n.bv}
            if k == 0 and not (set(a1) & set(a2)) and len(a1) + len(a2) == len(m):
                x2 = nd._mksum(Fraction(0), a2)
                x1 = nd._mksum(Fraction(0), a1)
                if subst(neg(x1), {k1: k2}) is x2:
                    key = (k2, x2)
        if key is None:
            raise Unsupported('comparator is not an ordering by a key')
        LOOPRANGE[k2] = (b.idx, e_.idx)
        return Ptr(b.ref, mk(kind, k2, b.idx, e_.idx, key[1]))
    return h


def fresh2(name):
    nd._fresh[0] += 1
    return mk('sym', '%s#%d' % (name, nd._fresh[0]), 'bound')


M['std::max_element'] = _extreme('argmax')
M['std::min_element'] = _extreme('argmin')


# ---------- misc
@ctor('std::allocator', 'std::locale', 'std::hash', 'std::equal_to', 'std::less')
def _nothing(I, st, f, r, args, e):
    return mk('opaque', r['qn'])


@ctor('std::basic_string')
def _string(I, st, f, r, args, e):
    vals = nodes_of(I, st, args)
    for v in vals:
        if isinstance(v, N) and v.op != 'opaque':
            return v
        if isinstance(v, Ptr):
            x = I.ld(v.ref, st)
            if isinstance(x, N):
                return x
    return mk('str', '')


@model('omp_get_thread_num', 'omp_get_max_threads', 'omp_get_num_threads')
def _omp(I, st, f, this, args, e):
    return fn(f['qn'])
