"""Interprocedural value-flow analysis: abstract interpretation of the exported program over the value graph.
No path is enumerated and nothing is executed: branches are merged into gated values, loops are summarised."""
import sys
from .nodes import *
from .values import *
from . import nodes as nd
from .ir import IR
sys.setrecursionlimit(20000)


class Dead(Exception):
    pass


class Partial(Unsupported):
    """a reference to a row of a multi-dimensional array: has no value of its own"""


class St:
    __slots__ = ('mem', 'ev', 'pc')

    def __init__(self, mem, ev, pc):
        self.mem, self.ev, self.pc = mem, ev, pc

    def clone(self, c=None):
        return St(dict(self.mem), self.ev, self.pc if c is None else band(self.pc, c))

    def become(self, o):
        self.mem, self.ev, self.pc = o.mem, o.ev, o.pc


def lits(pc):
    return set(pc.a[0]) if pc.op == 'and' else (set() if pc is TRUE else {pc})


def merge_ev(c, a, b):
    if a == b:
        return a
    k = 0
    while k < len(a) and k < len(b) and (a[k] is b[k] or a[k] == b[k]):
        k += 1
    return a[:k] + (('if', c, a[k:], b[k:]),)


def merge_st(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    mem = {}
    for k, v in a.mem.items():
        w = b.mem.get(k, v)
        if v is w:
            mem[k] = v
        else:
            try:
                mem[k] = merge(c, v, w)
            except Unsupported as e:
                mem[k] = mk('opaque', 'merge:%s' % e, c)
    for k, v in b.mem.items():
        if k not in mem:
            mem[k] = v
    return St(mem, merge_ev(c, a.ev, b.ev), bor(a.pc, b.pc))


class Out:
    __slots__ = ('n', 'brk', 'cont', 'ret')

    def __init__(self, n=None):
        self.n, self.brk, self.cont, self.ret = n, [], [], []

    def take(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret


class Frame:
    def __init__(self, fid, f, this):
        self.fid, self.f, self.this, self.env = fid, f, this, {}


class Loop:
    """everything known about one summarised loop"""
    def __init__(self):
        self.par = None
        self.early = False
        self.rec = {}

    def __repr__(self):
        return 'Loop(%s par=%s)' % (self.loc, bool(self.par))


class Throw:
    def __init__(self, pc, ty, val, mem, ev, loc):
        self.pc, self.ty, self.val, self.mem, self.ev, self.loc = pc, ty, val, mem, ev, loc


def prune(ev, pc):
    """without the branches a state with this path condition cannot have come through"""
    out = ()
    for x in ev:
        if x[0] == 'if':
            out += prune(x[2], pc) if band(pc, bnot(x[1])) is FALSE else prune(x[3], pc) if band(pc, x[1]) is FALSE else (x,)
        else:
            out += (x,)
    return out


def derived(*ns):
    """computed from an inner product or carried round a loop"""
    return any(x.op == 'fn' and x.a[0] == 'inner' or x.op in ('rec', 'sym') and '#' in str(x.a[-1] if x.op == 'sym' else '#') for n in ns for x in nd.walk(n))


class Interp:
    def __init__(self, ir, overrides=None):
        self.ir = ir
        self.frames = []
        self.nanin = None       # function in which computed floating-point values are taken to be not-a-number
        self.recs = []
        self.bounds = None      # access records of the whole run with extents, when asked for
        self.loops = []
        self.loopstack = []
        self.notes = {}
        self.throws = [[]]
        self.throwcount = 0
        self.over = overrides or {}
        self.nroot = 0
        self.globals = {}
        self.gbusy = set()
        self.par = None          # pending parallel directive
        self.atomic = 0
        self.critical = 0
        self.vers = {}
        self.steps = 0
        self.calls = {}          # functions analysed -> number of inlined instances
        self.loc = None
        self.parstack = []
        self.sch_cache = {}
        from . import models
        self.models = models
        self.keep = lambda name: False

    # ---------- notes
    def note(self, kind, what):
        self.notes.setdefault((kind, what), self.where())

    def where(self):
        l = self.loc
        return '%s in %s' % (self.ir.loc(l), self.frames[-1].f['qn'] if self.frames else '?')

    # ---------- roots
    def new_root(self, name):
        self.nroot += 1
        return '%s~%d' % (name, self.nroot)

    def temp(self, st, v, name='tmp'):
        r = self.new_root(name)
        st.mem[r] = v
        return Ref(r)

    # ---------- types
    def tclass(self, t):
        return self.ir.ty(t)['c']

    def recname(self, t):
        ty = self.ir.ty(t)
        if ty['c'] == 'rec':
            return self.ir.rec(ty['rec'])['qn']
        return None

    def schema(self, t):
        if t in self.sch_cache:
            return self.sch_cache[t]
        ty = self.ir.ty(t)
        c = ty['c']
        s = ('o',)
        if c == 'b':
            s = ('b',)
        elif c in ('i', 'u', 'f'):
            s = ('n', None)
        elif c == 'enum':
            s = ('n', self.ir.enumvals(ty['en']))
        elif c == 'rec':
            r = self.ir.rec(ty['rec'])
            q = r['qn']
            ta = r.get('ta') or []
            if q in ('boost::numeric::ublas::c_vector', 'boost::numeric::ublas::bounded_vector'):
                s = ('vec', ta[1]['i'])
            elif q in ('std::tuple', 'std::pair'):
                s = ('tup', tuple(self.schema(x['t']) for x in ta))
            elif q == 'std::array':
                s = ('tup', tuple(self.schema(ta[0]['t']) for _ in range(ta[1]['i']))) if ta[1]['i'] <= 64 else ('o',)
            elif q in ('std::vector', 'std::list', 'std::deque'):
                s = ('seq', self.schema(ta[0]['t']))
            elif r.get('repo') and not r.get('lambda') and 'f' in r:
                s = ('st', ty['rec'], tuple((f['n'], self.schema(f['t'])) for f in r['f']))
        self.sch_cache[t] = s
        return s

    def reg_enum(self, sch, name):
        for p in leaves(sch):
            q = sch
            for x in p:
                q = dict(q[2])[x] if q[0] == 'st' else (q[1][x] if q[0] == 'tup' else ('n', None))
            if q[0] == 'n' and q[1]:
                ENUMS['.'.join([name] + [str(x) for x in p])] = q[1]

    def sarr(self, kind, dims, sch, name, leafkind='free'):
        self.reg_enum(sch, name)
        return SArr(kind, dims, sch, {p: mk('abase', '.'.join([name] + [str(x) for x in p]), leafkind) for p in leaves(sch)}, name)

    def sym_value(self, t, name):
        """an arbitrary object of the type"""
        ty = self.ir.ty(t)
        c = ty['c']
        if c == 'b':
            return mk('bsym', name, 'free')
        if c in ('i', 'u', 'f'):
            return sym(name)
        if c == 'enum':
            ENUMS[name] = self.ir.enumvals(ty['en'])
            return sym(name)
        if c == 'arr':
            if ty['n'] <= 64:
                return Tup((self.sym_value(ty['pt'], '%s.%d' % (name, i)) for i in range(ty['n'])), 'carray')
        if c == 'rec':
            r = self.ir.rec(ty['rec'])
            q = r['qn']
            ta = r.get('ta') or []
            if q in ('boost::numeric::ublas::c_vector', 'boost::numeric::ublas::bounded_vector'):
                return Vec(sym('%s.%d' % (name, i)) for i in range(ta[1]['i']))
            if q == 'boost::numeric::ublas::c_matrix':
                return Mat(tuple(sym('%s.%d.%d' % (name, i, j)) for j in range(ta[2]['i'])) for i in range(ta[1]['i']))
            if q in ('std::vector', 'std::deque'):
                return self.sarr('vector', [sym(name + '.size')], self.schema(ta[0]['t']), name)
            if q == 'boost::multi_array':
                return self.sarr('marray', [sym('%s.shape%d' % (name, i)) for i in range(ta[1]['i'])], self.schema(ta[0]['t']), name)
            if q in ('boost::numeric::ublas::vector', 'viennacl::vector'):
                return self.sarr('lv', [sym(name + '.size')], ('n', None), name)
            if q in ('boost::numeric::ublas::compressed_matrix', 'viennacl::compressed_matrix', 'boost::numeric::ublas::mapped_matrix',
                     'boost::numeric::ublas::coordinate_matrix', 'viennacl::coordinate_matrix', 'boost::numeric::ublas::matrix'):
                return self.sarr('mx', [sym(name + '.size1'), sym(name + '.size2')], ('n', None), name)
            if q in ('std::tuple', 'std::pair'):
                return Tup((self.sym_value(x['t'], '%s.%d' % (name, i)) for i, x in enumerate(ta)), 'tuple')
            if q == 'std::array' and ta[1]['i'] <= 64:
                return Tup((self.sym_value(ta[0]['t'], '%s.%d' % (name, i)) for i in range(ta[1]['i'])), 'array')
            if r.get('repo') and 'f' in r and not r.get('lambda'):
                d = {}
                for b in r.get('b') or []:
                    v = self.sym_value(b, name)
                    if isinstance(v, Struct):
                        d.update(v.f)
                for f in r['f']:
                    d[f['n']] = self.sym_value(f['t'], '%s.%s' % (name, f['n']))
                return Struct(ty['rec'], d)
        return mk('opaque', name)

    def default_value(self, t, name='v', zeroinit=False):
        """default-initialised object"""
        ty = self.ir.ty(t)
        c = ty['c']
        if c == 'b':
            return FALSE if zeroinit else mk('bsym', 'undef:' + name, 'free')
        if c in ('i', 'u', 'f', 'enum'):
            return ZERO if zeroinit else mk('undef', name)
        if c in ('p', 'nullptr'):
            return Null()
        if c == 'arr':
            if ty['n'] <= 512:
                return Tup((self.default_value(ty['pt'], name, zeroinit) for i in range(ty['n'])), 'carray')
        if c == 'rec':
            r = self.ir.rec(ty['rec'])
            q = r['qn']
            ta = r.get('ta') or []
            if q in ('boost::numeric::ublas::c_vector', 'boost::numeric::ublas::bounded_vector'):
                return Vec(mk('undef', '%s.%d' % (name, i)) for i in range(ta[1]['i']))
            if q == 'boost::numeric::ublas::c_matrix':
                return Mat(tuple(mk('undef', '%s.%d.%d' % (name, i, j)) for j in range(ta[2]['i'])) for i in range(ta[1]['i']))
            if q in ('std::vector', 'std::deque', 'std::list'):
                return SeqV(self.schema(ta[0]['t']), SEQ0, name)
            if q == 'boost::multi_array':
                return SArr('marray', [ZERO] * ta[1]['i'], self.schema(ta[0]['t']), {p: mk('afill', ZERO) for p in leaves(self.schema(ta[0]['t']))}, name)
            if q in ('boost::numeric::ublas::vector', 'viennacl::vector'):
                return SArr('lv', [ZERO], ('n', None), {(): mk('afill', ZERO)}, name)
            if q in ('boost::numeric::ublas::compressed_matrix', 'viennacl::compressed_matrix', 'boost::numeric::ublas::matrix'):
                return SArr('mx', [ZERO, ZERO], ('n', None), {(): mk('afill', ZERO)}, name)
            if q in ('std::tuple', 'std::pair'):
                return Tup((self.default_value(x['t'], name, True) for i, x in enumerate(ta)), 'tuple')
            if q == 'std::array' and ta[1]['i'] <= 512:
                return Tup((self.default_value(ta[0]['t'], name, zeroinit) for i in range(ta[1]['i'])), 'array')
            if q == 'std::basic_string':
                return mk('str', '')
            if q in ('std::unique_ptr', 'std::shared_ptr'):
                return Null()
            if r.get('repo') and 'f' in r and not r.get('lambda'):
                d = {}
                for b in r.get('b') or []:
                    v = self.default_value(b, name, zeroinit)
                    if isinstance(v, Struct):
                        d.update(v.f)
                for f in r['f']:
                    d[f['n']] = self.default_value(f['t'], '%s.%s' % (name, f['n']), zeroinit)
                return Struct(ty['rec'], d)
        return mk('opaque', name)

    # ---------- memory
    def log(self, kind, root, steps, st, extra=None):
        if self.recs:
            r = (kind, root, steps, st.pc, self.loc, self.atomic or self.critical, self.frames[-1].f['qn'] if self.frames else '')
            if self.bounds is not None:
                r += (self.extents(root, steps, st), tuple(self.loopstack))
            for x in self.recs:
                x.append(r)

    def extents(self, root, steps, st):
        """(object, indices, extents) for every container an access path goes through"""
        out = []
        v = st.mem.get(root)
        k = 0
        while k < len(steps):
            t, x = steps[k]
            if isinstance(v, Struct) and t == 'f':
                v = v.f.get(x)
                k += 1
            elif isinstance(v, SArr) and t == 'i':
                n = len(v.dims)
                idx = tuple(y for _, y in steps[k:k + n])
                out.append((steps[:k], idx, v.dims))
                if len(idx) < n:
                    break
                k += n
                try:
                    v = self.nav(v, steps[k - n:k])
                except Unsupported:
                    break
            elif isinstance(v, SeqV) and t == 'i':
                out.append((steps[:k], (x,), (self.models.vsize(v),)))
                break
            elif isinstance(v, Tup) and t in ('i', 'f'):
                if t == 'i':
                    out.append((steps[:k], (x,), (C(len(v.i)),)))
                if isinstance(x, N) and isc(x) or isinstance(x, int):
                    q = int(cval(x)) if isinstance(x, N) else x
                    if not 0 <= q < len(v.i):
                        break
                    v = v.i[q]
                    k += 1
                else:
                    break
            else:
                break
        return out

    def read(self, ref, st):
        if isinstance(ref, RefIte):
            return merge(ref.c, self.read(ref.x, st), self.read(ref.y, st))
        self.log('r', ref.root, ref.s, st)
        if ref.root not in st.mem:
            raise Unsupported('read of unknown object %s' % ref.root)
        return self.nav(st.mem[ref.root], ref.s)

    def nav(self, v, s):
        k = 0
        while k < len(s):
            t, x = s[k]
            if isinstance(v, Struct):
                if x not in v.f:
                    raise Unsupported('no field %s' % (x,))
                v = v.f[x]
                k += 1
            elif isinstance(v, Vec):
                v = self.pick(v.c, x)
                k += 1
            elif isinstance(v, Tup):
                if t == 'f' and x in ('first', 'second'):
                    x = C(0 if x == 'first' else 1)
                elif t == 'f':
                    raise Unsupported('field of tuple')
                v = self.pick(v.i, x)
                k += 1
            elif isinstance(v, Mat):
                if k + 1 >= len(s):
                    raise Unsupported('matrix row')
                v = self.pick([self.pick(r, s[k + 1][1]) for r in v.r], x)
                k += 2
            elif isinstance(v, SArr):
                nd_ = len(v.dims)
                if len(s) - k < nd_:
                    raise Partial('partial array element')
                idx = tuple(y[1] for y in s[k:k + nd_])
                k += nd_
                rest = s[k:]
                pre = self.leafpath(v.sch, rest)
                if pre is None:
                    v = build(v.sch, lambda p: select(v0.lv[p], idx)) if (v0 := v) else None
                else:
                    v0 = v
                    sub_ = self.schat(v.sch, pre)
                    return build(sub_, lambda p: select(v0.lv[pre + p], idx))
            elif isinstance(v, SeqV):
                v = self.seq_elem(v, x)
                k += 1
            elif isinstance(v, N):
                if t == 'f':
                    v = fn('field', v, x)
                else:
                    v = fn('elem', v, x)
                k += 1
            elif isinstance(v, Ptr) and t == 'f':
                raise Unsupported('field of pointer')
            else:
                raise Unsupported('navigate %s into %s' % (x, type(v).__name__))
        return v

    def leafpath(self, sch, rest):
        """static path below an element, or None when it contains a symbolic component"""
        p = []
        for t, x in rest:
            if sch[0] == 'st' and t == 'f':
                sch = dict(sch[2])[x]
                p.append(x)
            elif sch[0] == 'tup':
                if t == 'f':
                    x = C(0 if x == 'first' else 1)
                if not isc(x):
                    return None
                sch = sch[1][int(cval(x))]
                p.append(int(cval(x)))
            elif sch[0] == 'vec' and isc(x):
                p.append(int(cval(x)))
                sch = ('n', None)
            else:
                return None
        return tuple(p)

    def schat(self, sch, p):
        for x in p:
            sch = dict(sch[2])[x] if sch[0] == 'st' else (sch[1][x] if sch[0] == 'tup' else ('n', None))
        return sch

    def pick(self, items, x):
        if isc(x):
            k = int(cval(x))
            if not 0 <= k < len(items):
                raise Unsupported('constant index %d out of range %d' % (k, len(items)))
            return items[k]
        if not items:
            raise Unsupported('index into empty')
        if len(items) > 1 and all(isinstance(y, N) for y in items):
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = ite_any(zero(sub(x, C(k))), items[k], r)
            return r
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = merge(zero(sub(x, C(k))), items[k], r)
        return r

    def seq_elem(self, v, x):
        n = v.n
        if n.op == 'seq' and isc(x):
            k = int(cval(x))
            segs = n.a[0]
            if k < len(segs) and all(s[0] == 'one' and s[1] is TRUE for s in segs[:k + 1]):
                d = dict(zip(leaves(v.sch), segs[k][2]))
                return build(v.sch, lambda p: d[p])
        if n.op == 'seq' and len(n.a[0]) == 1 and n.a[0][0][0] == 'comp' and n.a[0][0][1] is TRUE and len(n.a[0][0][2]) == 1:
            sg = n.a[0][0]
            k, lo, _ = sg[2][0]
            d = dict(zip(leaves(v.sch), sg[3]))
            return build(v.sch, lambda p: subst(d[p], {k: add(lo, x)}))
        return build(v.sch, lambda p: mk('sel', mk('aseq', n, p), (x,)))

    def write(self, ref, val, st):
        if isinstance(ref, RefIte):
            s1, s2 = st.clone(ref.c), st.clone(bnot(ref.c))
            self.write(ref.x, val, s1)
            self.write(ref.y, val, s2)
            pc = st.pc
            st.become(merge_st(ref.c, s1, s2))
            st.pc = pc
            return
        if not isinstance(ref, Ref):
            raise Unsupported('write to %s' % type(ref).__name__)
        self.log('w', ref.root, ref.s, st)
        st.mem[ref.root] = self.upd(st.mem.get(ref.root), ref.s, val)

    def upd(self, v, s, val):
        if not s:
            return val
        t, x = s[0]
        if isinstance(v, Struct):
            return v.set(x, self.upd(v.f.get(x), s[1:], val))
        if isinstance(v, (Vec, Tup)):
            if isinstance(v, Tup) and t == 'f':
                x = C(0 if x == 'first' else 1)
            items = list(v.c if isinstance(v, Vec) else v.i)
            if isc(x):
                k = int(cval(x))
                if not 0 <= k < len(items):
                    raise Unsupported('constant index out of range')
                items[k] = self.upd(items[k], s[1:], val)
            else:
                items = [merge(zero(sub(x, C(k))), self.upd(y, s[1:], val), y) for k, y in enumerate(items)]
            return Vec(items) if isinstance(v, Vec) else Tup(items, v.kind)
        if isinstance(v, Mat):
            y = s[1][1]
            return Mat(tuple(ite(band(zero(sub(x, C(i))), zero(sub(y, C(j)))), val, q) for j, q in enumerate(r)) for i, r in enumerate(v.r))
        if isinstance(v, SArr):
            n = len(v.dims)
            if len(s) < n:
                raise Unsupported('write to partial array element')
            idx = tuple(z[1] for z in s[:n])
            rest = s[n:]
            p = self.leafpath(v.sch, rest)
            lv = dict(v.lv)
            if p is None:
                el = build(v.sch, lambda q: select(v.lv[q], idx))
                el = self.upd(el, rest, val)
                for q, x in unbuild(v.sch, el).items():
                    lv[q] = astore(lv[q], idx, x)
            else:
                for q, x in unbuild(self.schat(v.sch, p), val).items():
                    lv[p + q] = astore(lv[p + q], idx, x)
            return v.with_lv(lv)
        if isinstance(v, SeqV):
            n = v.n
            if n.op == 'seq' and isc(x):
                k = int(cval(x))
                segs = list(n.a[0])
                if k < len(segs) and all(q[0] == 'one' and q[1] is TRUE for q in segs[:k + 1]):
                    d = dict(zip(leaves(v.sch), segs[k][2]))
                    el = self.upd(build(v.sch, lambda p: d[p]), s[1:], val)
                    d = unbuild(v.sch, el)
                    segs[k] = ('one', TRUE, tuple(d[p] for p in leaves(v.sch)))
                    return SeqV(v.sch, seq(segs), v.name)
            return SeqV(v.sch, mk('sequpd', n, x, mk('opaque', 'w%d' % self.nroot)), v.name)
        if isinstance(v, N):
            return fn('upd', v, str(s[0][0]), *[y for y in (x,) if isinstance(y, (N, str))])
        raise Unsupported('update %s of %s' % (s, type(v).__name__))

    def ld(self, v, st):
        """load: value of a possibly-reference"""
        if isinstance(v, (Ref, RefIte)):
            try:
                return self.read(v, st)
            except Partial:
                return v
        return v

    def isproxy(self, t):
        return self.recname(t) in self.models.PROXY

    def node(self, v, st):
        v = self.ld(v, st)
        if isinstance(v, N):
            return v
        raise Unsupported('scalar expected, got %s' % type(v).__name__)

    def num(self, v, st):
        n = self.node(v, st)
        return b2n(n) if isbool(n) else n

    def boolean(self, v, st):
        v = self.ld(v, st)
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, (Ptr, Lam, Fn)):
            return TRUE
        if not isinstance(v, N):
            raise Unsupported('boolean expected')
        return n2b(v)

    def toref(self, v, st):
        if isinstance(v, (Ref, RefIte)):
            return v
        return self.temp(st, v)

    def know(self, c, st):
        """decide a condition from the path condition where possible"""
        if c is TRUE or c is FALSE:
            return c
        if band(st.pc, c) is FALSE:
            return FALSE
        if band(st.pc, bnot(c)) is FALSE:
            return TRUE
        return c

    # ---------- expressions
    def ev(self, e, st):
        k = e['k']
        if 'cv' in e and k != 'asg' and not (k == 'un' and e['op'] in ('++', '--')):
            t = self.tclass(e['t'])
            if t == 'b':
                return B(e['cv'] != '0')
            if t in ('i', 'u', 'enum'):
                return C(int(e['cv']))
        if 'cf' in e and k in ('flt', 'bin', 'un', 'cast', 'ref', 'call', 'cond'):
            return self.flt(e)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression kind %s %s' % (k, e.get('cls', '')))
        if e.get('l'):
            self.loc = e['l']
        return m(e, st)

    def flt(self, e):
        s = e['cf']
        try:
            v = float(s)
        except ValueError:
            return mk('fn', 'floatconst', (s,))
        if v != v or v in (float('inf'), float('-inf')):
            return mk('fn', 'floatconst', (s,))
        if v == 2.2204460492503131e-16:
            return sym('EPSILON')
        return C(Fraction(repr(v)))

    def e_int(self, e, st):
        if self.tclass(e['t']) == 'b':
            return B(e['v'] != '0')
        return C(int(e['v']))

    def e_flt(self, e, st):
        return self.flt(e)

    def e_str(self, e, st):
        return mk('str', e['v'])

    def e_null(self, e, st):
        return Null()

    def e_zero(self, e, st):
        return self.default_value(e['t'], 'zero', True)

    def e_const(self, e, st):
        return fn('const?')

    def e_ref(self, e, st):
        dk = e['dk']
        if dk == 'func':
            return Fn(e['f'])
        if dk == 'glob':
            return self.glob(e['d'], st)
        if dk == 'var':
            r = self.frames[-1].env.get(e['d'])
            if r is None:
                raise Unsupported('unbound variable %s' % e['n'])
            return r
        if dk == 'Binding':
            r = self.frames[-1].env.get(e['d'])
            if r is not None:
                return r
            return self.ev(e['bind'], st)
        if dk == 'enumc':
            return C(int(e['cv']))
        raise Unsupported('reference to ' + dk)

    def glob(self, d, st):
        r = 'g%d' % d
        v = self.ir.vars[str(d)]
        if r not in st.mem:
            if d not in self.globals:
                if d in self.gbusy:
                    raise Unsupported('recursive global')
                self.gbusy.add(d)
                if v and 'init' in v and (v['t'] is not None and self.ir.ty(v['t']).get('const')):
                    g = St({}, (), TRUE)
                    fr = Frame(0, {'qn': 'global ' + v['q']}, None)
                    self.frames.append(fr)
                    rs, self.recs = self.recs, []
                    try:
                        self.globals[d] = self.ld(self.ev(v['init'], g), g)
                    finally:
                        self.frames.pop()
                        self.recs = rs
                else:
                    self.globals[d] = self.sym_value(v['t'], v['q']) if v else mk('opaque', r)
                self.gbusy.discard(d)
            st.mem[r] = self.globals[d]
        return Ref(r)

    def e_this(self, e, st):
        t = self.frames[-1].this
        return Ptr(t)

    def e_mem(self, e, st):
        if e['dk'] == 'func':
            return Fn(e['f'])
        if e['dk'] == 'glob':
            return self.glob(e['d'], st)
        b = self.ev(e['b'], st)
        if e['arrow']:
            b = self.deref(self.ld(b, st), st)
        if isinstance(b, (Ref, RefIte)):
            r = b.at(('f', e['n']))
            return self.refmember(r, st) or r
        return self.nav(b, (('f', e['n']),))

    def refmember(self, r, st):
        """members of reference type denote the object they are bound to"""
        if not isinstance(r, Ref):
            return None
        v = st.mem.get(r.root)
        for t, x in r.s:
            if isinstance(v, Struct) and t == 'f':
                v = v.f.get(x)
            elif isinstance(v, Tup) and isinstance(x, N) and isc(x) and 0 <= int(cval(x)) < len(v.i):
                v = v.i[int(cval(x))]
            else:
                return None
        return v if isinstance(v, (Ref, RefIte)) else None

    def deref(self, p, st):
        if isinstance(p, Ptr):
            if p.rev == 'flat':
                raise Unsupported('flat access to a multi-dimensional array')
            if p.idx is None:
                return p.ref
            i = p.idx
            return p.ref.at(('i', i))
        if isinstance(p, (Ref, RefIte)):
            return p
        if isinstance(p, N):
            return self.temp(st, fn('deref', p))
        raise Unsupported('dereference of %s' % type(p).__name__)

    def e_mat(self, e, st):
        v = self.ev(e['e'], st)
        if isinstance(v, (Ref, RefIte)) and not (e['e'].get('lv') or e['e'].get('xv')) and not self.isproxy(e['e']['t']):
            v = self.ld(v, st)
        return self.toref(v, st)

    def e_cast(self, e, st):
        ck = e['ck']
        v = self.ev(e['e'], st)
        if ck == 'LValueToRValue':
            return self.ld(v, st)
        if ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr', 'LValueBitCast', 'BitCast', 'BaseToDerived', 'Dependent'):
            return v
        if ck == 'FunctionToPointerDecay':
            return v
        if ck in ('ArrayToPointerDecay',):
            if isinstance(v, (Ref, RefIte)):
                return Ptr(v, ZERO)
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.boolean(v, st)
        if ck == 'NullToPointer':
            return Null()
        if ck == 'ToVoid':
            return None
        if ck in ('IntegralToFloating', 'IntegralCast', 'BooleanToSignedIntegral'):
            n = self.num(v, st)
            if ck == 'IntegralCast':
                a, b = self.ir.ty(e['e']['t']), self.ir.ty(e['t'])
                if b.get('bits') and a.get('bits') and b['bits'] < a['bits'] and b['bits'] < 32 and not isc(n):
                    return fn('narrow%d' % b['bits'], n)
            return n
        if ck == 'FloatingToIntegral':
            n = self.num(v, st)
            if isc(n):
                return C(int(cval(n)))
            if n.op == 'fn' and n.a[0] in ('ceil', 'floor', 'round', 'trunc'):
                return n
            return fn('trunc', n)
        if ck == 'FloatingCast':
            n = self.num(v, st)
            a, b = self.ir.ty(e['e']['t']), self.ir.ty(e['t'])
            if b['bits'] < a['bits'] and b['bits'] < 64 and not isc(n):
                return fn('narrowf', n)
            return n
        if ck in ('CPointerToObjCPointerCast', 'AddressSpaceConversion'):
            return v
        raise Unsupported('cast ' + ck)

    def e_un(self, e, st):
        op = e['op']
        if op in ('++', '--'):
            r = self.ev(e['e'], st)
            return self.incdec(r, 1 if op == '++' else -1, e['post'], st)
        v = self.ev(e['e'], st)
        if op == '&':
            if isinstance(v, (Ref, RefIte)):
                if isinstance(v, Ref) and v.s and v.s[-1][0] == 'i':
                    return Ptr(Ref(v.root, v.s[:-1]), v.s[-1][1])
                return Ptr(v)
            return v
        if op == '*':
            return self.deref(self.ld(v, st), st) if not isinstance(self.ld(v, st), (Fn, Lam)) else v
        if op == '!':
            return bnot(self.boolean(v, st))
        if op == '-':
            return neg(self.num(v, st))
        if op == '+':
            return self.ld(v, st)
        if op == '~':
            return fn('bitnot', self.num(v, st))
        raise Unsupported('unary ' + op)

    def incdec(self, r, d, post, st):
        v = self.ld(r, st)
        if isinstance(v, Ptr):
            nv = Ptr(v.ref, add(v.idx, C(d)), v.rev)
        elif isinstance(v, N):
            nv = add(b2n(v) if isbool(v) else v, C(d))
        else:
            raise Unsupported('increment of %s' % type(v).__name__)
        self.write(r, nv, st)
        return v if post else r

    def isint(self, e):
        return self.tclass(e['t']) in ('i', 'u', 'b', 'enum')

    def e_bin(self, e, st):
        op = e['op']
        if op == ',':
            self.ev(e['lhs'], st)
            return self.ev(e['rhs'], st)
        if op in ('&&', '||'):
            c1 = self.know(self.boolean(self.ev(e['lhs'], st), st), st)
            if c1 is (FALSE if op == '&&' else TRUE):
                return c1
            g = c1 if op == '&&' else bnot(c1)
            if g is TRUE:
                return self.boolean(self.ev(e['rhs'], st), st)
            s2 = st.clone(g)
            try:
                c2 = self.boolean(self.ev(e['rhs'], s2), s2)
            except Dead:
                st.pc = band(st.pc, bnot(g))
                return FALSE if op == '&&' else TRUE
            pc = st.pc
            tc = s2.pc
            st.become(merge_st(g, s2, st))
            if tc is band(pc, g):
                st.pc = pc
            return band(c1, c2) if op == '&&' else bor(c1, c2)
        a, b = self.ld(self.ev(e['lhs'], st), st), self.ld(self.ev(e['rhs'], st), st)
        return self.binop(op, a, b, e, st)

    def binop(self, op, a, b, e, st, ity=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Null) or isinstance(b, Null):
            return self.ptrop(op, a, b, st)
        if not (isinstance(a, N) and isinstance(b, N)):
            raise Unsupported('%s on %s and %s' % (op, type(a).__name__, type(b).__name__))
        if op in ('==', '!=') and isbool(a) and isbool(b):
            r = bor(band(a, b), band(bnot(a), bnot(b)))
            return r if op == '==' else bnot(r)
        isint = ity if ity is not None else (self.isint(e['lhs']) and self.isint(e['rhs']))
        if op in ('&', '|', '^') and isbool(a) and isbool(b):
            if op == '&':
                return band(a, b)
            if op == '|':
                return bor(a, b)
            return bor(band(a, bnot(b)), band(bnot(a), b))
        a, b = (b2n(x) if isbool(x) else x for x in (a, b))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if a.op == 'str' or b.op == 'str':
                r = self.streq(a, b)
                return r if op == '==' else bnot(r)
            if self.nanin and not isint and any(f.f['qn'] == self.nanin for f in self.frames) and derived(a, b):
                return B(op == '!=')
            return cmp(op, a, b, isint)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if isint:
                return self.idiv(a, b)
            return div(a, b)
        if op == '%':
            return self.imod(a, b)
        if isc(a) and isc(b) and op in ('<<', '>>', '&', '|', '^'):
            x, y = int(cval(a)), int(cval(b))
            return C({'<<': x << y, '>>': x >> y, '&': x & y, '|': x | y, '^': x ^ y}[op])
        return fn('op' + op, a, b)

    def streq(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'str' and b.op == 'str':
            return B(a.a[0] == b.a[0])
        if a.id > b.id:
            a, b = b, a
        return mk('zero', fn('strcmp', a, b))

    def idiv(self, a, b):
        if isc(a) and isc(b) and cval(b) != 0:
            x, y = int(cval(a)), int(cval(b))
            return C(abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1))
        if isc(b) and cval(b) == 1:
            return a
        r = self.divmod_known(a, b)
        if r is not None:
            return r[0]
        return fn('idiv', a, b)

    def divmod_known(self, a, b):
        """(q, r) for a = m*k + c with constant modulus m and 0 <= c < m"""
        if not isc(b) or cval(b) <= 0:
            return None
        m = cval(b)
        k, d = nd._lin(a)
        q, r, rest = Fraction(0), k, {}
        qd = {}
        for n, c in d.items():
            if c % m == 0:
                qd[n] = c / m
            else:
                rest[n] = c
        if rest:
            return None
        if not qd:
            return None
        fl = r // m
        return nd._mksum(Fraction(fl), qd), C(r - fl * m)

    def imod(self, a, b):
        if isc(a) and isc(b) and cval(b) != 0:
            x, y = int(cval(a)), int(cval(b))
            return C(abs(x) % abs(y) * (1 if x >= 0 else -1))
        r = self.divmod_known(a, b)
        if r is not None:
            return r[1]
        return fn('imod', a, b)

    def ptrop(self, op, a, b, st):
        if op in ('==', '!='):
            if isinstance(a, Null) and isinstance(b, Null):
                r = TRUE
            elif isinstance(a, Null) or isinstance(b, Null):
                r = FALSE
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.ref == b.ref:
                r = TRUE if a.idx is b.idx else zero(sub(a.idx, b.idx))
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                r = FALSE
            else:
                raise Unsupported('pointer comparison')
            return r if op == '==' else bnot(r)
        if op in ('<', '>', '<=', '>=') and isinstance(a, Ptr) and isinstance(b, Ptr) and a.ref == b.ref:
            return cmp(op, a.idx, b.idx, True)
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.ref == b.ref:
                return sub(a.idx, b.idx)
            raise Unsupported('pointer difference')
        if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, N):
            return Ptr(a.ref, add(a.idx, b if op == '+' else neg(b)), a.rev)
        if op == '+' and isinstance(b, Ptr) and isinstance(a, N):
            return Ptr(b.ref, add(b.idx, a), b.rev)
        raise Unsupported('pointer operation ' + op)

    def e_asg(self, e, st):
        op = e['op']
        if op == '=':
            # C++17: right operand first
            v = self.ld(self.ev(e['rhs'], st), st)
            r = self.ev(e['lhs'], st)
            self.write(r, v, st)
            return r
        b = self.ld(self.ev(e['rhs'], st), st)
        r = self.ev(e['lhs'], st)
        a = self.ld(r, st)
        isint = self.tclass(e['ct']) in ('i', 'u', 'b', 'enum') and self.isint(e['rhs'])
        v = self.binop(op[:-1], a, b, e, st, isint)
        if self.tclass(e['lhs']['t']) in ('i', 'u') and not isint and isinstance(v, N) and not isc(v):
            v = fn('trunc', v)
        self.write(r, v, st)
        return r

    def e_cond(self, e, st):
        c = self.know(self.boolean(self.ev(e['c'], st), st), st)
        if c is TRUE:
            return self.ev(e['a'], st)
        if c is FALSE:
            return self.ev(e['b'], st)
        s1, s2 = st.clone(c), st.clone(bnot(c))
        d1 = d2 = False
        v1 = v2 = None
        try:
            v1 = self.ev(e['a'], s1)
        except Dead:
            d1 = True
        try:
            v2 = self.ev(e['b'], s2)
        except Dead:
            d2 = True
        if d1 and d2:
            raise Dead()
        if d1 or d2:
            st.become(s2 if d1 else s1)
            return v2 if d1 else v1
        if not (isinstance(v1, (Ref, RefIte)) and isinstance(v2, (Ref, RefIte)) and e.get('lv')):
            v1, v2 = self.ld(v1, s1), self.ld(v2, s2)
        pc, full = st.pc, (s1.pc is band(st.pc, c) and s2.pc is band(st.pc, bnot(c)))
        st.become(merge_st(c, s1, s2))
        if full:
            st.pc = pc
        return merge(c, v1, v2)

    def e_sub(self, e, st):
        b = self.ld(self.ev(e['b'], st), st) if not e['b'].get('lv') else self.ev(e['b'], st)
        i = self.num(self.ev(e['i'], st), st)
        if isinstance(b, (Ref, RefIte)):
            v = b
            if self.tclass(e['b']['t']) == 'p':
                b = self.ld(b, st)
            else:
                return v.at(('i', i))
        if isinstance(b, Ptr) and b.rev != 'flat':
            return b.ref.at(('i', add(b.idx, i))) if b.idx is not None else b.ref
        raise Unsupported('subscript')

    def e_lam(self, e, st):
        caps = {}
        this = None
        for c in e['caps']:
            if c['k'] == 'this':
                this = self.frames[-1].this
            elif c['k'] == 'ref':
                v = self.ev(c['e'], st) if c.get('e') else self.frames[-1].env[c['d']]
                caps[c['d']] = self.toref(v, st)
            elif c['k'] == 'val':
                v = self.ev(c['e'], st) if c.get('e') else self.frames[-1].env[c['d']]
                caps[c['d']] = ('v', self.ld(v, st))
            else:
                raise Unsupported('capture')
        # by-value captures live in the closure
        cc = {}
        for d, v in caps.items():
            cc[d] = v[1] if isinstance(v, tuple) else v
            if isinstance(v, tuple):
                cc[d] = self.temp(st, v[1], 'cap')
        return Lam(e['rec'], e['f'], cc, this)

    def e_init(self, e, st):
        t = self.ir.ty(e['t'])
        vs = [self.ld(self.ev(x, st), st) for x in e['e']]
        if t['c'] == 'rec':
            r = self.ir.rec(t['rec'])
            if r['qn'] == 'std::array':
                v = vs[0] if vs and isinstance(vs[0], Tup) else Tup(vs)
                n = r['ta'][1]['i']
                items = list(v.i)
                while len(items) < n:
                    items.append(self.default_value(r['ta'][0]['t'], 'z', True))
                return Tup(items, 'array')
            if 'f' in r and len(r['f']) >= len(vs) and r.get('repo'):
                d = {}
                for f, v in zip(r['f'], vs):
                    d[f['n']] = v
                for f in r['f'][len(vs):]:
                    d[f['n']] = self.ld(self.ev(f['init'], st), st) if f.get('init') else self.default_value(f['t'], f['n'], True)
                return Struct(t['rec'], d)
        if t['c'] == 'arr':
            while len(vs) < t['n']:
                vs.append(self.default_value(t['pt'], 'z', True))
            return Tup(vs, 'carray')
        if len(vs) == 1 and t['c'] in ('i', 'u', 'f', 'b', 'enum', 'p'):
            return vs[0]
        if not vs:
            return self.default_value(e['t'], 'z', True)
        return Tup(vs, 'initlist')

    def e_new(self, e, st):
        v = self.ld(self.ev(e['e'], st), st) if e.get('e') else self.default_value(e['at'], 'new')
        if 'n' in e:
            n = self.num(self.ev(e['n'], st), st)
            s = self.schema(e['at'])
            nm = self.new_root('new')
            r = self.temp(st, self.sarr('vector', [n], s, nm), 'heap')
            return Ptr(r, ZERO)
        return Ptr(self.temp(st, v, 'heap'))

    def e_delete(self, e, st):
        self.ev(e['e'], st)

    def e_arrayloop(self, e, st):
        return self.ld(self.ev(e['e'], st), st)

    def e_throw(self, e, st):
        if e.get('e') is None:
            self.do_throw(None, None, st, e.get('l'))
        v = self.ev(e['e'], st)
        self.do_throw(self.recname(e['e']['t']) or self.ir.ty(e['e']['t'])['s'], self.ld(v, st), st, e.get('l'), e['e']['t'])

    def do_throw(self, ty, val, st, loc, tid=None):
        self.throwcount += 1
        t = Throw(st.pc, ty, val, dict(st.mem), st.ev, self.ir.loc(loc or self.loc))
        t.tid = tid
        t.stack = [f.f['qn'] for f in self.frames]
        t.inpar = list(self.parstack)
        self.throws[-1].append(t)
        raise Dead()

    def may_throw(self, ty, st, cond, what):
        """record a throw that happens under an unknown condition; control continues otherwise"""
        self.throwcount += 1
        t = Throw(band(st.pc, cond), ty, fn('exception', what), dict(st.mem), st.ev, self.ir.loc(self.loc))
        t.tid = None
        t.stack = [f.f['qn'] for f in self.frames]
        t.inpar = list(self.parstack)
        self.throws[-1].append(t)

    def e_other(self, e, st):
        raise Unsupported('expression ' + str(e.get('cls')))

    # ---------- calls
    def e_call(self, e, st):
        if 'f' not in e:
            fv = self.ev(e['fe'], st)
            fv = self.ld(fv, st)
            args = [self.ev(x, st) for x in e['args']]
            return self.callv(fv, args, st, e)
        f = self.ir.fn(e['f'])
        if 'obj' in e:
            obj = self.ev(e['obj'], st)
            if e.get('arrow'):
                obj = self.deref(self.ld(obj, st), st)
            if f.get('op') == '=' and len(e['args']) == 1:
                pass
        else:
            obj = None
        args = [self.ev(x, st) for x in e['args']]
        self.loc = e.get('l') or self.loc
        return self.call(e['f'], obj, args, st, e)

    def callv(self, fv, args, st, e=None):
        if isinstance(fv, Fn):
            return self.call(fv.fid, None, args, st, e)
        if isinstance(fv, Lam):
            fid = fv.fid
            if 'body' not in self.ir.fn(fid):
                # generic lambda called from library code: one of its instances
                g = [int(i) for i, f in self.ir.functions.items() if f.get('rec') == fv.rec and f.get('op') == '()' and 'body' in f and len(f['p']) == len(args)]
                fid = g[0] if g else fid
            return self.call(fid, fv, args, st, e)
        if isinstance(fv, Ptr) and fv.idx is None:
            return self.callv(self.ld(fv.ref, st), args, st, e)
        if isinstance(fv, Struct):
            r = self.ir.rec(fv.rec)
            ops = [i for i, f in self.ir.functions.items() if f.get('rec') == fv.rec and f.get('op') == '()']
            if len(ops) == 1:
                return self.call(int(ops[0]), self.toref(fv, st), args, st, e)
        raise Unsupported('call of %s' % type(fv).__name__)

    def call(self, fid, this, args, st, e=None):
        f = self.ir.fn(fid)
        q = f['qn']
        ov = self.over.get(q)
        if ov is not None:
            return ov(self, st, f, this, args, e)
        r = f.get('rec')
        if isinstance(this, (Ref, RefIte)) and f.get('op') == '()' and 'lambda' in (self.ir.rec(r) if r else {}):
            this = self.ld(this, st)
        if f.get('defaulted') and f['kind'] == 'method' and f.get('op') == '=':
            v = self.ld(args[0], st)
            self.write(this, v, st)
            return this
        if f['kind'] == 'ctor' and (f.get('copy') or f.get('move')) and f.get('defaulted'):
            return self.ld(args[0], st)
        if 'body' in f:
            return self.inline(fid, f, this, args, st)
        return self.models.dispatch(self, st, f, this, args, e)

    def inline(self, fid, f, this, args, st):
        if len(self.frames) > 120:
            raise Unsupported('call depth')
        self.steps += 1
        self.calls[f['qn']] = self.calls.get(f['qn'], 0) + 1
        fr = Frame(fid, f, None)
        if isinstance(this, Lam):
            fr.env.update(this.caps)
            fr.this = this.this
        elif this is not None:
            fr.this = self.toref(this, st)
        for p, a in zip(f['p'], args):
            if self.tclass(p['t']) == 'r':
                fr.env[p['d']] = self.toref(a, st)
            elif self.isproxy(p['t']):
                fr.env[p['d']] = a
            else:
                r = self.new_root(p['n'] or 'arg')
                st.mem[r] = self.ld(a, st)
                fr.env[p['d']] = Ref(r)
        self.frames.append(fr)
        loc = self.loc
        tc = self.throwcount
        pc0 = st.pc
        try:
            if f['kind'] == 'ctor':
                self.ctor_inits(f, fr, st)
            out = self.ex(f['body'], st.clone())
        finally:
            self.frames.pop()
            self.loc = loc
        isref = self.tclass(f['ret']) == 'r' or self.isproxy(f['ret'])
        states = []
        for s, v in out.ret:
            if not isref:
                v = self.ld(v, s) if v is not None else None
            states.append((s, v))
        if out.n is not None:
            states.append((out.n, None))
        if not states:
            raise Dead()
        m, v = self.merge_list(states, self.throwcount != tc)
        st.become(m)
        if self.throwcount == tc:
            st.pc = pc0
        return v

    def merge_list(self, states, minimise=False):
        if len(states) == 1:
            return states[0]
        common = set.intersection(*[lits(s.pc) for s, _ in states])
        m, v = states[-1]
        later = [states[-1][0]]
        for s, w in reversed(states[:-1]):
            cl = lits(s.pc) - common
            if minimise:
                # paths that left by an exception make some conditions irrelevant for telling the remaining ones apart
                for l in sorted(cl, key=lambda n: -n.id):
                    if len(cl) > 1 and all(band(*(cl - {l}), o.pc) is FALSE for o in later):
                        cl = cl - {l}
            later.append(s)
            c = band(*cl)
            m = merge_st(c, s, m)
            if w is None and v is None:
                v = None
            else:
                v = merge(c, w, v)
        return m, v

    def ctor_inits(self, f, fr, st):
        this = fr.this
        for i in f.get('inits') or []:
            self.loc = i.get('l') or self.loc
            if 'f' in i:
                if i['e'] is None:
                    continue
                v = self.ev(i['e'], st)
                if self.tclass(i['ft']) != 'r':
                    v = self.ld(v, st)
                self.write(this.at(('f', i['f'])), v, st)
            elif 'base' in i:
                v = self.ld(self.ev(i['e'], st), st)
                if isinstance(v, Struct):
                    cur = self.ld(this, st)
                    for k, x in v.f.items():
                        self.write(this.at(('f', k)), x, st)
                elif v is not None and isinstance(self.ld(this, st), Struct):
                    self.write(this.at(('f', '<base>')), v, st)
            else:
                v = self.ld(self.ev(i['e'], st), st)
                self.write(this, v, st)

    def e_ctor(self, e, st):
        f = self.ir.fn(e['f'])
        r = self.ir.rec(e['rec'])
        args = [self.ev(x, st) for x in e['args']]
        self.loc = e.get('l') or self.loc
        if (f.get('copy') or f.get('move')) and (f.get('defaulted') or not r.get('repo')) and len(args) >= 1:
            return args[0] if r['qn'] in self.models.PROXY else self.ld(args[0], st)
        ov = self.over.get(f['qn'])
        if ov is not None:
            return ov(self, st, f, None, args, e)
        if 'body' in f and r.get('repo'):
            base = self.default_value(e['t'], r['n'])
            if not isinstance(base, Struct):
                base = Struct(e['rec'], {})
            ref = self.temp(st, base, r['n'] or 'obj')
            self.inline(e['f'], f, ref, args, st)
            return self.ld(ref, st)
        if f.get('dflt') and r.get('repo') and 'f' in r:
            base = self.default_value(e['t'], r['n'])
            for fl in r['f']:
                if fl.get('init'):
                    base = base.set(fl['n'], self.ld(self.ev(fl['init'], st), st))
            return base
        return self.models.construct(self, st, f, r, args, e)

    # ---------- statements
    def ex(self, s, st):
        o = Out()
        if s is None:
            o.n = st
            return o
        if s.get('l'):
            self.loc = s['l']
        m = getattr(self, 's_' + {'{}': 'block', 'null': 'nop', 'if': 'if', 'for': 'for', 'while': 'while', 'do': 'do', 'try': 'try'}.get(s['k'], s['k']), None)
        if m is None:
            raise Unsupported('statement %s %s' % (s['k'], s.get('cls', '')))
        try:
            return m(s, st)
        except Dead:
            return o

    def s_nop(self, s, st):
        return Out(st)

    def s_block(self, s, st):
        o = Out(st)
        for x in s['s']:
            r = self.ex(x, o.n)
            o.take(r)
            o.n = r.n
            if o.n is None:
                break
        return o

    def s_decl(self, s, st):
        for v in s['v']:
            self.decl(v, st)
        return Out(st)

    def decl(self, v, st):
        fr = self.frames[-1]
        self.loc = v.get('l') or self.loc
        if v.get('static'):
            fr.env[v['d']] = self.glob(v['d'], st) if str(v['d']) in self.ir.vars else self.temp(st, self.ld(self.ev(v['init'], st), st))
            return
        if 'init' in v and v['init'] is not None:
            x = self.ev(v['init'], st)
            if self.tclass(v['t']) == 'r' or (self.isproxy(v['t']) and isinstance(x, (Ref, RefIte))):
                fr.env[v['d']] = self.toref(x, st)
            else:
                r = self.new_root(v['n'] or 'v')
                st.mem[r] = self.ld(x, st)
                fr.env[v['d']] = Ref(r)
        else:
            r = self.new_root(v['n'] or 'v')
            st.mem[r] = self.default_value(v['t'], v['n'] or 'v')
            fr.env[v['d']] = Ref(r)
        for b in v.get('bindings') or []:
            if 'hv' in b:
                self.decl(b['hv'], st)
                fr.env[b['d']] = fr.env[b['hv']['d']]

    def s_expr(self, s, st):
        self.ev(s['e'], st)
        return Out(st)

    def s_ret(self, s, st):
        o = Out()
        v = None
        if s['e'] is not None:
            v = self.ev(s['e'], st)
        o.ret.append((st, v))
        return o

    def s_brk(self, s, st):
        o = Out()
        o.brk.append(st)
        return o

    def s_cont(self, s, st):
        o = Out()
        o.cont.append(st)
        return o

    def s_if(self, s, st):
        o = Out()
        if s.get('init'):
            self.ex(s['init'], st)
        if s.get('cvar'):
            self.decl(s['cvar'], st)
        c = self.know(self.boolean(self.ev(s['c'], st), st), st)
        if c is TRUE:
            return self.ex(s['a'], st)
        if c is FALSE:
            return self.ex(s['b'], st)
        s1, s2 = st.clone(c), st.clone(bnot(c))
        a = self.ex(s['a'], s1)
        b = self.ex(s['b'], s2)
        o.take(a)
        o.take(b)
        if a.n is not None and b.n is not None:
            o.n = merge_st(c, a.n, b.n)
            if a.n.pc is band(st.pc, c) and b.n.pc is band(st.pc, bnot(c)):
                o.n.pc = st.pc
        else:
            o.n = a.n or b.n
        return o

    def s_switch(self, s, st):
        o = Out()
        if s.get('init'):
            self.ex(s['init'], st)
        v = self.num(self.ev(s['c'], st), st)
        body = s['body']['s'] if s['body']['k'] == '{}' else [s['body']]
        seen = []
        hasdef = False
        allcases = []

        def collect(x):
            while x and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    allcases.append(zero(sub(v, self.num(self.ev(x['e'], st), st))))
                x = x['s']
        for x in body:
            collect(x)
        cur = None
        done = []
        for x in body:
            g = None
            while x and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    c = zero(sub(v, self.num(self.ev(x['e'], st), st)))
                else:
                    c = bnot(bor(*allcases))
                    hasdef = True
                g = c if g is None else bor(g, c)
                x = x['s']
            if g is not None:
                g = self.know(g, st)
                if g is not FALSE:
                    en = st.clone(g)
                    cur = en if cur is None else merge_st(g, en, cur)
            if cur is not None:
                r = self.ex(x, cur)
                done += r.brk
                o.cont += r.cont
                o.ret += r.ret
                cur = r.n
        if cur is not None:
            done.append(cur)
        if not hasdef:
            g = self.know(bnot(bor(*allcases)), st)
            if g is not FALSE:
                done.append(st.clone(g))
        if done:
            o.n = self.merge_list([(d, None) for d in done])[0]
        return o

    def s_try(self, s, st):
        self.throws.append([])
        try:
            r = self.ex(s['body'], st)
        finally:
            ts = self.throws.pop()
        o = Out()
        o.take(r)
        normals = [(r.n, None)] if r.n is not None else []
        for t in ts:
            handled = False
            for h in s['h']:
                if 'ty' not in h or self.catches(h['ty'], t):
                    hs = St(dict(t.mem), t.ev, t.pc)
                    if 'var' in h:
                        rr = self.temp(hs, t.val if t.val is not None else fn('exc'), 'exc')
                        self.frames[-1].env[h['var']['d']] = rr
                    hs.ev = hs.ev + (('catch', t.ty, t.loc),)
                    r2 = self.ex(h['body'], hs)
                    o.take(r2)
                    if r2.n is not None:
                        normals.append((r2.n, None))
                    handled = True
                    break
            if not handled:
                self.throws[-1].append(t)
        if normals:
            # exceptional states first: each is selected by its own condition
            o.n = self.merge_list(normals[1:] + normals[:1])[0] if r.n is not None else self.merge_list(normals)[0]
        return o

    def catches(self, ty, t):
        q = self.recname(ty)
        if q is None:
            x = self.ir.ty(ty)
            while x['c'] == 'r':
                x = self.ir.ty(x['pt'])
            q = self.ir.rec(x['rec'])['qn'] if x['c'] == 'rec' else x['s']
        if t.ty == q:
            return True
        return q in self.bases(t.ty)

    def bases(self, q):
        out = set(STDBASES.get(q, ()))
        for r in self.ir.records.values():
            if r and r['qn'] == q:
                for b in r.get('b') or []:
                    n = self.recname(b)
                    if n and n not in out:
                        out.add(n)
                        out |= self.bases(n)
        return out

    # ---------- OpenMP
    def s_omp(self, s, st):
        d = s['dir']
        if d in ('atomic', 'critical'):
            if d == 'atomic':
                self.atomic += 1
            else:
                self.critical += 1
            try:
                return self.ex(s['body'], st)
            finally:
                if d == 'atomic':
                    self.atomic -= 1
                else:
                    self.critical -= 1
        if s['body'] is None:
            return Out(st)
        if 'for' in d.split():
            old, self.par = self.par, {'dir': d, 'cl': s['cl'], 'loc': self.ir.loc(s['l'])}
            try:
                return self.ex(s['body'], st)
            finally:
                self.par = old
        if d in ('parallel', 'single', 'master', 'barrier', 'simd', 'taskwait'):
            return self.ex(s['body'], st)
        raise Unsupported('OpenMP directive ' + d)

    # ---------- loops
    def s_for(self, s, st):
        par, self.par = self.par, None
        if s.get('init'):
            r = self.ex(s['init'], st)
            if r.n is None:
                return r
            st = r.n

        def step(x):
            c = self.boolean(self.ev(s['c'], x), x) if s['c'] else TRUE
            return c

        def body(x):
            o = self.ex(s['body'], x)
            n = self.join([o.n] + o.cont)
            o.cont = []
            if n is not None and s['inc']:
                try:
                    self.ev(s['inc'], n)
                except Dead:
                    n = None
            o.n = n
            return o
        return self.loop(st, step, body, s['l'], par)

    def s_while(self, s, st):
        def step(x):
            if s.get('cvar'):
                self.decl(s['cvar'], x)
            return self.boolean(self.ev(s['c'], x), x)

        def body(x):
            o = self.ex(s['body'], x)
            o.n = self.join([o.n] + o.cont)
            o.cont = []
            return o
        return self.loop(st, step, body, s['l'], None)

    def s_do(self, s, st):
        # first iteration unrolled, then a while loop
        o = self.ex(s['body'], st)
        n = self.join([o.n] + o.cont)
        brk, ret = o.brk, o.ret
        if n is None:
            r = Out(self.join(brk))
            r.ret = ret
            return r
        o2 = self.s_while(s, n)
        o2.ret += ret
        if brk:
            o2.n = self.join(brk + [o2.n])
        return o2

    def join(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        return self.merge_list([(s, None) for s in sts], len(sts) <= 8)[0]

    def s_rfor(self, s, st):
        par, self.par = self.par, None
        if s.get('init'):
            self.ex(s['init'], st)
        rv = self.ev(s['range'], st)
        ref = self.toref(rv, st)
        v = self.ld(ref, st)
        var = s['var']
        fr = self.frames[-1]

        def bind(x, elref, val=None):
            if self.tclass(var['t']) == 'r' and elref is not None:
                fr.env[var['d']] = elref
            else:
                r = self.new_root(var['n'] or 'v')
                x.mem[r] = self.ld(elref, x) if elref is not None else val
                fr.env[var['d']] = Ref(r)
            for b in var.get('bindings') or []:
                if 'e' in b and b['e'] is not None:
                    pass

        def body_for(el):
            def body(x):
                el(x)
                o = self.ex(s['body'], x)
                o.n = self.join([o.n] + o.cont)
                o.cont = []
                return o
            return body
        if isinstance(v, Tup):
            o = Out()
            cur = st
            brk = []
            for k in range(len(v.i)):
                r = body_for(lambda x, k=k: bind(x, ref.at(('i', C(k)))))(cur)
                brk += r.brk
                o.ret += r.ret
                cur = r.n
                if cur is None:
                    break
            o.n = self.join(brk + [cur])
            return o
        if isinstance(v, SArr) and len(v.dims) == 1:
            return self.counted(st, v.dims[0], lambda x, i: bind(x, ref.at(('i', i))), s, par)
        if isinstance(v, SeqV):
            return self.over_seq(st, v, lambda x, val: bind(x, None, val), s['body'], s['l'], par)
        if isinstance(v, N):
            n = fn('size', v)
            return self.counted(st, n, lambda x, i: bind(x, None, fn('elem', v, i)), s, par)
        raise Unsupported('range-for over %s' % type(v).__name__)

    def counted(self, st, n, bindel, s, par, stmt=None):
        cr = self.new_root('it')
        st.mem[cr] = ZERO
        cref = Ref(cr)

        def step(x):
            return cmp('<', self.ld(cref, x), n, True)

        def body(x):
            bindel(x, self.ld(cref, x))
            o = self.ex(s['body'], x)
            o.n = self.join([o.n] + o.cont)
            o.cont = []
            if o.n is not None:
                self.write(cref, add(self.ld(cref, o.n), ONE), o.n)
            return o
        return self.loop(st, step, body, s['l'], par)

    def over_seq(self, st, v, bindval, bodystmt, loc, par):
        o = Out()
        cur = st
        n = v.n
        segs = n.a[0] if n.op == 'seq' else (('all', TRUE, n),)
        for sg in segs:
            if cur is None:
                break
            if sg[0] == 'one':
                d = dict(zip(leaves(v.sch), sg[2]))
                val = build(v.sch, lambda p: d[p])
                g = self.know(sg[1], cur)
                if g is FALSE:
                    continue
                s1 = cur.clone(g)
                bindval(s1, val)
                r = self.ex(bodystmt, s1)
                o.take(r)
                if r.brk or r.cont or r.ret:
                    raise Unsupported('early exit from a loop over a list')
                cur = merge_st(g, r.n, cur) if g is not TRUE else r.n
            elif sg[0] == 'comp':
                g, binders, elem = sg[1], sg[2], sg[3]
                d = dict(zip(leaves(v.sch), elem))
                val = build(v.sch, lambda p: d[p])

                def body(x, val=val, g=g):
                    gg = self.know(g, x)
                    if gg is FALSE:
                        return Out(x)
                    s1 = x.clone(gg)
                    bindval(s1, val)
                    r = self.ex(bodystmt, s1)
                    r.n = self.join([r.n] + r.cont)
                    r.cont = []
                    if r.n is not None and gg is not TRUE:
                        r.n = merge_st(gg, r.n, x)
                    return r
                r = self.loop(cur, lambda x: TRUE, body, loc, par, binders=binders)
                o.ret += r.ret
                cur = r.n
            else:
                base = sg[2]
                g = self.know(sg[1], cur)
                if g is FALSE:
                    continue
                s1 = cur.clone(g)
                if base.op == 'seq':
                    r = self.over_seq(s1, SeqV(v.sch, base, v.name), bindval, bodystmt, loc, par)
                else:
                    val = lambda i: build(v.sch, lambda p: mk('sel', mk('aseq', base, p), (i,)))
                    r = self.counted(s1, fn('size', base), lambda x, i: bindval(x, val(i)), {'body': bodystmt, 'l': loc}, par)
                o.ret += r.ret
                cur = merge_st(g, r.n, cur) if g is not TRUE and r.n is not None else r.n
        o.n = cur
        o.brk = []
        return o

    MAXUNROLL = 256

    def loop(self, st, step, body, loc, par, binders=None):
        # 1. bounded loops are unrolled: the trip count is decided by the abstract values alone
        if binders is None:
            r = self.try_unroll(st, step, body)
            if r is not None:
                return r
        return self.summarise(st, step, body, loc, par, binders)

    def try_unroll(self, st, step, body):
        probe = st.clone()
        nl, nt = len(self.loops), [len(x) for x in self.throws]
        lr = [len(x) for x in self.recs]
        tc = self.throwcount

        def rollback():
            del self.loops[nl:]
            for x, k in zip(self.throws, nt):
                del x[k:]
            for x, k in zip(self.recs, lr):
                del x[k:]
            self.throwcount = tc
        o = Out()
        cur = probe
        brk = []
        for k in range(self.MAXUNROLL):
            try:
                c = step(cur)
            except Dead:
                cur = None
                break
            c = self.know(c, cur)
            if c is FALSE:
                break
            if c is not TRUE:
                if k == 0:
                    rollback()
                    return None
                # gated unrolling is only attempted for loops whose exit is decided by a flag after a bounded count
                rollback()
                return self.gated_unroll(st, step, body)
            r = body(cur)
            brk += r.brk
            o.ret += r.ret
            cur = r.n
            if cur is None:
                break
        else:
            rollback()
            return None
        o.n = self.join(brk + [cur])
        return o

    def gated_unroll(self, st, step, body, limit=40):
        """unroll a loop whose trip count is bounded by a constant but which may leave earlier under a condition"""
        nl, nt = len(self.loops), [len(x) for x in self.throws]
        lr = [len(x) for x in self.recs]
        tc = self.throwcount
        cur = st.clone()
        exits = []
        o = Out()
        prev = None
        for k in range(limit):
            c = step(cur)
            c = self.know(c, cur)
            if c is FALSE:
                break
            counted = c is not TRUE and c.op == 'ipos' and (k == 0 or prev is not None and prev.op == 'ipos' and isc(sub(prev.a[0], c.a[0])))
            if counted and prev is not None:    # a counted loop whose bound is unknown
                del self.loops[nl:]
                for x, q in zip(self.throws, nt):
                    del x[q:]
                for x, q in zip(self.recs, lr):
                    del x[q:]
                self.throwcount = tc
                return None
            prev = c if c is not TRUE and c.op == 'ipos' else None
            if c is not TRUE:
                exits.append(cur.clone(bnot(c)))
                cur = cur.clone(c)
            r = body(cur)
            exits += r.brk
            o.ret += r.ret
            cur = r.n
            if cur is None:
                break
        else:
            del self.loops[nl:]
            for x, q in zip(self.throws, nt):
                del x[q:]
            for x, q in zip(self.recs, lr):
                del x[q:]
            self.throwcount = tc
            return None
        pcs = st.pc
        o.n = self.join(exits + [cur])
        if o.n is not None and not o.ret and self.throwcount == tc:
            o.n.pc = pcs
        return o

    def keyof(self, root, steps, st):
        """granularity of carried state: the containing object down to the first index"""
        p = []
        v = st.mem.get(root)
        for t, x in steps:
            if t != 'f' or not isinstance(v, Struct):
                break
            if x not in v.f:
                break
            v = v.f[x]
            p.append((t, x))
        return root, tuple(p)

    def getkey(self, st, key):
        return self.nav(st.mem[key[0]], key[1])

    def setkey(self, st, key, v):
        st.mem[key[0]] = self.upd(st.mem[key[0]], key[1], v)

    def havoc(self, v, name):
        def h(p, x):
            nm = '%s.%s' % (name, '.'.join(map(str, p)))
            if not isinstance(x, N):
                return x
            if isbool(x):
                return fresh2('bsym', nm)
            if isarr(x) or x.op == 'aopaque':
                return fresh2('abase', nm)
            if x.op in ('seq', 'seqbase', 'sequpd'):
                return seq((('all', TRUE, fresh2('seqbase', nm)),))
            r = fresh2('sym', nm)
            e = enum_of(x)
            if e:
                ENUMS[r.a[0]] = e
            return r

        def ha(p, x):
            if isinstance(x, N) and isarr(x):
                r = fresh2('abase', '%s.%s' % (name, '.'.join(map(str, p))))
                e = ENUMS.get(self.basename(x))
                if e:
                    ENUMS[r.a[0]] = e
                return r
            return h(p, x)
        return mapleaves(v, ha)

    def basename(self, a):
        while True:
            if a.op in ('abase', 'aver'):
                return a.a[0]
            if a.op in ('astore', 'amap'):
                a = a.a[0]
            elif a.op == 'aite':
                a = a.a[1]
            else:
                return None

    def summarise(self, st, step, body, loc, par, binders):
        entry_roots = set(st.mem)
        written = {}
        marks = (len(self.loops), [len(x) for x in self.throws], [len(x) for x in self.recs])

        def rollback():
            del self.loops[marks[0]:]
            for x, k in zip(self.throws, marks[1]):
                del x[k:]
            for x, k in zip(self.recs, marks[2]):
                del x[k:]
        L = Loop()
        L.loc = self.ir.loc(loc)
        L.fn = self.frames[-1].f['qn']
        L.stack = [f.f['qn'] for f in self.frames]
        L.par = par
        L.outer = list(self.loopstack)
        L.entry_roots = entry_roots
        if par:
            self.parstack.append(L)
        self.loopstack.append(L)
        tc0 = self.throwcount
        try:
            ind = None
            for it in range(14):
                cur = st.clone()
                hv = {}
                for key in written:
                    v = self.getkey(cur, key)
                    h = self.havoc(v, key[0] + '.' + '.'.join(x for _, x in key[1]))
                    hv[key] = (v, h)
                    if ind is not None and ind['k'][0] == key:
                        hh = h

                        def put(p, x, key=key):
                            return ind['expr'] if p == ind['k'][1] else x
                        self.setkey(cur, key, mapleaves(hh, put))
                    else:
                        self.setkey(cur, key, h)
                rec = []
                self.recs.append(rec)
                self.throws.append([])
                try:
                    c = step(cur)
                    cc = c
                    s1 = cur.clone(c)
                    head = cur
                    try:
                        o = body(s1)
                    except Dead:
                        o = Out()
                finally:
                    self.recs.pop()
                    ts = self.throws.pop()
                new = {}
                for r in rec:
                    if r[0] == 'w' and r[1] in entry_roots:
                        k = self.keyof(r[1], r[2], st)
                        if not any(k[0] == w[0] and k[1][:len(w[1])] == w[1] for w in written):
                            new[k] = 1
                if not new:
                    if ind is None and binders is None:
                        ind = self.induction(hv, head, o, cc)
                        if ind is not None:
                            rollback()
                            continue
                    break
                ind = None
                for k in new:
                    for w in list(written):
                        if w[0] == k[0] and w[1][:len(k[1])] == k[1]:
                            del written[w]
                    if not any(k[0] == w[0] and k[1][:len(w[1])] == w[1] for w in written):
                        written[k] = 1
                rollback()
            else:
                raise Unsupported('loop state does not stabilise')
        finally:
            self.loopstack.pop()
            if par:
                self.parstack.pop()
        L.acc = rec
        L.cond = cc
        L.st0 = st
        L.indinfo = ind
        self.finish(L, st, head, hv, o, cc, binders, ts)
        for x in self.recs:
            pass
        self.loops.append(L)
        L.throws = ts
        out = Out()
        out.n = L.exit
        for s, v in o.ret:
            g = band(*(lits(s.pc) - lits(st.pc)))
            s2 = self.close_state(L, s, st)
            s2.pc = band(st.pc, mk('exists', L.binder, L.lo, L.hi, subst(g, L.hmap)))
            vv = v
            try:
                if isinstance(v, N):
                    vv = self.close_node(L, v)
            except Unsupported:
                pass
            out.ret.append((s2, vv))
            L.early = True
        if o.ret and out.n is not None:
            out.n.pc = band(out.n.pc, *[bnot(mk('exists', L.binder, L.lo, L.hi, subst(band(*(lits(s.pc) - lits(st.pc))), L.hmap))) for s, _ in o.ret])
        for t in ts:
            g = band(*(lits(t.pc) - lits(st.pc)))
            t2 = Throw(band(st.pc, mk('exists', L.binder, L.lo, L.hi, subst(g, L.hmap))), t.ty, t.val, self.close_mem(L, t.mem, st), t.ev, t.loc)
            t2.tid, t2.stack, t2.inpar = t.tid, t.stack, t.inpar
            t2.inner = t
            self.throws[-1].append(t2)
        return out

    # leaves a loop through break/return/throw: carried values are those of an unknown iteration
    def close_mem(self, L, mem, st):
        m = dict(mem)
        for key, (v, h) in L.hv.items():
            d = {}
            if key[0] in m:
                try:
                    cur = self.nav(m[key[0]], key[1])
                    m[key[0]] = self.upd(m[key[0]], key[1], mapleaves(cur, lambda p, x: self.close_node(L, x) if isinstance(x, N) else x))
                except Unsupported:
                    pass
        return m

    def close_node(self, L, x):
        x = subst(x, L.hmap)
        hs = [b for b in x.bv if b in L.allh]
        if hs:
            m = {}
            for b in hs:
                if b.op == 'sym':
                    m[b] = mk('rec', L.id, b.a[0], self.deps(L))
                elif b.op == 'bsym':
                    m[b] = mk('brec', L.id, b.a[0], self.deps(L))
                elif b.op == 'abase':
                    m[b] = mk('aopaque', L.id, b.a[0], self.deps(L))
            x = subst(x, m)
        return x

    def close_state(self, L, s, st):
        return St(self.close_mem(L, s.mem, st), st.ev + ((('loop', L),) if L.exit is not None and len(L.exit.ev) > len(st.ev) else ()) + (('loop-exit', L, s.ev[len(st.ev):]),), st.pc)

    nloop = 0
    plain_exit = None       # loops after which every carried value stays symbolic

    def finish(self, L, st, head, hv, o, cond, binders, ts):
        Interp.nloop += 1
        L.id = Interp.nloop
        L.hv = hv
        L.breaks = o.brk
        L.normal = o.n
        flat_i, flat_h, flat_p, flat_c = {}, {}, {}, {}
        shape_bad = set()
        for key, (v, h) in hv.items():
            fi, fh = flatten(v), flatten(h)
            fp = None
            fc = flatten(self.getkey(head, key))
            if o.n is not None:
                try:
                    pv = self.getkey(o.n, key)
                    fp = flatten(pv)
                except Unsupported:
                    fp = None
            for p in fh:
                k = (key, p)
                flat_i[k], flat_h[k] = fi[p], fh[p]
                flat_c[k] = fc.get(p)
                if o.n is None:
                    flat_p[k] = fh[p]
                elif fp is None or p not in fp:
                    flat_p[k] = None
                    shape_bad.add(k)
                else:
                    flat_p[k] = fp[p]
        L.names = {k: '%s.%s' % (k[0][0].split('~')[0] + ''.join('.' + x for _, x in k[0][1]), '.'.join(map(str, k[1]))) for k in flat_h}
        hnode = {}
        for k, h in flat_h.items():
            if isinstance(h, N):
                hnode[k] = h.a[0][0][2] if h.op == 'seq' else h
        L.allh = set(hnode.values())
        L.flat_i, L.flat_h, L.flat_p, L.flat_c = flat_i, flat_h, flat_p, flat_c
        hmap = {}
        unresolved = []
        for k, h in flat_h.items():
            if not isinstance(h, N):
                continue
            if flat_p[k] is h and flat_c[k] is h:
                hmap[hnode[k]] = self.initnode(flat_i[k])
            elif flat_p[k] is None:
                unresolved.append(k)
            else:
                unresolved.append(k)
        L.hmap = hmap
        L.early = bool(o.brk)
        cond = subst(cond, hmap)
        # --- induction variable
        L.binder = None
        L.whilecond = TRUE
        steps = {}
        for k in unresolved:
            h, p = flat_h[k], flat_p[k]
            if h.op == 'sym' and p is not None:
                d = sub(p, h)
                if isc(d) and cval(d) != 0:
                    steps[k] = cval(d)
        if binders is not None:
            L.binder, L.lo, L.hi = binders[0]
            L.morebinders = tuple(binders[1:])
            L.rev = False
        else:
            L.morebinders = ()
            L.rev = False
            i = L.indinfo
            if i is not None:
                k = i['k']
                L.binder, L.lo, L.hi, L.rev = i['b'], i['lo'], i['hi'], i['rev']
                hmap[flat_h[k]] = i['expr']
                steps[k] = i['d']
                L.ind = k
                L.indhi = i['indhi']
                L.whilecond = subst(cond, hmap)
                unresolved.remove(k)
        if L.binder is None:
            b = fresh2('sym', 'it', 'bound')
            L.binder, L.lo, L.hi = b, ZERO, fn('iters', C(L.id), *self.deps(L))
            L.ind = None
            L.whilecond = cond
            L.generic = True
        else:
            L.generic = False
            if L.whilecond is not TRUE:
                L.early = True
        for k, d in steps.items():
            if k in unresolved:
                if L.rev and L.ind is not None:
                    cnt = sub(sub(L.hi, ONE), sub(L.binder, ZERO))
                else:
                    cnt = sub(L.binder, L.lo)
                hmap[flat_h[k]] = add(flat_i[k], scale(cnt, d))
                unresolved.remove(k)
        LOOPRANGE[L.binder] = (L.lo, L.hi)
        rng = ((L.binder, L.lo, L.hi),) + L.morebinders
        L.rng = rng
        final = {}
        if not L.early:
            # --- accumulators, arrays, lists
            for k in list(unresolved):
                h = flat_h[k]
                if isinstance(h, N) and isarr(h) and flat_c[k] is h and flat_p[k] is not None:
                    o1 = self.ownslot(L, h, subst(flat_p[k], hmap), hmap)
                    if o1 is not None:
                        hmap[h] = flat_i[k]
            progress = True
            while progress:
                progress = False
                for k in list(unresolved):
                    r = self.resolve(L, k, flat_i[k], flat_h[k], flat_p[k], flat_c[k], hnode[k], hmap, rng, hnode, unresolved)
                    if r is not None:
                        val, back = r
                        final[k] = val
                        if back is not None:
                            hmap[hnode[k]] = back
                        unresolved.remove(k)
                        progress = True
                        break
        L.unresolved = unresolved
        # --- exit state
        ex = St(dict(st.mem), st.ev, st.pc)
        brk_vals = {}
        if L.early and len(o.brk) >= 1:
            bj = self.join(o.brk)
            for key, (v, h) in hv.items():
                try:
                    for p, x in flatten(self.getkey(bj, key)).items():
                        brk_vals[(key, p)] = x
                except Unsupported:
                    pass
            L.brkguard = subst(band(*(lits(bj.pc) - lits(st.pc))), hmap)
        L.brk_vals = brk_vals
        L.final = final
        plain = self.plain_exit is not None and self.plain_exit(L)
        L.rets = o.ret
        for key, (v, h) in hv.items():
            def val(p, x, key=key):
                k = (key, p)
                fi = flat_i[k]
                if not isinstance(x, N):
                    fp = flat_p.get(k)
                    return fp if not isinstance(fp, N) and fp is not None else x
                if not L.early and not plain:
                    if k in final:
                        return final[k]
                    if hnode[k] in hmap and k not in unresolved:
                        if flat_p[k] is flat_h[k] and flat_c[k] is flat_h[k]:
                            return fi
                        if k == L.ind:
                            return self.ind_final(L, k, steps)
                        if k in steps:
                            return add(fi, scale(sub(L.hi, L.lo), steps[k]))
                elif not plain:
                    r = self.early_value(L, k, fi, brk_vals, hmap, hnode)
                    if r is not None:
                        return r
                return self.recnode(L, k, fi)
            try:
                nv = mapleaves(h, val)
            except Unsupported:
                nv = mk('opaque', 'loop', C(L.id))
            self.setkey(ex, key, nv)
        evs = (o.n.ev if o.n is not None else ())[len(st.ev):] if o.n is not None else ()
        if o.n is not None:
            evs = prune(evs, o.n.pc)
        L.events = evs
        L.brk_events = [b.ev[len(st.ev):] for b in o.brk]
        if evs or any(L.brk_events):
            ex.ev = st.ev + (('loop', L),)
        L.exit = ex
        if o.n is None and not o.brk and not o.ret:
            # body never completes: the loop is left only when the condition is initially false (or by an exception)
            pass
        if cond is TRUE and not o.brk and binders is None and L.ind is None:
            L.exit = None

    def induction(self, hv, head, o, cond):
        """the counter that bounds the loop: constant step, tested against a loop-invariant bound"""
        if o.n is None:
            return None
        fi, fh, fp, hm = {}, {}, {}, {}
        allh = set()
        for key, (v, h) in hv.items():
            try:
                a, b, c, d = flatten(v), flatten(h), flatten(self.getkey(o.n, key)), flatten(self.getkey(head, key))
            except Unsupported:
                continue
            for p, x in b.items():
                if not isinstance(x, N):
                    continue
                y = x.a[0][0][2] if x.op == 'seq' else x
                allh.add(y)
                if c.get(p) is x and d.get(p) is x:
                    hm[y] = a[p]
                elif x.op == 'sym' and isinstance(c.get(p), N) and d.get(p) is x:
                    s = sub(c[p], x)
                    if isc(s) and cval(s) != 0:
                        k = (key, p)
                        fi[k], fh[k], fp[k] = a[p], x, cval(s)
        lt = lits(subst(cond, hm))
        for k, d in sorted(fp.items(), key=lambda t: fh[t[0]].id):
            h = fh[k]
            for c in sorted(lt, key=lambda n: n.id):
                r = self.bound(c, h, d, fi[k], allh)
                if r is None:
                    continue
                lo, hi, rest = r
                b = fresh2('sym', 'k', 'bound')
                R = {'k': k, 'd': d, 'b': b, 'indhi': hi, 'rev': d < 0}
                if d == 1:
                    R['lo'], R['hi'], R['expr'] = lo, hi, b
                elif d > 0:
                    R['lo'], R['hi'], R['expr'] = ZERO, fn('ceil', scale(sub(hi, lo), 1 / d)), add(lo, scale(b, d))
                elif d == -1:
                    R['lo'], R['hi'], R['expr'] = ZERO, sub(hi, lo), add(b, lo)
                else:
                    R['lo'], R['hi'], R['expr'] = ZERO, fn('ceil', scale(sub(hi, lo), 1 / -d)), add(sub(hi, ONE), scale(b, d))
                LOOPRANGE[b] = (R['lo'], R['hi'])
                return R
        return None

    def ind_final(self, L, k, steps):
        d = steps[k]
        fi = L.flat_i[k]
        hi = L.indhi
        if d == 1:
            # final value is max(init, hi); loops are entered with init <= hi
            return hi
        if d == -1:
            return sub(L.lo, ONE) if False else mk('rec', L.id, L.flat_h[k].a[0], self.deps(L))
        return mk('rec', L.id, L.flat_h[k].a[0], self.deps(L))

    def bound(self, c, h, d, init, allh):
        """(lo, hi, rest) range of h decided by literal c"""
        def free(n):
            return not (n.bv & allh)
        if not free(init):
            return None
        if c.op in ('ipos', 'pos'):
            k, m = nd._lin(c.a[0])
            if h in m and m[h] in (1, -1):
                co = m[h]
                rest = sub(c.a[0], scale(h, co))
                if not free(rest):
                    return None
                if co == -1 and d > 0:      # rest - h > 0
                    return init, rest, None
                if co == 1 and d < 0:       # h + rest > 0  => h >= 1-rest
                    return sub(ONE, rest), add(init, ONE), None
            return None
        if c.op == 'not' and c.a[0].op == 'zero':
            z = c.a[0].a[0]
            k, m = nd._lin(z)
            if h in m and m[h] in (1, -1):
                e = scale(sub(z, scale(h, m[h])), -m[h])
                if not free(e):
                    return None
                if d == 1:
                    return init, e, None
                if d == -1:
                    return add(e, ONE), add(init, ONE), None
        return None

    def initnode(self, x):
        return x

    def deps(self, L):
        """symbols of enclosing iterations that an unresolved result of the loop may depend on"""
        d = getattr(L, 'deps', None)
        if d is None:
            bv = set()
            for m in (L.flat_i, L.flat_p):
                for x in m.values():
                    if isinstance(x, N):
                        bv |= x.bv
            bv |= L.cond.bv
            bv -= L.allh
            if L.binder is not None:
                bv.discard(L.binder)
            if L.indinfo is not None:
                bv.discard(L.indinfo['b'])
            for b in getattr(L, 'morebinders', ()):
                bv.discard(b[0])
            L.deps = d = tuple(sorted(bv, key=lambda x: x.id))
        return d

    def recnode(self, L, k, fi):
        h = L.flat_h[k]
        nm = L.names[k]
        if h.op == 'bsym':
            return mk('brec', L.id, h.a[0], self.deps(L))
        if isarr(h):
            return self.version(k, mk('arec', L.id, nm, fi, self.deps(L)), fi, L)
        if h.op == 'seq':
            return mk('seqrec', L.id, nm, self.deps(L))
        return mk('rec', L.id, h.a[0], self.deps(L))

    def version(self, k, node, fi, L):
        nm = self.leafname(k, fi)
        n = self.vers.get(nm, 0) + 1
        self.vers[nm] = n
        if node.op == 'amap':
            deps = tuple(sorted(node.bv, key=lambda x: x.id))
            DEFS[(nm, n)] = (deps, node)
        else:
            deps = self.deps(L)
        v = mk('aver', nm, n, deps)
        ALLDEFS[(nm, n)] = (deps, node)
        VERLOOP[(nm, n)] = L
        if nm in ENUMS:
            pass
        return v

    def leafname(self, k, fi):
        b = self.basename(fi)
        if b and '#' not in b:
            return b
        return k[0][0] + ''.join('.' + x for _, x in k[0][1]) + ''.join('.' + str(x) for x in k[1] if x != '[]')

    def early_value(self, L, k, fi, brk_vals, hmap, hnode):
        """value of a carried leaf after a loop that may be left by break"""
        h, p = L.flat_h[k], L.flat_p[k]
        if p is h and L.whilecond is TRUE and not L.generic:
            b = brk_vals.get(k)
            if b is None or b is h:
                return fi
            b = subst(b, hmap)
            if isinstance(b, N) and L.binder not in b.bv and not (b.bv & L.allh) and not isarr(b) and b.op != 'seq':
                g = L.brkguard
                if not (g.bv & L.allh):
                    return ite_any(mk('exists', L.binder, L.lo, L.hi, g), b, fi)
        if p is h and k not in brk_vals:
            return fi
        return None

    # ---- loop-carried leaves
    def resolve(self, L, k, init, h, post, condval, hn, hmap, rng, hnode, unresolved):
        if post is None:
            return None
        if condval is not h:
            return None       # modified by the condition itself
        b = L.binder
        others = {hnode[u] for u in unresolved if u != k}
        if h.op in ('sym', 'bsym'):
            p = subst(post, hmap)
            if isbool(p) or h.op == 'bsym':
                p2 = p
                # h or g / h and g
                if hn not in p2.bv:
                    return None
                if p2.op == 'or' and hn in p2.a[0]:
                    g = bor(*[x for x in p2.a[0] if x is not hn])
                    if not (g.bv & (others | {hn})):
                        return bor(init, self.quant('exists', rng, g)), None
                if p2.op == 'and' and hn in p2.a[0]:
                    g = band(*[x for x in p2.a[0] if x is not hn])
                    if not (g.bv & (others | {hn})):
                        return band(init, bnot(self.quant('exists', rng, bnot(g)))), None
                return None
            d = self.delta(p, hn)
            if d is not None:
                if d.bv & (others | {hn}):
                    return None
                return add(init, self.sums(rng, d)), None
            g = self.maxpat(p, hn)
            if g is not None:
                kind, x = g
                if x.bv & (others | {hn}):
                    return None
                r = mk(kind, rng[0][0], rng[0][1], rng[0][2], x) if len(rng) == 1 else None
                if r is None:
                    return None
                return fn('max2' if kind == 'bigmax' else 'min2', init, r), None
            m = self.prodpat(p, hn)
            if m is not None and not (m.bv & (others | {hn})) and len(rng) == 1:
                return mul(init, mk('nprod', rng[0][0], rng[0][1], rng[0][2], m)), None
            return None
        if h.op == 'seq':
            p = subst(post, hmap)
            if p.op != 'seq':
                return None
            segs = p.a[0]
            if not segs or segs[0] != ('all', TRUE, hn):
                return None
            out = []
            for s in segs[1:]:
                if nodes_bv(s) & (others | {hn}):
                    return None
                if s[0] == 'one':
                    out.append(('comp', s[1], rng, s[2]))
                elif s[0] == 'comp':
                    out.append(('comp', s[1], rng + tuple(s[2]), s[3]))
                else:
                    return None
            base = init.a[0] if init.op == 'seq' else (('all', TRUE, init),)
            if len(out) > 1:
                L.rec['interleaved'] = True
            return seq(base + tuple(out)), None
        if isarr(h):
            return self.resolve_array(L, k, init, h, post, hmap, rng, others, unresolved, hnode)
        return None

    def quant(self, kind, rng, g):
        r = g
        for b, lo, hi in reversed(rng):
            r = mk(kind, b, lo, hi, r)
        return r

    def sums(self, rng, d):
        r = d
        for b, lo, hi in reversed(rng):
            r = nsum(b, lo, hi, r)
        return r

    def delta(self, p, h):
        """p - h where h cancels, else None"""
        if p is h:
            return ZERO
        if h not in p.bv:
            return None
        if p.op == 'ite':
            if h in p.a[0].bv:
                return None
            x, y = self.delta(p.a[1], h), self.delta(p.a[2], h)
            if x is None or y is None:
                return None
            return ite(p.a[0], x, y)
        if p.op == 'sum':
            k, items = p.a
            co = [(n, c) for n, c in items if h in n.bv]
            rest = sub(p, nd._mksum(Fraction(0), dict(co)))
            if len(co) == 1 and co[0][1] == 1:
                d = self.delta(co[0][0], h)
                return None if d is None else add(d, rest)
            # several terms c_i * ite(...h...): try to cancel symbolically
            return None
        return None

    def maxpat(self, p, h):
        if p.op != 'ite':
            return None
        c, a, b = p.a
        if c.op in ('pos', 'ipos'):
            for x, isa in ((a, True), (b, False)):
                o = b if isa else a
                if o is h and h not in x.bv:
                    if c.a[0] is sub(x, h):     # x > h
                        return ('bigmax' if isa else 'bigmin'), x
                    if c.a[0] is sub(h, x):     # h > x
                        return ('bigmin' if isa else 'bigmax'), x
            # guarded maximum:  ite(g, max(h,x), h)
        if h not in c.bv and b is h:
            r = self.maxpat(a, h)
            if r is not None:
                return r[0], mk('guarded', c, r[1])
        if h not in c.bv and a is h:
            r = self.maxpat(b, h)
            if r is not None:
                return r[0], mk('guarded', bnot(c), r[1])
        if c.op == 'and':
            lt = list(c.a[0])
            hs = [x for x in lt if h in x.bv]
            if len(hs) == 1 and b is h and hs[0].op in ('pos', 'ipos') and hs[0].a[0] is sub(a, h):
                return 'bigmax', mk('guarded', band(*[x for x in lt if x is not hs[0]]), a)
        return None

    def prodpat(self, p, h):
        if p.op == 'prod':
            d = dict(p.a[0])
            if d.get(h) == 1:
                r = div(p, h)
                if h not in r.bv:
                    return r
        return None

    def chain(self, p, h):
        """writes of one iteration as (index pattern, value, guard, inner binders), oldest first; None if not of that form"""
        chain = []
        x = p
        while x is not h:
            if x.op == 'astore':
                g, v = strip_self(x.a[2], select(x.a[0], x.a[1]))
                if g is not FALSE:
                    chain.append((x.a[1], v, g, ()))
                x = x.a[0]
            elif x.op == 'amap':
                chain.append((x.a[3], x.a[4], x.a[2], x.a[1]))
                x = x.a[0]
            elif x.op == 'aver' and x.a[:2] in DEFS:
                x = vdef(x)
            elif x.op == 'aite':
                c, y, z = x.a
                p, q = self.chain(y, h), self.chain(z, h)
                if p is None or q is None:
                    return None
                chain.reverse()
                return [(i, v, band(c, g), b) for i, v, g, b in p] + [(i, v, band(bnot(c), g), b) for i, v, g, b in q] + chain
            else:
                return None
        chain.reverse()
        return chain

    def ownslot(self, L, h, p, hmap):
        """(position, offset) when one iteration reads and writes array h only at the element its own index selects"""
        chain = self.chain(p, h)
        b = L.binder
        if not chain:
            return None
        for i in range(len(chain[0][0])):
            offs = {self.own(c[0][i], b) for c in chain}
            if len(offs) != 1 or None in offs:
                continue
            off = offs.pop()
            reads = []
            for u, q in L.flat_p.items():
                if isinstance(q, N) and h in q.bv:
                    q = subst(q, hmap)
                    if q is p or L.flat_h[u] is h:
                        for c in chain:
                            for y in tuple(c[0]) + (c[1], c[2]):
                                collect_sel(y, h, reads)
                    else:
                        collect_sel(q, h, reads)
            if all(r is not None and self.own(r[i], b) == off for r in reads):
                return i, off
        return None

    def resolve_array(self, L, k, init, h, post, hmap, rng, others, unresolved, hnode):
        mapped = hmap.get(h) is not None
        base = init if mapped else h
        p = subst(post, hmap)
        chain = self.chain(p, base)
        if chain is None:
            return None
        chain = [(tuple(subst(y, hmap) for y in c[0]), subst(c[1], hmap), subst(c[2], hmap), tuple((q, subst(l, hmap), subst(u, hmap)) for q, l, u in c[3])) for c in chain]
        b = L.binder
        if not chain:
            return init, init
        own = True if mapped else self.ownslot(L, h, p, hmap)
        if own is None:
            # reads of the array being written at other elements
            reads = []
            for u, q in L.flat_p.items():
                if isinstance(q, N) and L.flat_h[u] is not h:
                    collect_sel(subst(q, hmap), h, reads)
            for c in chain:
                for y in tuple(c[0]) + (c[1], c[2]):
                    collect_sel(y, h, reads)
            r = self.fixed_slot(L, k, init, h, p, chain, reads, hmap, rng, others, unresolved, hnode)
            if r is not None:
                return r
            if reads or len(chain) > 1:
                return None
        m = {h: init}
        r = init
        for idx, val, g, bs in chain:
            idx = tuple(subst(y, m) for y in idx)
            val = subst(val, m)
            g = subst(g, m)
            nb = set()
            for y in list(idx) + [val, g]:
                nb |= y.bv
            if nb & others:
                return None
            r = mk('amap', r, rng + tuple(bs), g, idx, val)
        v = self.version(k, r, init, L)
        return v, init

    def fixed_slot(self, L, k, init, h, p, chain, reads, hmap, rng, others, unresolved, hnode):
        """an array of which the loop touches one loop-invariant element only: carried like a scalar"""
        idx = chain[0][0]
        if any(c[0] != idx or c[3] for c in chain):
            return None
        if any((L.binder in y.bv) or (y.bv & L.allh) for y in idx):
            return None
        if any(r != idx for r in reads):
            return None
        if any(h in q.bv for u, q in L.flat_p.items() if isinstance(q, N) and L.flat_h[u] is not h):
            return None
        sel0 = mk('sel', h, idx)
        iv = select(init, idx)
        pv = select(p, idx)
        if pv.op == 'seq':
            hs = fresh2('seqbase', 'slot')
            hv_ = seq((('all', TRUE, hs),))
        elif isbool(pv):
            hs = hv_ = fresh2('bsym', 'slot')
        else:
            hs = hv_ = fresh2('sym', 'slot')
        pv = subst(pv, {sel0: hs})
        if h in pv.bv:
            return None
        r = self.resolve(L, k, iv, hv_, pv, hv_, hs, hmap, rng, hnode, unresolved)
        if r is None:
            return None
        return astore(init, idx, r[0]), None

    def own(self, e, b):
        k, d = nd._lin(e)
        if d.get(b) == 1 and len(d) == 1:
            return k
        return None


STDBASES = {'std::runtime_error': ('std::exception',), 'std::out_of_range': ('std::logic_error', 'std::exception'),
            'std::invalid_argument': ('std::logic_error', 'std::exception'), 'std::logic_error': ('std::exception',),
            'std::bad_alloc': ('std::exception',)}
ALLDEFS = {}
VERLOOP = {}


def strip_self(v, s):
    """(guard, value) of a store whose value is the old element unless the guard holds"""
    if v is s:
        return FALSE, v
    if v.op != 'ite':
        return TRUE, v
    c, a, b = v.a
    ga, va = strip_self(a, s)
    gb, vb = strip_self(b, s)
    if ga is TRUE and gb is TRUE:
        return TRUE, v
    if ga is FALSE:
        return band(bnot(c), gb), vb
    if gb is FALSE:
        return band(c, ga), va
    return bor(band(c, ga), band(bnot(c), gb)), ite(c, va, vb)


def fresh2(op, name, kind='havoc'):
    nd._fresh[0] += 1
    return mk(op, '%s#%d' % (name, nd._fresh[0]), kind)


def nodes_bv(t):
    s = set()
    nd._coll(t, s)
    return s


def collect_sel(n, h, out):
    """index tuples of every select from array h inside n; None when h escapes in another way"""
    if h not in n.bv:
        return
    seen = set()

    def go(x, top):
        if isinstance(x, tuple):
            for y in x:
                go(y, False)
            return
        if not isinstance(x, N) or h not in x.bv:
            return
        if x in seen:
            return
        seen.add(x)
        if x.op == 'sel' and x.a[0] is h:
            out.append(x.a[1])
            for y in x.a[1]:
                go(y, False)
            return
        if x.op in ('astore', 'amap') and x.a[0] is h:
            for y in x.a[1:]:
                go(y, False)
            return
        for y in x.a:
            if y is h:
                out.append(None)
            else:
                go(y, False)
    go(n, True)
