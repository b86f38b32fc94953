"""Effects of the text, stream, map and configuration-file library calls the application uses.
Texts are scalar nodes: a literal is its registered number, so equality of texts is equality of numbers."""
from .nodes import *
from .values import *
from . import nodes as nd
from . import models
from .models import model, ctor, meth, M, METH, CT, ITERS

BASE_CODE = 7000000000
LIT = {}


def code(n):
    """the number that stands for a text"""
    if isinstance(n, N) and n.op == 'str':
        if n.a[0] not in LIT:
            LIT[n.a[0]] = BASE_CODE + len(LIT)
        return C(LIT[n.a[0]])
    return n


def text(n):
    """the literal a node stands for, or None"""
    if n.op == 'str':
        return n.a[0]
    if isc(n):
        for t, c in LIT.items():
            if c == cval(n):
                return t
    return None


def txt(I, x, st):
    v = I.ld(x, st)
    if isinstance(v, Ptr):
        v = I.ld(v.ref, st)
    if not isinstance(v, N):
        raise Unsupported('text expected, got %s' % type(v).__name__)
    return code(v)


def same(a, b):
    return zero(sub(code(a), code(b)))


def cat(a, b):
    ta, tb = text(a), text(b)
    if ta is not None and tb is not None:
        return code(mk('str', ta + tb))
    if ta == '':
        return b
    if tb == '':
        return a
    return fn('strcat', a, b)


def length(s):
    t = text(s)
    return C(len(t)) if t is not None else fn('strlen', s)


STR = 'std::basic_string'
ITERS |= {'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
          'std::__detail::_Node_iterator_base'}


@ctor(STR, 'std::basic_string_view')
def _strctor(I, st, f, r, args, e):
    vals = [I.ld(a, st) for a in args]
    vals = [v for v in vals if not (isinstance(v, N) and v.op == 'opaque')]
    if not vals:
        return code(mk('str', ''))
    if len(vals) == 1:
        return txt(I, args[0], st)
    if len(vals) == 2 and all(isinstance(v, N) for v in vals) and isc(vals[0]):
        return fn('strfill', *vals)
    if len(vals) == 2 and all(isinstance(v, Ptr) for v in vals) and vals[0].idx is ZERO:
        return txt(I, vals[0].ref, st)
    raise Unsupported('string constructor')


@meth(STR, 'size', 'length')
def _strlen(I, st, f, this, args, e):
    return length(txt(I, this, st))


@meth(STR, 'empty')
def _strempty(I, st, f, this, args, e):
    return zero(length(txt(I, this, st)))


@meth(STR, 'c_str', 'data')
def _strc(I, st, f, this, args, e):
    return txt(I, this, st)


@meth(STR, 'operator=', 'assign')
def _strasg(I, st, f, this, args, e):
    I.write(this, txt(I, args[0], st), st)
    return this


@meth(STR, 'operator+=', 'append', 'push_back')
def _strapp(I, st, f, this, args, e):
    I.write(this, cat(txt(I, this, st), txt(I, args[0], st)), st)
    return this


@meth(STR, 'begin', 'cbegin')
def _strbegin(I, st, f, this, args, e):
    return Ptr(I.toref(this, st), ZERO)


@meth(STR, 'end', 'cend')
def _strend(I, st, f, this, args, e):
    return Ptr(I.toref(this, st), length(txt(I, this, st)))


@meth(STR, 'compare')
def _strcompare(I, st, f, this, args, e):
    return sub(txt(I, this, st), txt(I, args[0], st))


@model('std::operator==', 'std::operator!=')
def _streq(I, st, f, this, args, e):
    a, b = I.ld(args[0], st), I.ld(args[1], st)
    if isinstance(a, N) and isinstance(b, N):
        r = same(a, b)
        return r if f['n'].endswith('==') else bnot(r)
    if isinstance(a, (Ptr, Null)) or isinstance(b, (Ptr, Null)):
        return I.ptrop('==' if f['n'].endswith('==') else '!=', a, b, st)
    raise Unsupported('comparison of objects')


M['std::__detail::operator=='] = M['std::__detail::operator!='] = _streq


@model('std::operator+')
def _strplus(I, st, f, this, args, e):
    return cat(txt(I, args[0], st), txt(I, args[1], st))


@model('std::to_string')
def _tostring(I, st, f, this, args, e):
    return fn('decimal', I.num(args[0], st))


def charset(I, g, ch):
    """the characters a predicate accepts, or None"""
    out = []
    for k in range(1, 128):
        b = subst(g, {ch: C(k)})
        if b is TRUE:
            out.append(chr(k))
        elif b is not FALSE:
            return None
    return ''.join(out)


@model('std::remove_if', 'std::remove')
def _removeif(I, st, f, this, args, e):
    b, e_ = I.ld(args[0], st), I.ld(args[1], st)
    s = I.ld(b.ref, st) if isinstance(b, Ptr) else None
    if not isinstance(s, N) or not (b.idx is ZERO):
        raise Unsupported('remove_if on something other than a whole text')
    ch = fresh('char')
    p = I.ld(args[2], st)
    if f['n'] == 'remove':
        g = zero(sub(ch, I.num(p, st)))
    else:
        g = I.boolean(I.callv(p, [I.temp(st, ch)], st), st)
    cs = charset(I, g, ch)
    if cs is None:
        raise Unsupported('remove_if predicate')
    return Ptr(b.ref, fn('kept', s, mk('str', cs)))


_chars = [0]


def fresh(nm):
    _chars[0] += 1
    return sym('%s#%d' % (nm, _chars[0]))


def strip(s, cs):
    cs = ''.join(sorted(set(cs)))
    if s.op == 'fn' and s.a[0] == 'strip':
        return strip(s.a[1][0], s.a[1][1].a[0] + cs)
    t = text(s)
    if t is not None:
        return code(mk('str', ''.join(c for c in t if c not in cs)))
    return fn('strip', s, mk('str', cs))


@meth(STR, 'erase')
def _strerase(I, st, f, this, args, e):
    a = [I.ld(x, st) for x in args]
    s = txt(I, this, st)
    if len(a) == 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
        k = a[0].idx
        if isinstance(k, N) and k.op == 'fn' and k.a[0] == 'kept' and k.a[1][0] is s and a[1].idx is length(s):
            I.write(this, strip(s, k.a[1][1].a[0]), st)
            return a[0]
    raise Unsupported('string::erase')


@model('boost::algorithm::erase_all')
def _eraseall(I, st, f, this, args, e):
    t = text(txt(I, args[1], st))
    if t is None or len(t) != 1:
        raise Unsupported('erase_all')
    I.write(args[0], strip(txt(I, args[0], st), t), st)


@model('boost::algorithm::is_any_of', 'boost::is_any_of')
def _anyof(I, st, f, this, args, e):
    return fn('anyof', txt(I, args[0], st))


@model('boost::algorithm::split', 'boost::split')
def _split(I, st, f, this, args, e):
    v = I.ld(args[0], st)
    s = txt(I, args[1], st)
    p = I.ld(args[2], st)
    if len(args) > 3 and not (isinstance(I.ld(args[3], st), N) and I.ld(args[3], st) is ZERO or isc(I.ld(args[3], st)) and cval(I.ld(args[3], st)) == 1):
        pass
    if not isinstance(p, N):
        ch = fresh('char')
        cs = charset(I, I.boolean(I.callv(p, [I.temp(st, ch)], st), st), ch)
        if cs is None:
            raise Unsupported('split predicate')
        p = fn('anyof', code(mk('str', cs)))
    comp = I.ld(args[3], st) if len(args) > 3 else None
    if comp is not None and not (isinstance(comp, N) and isc(comp)):
        raise Unsupported('split mode')
    mode = int(cval(comp)) if comp is not None else 1
    sep = p if mode == 1 else fn('compressed', p)
    I.write(args[0], SArr('vector', [fn('nitems', s, sep)], v.sch, {(): mk('asplit', s, sep)}, v.name), st)
    return args[0]


@model('std::stoi', 'std::stol', 'std::stoul', 'std::stoull', 'std::stoll', 'std::stod', 'std::stof', 'std::stold', 'atoi', 'atof', 'std::atoi', 'std::atof')
def _stox(I, st, f, this, args, e):
    n = f['n']
    s = txt(I, args[0], st)
    r = fn({'stod': 'real', 'stold': 'real', 'atof': 'real'}.get(n, n), s)
    if not n.startswith('ato'):
        I.may_throw('std::invalid_argument', st, n2b(fn('unreadable', mk('str', n), s)), n)
    return r


# ---------- maps with constant keys
MAPS = ('std::unordered_map', 'std::map')


def ismap(v):
    return isinstance(v, Tup) and v.kind == 'map'


@ctor(*MAPS)
def _mapctor(I, st, f, r, args, e):
    vals = [I.ld(a, st) for a in args]
    vals = [v for v in vals if not (isinstance(v, N) and v.op == 'opaque')]
    if not vals:
        return Tup((), 'map')
    if isinstance(vals[0], Tup):
        it = []
        for x in vals[0].i:
            if not isinstance(x, Tup) or len(x.i) != 2:
                raise Unsupported('map initialiser')
            k = code(x.i[0])
            if not isc(k):
                raise Unsupported('map with variable keys')
            if all(y.i[0] is not k for y in it):
                it.append(Tup((k, x.i[1])))
        return Tup(it, 'map')
    raise Unsupported('map constructor')


def mapkeys(I, this, st):
    v = I.ld(this, st)
    if not ismap(v):
        raise Unsupported('not a map with known keys')
    return [x.i[0] for x in v.i]


def found(I, this, key, st):
    """position of a key: (list of conditions, position node)"""
    ks = mapkeys(I, this, st)
    conds = [I.know(same(key, k), st) for k in ks]
    r = C(len(ks))
    for i in reversed(range(len(ks))):
        r = ite(conds[i], C(i), r)
    return conds, r


for rec in MAPS:
    def _find(I, st, f, this, args, e):
        return Ptr(I.toref(this, st), found(I, this, txt(I, args[0], st), st)[1])
    METH[(rec, 'find')] = _find

    def _mbegin(I, st, f, this, args, e):
        return Ptr(I.toref(this, st), ZERO)
    METH[(rec, 'begin')] = METH[(rec, 'cbegin')] = _mbegin

    def _mend(I, st, f, this, args, e):
        return Ptr(I.toref(this, st), C(len(mapkeys(I, this, st))))
    METH[(rec, 'end')] = METH[(rec, 'cend')] = _mend

    def _msize(I, st, f, this, args, e):
        return C(len(mapkeys(I, this, st)))
    METH[(rec, 'size')] = _msize

    def _mcount(I, st, f, this, args, e):
        c = found(I, this, txt(I, args[0], st), st)[0]
        return b2n(bor(*c)) if f['n'] == 'count' else bor(*c)
    METH[(rec, 'count')] = METH[(rec, 'contains')] = _mcount

    def _mat(I, st, f, this, args, e):
        conds, _ = found(I, this, txt(I, args[0], st), st)
        some = I.know(bor(*conds), st)
        r = I.toref(this, st)
        if f['n'] == 'at' and some is not TRUE:
            I.may_throw('std::out_of_range', st, bnot(some), 'map::at')
            st.pc = band(st.pc, some)
            some = TRUE
        if some is FALSE:
            # a constant key that is not there: it is inserted
            v = I.ld(this, st)
            k = txt(I, args[0], st)
            if not isc(k):
                raise Unsupported('insertion into a map')
            t = f['ret']
            while I.ir.ty(t)['c'] == 'r':
                t = I.ir.ty(t)['pt']
            I.write(this, Tup(v.i + (Tup((k, I.default_value(t, 'm', True))),), 'map'), st)
            return r.at(('i', C(len(v.i))), ('i', ONE))
        if some is not TRUE:
            raise Unsupported('possible insertion into a map')
        live = [(c, i) for i, c in enumerate(conds) if c is not FALSE]
        out = None
        for c, i in reversed(live):
            x = r.at(('i', C(i)), ('i', ONE))
            out = x if out is None or c is TRUE else RefIte(c, x, out)
        return out
    METH[(rec, 'operator[]')] = METH[(rec, 'at')] = _mat


# ---------- streams
def emit(I, st, stream, item):
    s = I.ld(stream, st)
    st.ev = st.ev + (('call', 'out', (s if isinstance(s, N) else mk('str', '?stream'), item)),)


def item_of(I, x, st):
    v = I.ld(x, st)
    if isinstance(v, Fn):
        n = I.ir.fn(v.fid)['qn']
        return code(mk('str', '\n')) if n.endswith('endl') else fn('manip', mk('str', n))
    if isinstance(v, Ptr):
        v = I.ld(v.ref, st)
    if not isinstance(v, N):
        raise Unsupported('output of %s' % type(v).__name__)
    v = b2n(v) if isbool(v) else v
    if v.op == 'fn' and v.a[0] in ('format', 'fmtarg'):
        return fn('formatted', v)
    return code(v)


def _shift(I, st, f, this, args, e):
    if this is not None:
        s, x = this, args[0]
    else:
        s, x = args[0], args[1]
    t = I.ir.ty(f['p'][-1]['t']) if f.get('p') else {}
    y = item_of(I, x, st)
    if t.get('bits') == 8 and t.get('c') in ('i', 'u') and isc(y) and 0 < cval(y) < 128:
        y = code(mk('str', chr(int(cval(y)))))       # a single character
    emit(I, st, s, y)
    return s


M['std::operator<<'] = M['std::basic_ostream::operator<<'] = M['boost::operator<<'] = M['std::basic_ostream::put'] = _shift


@model('std::endl', 'std::flush')
def _endl(I, st, f, this, args, e):
    if f['n'] == 'endl':
        emit(I, st, args[0], code(mk('str', '\n')))
    return args[0]


@ctor('std::basic_ofstream')
def _ofs(I, st, f, r, args, e):
    if not args:
        return fn('ofstream', mk('str', ''))
    mode = I.ld(args[1], st) if len(args) > 1 else None
    n = txt(I, args[0], st)
    return fn('ofstream', n) if mode is None or isinstance(mode, N) and isc(mode) and int(cval(mode)) in (16, 48, 20, 52) else fn('ofstream', n, mode if isinstance(mode, N) else mk('opaque', 'mode'))


@meth('std::basic_ofstream', 'open')
def _ofopen(I, st, f, this, args, e):
    I.write(this, fn('ofstream', txt(I, args[0], st)), st)


@meth('std::basic_ofstream', 'close')
@meth('std::basic_ostream', 'flush')
def _ofclose(I, st, f, this, args, e):
    s = I.ld(this, st)
    st.ev = st.ev + (('call', f['n'], (s,)),)
    return this


_checks = [0]


def check(I, st, this, good):
    """the state of a stream: a fresh unknown, tied to what was written before"""
    s = I.ld(this, st)
    _checks[0] += 1
    b = mk('bsym', 'failed#%d' % _checks[0], 'free')
    st.ev = st.ev + (('call', 'checked', (s, b)),)
    return bnot(b) if good else b


@meth('std::ios_base', 'precision')
@meth('std::basic_ios', 'precision')
@meth('std::basic_ostream', 'precision')
@meth('std::basic_ofstream', 'precision')
def _precision(I, st, f, this, args, e):
    if args:
        emit(I, st, this, fn('manip', mk('str', 'setprecision'), I.num(args[0], st)))
    return C(6)


for rec in ('std::basic_ios', 'std::basic_ofstream', 'std::basic_ostream'):
    METH[(rec, 'operator!')] = METH[(rec, 'fail')] = METH[(rec, 'bad')] = lambda I, st, f, this, args, e: check(I, st, this, False)
    METH[(rec, 'operator bool')] = METH[(rec, 'good')] = lambda I, st, f, this, args, e: check(I, st, this, True)


@meth('std::basic_ofstream', 'is_open')
def _isopen(I, st, f, this, args, e):
    return bnot(mk('bsym', 'notopen', 'free'))


METH[('std::basic_ios', 'exceptions')] = lambda I, st, f, this, args, e: None


# ---------- boost::format
@ctor('boost::basic_format')
def _fmt(I, st, f, r, args, e):
    return fn('format', txt(I, args[0], st)) if args else fn('format', code(mk('str', '')))


@model('boost::basic_format::operator%')
def _fmtarg(I, st, f, this, args, e):
    v = I.ld(this, st)
    x = item_of(I, args[0], st)
    return I.temp(st, fn('fmtarg', v, x), 'fmt')


@model('boost::basic_format::str', 'boost::str')
def _fmtstr(I, st, f, this, args, e):
    return fn('formatted', I.ld(this if this is not None else args[0], st))


@model('std::setw', 'std::setfill', 'std::setprecision')
def _manip(I, st, f, this, args, e):
    return fn('manip', mk('str', f['n']), I.num(args[0], st))


# ---------- configuration file
@model('boost::property_tree::xml_parser::read_xml', 'boost::property_tree::read_xml')
def _readxml(I, st, f, this, args, e):
    s = txt(I, args[0], st)
    st.ev = st.ev + (('call', 'read_xml', (s,)),)
    I.may_throw('boost::property_tree::xml_parser::xml_parser_error', st, mk('bsym', 'noxml', 'free'), 'read_xml')
    I.write(args[1], fn('xml', s), st)


@ctor('boost::property_tree::string_path')
def _path(I, st, f, r, args, e):
    return txt(I, args[0], st)


@ctor('boost::property_tree::basic_ptree')
def _ptree(I, st, f, r, args, e):
    if args:
        return I.ld(args[0], st)
    return fn('xml')


@meth('boost::property_tree::basic_ptree', 'get', 'get_value')
def _get(I, st, f, this, args, e):
    p = text(txt(I, args[0], st)) if f['n'] == 'get' else ''
    t = I.ld(this, st)
    if p is None or not isinstance(t, N) or t.op != 'fn' or t.a[0] not in ('xml', 'xmlsub') or not t.a[1]:
        raise Unsupported('configuration value')
    if t.a[0] == 'xmlsub':
        p = t.a[1][1].a[0] + ('.' + p if p else '')
    c = I.ir.ty(f['ret'])
    dflt = [I.ld(a, st) for a in args[1:]]
    dflt = [v for v in dflt if isinstance(v, N) and v.op != 'opaque']
    r = sym('xml:' + p)
    if dflt:
        return ite(mk('bsym', 'has:' + p, 'free'), r, dflt[0])
    if c['c'] in ('i', 'u') and c.get('bits', 64) < 64:
        r = fn('narrow%d' % c['bits'], r)
    if c['c'] == 'f' and c.get('bits', 64) < 64:
        r = fn('narrowf', r)
    I.may_throw('boost::property_tree::ptree_bad_data', st, n2b(fn('absent', mk('str', p))), 'get ' + p)
    return r


@meth('boost::property_tree::basic_ptree', 'get_child')
def _getchild(I, st, f, this, args, e):
    p = text(txt(I, args[0], st))
    t = I.ld(this, st)
    if p is None or not isinstance(t, N) or t.op != 'fn' or t.a[0] not in ('xml', 'xmlsub') or not t.a[1]:
        raise Unsupported('configuration subtree')
    if t.a[0] == 'xmlsub':
        p = t.a[1][1].a[0] + '.' + p
    src = t.a[1][0]
    return I.temp(st, fn('xmlsub', src, mk('str', p)), 'child')


@meth('boost::property_tree::basic_ptree', 'clear')
def _ptclear(I, st, f, this, args, e):
    I.write(this, fn('xml'), st)


# ---------- owning pointers
@model('std::make_unique', 'std::make_shared')
def _mku(I, st, f, this, args, e):
    t = I.ir.ty(f['ret'])
    ta = I.ir.rec(t['rec'])['ta']
    et = ta[0]['t']
    ety = I.ir.ty(et)
    vals = [I.ld(a, st) for a in args]
    if ety['c'] in ('arr', 'iarr'):
        el = ety['pt']
        sch = I.schema(el)
        return Ptr(I.temp(st, SArr('vector', [I.num(vals[0], st)], sch, {p: mk('afill', ZERO) for p in leaves(sch)}, I.new_root('heap')), 'heap'), ZERO)
    if not vals:
        r = I.recname(et)
        v = fn('xml') if r == 'boost::property_tree::basic_ptree' else I.default_value(et, 'heap', True)
        return Ptr(I.temp(st, v, 'heap'))
    if len(vals) == 1:
        return Ptr(I.temp(st, vals[0], 'heap'))
    raise Unsupported('make_unique')


for rec in ('std::unique_ptr', 'std::shared_ptr'):
    METH[(rec, 'get')] = METH[(rec, 'release')] = lambda I, st, f, this, args, e: I.ld(this, st)
    METH[(rec, 'operator->')] = lambda I, st, f, this, args, e: I.ld(this, st)
    METH[(rec, 'operator*')] = lambda I, st, f, this, args, e: I.deref(I.ld(this, st), st)

    def _upidx(I, st, f, this, args, e):
        p = I.ld(this, st)
        return p.ref.at(('i', add(p.idx or ZERO, I.num(args[0], st))))
    METH[(rec, 'operator[]')] = _upidx

    def _upreset(I, st, f, this, args, e):
        v = I.ld(args[0], st) if args else Null()
        I.write(this, v if isinstance(v, Ptr) else Null(), st)
    METH[(rec, 'reset')] = _upreset
    METH[(rec, 'operator=')] = _upreset

    def _upctor(I, st, f, r, args, e):
        vals = [I.ld(a, st) for a in args]
        return vals[0] if vals and isinstance(vals[0], Ptr) else Null()
    CT[rec] = _upctor


# ---------- environment of the process
@model('system', 'std::system')
def _system(I, st, f, this, args, e):
    st.ev = st.ev + (('call', 'system', (txt(I, args[0], st),)),)
    return fresh('status')


@model('std::filesystem::create_directory', 'std::filesystem::create_directories', 'mkdir')
def _mkdir(I, st, f, this, args, e):
    st.ev = st.ev + (('call', 'mkdir', (txt(I, args[0], st),)),)
    return fresh('status')


@model('time', 'std::time', 'localtime', 'std::localtime', 'std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::chrono::high_resolution_clock::now')
def _clock(I, st, f, this, args, e):
    if f['n'] == 'localtime':
        t = I.ir.ty(f['ret'])['pt']
        return Ptr(I.temp(st, I.sym_value(t, 'localtime'), 'tm'))
    return fresh('clock')


METH[('std::exception', 'what')] = lambda I, st, f, this, args, e: fn('what', I.ld(this, st)) if isinstance(I.ld(this, st), N) else fresh('what')
