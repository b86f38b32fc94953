"""Construction: the derived parameters of the environment, and what a new computer starts from."""
import math
from . import nodes as nd
from .nodes import *
from .model import Model, Anchor
from .values import *
from .interp import fresh2
from .run import *
from .simp import ctx, rewrite
from .source import export
from . import nf, sample

HALF = Fraction(1, 2)


class Built:
    """the results of the constructors for arbitrary parameters"""
    def __init__(self, config):
        ir = export('step', config)
        self.ir, self.o = ir, ir.macros
        self.m = m = Model(ir, config)
        m.configure()
        self.I = I = m.I
        self.D = m.D
        f = ir.fn(m.fid('verif::environment'))
        self.p = {p['n']: sym('$' + p['n']) for p in f['p']}
        st = St({}, (), TRUE)
        r = I.inline(m.fid('verif::environment'), f, None, [self.p[p['n']] for p in f['p']], st)
        self.E = I.ld(r, st)
        self.eloops = list(I.loops)
        self.positive = {'$' + k for k in self.p if k not in ('minX', 'minY', 'minZ', 'maxX', 'maxY', 'maxZ')}

    def computer(self):
        I, m, ir = self.I, self.m, self.ir
        f = ir.fn(m.fid('verif::create'))
        st = St({}, (), TRUE)
        args = []
        names = ['eps', 'E', 'W', 'WP'][4 - len(f['p']):]
        self.eps = sym('$eps')
        for k, p in zip(names, f['p']):
            v = self.E if k == 'E' else self.eps if k == 'eps' else I.sym_value(m.strip(p['t']), k)
            if ir.ty(p['t'])['c'] == 'r':
                st.mem[k] = v
                args.append(Ref(k))
            else:
                args.append(v)
        keep = {}

        def grab(I2, st2):
            for k, v in st2.mem.items():
                if isinstance(v, Struct) and ir.rec(v.rec)['qn'] == 'OpenMps::Computer':
                    keep[k] = v
        I.inline(m.fid('verif::create'), f, None, args, st)
        grab(I, st)
        if not keep:
            raise Anchor('no computer object is created')
        S = list(keep.values())[-1]
        return S, st


class Num(sample.Point):
    def __init__(self, vals):
        self.env, self.memo, self.vals = {}, {}, vals

    def scalar(self, name):
        if name in self.vals:
            return self.vals[name]
        raise sample.Undef()

    def _ev(self, n, op, a):
        if op == 'fn' and a[0] in ('floor', 'ceil', 'trunc', 'max2', 'min2', 'abs', 'imod', 'idiv', 'round'):
            x = [self.ev(y) for y in a[1]]
            f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'max2': max, 'min2': min, 'abs': abs, 'imod': math.fmod,
                 'idiv': lambda p, q: math.trunc(p / q), 'round': round}[a[0]]
            return float(f(*x))
        return super()._ev(n, op, a)


def environment(rep, config):
    b = Built(config)
    E, p, o, D = b.E, b.p, b.o, b.D
    c = nf.Ctx(b.positive)

    def eq(where, impl, ref, loc='Environment.hpp'):
        d = c.diff(impl, ref)
        rep.ob('environment', where, 'diff' if d else 'ok', nf.showp(d, 3) if d else '', loc)

    def field(n):
        if n not in E.f:
            raise Anchor('Environment::%s not found' % n)
        return E.f[n]
    l0, cr, re = p['l_0'], p['courant'], p['r_eByl_0']
    lim = div(mul(cr, l0), p['c']) if 'PRESSURE_EXPLICIT' in o else sqrt(div(scale(mul(cr, l0), 2), p['g']))
    eq('largest step', field('MaxDt'), nmin(p['maxDt'], lim))
    eq('largest displacement', field('MaxDx'), mul(cr, l0))
    eq('initial spacing', field('L_0'), l0)
    eq('influence radius', field('R_e'), mul(re, l0))
    eq('density', field('Rho'), p['rho'])
    eq('viscosity', field('Nu'), p['nu'])
    for ax in range(D):
        eq('gravity along axis %d' % ax, field('G').c[ax], neg(p['g']) if ax == D - 1 else ZERO)
        eq('lower corner, axis %d' % ax, field('MinX').c[ax], p['min' + 'XYZ'[ax if D == 3 or ax == 0 else 2]])
        eq('upper corner, axis %d' % ax, field('MaxX').c[ax], p['max' + 'XYZ'[ax if D == 3 or ax == 0 else 2]])
    if 'PRESSURE_EXPLICIT' in o:
        eq('sound speed', field('C'), p['c'])
    if 'MPS_SPP' not in o:
        eq('surface ratio', field('SurfaceRatio'), p['surfaceRatio'])
    if 'ARTIFICIAL_COLLISION_FORCE' in o:
        eq('collision distance', field('TooNearLength'), mul(p['tooNearRatio'], l0))
        eq('collision coefficient', field('TooNearCoefficient'), p['tooNearCoefficient'])
    # margin of the search radius: both particles of a pair may move MaxDx
    need = mul(mul(re, l0), add(ONE, scale(cr, 2)))
    d = sub(field('NeighborLength'), need)
    s = sign(c, d)
    rep.ob('environment', 'search radius covers the influence radius plus both particles\' displacement', 'ok' if s in ('0', '+', '>=') else 'diff' if s == '-' else 'undecided',
           'search radius - influence radius - 2 displacements = %s' % show(ctx(d))[:200], 'Environment.hpp')
    st = St({}, (), TRUE)
    st.mem['E'] = E
    T = b.I.num(b.m.acc('OpenMps::Environment::T', Ref('E'), st)[0], st)
    eq('start time', T, ZERO)
    n0 = b.I.num(b.m.acc('OpenMps::Environment::N0', Ref('E'), st)[0], st)
    ks = [fresh2('sym', 'k', 'bound') for _ in range(D)]
    rng = fn('ceil', re)
    for k in ks:
        nd.LOOPRANGE[k] = (neg(rng), rng)
    r2 = ZERO
    for k in ks:
        r2 = add(r2, mul(mul(k, l0), mul(k, l0)))
    r = sqrt(r2)
    Re = mul(re, l0)
    w = ite(band(pos(r), pos(sub(Re, r))), sub(div(Re, r), ONE), ZERO)

    def lattice(body):
        for k in ks:
            body = nsum(k, neg(rng), rng, body)
        return body
    ref0 = lattice(w)
    SN, SR = sym('$latticeN'), sym('$latticeR')
    c2 = nf.Ctx(b.positive | {'$latticeN', '$latticeR'})

    def lift(x):
        if x.op != 'nsum':
            return None
        ks2, body = [], x
        while body.op == 'nsum':
            k, lo, hi, body = body.a
            a, z = add(lo, rng), sub(hi, rng)
            if not (isc(a) and cval(a) <= 1 and isc(z) and cval(z) >= 0):
                return None
            ks2.append(k)
        if len(ks2) != D:
            return None
        body = subst(body, dict(zip(ks2, ks)))
        if ctx(subst(body, {k: ZERO for k in ks})) is not ZERO:
            return None
        away = rewrite(body, lambda y: TRUE if y.op == 'pos' and not c.diff(y.a[0], r) or y.op == 'pos' and not c.diff(y.a[0], r2) else
                       FALSE if y.op == 'and' and {zero(k) for k in ks} <= set(y.a[0]) else None)
        w1 = ite(pos(sub(Re, r)), sub(div(Re, r), ONE), ZERO)
        for want, s_ in ((w1, SN), (mul(r2, w1), SR)):
            try:
                if not c.diff(away, want):
                    return s_
            except nf.TooBig:
                pass
        return None
    todo = [('reference number density', n0, SN, ref0)]
    if 'MPS_HL' not in o:
        lam = b.I.num(b.m.acc('OpenMps::Environment::Lambda', Ref('E'), st)[0], st)
        todo.append(('Laplacian constant', lam, div(SR, SN), div(lattice(mul(r2, w)), ref0)))
    for what, v, want, ref in todo:
        if not c2.diff(rewrite(v, lift), want):
            rep.ob('environment', what, 'ok', '', 'Environment.hpp')
        else:
            compare(rep, b, what, v, ref)


def sign(c, d):
    """sign of a polynomial with the positive quantities of c"""
    try:
        q = c.poly(ctx(d))
    except nf.TooBig:
        return None
    if not q:
        return '0'
    ks = list(q.values())
    for m_ in q:
        if not all(c.positive_atom(x[0]) for x in m_):
            return None
    if all(k > 0 for k in ks):
        return '+'
    if all(k < 0 for k in ks):
        return '-'
    return None


def compare(rep, b, what, impl, ref):
    c = nf.Ctx(b.positive)
    loc = 'Environment.hpp'
    try:
        d = c.diff(impl, ref)
    except nf.TooBig:
        d = True
    if not d:
        rep.ob('environment', what, 'ok', '', loc)
        return
    n = 0
    for k in range(24):
        vals = {'$r_eByl_0': (1.2, 1.5, 1.7, 2.0, 2.1, 2.4, 2.9, 3.0, 3.1, 3.5, 4.0, 4.2)[k % 12], '$l_0': (0.01, 1.0, 0.37)[k % 3]}
        for q in b.positive:
            vals.setdefault(q, 0.2 + sample.h01(k, q))
        try:
            x, y = Num(vals).ev(impl), Num(vals).ev(ref)
        except (sample.Undef, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        n += 1
        # values an exact tie at the radius decides are rounding
        if abs(x - y) > 1e-6 * (1e-9 + abs(x) + abs(y)):
            rep.ob('environment', what, 'diff', 'radius %s spacings, spacing %s: %.9g instead of %.9g' % (vals['$r_eByl_0'], vals['$l_0'], x, y), loc)
            return
    rep.ob('environment', what, 'undecided', 'agrees at %d sample points, not proven' % n if n else 'cannot be evaluated', loc)


def computer(rep, config):
    b = Built(config)
    S, st = b.computer()
    return b, S, st


def copied(rep, config):
    """the computer works with the environment it was given"""
    b = Built(config)
    S, st = b.computer()
    envs = [(k, v) for k, v in S.f.items() if isinstance(v, Struct) and v.rec == b.E.rec]
    if len(envs) != 1:
        rep.ob('construction', 'environment', 'undecided', '%d environments' % len(envs))
        return b, S
    fs = flatten(envs[0][1])
    fe = flatten(b.E)
    c = nf.Ctx(b.positive)
    bad = [str(k) for k in fe if fs.get(k) is not fe[k] and (not isinstance(fe[k], N) or not isinstance(fs.get(k), N) or c.diff(fs[k], fe[k]))]
    rep.ob('construction', 'a new computer works with the given environment', 'diff' if bad else 'ok', 'fields differ: %s' % ', '.join(bad) if bad else '', 'Computer.hpp')
    if 'PRESSURE_EXPLICIT' not in b.o:
        tol = [v for p, v in flatten(S).items() if p[-1] == 'allowableResidual']
        if len(tol) == 1:
            rep.ob('construction', 'a new computer solves to the given tolerance', 'ok' if tol[0] is b.eps else 'diff', '' if tol[0] is b.eps else show(tol[0])[:200], 'Computer.hpp')
    return b, S


def params(rep, config):
    environment(rep, config)
    try:
        copied(rep, config)
    except Unsupported as e:
        rep.ob('construction', 'environment', 'undecided', str(e))


# ---- the candidate grid of a new computer
def gridsize(rep, config):
    b = Built(config)
    S, st = b.computer()
    D, I = b.D, b.I
    c = nf.Ctx(b.positive)
    loc = 'Grid.hpp'
    gs = [(k, v) for k, v in S.f.items() if isinstance(v, Struct) and b.ir.rec(v.rec)['qn'] == 'OpenMps::Grid']
    if len(gs) != 1:
        rep.ob('grid size', 'grid', 'undecided', 'no single grid member')
        return
    g = gs[0][1]
    arr = [v for v in g.f.values() if isinstance(v, SArr) and len(v.dims) == D + 1]
    vec = [v for v in g.f.values() if isinstance(v, Vec)]
    num = [v for v in g.f.values() if isinstance(v, N) and not nd.isbool(v)]
    if len(arr) != 1 or len(vec) != 1 or len(num) != 1:
        rep.ob('grid size', 'grid', 'undecided', 'grid fields')
        return
    dims, org, ln = arr[0].dims, vec[0].c, num[0]
    E = [v for v in S.f.values() if isinstance(v, Struct) and v.rec == b.E.rec][0]
    NL, lo, hi, l0 = E.f['NeighborLength'], E.f['MinX'].c, E.f['MaxX'].c, E.f['L_0']

    def verdict(where, s, why, good=('0', '+', '>=')):
        rep.ob('grid size', where, 'ok' if s in good else 'undecided' if s is None else 'diff', '' if s in good else why, loc)
    d = sub(ln, NL)
    verdict('a block is at least as wide as the search radius', sign(c, d), 'block width - search radius = %s' % show(d)[:200])
    for ax in range(D):
        d = c.diff(org[ax], lo[ax])
        rep.ob('grid size', 'blocks start at the lower corner, axis %d' % ax, 'diff' if d else 'ok', nf.showp(d, 3) if d else '', loc)
        n = dims[ax]
        need = fn('ceil', div(sub(hi[ax], lo[ax]), ln))
        k = ctx(sub(n, need))
        if not isc(k):
            try:
                p = c.poly(k)
                k = C(p.get((), 0)) if not p or list(p) == [()] else k
            except nf.TooBig:
                pass
        if isc(k):
            v = cval(k)
            rep.ob('grid size', 'blocks cover the domain up to the upper corner, axis %d' % ax, 'ok' if v >= 1 else 'diff',
                   '' if v >= 1 else '%s blocks beyond ceil(length / width): the upper corner is in block %s' % (v, 'number of blocks'), loc)
        else:
            numeric(rep, b, 'blocks cover the domain up to the upper corner, axis %d' % ax, sub(n, ONE), fn('floor', div(sub(hi[ax], lo[ax]), ln)), loc)
    cap = sub(dims[D], ONE)
    need = pw(fn('ceil', div(ln, l0)), D)
    try:
        s = sign2(c, sub(cap, need))
    except nf.TooBig:
        s = None
    if s in ('0', '+'):
        rep.ob('grid size', 'a block can hold the particles of an undisturbed lattice', 'ok', '', loc)
    else:
        numeric(rep, b, 'a block can hold the particles of an undisturbed lattice', cap, need, loc)
    rep.facts['blocks'] = 3 ** D


def sign2(c, d):
    """as sign(), ceil() of a positive quantity counting as positive"""
    q = c.poly(ctx(d))
    if not q:
        return '0'
    for m_ in q:
        for x in m_:
            a = x[0]
            if not (c.positive_atom(a) or a.node is not None and a.node.op == 'fn' and a.node.a[0] == 'ceil'):
                return None
    return '+' if all(k > 0 for k in q.values()) else '-' if all(k < 0 for k in q.values()) else None


def numeric(rep, b, where, big, small, loc):
    n = 0
    for k in range(40):
        vals = {'$r_eByl_0': (1.5, 2.1, 2.4, 3.1, 4.2)[k % 5], '$l_0': (0.01, 1.0, 0.37)[k % 3], '$courant': (0.1, 0.2, 0.05)[k % 3]}
        for q in ('minX', 'minY', 'minZ', 'maxX', 'maxY', 'maxZ'):
            vals['$' + q] = (-1 if q[1] == 'i' else 1) * (0.5 + sample.h01(k, q))
        for q in b.positive:
            vals.setdefault(q, 0.2 + sample.h01(k, q))
        try:
            x, y = Num(vals).ev(big), Num(vals).ev(small)
        except (sample.Undef, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        n += 1
        if x < y - 1e-9:
            rep.ob('grid size', where, 'diff', 'is %g, %g needed, e.g. at %s' % (x, y, {q: round(v, 3) for q, v in vals.items() if q[1:] in ('r_eByl_0', 'l_0', 'courant')}), loc)
            return
    rep.ob('grid size', where, 'undecided', 'holds at %d sample points, not proven' % n, loc)
