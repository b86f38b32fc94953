"""The application (Main.cpp) as a whole: configuration, initial particles, output files and their schedule."""
import re
from . import nodes as nd
from .nodes import *
from .values import *
from .interp import prune, Interp, St, lits
from .source import export, SourceError
from . import appmodels
from .appmodels import code, text
from . import nf
from .simp import ctx
from fractions import Fraction


class App:
    def __init__(self, config):
        self.config = config
        self.ir = ir = export('main', config)
        self.I = I = Interp(ir)
        nd.ASSUME_INDEX[:] = []
        nd.EXPAND[0] = lambda v: True
        if 'main' not in ir.byname:
            raise SourceError('main not found')
        o = I.over
        o['OpenMps::CreateComputer'] = self.create
        o['OpenMps::Computer::AddParticles'] = self.add
        o['OpenMps::Computer::ForwardTime'] = self.forward
        o['OpenMps::Computer::Particles'] = lambda I, st, f, this, args, e: Ref('PARTS')
        o['OpenMps::Computer::GetEnvironment'] = lambda I, st, f, this, args, e: Ref('SIMENV')
        o['OpenMps::Environment::T'] = self.time
        self.created = []
        self.added = []
        self.at_first_step = None
        fid = int(ir.byname['main'][0])
        f = ir.fn(fid)
        st = St({}, (), TRUE)
        st.mem['T'] = sym('t0')
        st.mem['SIMENV'] = mk('opaque', 'SIMENV')
        st.mem['ARGV'] = I.sarr('vector', [sym('argc')], ('n', None), 'argv')
        self.parts_t = self.particle_type()
        st.mem['PARTS'] = I.sarr('vector', [sym('parts.size')], I.schema(self.parts_t), 'parts')
        self.st = st
        args = [sym('argc'), Ptr(Ref('ARGV'), ZERO)][:len(f['p'])]
        self.ret = I.inline(fid, f, None, args, st)

    def particle_type(self):
        for i, f in self.ir.functions.items():
            if f['qn'] == 'OpenMps::Particle::Particle':
                r = self.ir.rec(f['rec'])
                for k, t in enumerate(self.ir.types):
                    if t['c'] == 'rec' and t['rec'] == f['rec']:
                        return k
        raise SourceError('particle type not found')

    def create(self, I, st, f, this, args, e):
        self.created.append(([I.ld(a, st) for a in args], [p['n'] for p in f['p']], st.clone()))
        st.ev = st.ev + (('call', 'create', ()),)
        return mk('opaque', 'computer')

    def add(self, I, st, f, this, args, e):
        v = I.ld(args[0], st)
        self.added.append((v, st.clone()))
        st.ev = st.ev + (('call', 'add', ()),)
        if isinstance(args[0], Ref) and isinstance(v, (SArr, SeqV)):
            I.write(args[0], SeqV(v.sch, SEQ0, v.name), st)

    def forward(self, I, st, f, this, args, e):
        t = I.read(Ref('T'), st)
        if self.at_first_step is None:
            self.at_first_step = st.clone()
        st.ev = st.ev + (('call', 'step', tuple(I.num(a, st) for a in args)),)
        I.may_throw('std::runtime_error', st, n2b(fn('stepfails', t)), 'step')
        I.write(Ref('T'), fn('next', t), st)

    def time(self, I, st, f, this, args, e):
        r = I.toref(this, st)
        if isinstance(r, Ref) and r.root == 'SIMENV':
            return Ref('T') if I.tclass(f['ret']) == 'r' else I.read(Ref('T'), st)
        return r.at(('f', 't'))

    # ---- the program's own accessors
    def particle(self, ref, name, st):
        """value a particle's accessor returns"""
        for fid in self.ir.byname.get('OpenMps::Particle::' + name, []):
            f = self.ir.fn(fid)
            if not f['p']:
                s = st.clone()
                return self.I.ld(self.I.inline(int(fid), f, ref, [], s), s)
        raise SourceError('accessor Particle::%s not found' % name)

    @property
    def D(self):
        return 3 if 'DIM3' in self.ir.macros else 2

    def columns(self, ref, st):
        """column name -> value of the particle"""
        X, U = self.particle(ref, 'X', st).c, self.particle(ref, 'U', st).c
        ax = 'xyz' if self.D == 3 else 'xz'
        vel = 'uvw' if self.D == 3 else 'uw'
        d = {'Type': self.particle(ref, 'TYPE', st), 'p': self.particle(ref, 'P', st), 'n': self.particle(ref, 'N', st)}
        for k, a in enumerate(ax):
            d[a] = X[k]
        for k, a in enumerate(vel):
            d[a] = U[k]
        return d


_apps = {}


def app(config):
    if config not in _apps:
        _apps[config] = App(config)
    return _apps[config]


def xml(p):
    return sym('xml:openmps.' + p)


def val(p):
    return xml(p + '.<xmlattr>.value')


POS = {'xml:openmps.environment.%s.<xmlattr>.value' % k for k in ('l_0', 'minStepCountPerOutput', 'courant', 'g', 'rho', 'nu', 'r_eByl_0', 'c', 'surfaceRatio', 'tooNearRatio', 'tooNearCoefficient')} | \
    {'xml:openmps.condition.outputInterval.<xmlattr>.value'}


def evs(ev):
    """all events, with the loops and branches they are in"""
    for x in ev:
        if x[0] == 'loop':
            for p, y in evs(x[1].events):
                yield (('loop', x[1]),) + p, y
            yield (), x
        elif x[0] == 'if':
            for p, y in evs(x[2]):
                yield (('if', x[1]),) + p, y
            for p, y in evs(x[3]):
                yield (('if', bnot(x[1])),) + p, y
        else:
            yield (), x


def calls(ev, name):
    return [(p, x) for p, x in evs(ev) if x[0] == 'call' and x[1] == name]


# ---------- C15: the run is set up as configured
def setup(rep, config):
    A = app(config)
    ev = A.st.ev
    o = A.ir.macros
    c = nf.Ctx(POS)
    loc = 'Main.cpp'

    def eq(where, impl, ref):
        if not isinstance(impl, N):
            rep.ob('configuration', where, 'undecided', 'no scalar value')
            return
        d = c.diff(impl, ref)
        rep.ob('configuration', where, 'diff' if d else 'ok', 'is %s, not %s' % (show(impl)[:150], show(ref)[:150]) if d else '', loc)
    r = calls(ev, 'read_xml')
    if len(r) != 1 or r[0][0]:
        rep.ob('configuration', 'input file', 'undecided', 'read %d times' % len(r))
    else:
        n = r[0][1][2][0]
        n2 = subst(n, {sym('argc'): C(2)})
        arg = select(A.st.mem['ARGV'].lv[()], (ONE,))
        rep.ob('configuration', 'the file named on the command line is read', 'ok' if n2 is arg else 'diff' if text(n2) is not None or n2.op == 'sel' else 'undecided', show(n2)[:200], loc)
    if len(A.created) != 1 or [p for p, x in calls(ev, 'create')] != [()]:
        rep.ob('configuration', 'computer', 'undecided', '%d computers created' % len(A.created))
        return
    vals, names, st = A.created[0]
    envs = [v for v in vals if isinstance(v, Struct) and A.ir.rec(v.rec)['qn'] == 'OpenMps::Environment']
    if len(envs) != 1:
        rep.ob('configuration', 'environment', 'undecided', '')
        return
    E = envs[0].f
    e = lambda k: val('environment.' + k)

    def field(n):
        if n not in E:
            raise SourceError('Environment::%s not found' % n)
        return E[n]
    cr, l0 = e('courant'), e('l_0')
    eq('initial spacing', field('L_0'), l0)
    eq('density', field('Rho'), e('rho'))
    eq('viscosity', field('Nu'), e('nu'))
    eq('influence radius', field('R_e'), mul(e('r_eByl_0'), l0))
    eq('largest displacement', field('MaxDx'), mul(cr, l0))
    lim = div(mul(cr, l0), e('c')) if 'PRESSURE_EXPLICIT' in o else sqrt(div(scale(mul(cr, l0), 2), e('g')))
    eq('largest step', field('MaxDt'), nmin(div(val('condition.outputInterval'), e('minStepCountPerOutput')), lim))
    for ax in range(A.D):
        n = 'XYZ'[ax if A.D == 3 or ax == 0 else 2]
        eq('gravity along ' + n, field('G').c[ax], neg(e('g')) if ax == A.D - 1 else ZERO)
        eq('lower corner, ' + n, field('MinX').c[ax], e('min' + n))
        eq('upper corner, ' + n, field('MaxX').c[ax], e('max' + n))
    if 'PRESSURE_EXPLICIT' in o:
        eq('sound speed', field('C'), e('c'))
    else:
        sc = [v for v in vals if isinstance(v, N)]
        if len(sc) == 1:
            eq('solver tolerance', sc[0], val('condition.eps'))
        else:
            rep.ob('configuration', 'solver tolerance', 'undecided', '')
    if 'MPS_SPP' not in o:
        eq('surface ratio', field('SurfaceRatio'), e('surfaceRatio'))
    # particles: the ones read, handed over once before anything else happens to them
    ad = calls(ev, 'add')
    steps = [x for x in flat_names(ev) if x in ('create', 'add', 'step')]
    if len(ad) == 1 and not ad[0][0]:
        ok = 'step' not in steps or steps.index('add') < steps.index('step')
        rep.ob('configuration', 'the particles are added before the first step', 'ok' if ok else 'diff', '', loc)
    else:
        rep.ob('configuration', 'the particles are added before the first step', 'diff' if not ad else 'undecided', '%d additions' % len(ad), loc)
    # walls stay where they were put
    lams = [v for v in vals if isinstance(v, (Lam, Struct)) and not (isinstance(v, Struct) and v in envs)]
    if len(lams) == 2 and len(A.added) == 1:
        v = A.added[0][0]
        s = A.at_first_step or A.added[0][1]
        s = s.clone()
        i = sym('i')
        try:
            I = A.I
            nt = len(I.throws[-1])
            w = I.ld(I.callv(lams[0], [i, sym('t'), sym('dt')], s), s)
            s.mem['READ'] = v
            x = A.particle(Ref('READ').at(('i', i)), 'X', s)
            n = appmodels.models.vsize(v)
            rng = {cmp('<', i, n, True): TRUE, cmp('<=', ZERO, i, True): TRUE}
            bad = [k for k in range(A.D) if not agree(subst(w.c[k], rng), x.c[k])]
            rep.ob('configuration', 'the prescribed position of a wall particle is its initial position', 'diff' if bad else 'ok',
                   'axis %s: %s' % (bad, show(w.c[bad[0]])[:200]) if bad else '', loc)
            before = dict(s.mem)
            I.callv(lams[1], [sym('t'), sym('dt')], s)
        except Unsupported as ex:
            rep.ob('configuration', 'the prescribed position of a wall particle is its initial position', 'undecided', str(ex))
    else:
        rep.ob('configuration', 'the prescribed position of a wall particle is its initial position', 'undecided', '%d callbacks' % len(lams))
    # an unknown source of particles is refused
    ty = xml('particles.<xmlattr>.type')
    pc = subst(A.st.pc, {ty: C(appmodels.BASE_CODE - 1)})
    rep.ob('configuration', 'an unknown kind of particle data is refused', 'ok' if pc is FALSE else 'diff', '', loc)


def agree(a, b):
    if a is b:
        return True
    return not nf.Ctx(POS).diff(a, b)


def flat_names(ev):
    out = []
    for x in ev:
        if x[0] == 'loop':
            out += flat_names(x[1].events)
        elif x[0] == 'if':
            out += flat_names(x[2]) + flat_names(x[3])
        elif x[0] == 'call':
            out.append(x[1])
    return out


# ---------- output files
def is_stream(n):
    return isinstance(n, N) and n.op == 'fn' and n.a[0] == 'ofstream'


class Output:
    """everything written to one file: the text before, the items of one row, the loop over the rows, the text after"""
    def __init__(self, stream, path):
        self.stream, self.path = stream, path
        self.head, self.row, self.loop, self.tail, self.problem, self.checked = [], [], None, [], None, []
        self.only = TRUE        # condition under which a row is written

    def item(self, x):
        (self.head if self.loop is None else self.tail).append(x)


def outputs(ev, path=(), acc=None):
    """the files written, in program order; each with the loops around it"""
    acc = acc if acc is not None else []
    cur = None
    for x in ev:
        if x[0] == 'call' and x[1] == 'out' and is_stream(x[2][0]):
            if cur is None or cur.stream is not x[2][0]:
                cur = Output(x[2][0], path)
                acc.append(cur)
            cur.item(x[2][1])
        elif x[0] == 'call' and x[1] == 'checked' and cur is not None and cur.stream is x[2][0]:
            cur.checked.append((x[2][1], bool(cur.loop)))
        elif x[0] == 'loop':
            inner = [(p, y) for p, y in evs(x[1].events) if y[0] == 'call' and y[1] == 'out' and is_stream(y[2][0])]
            if cur is not None and inner and all(y[2][0] is cur.stream for p, y in inner):
                if any(y[0] == 'loop' for p, _ in inner for y in p):
                    cur.problem = 'items written by an inner loop'
                if cur.loop is not None:
                    cur.problem = 'two loops write'
                cur.loop = x[1]
                cs = [band(*[y[1] for y in p if y[0] == 'if']) for p, _ in inner]
                if len(set(cs)) == 1:
                    cur.only = cs[0]
                else:
                    cur.problem = 'items written under a condition'
                cur.row = [y[2][1] for p, y in inner]
            else:
                outputs(x[1].events, path + (('loop', x[1]),), acc)
                cur = None
        elif x[0] == 'if':
            outputs(x[2], path + (('if', x[1]),), acc)
            outputs(x[3], path + (('if', bnot(x[1])),), acc)
            if any(y[0] == 'call' and y[1] == 'out' and is_stream(y[2][0]) for p, y in evs(x[2] + x[3])):
                cur = None
    return acc


def number_of(o):
    """(format text, number) of a file's name"""
    n = o.stream.a[1][0]
    if n.op == 'fn' and n.a[0] == 'formatted':
        f = n.a[1][0]
        if f.op == 'fn' and f.a[0] == 'fmtarg' and f.a[1][0].op == 'fn' and f.a[1][0].a[0] == 'format':
            return text(f.a[1][0].a[1][0]), f.a[1][1]
    return None, None


def cells(items):
    """a row as comma-separated cells: lists of texts and values; None when it is not a single line"""
    out = [[]]
    ended = False
    for x in items:
        t = text(x)
        if t is None:
            if ended:
                return None
            out[-1].append(x)
            continue
        for ch in t:
            if ended:
                return None
            if ch == '\n':
                ended = True
            elif ch == ',':
                out.append([])
            elif ch not in ' \t':
                out[-1].append(ch)
    return out if ended else None


def manip(x):
    """(name, argument) of a format flag"""
    while isinstance(x, N) and x.op == 'fn' and x.a[0] == 'code' and len(x.a[1]) == 1:
        x = x.a[1][0]
    if isinstance(x, N) and x.op == 'fn' and x.a[0] == 'manip':
        return x.a[1][0].a[0], x.a[1][1] if len(x.a[1]) > 1 else None
    return None


def written(rep, config):
    A = app(config)
    outs = outputs(A.st.ev)
    if not outs:
        rep.ob('output file', 'files', 'undecided', 'no output found')
        return
    for q, o in enumerate(outs):
        nm = 'initial file' if not o.path else 'files of the run' if len(outs) == 2 else 'file %d' % q
        loc = o.loop.loc if o.loop is not None else 'Main.cpp'
        if o.problem or o.loop is None:
            rep.ob('output file', nm, 'undecided', o.problem or 'rows are not written by a loop', loc)
            continue
        L = o.loop
        parts = A.st.mem['PARTS']
        n = parts.dims[0]
        if o.only is not TRUE:
            touched = any(x.op == 'bsym' for x in nd.walk(o.only))
            rep.ob('output file', nm + ': one row per particle', 'undecided' if touched else 'diff', 'a row is written only if %s' % show(o.only)[:150], loc)
            if touched:
                continue
        full = L.binder is not None and not L.early and L.lo is ZERO and L.hi is n and not L.generic
        if L.early and getattr(L, 'brkguard', FALSE) is not FALSE or L.binder is not None and isc(L.lo) and (L.lo is not ZERO or L.hi is not n and isinstance(L.hi, N) and isc(sub(L.hi, n))):
            rep.ob('output file', nm + ': one row per particle', 'diff', 'rows %s to %s' % (show(L.lo), show(L.hi)), loc)
        else:
            rep.ob('output file', nm + ': one row per particle', 'ok' if full else 'undecided', '', loc)
        if not full:
            continue
        fname = number_of(o)[0]
        mode = o.stream.a[1][1] if len(o.stream.a[1]) > 1 else None
        if mode is not None:
            kept = isc(mode) and (int(cval(mode)) & 1 or int(cval(mode)) & 8 and not int(cval(mode)) & 32)
            rep.ob('output file', nm + ': earlier content is replaced', 'diff' if kept else 'undecided', 'open mode %s' % show(mode), loc)
        else:
            rep.ob('output file', nm + ': earlier content is replaced', 'ok', '', loc)
        if fname is not None:
            good = re.fullmatch(r'result/particles_%(1\$)?05[diu](%1%)?\.csv', fname)
            rep.ob('output file', nm + ': is result/particles_ and the number in five digits', 'ok' if good else 'diff', fname, loc)
        for x in o.head + o.row:
            k = manip(x)
            if k is None or k[0].split('::')[-1] in ('setw', 'left', 'right', 'internal', 'showpos', 'noshowpos', 'scientific', 'dec', 'defaultfloat', 'unitbuf', 'nounitbuf', 'flush'):
                continue
            if k[0] == 'setprecision':
                if k[1] is not None and isc(k[1]) and cval(k[1]) >= 6:
                    continue
                rep.ob('output file', nm + ': values are written with their precision', 'diff' if k[1] is not None and isc(k[1]) else 'undecided', 'only %s digits are written' % show(k[1]), loc)
            else:
                rep.ob('output file', nm + ': values are written with their precision', 'undecided', 'format flag %s' % k[0], loc)
        o.head, o.row, o.tail = ([x for x in y if manip(x) is None] for y in (o.head, o.row, o.tail))
        head, row = cells(o.head), cells(o.row)
        if head is None or row is None or o.tail:
            rep.ob('output file', nm + ': a header line and one line per particle', 'diff', 'header or row is not a single line', loc)
            continue
        names = [''.join(x) if all(isinstance(y, str) for y in x) else None for x in head]
        want = A.columns(Ref('PARTS').at(('i', L.binder)), A.st)
        rep.ob('output file', nm + ': the header names each column once', 'ok' if sorted(map(str, names)) == sorted(want) else 'diff', 'header: %s' % names, loc)
        if len(row) != len(names):
            rep.ob('output file', nm + ': as many values as columns', 'diff', '%d values, %d columns' % (len(row), len(names)), loc)
            continue
        for k, v in zip(names, row):
            if k not in want:
                continue
            if len(v) != 1 or not isinstance(v[0], N):
                rep.ob('output file', '%s: column %s' % (nm, k), 'diff' if len(v) != 1 else 'undecided', 'the cell holds %d items' % len(v), loc)
                continue
            same_ = agree(v[0], want[k])
            other = [j for j, w in want.items() if v[0] is w]
            rep.ob('output file', '%s: column %s' % (nm, k), 'ok' if same_ else 'diff', '' if same_ else 'holds %s' % (other or show(v[0])[:200]), loc)
        # a file that cannot be written is an error
        after = [b for b, late in o.checked if late]
        verdict, why = 'diff', 'the state of the file is not looked at after writing'
        for b in after:
            loops = [x[1] for x in o.path if x[0] == 'loop']
            if loops:
                bad = not goes_on(loops[-1], b)
            else:
                bad = band(A.st.pc, b) is FALSE
            if bad:
                verdict, why = 'ok', ''
            else:
                why = 'a failed file is not reported as an error'
        rep.ob('output file', nm + ': failing to write is an error', verdict, why, loc)


    # the number of particles on the progress line
    en = {n: v for n, v in A.ir.enums[enum_id(A)]['e']}
    n = A.st.mem['PARTS'].dims[0]
    levels = [('initial', ev_) for ev_ in (A.st.ev,)] + [('run', x[1].events) for x in A.st.ev if x[0] == 'loop']
    for nm, evl in levels:
        for p, x in evs(tuple(y for y in evl if y[0] != 'loop')):
            r = fmt_args(x[2][1]) if x[0] == 'call' and x[1] == 'out' and not is_stream(x[2][0]) else None
            m = re.search(r'%(\d+)\$\d*[du] particles', r[0]) if r and r[0] else None
            if not m or int(m.group(1)) > len(r[1]):
                continue
            v = r[1][int(m.group(1)) - 1]
            status, why = 'undecided', show(v)[:150]
            if isc(v) or v is n:
                status = 'diff'
            elif v.op == 'nsum' and v.a[1] is ZERO and v.a[2] is n:
                tv = A.particle(Ref('PARTS').at(('i', v.a[0])), 'TYPE', A.st)
                got = {k: subst(v.a[3], {tv: C(t)}) for k, t in en.items()}
                wrong = [k for k, g in got.items() if g is not (ZERO if k == 'Disabled' else ONE)]
                status = 'ok' if not wrong else 'diff' if all(isc(g) for g in got.values()) else 'undecided'
                why = 'counts %s wrongly' % wrong
            rep.ob('output file', 'progress line (%s): the number of enabled particles' % nm, status, '' if status == 'ok' else why, 'Main.cpp')


# ---------- schedule
def progress(n, L, hv):
    """carried counters of a loop (h' = h + c each time) by the number of the iteration"""
    m = {}
    first = L.lo
    for key, h in L.flat_h.items():
        p, i = L.flat_p.get(key), L.flat_i.get(key)
        if not (isinstance(h, N) and isinstance(p, N) and isinstance(i, N)) or p is h or isbool(h) or isarr(h):
            continue
        d = sub(p, h)
        if any(x is y for x in nd.walk(d) for y in hv):
            continue
        m[h] = add(i, mul(sub(L.binder, first), d))
    return subst(n, m) if m else n


def top_index(ev, pred):
    return [k for k, x in enumerate(ev) if any(pred(y) for p, y in evs((x,)))]


def stepev(y):
    return y[0] == 'call' and y[1] == 'step'


def fileev(y):
    return y[0] == 'call' and y[1] == 'out' and is_stream(y[2][0])


def fmt_args(n):
    """(format text, arguments) of a formatted text"""
    if n.op != 'fn' or n.a[0] != 'formatted':
        return None
    f = n.a[1][0]
    args = []
    while f.op == 'fn' and f.a[0] == 'fmtarg':
        args.insert(0, f.a[1][1])
        f = f.a[1][0]
    if f.op != 'fn' or f.a[0] != 'format':
        return None
    return text(f.a[1][0]), args


def clock_alias(M):
    """local copies of the simulation time carried by a stepping loop: {their symbol: the time's symbol}"""
    tk = (('T', ()), ())
    th, tp, ti = M.flat_h.get(tk), M.flat_p.get(tk), M.flat_i.get(tk)
    if th is None:
        return None, {}
    m = {}
    for key, h in M.flat_h.items():
        if key != tk and isinstance(h, N) and M.flat_p.get(key) is tp and M.flat_i.get(key) is ti:
            m[h] = th
    return th, m


def schedule(rep, config):
    A = app(config)
    ev = A.st.ev
    S, E, I = val('condition.startTime'), val('condition.endTime'), val('condition.outputInterval')
    off = fn('ceil', div(S, I))
    cnt = fn('ceil', div(sub(E, S), I))
    c = nf.Ctx(POS)
    loc = 'Main.cpp'

    def ob(where, status, why=''):
        rep.ob('schedule', where, status, '' if status == 'ok' else why, loc)

    def eq(where, a, b, why=''):
        d = True if not isinstance(a, N) else c.diff(a, b)
        ob(where, 'diff' if d else 'ok', '%sis %s, not %s' % (why, show(a)[:160] if isinstance(a, N) else a, show(b)[:160]))
        return not d
    outs = outputs(ev)
    steps = calls(ev, 'step')
    if not outs or not steps:
        ob('steps and files', 'undecided' if not outs and not steps else 'diff', 'no steps or no files')
        return
    # the initial state
    fo = top_index(ev, fileev)
    fs = top_index(ev, stepev)
    init = [o for o in outs if not o.path]
    if fo[0] >= fs[0]:
        ob('the initial state is written before the first step', 'diff', 'the first file is not written before the first step')
    elif len(init) == 1 and outs[0] is init[0]:
        ob('the initial state is written before the first step', 'ok')
    else:
        ob('the initial state is written before the first step', 'undecided', 'structure')
    f0, n0 = number_of(outs[0])
    if n0 is None:
        ob('number of the initial file', 'undecided', 'file name')
    else:
        eq('number of the initial file', n0, off)
    rest = [o for o in outs if o.path]
    if len(rest) != 1:
        ob('files of the run', 'diff' if not rest else 'undecided', '%d places write files' % len(rest))
        return
    o = rest[0]
    f1, n1 = number_of(o)
    if n1 is None or f0 is None:
        ob('file names', 'undecided', 'file name')
        return
    ob('all files are named alike', 'ok' if f0 == f1 else 'diff', '%s and %s' % (f0, f1))
    ob('the name carries the whole number', 'ok' if f1.count('%') == 1 and f1.rstrip().endswith('.csv') and 'd' in f1.split('%')[1] else 'diff', f1)
    sp = [tuple(y for y in p if y[0] == 'loop') for p, x in steps]
    ol = [y[1] for y in o.path if y[0] == 'loop']
    oc = [y[1] for y in o.path if y[0] == 'if']
    if any(len(p) >= 2 and p[1][1] in ol[1:] for p in sp):
        ob('one file per output interval', 'diff', 'a file is written in the loop over the steps')
        return
    caught = [p for p, y in evs(ol[0].events) if y[0] == 'catch'] if ol else []
    if any(goes_on(ol[0], *[c_[1] for c_ in p if c_[0] == 'if']) for p in caught):
        # a pass that has caught an exception completes, and the next one begins
        ob('nothing is computed or written after a failure', 'diff', 'the run goes on after a failure')
        return
    handled = [x for L in ol[:1] for x in after_catch(L.events)]
    for p in caught:
        # the passes another one follows
        L = ol[0]
        L.events = prune(L.events, band(L.normal.pc, bnot(band(*[c_[1] for c_ in p if c_[0] == 'if']))))
    if caught:
        steps = calls(ev, 'step')
        outs = outputs(ev)
        rest = [o for o in outs if o.path]
        if len(rest) != 1:
            ob('files of the run', 'undecided', '%d places write files' % len(rest))
            return
        o = rest[0]
        sp = [tuple(y for y in p if y[0] == 'loop') for p, x in steps]
        ol = [y[1] for y in o.path if y[0] == 'loop']
        oc = [y[1] for y in o.path if y[0] == 'if']
    if ol and any(len(q) < 2 and not [y for y in p if y[0] == 'if'] for q, (p, x) in zip(sp, steps)):
        ob('steps go on until the output time', 'diff', 'a step is taken without looking at the time')
        return
    if len(ol) != 1 or len(steps) != 1 or len(sp[0]) != 2 or sp[0][0][1] is not ol[0]:
        ob('one file per output interval', 'undecided', 'structure of the loops')
        return
    L, M = ol[0], sp[0][1][1]
    ob('one file per output interval', 'diff' if oc else 'ok', 'a file is written only if %s' % [show(x)[:100] for x in oc])
    if [y for p in (steps[0][0],) for y in p if y[0] == 'if']:
        ob('every pass of the stepping loop advances time', 'diff', 'a step is taken only under a condition')
    if L.binder is None or L.lo is None or L.hi is None:
        ob('number of files', 'undecided', 'the loop over the files is not counted')
        return
    eq('number of files', sub(L.hi, L.lo), cnt)
    hv = list(L.flat_h.values())
    k = sub(L.binder, L.lo)
    eq('file numbers', progress(n1, L, hv), add(add(off, k), ONE))
    im = top_index(L.events, stepev)
    io = top_index(L.events, fileev)
    ob('the file is written after the steps of its interval', 'ok' if im[-1] < io[0] else 'diff', 'written before the steps')
    # the stepping loop
    th, alias = clock_alias(M)
    cond = M.whilecond if isinstance(M.whilecond, N) and M.whilecond is not TRUE else M.cond
    if th is None or not isinstance(cond, N) or cond is TRUE or M.early and M.brkguard is not FALSE and not M.throws and False:
        ob('steps go on until the output time', 'undecided', 'stepping loop')
    else:
        z = progress(subst(cond, alias), L, hv)
        ref = cmp('<', th, mul(add(k, ONE), I))
        if z.op == 'pos' and ref.op == 'pos':
            d = c.diff(z.a[0], ref.a[0])
            left = [x for x in walk_syms(z) if x in M.flat_h.values() and x is not th]
            if left and d:
                ob('steps go on until the output time', 'undecided', 'carried values %s' % left[:3])
            else:
                ob('steps go on until the output time', 'diff' if d else 'ok', 'steps while %s' % show(z)[:200])
        else:
            ob('steps go on until the output time', 'diff' if z.op in ('not', 'ipos') else 'undecided', 'steps while %s' % show(z)[:200])
        tk = (('T', ()), ())
        eq('a pass of the stepping loop is one step', M.flat_p[tk], fn('next', th))
    # failures
    esc = [t for t in A.I.throws[0] if any(x.op == 'fn' and x.a[0] == 'stepfails' for x in nd.walk(t.pc))]
    ob('a failing step does not end the program unreported', 'diff' if esc else 'ok', 'an exception of a step leaves main')
    last = top_index(ev, stepev)[-1]
    later = [y for p, y in evs(ev[last + 1:]) if fileev(y) or stepev(y)]
    stops = bool(caught) or any(x.op == 'fn' and x.a[0] == 'stepfails' for g, _ in exits(L) for x in nd.walk(g))
    ob('nothing is computed or written after a failure', 'ok' if (stops or esc) and not later else 'diff', 'the run goes on after a failing step')
    for aft in handled + [x for _, e2 in exits(L) for x in after_catch(e2)]:
        ob('a failure is reported', 'ok' if any(y[0] == 'call' and y[1] == 'out' for p, y in evs(aft)) else 'diff', 'nothing is printed')
        if any(fileev(y) or stepev(y) for p, y in evs(aft)):
            ob('nothing is written for a failed interval', 'diff', 'a file is written after the failure')
    # the progress line
    for nm, evl, num in (('initial', ev, n0), ('run', L.events, n1)):
        lines = [fmt_args(x[2][1]) for x in evl if x[0] == 'call' and x[1] == 'out' and not is_stream(x[2][0])]
        lines = [x for x in lines if x and x[0]]
        for t, args in lines[:1]:
            dirs = [int(x) for x in re.findall(r'%(\d+)\$', t)]
            need = max(dirs) if dirs else len(re.findall(r'%[^%]', t))
            ob('progress line (%s): every value is given' % nm, 'ok' if len(args) == need else 'diff', '%d values for %d places' % (len(args), need))
            m = re.search(r't=%(\d+)\$', t)
            if m and len(args) == need:
                v = args[int(m.group(1)) - 1]
                if nm == 'initial':
                    eq('progress line (initial): time', v, S)
                else:
                    d = sub(v, S)
                    nmz = {h.a[0] for h in list(alias) + ([th] if th is not None else []) if h.op == 'sym'}
                    good = d.op == 'rec' and d.a[1].a[0] in nmz if d.op == 'rec' and isinstance(d.a[1], N) else d.op == 'rec' and d.a[1] in nmz
                    ob('progress line (run): time', 'ok' if good else 'diff' if d.op in ('c', 'sum', 'prod', 'sym') else 'undecided', 'shows %s' % show(v)[:150])
            m = re.search(r'#%(\d+)\$', t)
            if m and len(args) == need:
                eq('progress line (%s): number of the file' % nm, args[int(m.group(1)) - 1], num)


def walk_syms(n):
    return [x for x in nd.walk(n) if x.op in ('sym', 'bsym')]


# ---------- C16: the reader
def relpc(L):
    """conditions, within one pass of a loop, under which it leaves by an exception"""
    base = lits(L.st0.pc)
    m = {}
    if L.binder is not None and isinstance(L.hi, N):
        m = {zero(sub(L.hi, L.binder)): FALSE, cmp('<', L.binder, L.hi, True): TRUE, cmp('<=', L.lo, L.binder, True): TRUE}
    return [subst(band(*(lits(t.pc) - base)), m) for t in L.throws]


def exits(L):
    """(condition within one pass, events) of every way to leave a loop other than by its condition or an exception"""
    base = lits(L.st0.pc)
    return [(subst(band(*(lits(s.pc) - base)), L.hmap), prune(s.ev, s.pc)) for s in list(L.breaks) + [r[0] for r in L.rets]]


def after_catch(ev):
    """what happens after each caught exception"""
    ks = [q for q, y in enumerate(ev) if y[0] == 'catch']
    if ks:
        yield ev[ks[-1] + 1:]
        return
    for y in ev:
        if y[0] == 'if':
            yield from after_catch(y[2])
            yield from after_catch(y[3])


def goes_on(L, *conds):
    """can a pass under these conditions complete and another one follow it?"""
    if L.normal is None:
        return False
    m = {}
    for key, h in L.flat_h.items():
        q = L.flat_p.get(key)
        if isinstance(h, N) and isinstance(q, N) and not isarr(h) and h.op != 'seq':
            m[h] = q
    nxt = subst(L.cond, m) if isinstance(L.cond, N) and isbool(L.cond) else TRUE
    return band(*lits(L.normal.pc), *conds, nxt) is not FALSE


def find_fn(n, name):
    return [x for x in nd.walk(n) if x.op == 'fn' and x.a[0] == name]


def stripped(n):
    """(text, characters removed)"""
    if n.op == 'fn' and n.a[0] == 'strip':
        return n.a[1][0], n.a[1][1].a[0]
    return n, ''


def counts_only(e):
    """arithmetic on constants and on numbers of items"""
    if e.op == 'fn':
        return e.a[0] == 'nitems'
    if e.op == 'sum':
        return all(counts_only(x) for x, _ in e.a[1])
    if e.op == 'prod':
        return all(counts_only(x) for x, _ in e.a[0])
    if e.op == 'ite':
        return counts_only(e.a[1]) and counts_only(e.a[2])
    return isc(e)


def reader(rep, config):
    A = app(config)
    I = A.I
    TXT = xml('particles')
    loc = 'Main.cpp'

    def ob(where, status, why=''):
        rep.ob('reader', where, status, '' if status == 'ok' else why, loc)
    if len(A.added) != 1:
        ob('particles', 'undecided', '%d additions' % len(A.added))
        return
    v, st = A.added[0]
    if not isinstance(v, SeqV):
        ob('particles', 'undecided', 'not a list built by the reader')
        return
    # the loop that builds the list
    n = v.n
    R = None
    for L in I.loops:
        for key, p in L.flat_p.items():
            if isinstance(p, N) and p.op == 'seq' and L.flat_i.get(key) is SEQ0 and n.op == 'seqrec' and n.a[0] == L.id:
                R, rk = L, key
    if R is None:
        ob('particles', 'undecided', 'the list is not built by one loop')
        return
    loc = R.loc
    segs = R.flat_p[rk].a[0]
    if len(segs) >= 2 and segs[0][0] == 'one' and all(x[0] == 'all' for x in segs[1:]):
        ob('particles keep the order of the rows', 'diff', 'each particle is put before the earlier ones')
        return
    if len(segs) < 2 or segs[0][0] != 'all' or any(s[0] != 'one' for s in segs[1:]):
        ob('one particle per row', 'undecided', 'shape of the list')
        return
    if len(segs) > 2:
        ob('one particle per row', 'diff', '%d particles are appended for a row' % (len(segs) - 1))
        return
    guard, leafv = segs[1][1], dict(zip(leaves(v.sch), segs[1][2]))
    el = build(v.sch, lambda p: leafv[p])
    s2 = st.clone()
    s2.mem['EL'] = el
    cols = A.columns(Ref('EL'), s2)
    # the text of the row and of its line
    items = [x for x in find_fn(cols['p'], 'item') + find_fn(cols['Type'], 'item')]
    rows = {x.a[1][0] for x in items if x.a[1][1].op == 'fn' and text(x.a[1][1].a[1][0]) == ','}
    if len(rows) != 1:
        ob('rows', 'undecided' if not rows else 'diff', 'cells of %d texts' % len(rows))
        return
    row = rows.pop()
    line, cs = stripped(row)
    if not (line.op == 'fn' and line.a[0] == 'item' and line.a[1][0] is TXT and line.a[1][1].op == 'fn' and text(line.a[1][1].a[1][0]) == '\n'):
        ob('rows', 'undecided', 'a row is %s' % show(row)[:150])
        return
    k = line.a[1][2]
    NL = fn('nitems', TXT, line.a[1][1])
    sep = [x.a[1][1] for x in items if x.a[1][0] is row][0]
    NI = fn('nitems', row, sep)
    if R.binder is None or k is not R.binder:
        ob('every row is read', 'undecided', 'row number %s' % show(k)[:100])
        return
    if R.hi is not NL:
        d = sub(R.hi, NL) if isinstance(R.hi, N) else None
        ob('every row is read', 'diff' if d is not None and isc(d) else 'undecided', 'rows up to %s' % show(R.hi)[:100])
    else:
        stop = getattr(R, 'brkguard', FALSE)
        if stop is not FALSE:
            ob('every row is read', 'diff' if find_fn(stop, 'item') or find_fn(stop, 'nitems') else 'undecided', 'reading stops at a row with %s' % show(stop)[:160])
        else:
            ob('every row is read', 'ok')
    # header: the loop that fills the column numbers
    recs = {}
    col = {}
    for name, x in list(cols.items()):
        want = ('stoi',) if name == 'Type' else ('real',)
        NUMS = ('stoi', 'stol', 'real', 'stof', 'narrow32', 'trunc')
        if not (x.op == 'fn' and x.a[0] in NUMS):
            ys = {y for y in nd.walk(x) if y.op == 'fn' and y.a[0] in NUMS and isinstance(y.a[1][0], N) and y.a[1][0].op == 'fn' and y.a[1][0].a[0] == 'item' and y.a[1][0].a[1][0] is row}
            if len(ys) == 1:            # what is written, changed by some rule
                y = ys.pop()
                vals = sorted(A.ir.enumvals(enum_id(A))) if name == 'Type' else (0, 1, -1, Fraction(-7, 3), Fraction(1, 1000), 1000000)
                got = [(t, ctx(subst(x, {y: C(t)}))) for t in vals]
                wrong = [(t, w) for t, w in got if isc(w) and cval(w) != t]
                if wrong:
                    ob('column ' + name, 'diff', '%s is taken as %s' % (wrong[0][0], show(wrong[0][1])))
                    continue
                cols[name] = y
            ob('column ' + name, 'diff' if isc(x) or x.op == 'undef' else 'undecided', 'is %s' % show(x)[:150])
            continue
        if x.a[0] not in want and not (name == 'Type' and x.a[0] == 'stol'):
            ob('column ' + name, 'diff', 'read as %s' % x.a[0])
            continue
        it = x.a[1][0]
        if not (it.op == 'fn' and it.a[0] == 'item' and it.a[1][0] is row):
            ob('column ' + name, 'undecided', 'is %s' % show(x)[:150])
            continue
        col[name] = it.a[1][2]
    H = None
    for name, e in col.items():
        rs = [x for x in nd.walk(e) if x.op == 'rec']
        fixed = counts_only(e)      # the same column whatever the header's names
        if len(rs) != 1 or fixed:
            ob('column ' + name, 'diff' if fixed else 'undecided', 'column %s' % show(e)[:100])
            continue
        r = rs[0]
        Ls = [L for L in I.loops if L.id == r.a[0]]
        hn = r.a[1].a[0] if isinstance(r.a[1], N) else r.a[1]
        keys = [q for L in Ls for q, h in L.flat_h.items() if isinstance(h, N) and h.op == 'sym' and h.a[0] == hn]
        if len(Ls) != 1 or len(keys) != 1:
            ob('column ' + name, 'undecided', 'column number')
            continue
        if H is not None and Ls[0] is not H:
            ob('column ' + name, 'undecided', 'several header loops')
            continue
        H = Ls[0]
        recs[name] = (r, H.flat_h[keys[0]], H.flat_p[keys[0]], H.flat_i[keys[0]], e)
    if H is None:
        return
    its = {x for name, (r, h, p, i, e) in recs.items() for x in find_fn(p, 'item') if x.a[1][2] is H.binder}
    if len(its) != 1:
        ob('header', 'undecided', 'names of the columns')
        return
    hit = its.pop()
    hrow, hcs = stripped(hit.a[1][0])
    hsep = hit.a[1][1]
    if text(hsep.a[1][0]) != ',' if hsep.op == 'fn' and hsep.a[0] == 'anyof' else True:
        ob('header', 'undecided', 'separator')
        return
    ob('blanks in the header are ignored', 'ok' if {' ', '\t'} <= set(hcs) else 'diff', 'only %r' % hcs)
    ob('blanks in rows are ignored', 'ok' if {' ', '\t'} <= set(cs) else 'diff', 'only %r' % cs)
    for what, q in (('the header', hcs), ('rows', cs)):
        lost = ''.join(c for c in q if c.isalnum() or c in '+-.,')
        ob('nothing but blanks is ignored in ' + what, 'ok' if not lost else 'diff', 'the characters %r of names or values are dropped' % lost)
    NH = fn('nitems', hit.a[1][0], hsep)
    hl = fn('strlen', hit.a[1][0])
    full = {hl: ONE, fn('strlen', line): C(2), fn('strlen', row): ONE, fn('strlen', hrow): ONE}
    hi = subst(H.hi, full) if isinstance(H.hi, N) else None
    if H.lo is not ZERO or hi is not NH:
        ob('every column of the header is looked at', 'diff' if isc(H.lo) and hi is not None and isc(sub(hi, NH)) else 'undecided', '%s to %s' % (show(H.lo), show(hi)[:80] if hi is not None else None))
    else:
        ob('every column of the header is looked at', 'ok')
    # the header is the line before the first row
    if hrow.op == 'fn' and hrow.a[0] == 'item' and hrow.a[1][0] is TXT:
        d = sub(R.lo, hrow.a[1][2])
        ob('rows start after the header', 'ok' if d is ONE else 'diff' if isc(d) else 'undecided', 'rows from line %s' % show(R.lo)[:100])
    else:
        ob('rows start after the header', 'undecided', show(hrow)[:100])
    for name, (r, h, p, i, e) in recs.items():
        at = lambda t: subst(p, {hit: code(mk('str', t))})
        a1 = at(name)
        if a1 is h:
            other = [q for q in recs if at(q) is not h]
            ob('column ' + name, 'diff', 'takes the column named %s' % other)
            continue
        idx = subst(e, {r: a1})
        wrong = [q for q in recs if q != name and at(q) is not h]
        if wrong:
            ob('column ' + name, 'diff', 'also takes the column named %s' % wrong)
        elif idx is H.binder:
            ob('column ' + name, 'ok')
        else:
            d = sub(idx, H.binder)
            ob('column ' + name, 'diff' if isc(d) else 'undecided', 'reads column %s for column %s' % (show(idx)[:80], show(H.binder)))
        d = sub(a1, i)
        ob('a missing column %s is an error' % name, 'ok' if band(A.st.pc, zero(sub(r, i))) is FALSE else 'diff', 'accepted')
    bad = {hit: C(appmodels.BASE_CODE - 7)}
    g = bor(*[subst(p, bad) for p in relpc(H)])
    ob('an unknown column is an error', 'ok' if g is TRUE else 'diff' if g is FALSE else 'undecided', 'accepted' if g is FALSE else show(g)[:150])
    # rows
    empty = dict(full)
    empty[fn('strlen', line)] = ZERO
    empty[fn('strlen', row)] = ZERO
    spaces = {**empty, fn('strlen', line): C(2)}
    many = {NI: C(8), NH: C(8)}
    ts = relpc(R)
    unread = {x: ZERO for p in ts for x in find_fn(p, 'unreadable')}
    tv = cols['Type']
    enum = sorted(A.ir.enumvals(enum_id(A)))

    def at(p, m, t):
        m = dict(m)
        m.update(unread)
        m[tv] = C(t)
        return subst(subst(p, m), {tv: C(t)})
    g0, g1 = subst(guard, {**empty, **{NI: ZERO}}), at(guard, {**full, **many}, enum[0])
    ob('blank lines are skipped', 'ok' if g0 is FALSE and bor(*[subst(p, {**empty, **{NI: ZERO}}) for p in ts]) is FALSE else 'diff' if g0 is TRUE else 'undecided', show(g0)[:150])
    g0 = subst(guard, {**spaces, **{NI: ZERO}})
    t0 = bor(*[subst(p, {**spaces, **{NI: ZERO}}) for p in ts])
    ob('lines of nothing but spaces and tabs are skipped', 'ok' if g0 is FALSE and t0 is FALSE else 'diff' if g0 is TRUE or t0 is TRUE else 'undecided', 'treated as a row')
    ob('every other line is a particle', 'ok' if g1 is TRUE else 'diff' if g1 is FALSE else 'undecided', show(g1)[:150])
    shorts = [{NI: C(q), NH: C(len(cols))} for q in range(1, len(cols))]
    shortp = [bor(*[at(p, {**full, **short}, enum[0]) for p in ts]) for short in shorts]
    fine = [at(p, {**full, **many}, enum[0]) for p in ts]
    ob('a row with too few items is an error', 'ok' if all(p is TRUE for p in shortp) else 'diff' if any(p is FALSE for p in shortp) else 'undecided', show(shortp[-1])[:300])
    reads = [subst(p, {**full, **short}) for short in shorts for p in ts if find_fn(p, 'unreadable')]
    early = [p for p in reads if p is not FALSE]
    ob('a short row is refused before its items are read', 'ok' if not early else 'undecided' if any(x.op not in ('and', 'or', 'not', 'zero', 'fn') for x in early) and False else 'diff', 'items are read first')
    ob('a complete row is accepted', 'ok' if bor(*fine) is FALSE else 'diff' if bor(*fine) is TRUE else 'undecided', 'refused')
    for t in enum:
        f = bor(*[at(p, {**full, **many}, t) for p in ts])
        ob('particle kind %d is accepted' % t, 'ok' if f is FALSE else 'diff' if f is TRUE else 'undecided', 'refused')
    for t in (enum[0] - 1, enum[-1] + 1):
        f = bor(*[at(p, {**full, **many}, t) for p in ts])
        ob('an unknown particle kind (%d) is an error' % t, 'ok' if f is TRUE else 'diff' if f is FALSE else 'undecided', show(f)[:300])


def enum_id(A):
    for k, e in A.ir.enums.items():
        if e and str(e.get('q', '')).endswith('Particle::Type') or e and e.get('n') == 'Type':
            return k
    raise SourceError('Particle::Type not found')
