"""Time step rule, wall motion protocol, permanence of disabled particles."""
from . import nodes as nd
from .nodes import *
from .model import Anchor
from .values import Vec
from .spec import expand
from .simp import rewrite, ctx
from .stages import Stages, verloc
from . import nf
from .sample import Point, Ieee, Undef, compare


# ---- time step
def timestep(rep, m):
    """m: the step without an explicit dt"""
    from .check import model
    T0, dt, t1 = None, m.envval(('dt',)), m.envval(('t',))
    I = m.I
    t0 = I.num(m.acc('OpenMps::Environment::T', m.env, m.start)[0], m.start)
    MaxDt, MaxDx = m.envval(('MaxDt',)), m.envval(('MaxDx',))
    U = [I.nav(I.read(m.parts, m.start), ()).lv[p] if False else I.read(m.parts, m.start).lv[p] for p in m.leafpaths('U')]
    TY = I.read(m.parts, m.start).lv[m.leafpaths('TYPE')[0]]
    speed = sym('$maxspeed')
    pos_names = {'$maxspeed', MaxDt.a[0], MaxDx.a[0]}
    c = nf.Ctx(pos_names)
    probs = []

    def over(b, lo, hi, body, what):
        """checks the set and the quantity a maximum is taken over; True: squared speed, False: speed"""
        g = TRUE
        x = body
        while x.op == 'guarded':
            g = band(g, x.a[0])
            x = x.a[1]
        if lo is not ZERO or hi is not m.psize:
            probs.append('%s is not taken over all particles' % what)
        k = b
        want = bnot(zero(sub(select(TY, (k,)), C(m.T['DISABLED']))))
        for e, v in m.T.items():
            r = ctx(rewrite(g, lambda y: C(v) if y.op == 'sel' and y.a[0] is TY and y.a[1] == (k,) else None))
            if r is not (FALSE if e == 'DISABLED' else TRUE):
                probs.append('%s %s %s particles' % (what, 'includes' if e == 'DISABLED' else 'does not (always) include', e.lower()))
        u2 = ZERO
        for a in U:
            u2 = add(u2, mul(select(a, (k,)), select(a, (k,))))
        for sq, ref in ((True, u2), (False, sqrt(u2))):
            if not nf.Ctx().diff(x, ref):
                return sq
        probs.append('%s is taken of %s, not of the speed' % (what, show(x)[:120]))
        return True
    found = [0]

    def sub_max(n):
        def f(x):
            if x.op == 'bigmax':
                found[0] += 1
                sq = over(*x.a, what='the maximum speed')
                return mul(speed, speed) if sq else speed
            if x.op == 'fn' and x.a[0] == 'max2':
                args = [y for y in x.a[1] if y is not ZERO]
                if len(args) == 1:          # max(0, squared speed)
                    return args[0]
            if x.op == 'sel' and len(x.a[1]) == 1 and x.a[1][0].op == 'argmax' and x.a[0] in U:
                found[0] += 1
                over(*x.a[1][0].a, what='the maximum speed')
                return speed if x.a[0] is U[0] else ZERO
            return None
        return rewrite(n, f)
    d = sub_max(dt)
    if not found[0]:
        rep.ob('time step', 'maximum speed', 'undecided', 'no maximum over the particles found in %s' % show(dt)[:300])
        return
    rep.ob('time step', 'maximum speed', 'diff' if probs else 'ok', '; '.join(sorted(set(probs))))
    ref = nmin(div(MaxDx, speed), MaxDt)
    p = c.diff(d, ref)
    near = bool(p) and compare(d, ref, m, pos_names)[0] == 'equal'
    rep.ob('time step', 'moving particles', 'undecided' if near else 'diff' if p else 'ok', nf.showp(p, 3) if p else '')
    z = rewrite(d, lambda x: ZERO if x is speed else None)
    p = c.diff(ctx(z), MaxDt)
    if p and all(machine(z, m, i) == machine(MaxDt, m, i) for i in range(20)):
        p = {}      # a quotient by zero is infinite, and loses against MaxDt
    rep.ob('time step', 'resting particles', 'diff' if p else 'ok', nf.showp(p, 3) if p else '')
    p = c.diff(sub_max(t1), add(t0, d))
    near = bool(p) and compare(sub_max(t1), add(t0, d), m, pos_names)[0] == 'equal'
    rep.ob('time advance', 'by the chosen step', 'undecided' if near else 'diff' if p else 'ok', nf.showp(p, 3) if p else '')


def machine(n, m, seed):
    class P(Ieee, Point):
        pass
    try:
        return P(seed, m, set()).ev(n)
    except (Undef, OverflowError, ZeroDivisionError, ValueError, KeyError, TypeError):
        return None


def advance(rep, m):
    t0 = m.I.num(m.acc('OpenMps::Environment::T', m.env, m.start)[0], m.start)
    c = nf.Ctx({'dt'})
    p = c.diff(m.envval(('t',)), add(t0, m.dt))
    rep.ob('time advance', 'by the requested step', 'diff' if p else 'ok', nf.showp(p, 3) if p else '')
    p = c.diff(m.envval(('dt',)), m.dt)
    rep.ob('time step', 'the requested step is recorded', 'diff' if p else 'ok', nf.showp(p, 3) if p else '')
    # nothing else in the environment changes
    same = []
    for k, v in m.start.mem['S'].f[m.envname.split('.')[-1]].f.items():
        w = m.st.mem['S'].f[m.envname.split('.')[-1]].f[k]
        if k in ('t', 'dt') or v is w or isinstance(v, Vec) and all(a is b for a, b in zip(v.c, w.c)):
            continue
        t, d = m.I.num(m.acc('OpenMps::Environment::T', m.env, m.start)[0], m.start), None
        if isinstance(v, N) and v in (t0,):
            continue
        same.append(k)
    same = [k for k in same if not (isinstance(m.start.mem['S'].f[m.envname.split('.')[-1]].f[k], N) and m.start.mem['S'].f[m.envname.split('.')[-1]].f[k].op == 'sym' and k in ('t', 'dt'))]
    rep.ob('conditions stay fixed', 'environment', 'diff' if same else 'ok', 'changed: ' + ', '.join(same) if same else '')


# ---- wall protocol
def flat(ev, g=TRUE, loops=()):
    for e in ev:
        if e[0] == 'if':
            yield from flat(e[2], band(g, e[1]), loops)
            yield from flat(e[3], band(g, bnot(e[1])), loops)
        elif e[0] == 'loop':
            L = e[1]
            for g2, l2, e2 in flat(L.events, TRUE, loops + (L,)):
                yield band(g, subst(g2, L.hmap)), l2, (e2[0], e2[1], tuple(subst(a, L.hmap) for a in e2[2]))
        else:
            yield g, loops, e


def walls(rep, m):
    st = Stages(m, want=set(), kinds='F').run()
    s = st.s
    ev = list(flat(m.st.ev))
    t1 = add(s.t0, s.dt)
    c = s.ctx()
    pre = [(k, g, l, e) for k, (g, l, e) in enumerate(ev) if e[1] == 'wallPre']
    calls = [(k, g, l, e) for k, (g, l, e) in enumerate(ev) if e[1] == 'wall']
    if not calls and not pre:
        raise Anchor('no wall callback is reached')
    ok = len(pre) == 1 and pre[0][1] is TRUE and not pre[0][2]
    rep.ob('wall preparation', 'exactly once per step', 'ok' if ok else 'diff', '%d call sites, conditions %s' % (len(pre), [show(p[1])[:80] for p in pre]))
    for k, g, l, e in pre:
        bad = [show(a) for a, b in zip(e[2], (t1, s.dt)) if c.diff(a, b)]
        rep.ob('wall preparation', 'is told the new time and the step', 'diff' if bad or len(e[2]) != 2 else 'ok', 'arguments %s' % bad)
    if pre:
        late = [c2 for c2 in calls if c2[0] < pre[0][0]]
        rep.ob('wall preparation', 'precedes every wall position', 'diff' if late else 'ok', '')
    tot = ZERO
    for k, g, l, e in calls:
        L = l[-1] if l else None
        if L is None or len(l) != 1:
            rep.ob('wall position', 'asked per particle', 'undecided', 'call outside a loop over the particles')
            return
        b = L.binder
        full = L.lo is ZERO and L.hi is m.psize
        rep.ob('wall position', 'asked over all particles', 'ok' if full else 'diff', 'range %s..%s' % (show(L.lo), show(L.hi)), L.loc)
        args = [subst(a, {b: m.i}) for a in e[2]]
        bad = [show(a)[:100] for a, r in zip(args, (m.i, t1, s.dt)) if c.diff(a, r)]
        rep.ob('wall position', 'asked for the particle itself at the new time', 'diff' if bad or len(args) != 3 else 'ok', 'arguments %s' % bad, L.loc)
        tot = add(tot, b2n(subst(g, {b: m.i})))
    for kind, want in (('F', 0), ('W', 1), ('D', 1), ('X', 0)):
        r = s.simp(tot, st.v3, st.K[kind])
        p = c.diff(r, C(want))
        rep.ob('wall position', '%s particles: asked %s' % ({'F': 'fluid', 'W': 'wall', 'D': 'dummy', 'X': 'disabled'}[kind], 'once' if want else 'never'),
               'diff' if p else 'ok', nf.showp(p, 2) if p else '')


# ---- disabled particles
def disabled(rep, m):
    st = Stages(m, want=None, kinds='X')
    st.wants = lambda stage: stage in ('density', 'density2', 'explicit', 'gradient', 'stabilise', 'pressure')
    implicit = 'PRESSURE_EXPLICIT' not in st.o
    st.run()
    for o in st.obs:
        if o.label.startswith('p') and not implicit:
            continue
        rep.stage(o)
    tv = st.V['TYPE'][0]
    X = m.T['DISABLED']
    for V in tv[1:]:
        r = m.rule(V)
        if r is None:
            rep.ob('type change', 'rule', 'undecided', 'no rule', verloc(V))
            continue
        T0 = tv[0]
        r = expand(r, {T0})
        old = mk('sel', T0, (m.i,))
        for e, v in m.T.items():
            n = ctx(rewrite(r, lambda x: C(v) if x is old else None))
            vals = leaves(n)
            if vals is None:
                rep.ob('type change', 'from %s' % e.lower(), 'undecided', show(n)[:300], verloc(V))
                continue
            bad = vals - {v, X}
            rep.ob('type change', 'from %s' % e.lower(), 'diff' if bad else 'ok', 'may become %s' % sorted(bad), verloc(V))


def leaves(n):
    if n.op == 'c':
        return {int(n.a[0])}
    if n.op == 'ite':
        a, b = leaves(n.a[1]), leaves(n.a[2])
        return None if a is None or b is None else a | b
    return None
