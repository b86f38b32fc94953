"""Storage: appended particles, container sizes through a history of the public operations, index ranges of every access."""
from . import nodes as nd
from .nodes import *
from .model import Model, Anchor
from .values import *
from .interp import St, ALLDEFS, fresh2
from .simp import ctx, rewrite
from .source import export
from . import nf


def added(config, ir=None, bounds=None):
    """the state after appending an arbitrary list Q to an arbitrary computer S"""
    ir = ir or export('step', config)
    m = Model(ir, config)
    m.configure()
    I = m.I
    if bounds is not None:
        I.recs.append(bounds)
        I.bounds = bounds
    f = ir.fn(m.fid('verif::add'))
    st = St({'S': m.S0}, (), TRUE)
    st.mem['Q'] = I.sym_value(m.strip(f['p'][1]['t']), 'Q')
    m.Q = st.mem['Q']
    m.start = st.clone()
    I.inline(m.fid('verif::add'), f, None, [Ref('S'), Ref('Q')], st)
    m.st = st
    return m


def append(rep, config):
    m = added(config)
    I = m.I
    loc = 'Computer.hpp'
    P0, P1 = I.read(m.parts, m.start), I.read(m.parts, m.st)
    n0, nq = P0.dims[0], m.Q.dims[0]
    c = nf.Ctx()

    def ob(where, why):
        rep.ob('appending', where, 'diff' if why else 'ok', why, loc)
    d = c.diff(P1.dims[0], add(n0, nq))
    ob('the number of particles grows by the number appended', nf.showp(d, 3) if d else '')
    a, b = fresh2('sym', 'a', 'bound'), fresh2('sym', 'b', 'bound')
    nd.LOOPRANGE[a], nd.LOOPRANGE[b] = (ZERO, n0), (ZERO, nq)
    bad, bad2 = [], []
    und = []
    for p in P0.lv:
        try:
            A = P1.lv[p]
            while A.op == 'aver' and (nd.vdef(A) or (ALLDEFS.get(A.a[:2]) or (0, None))[1]) is not None:
                A = nd.vdef(A) or ALLDEFS[A.a[:2]][1]
            x = select(A, (a,))
            if x is not select(P0.lv[p], (a,)) and c.diff(x, select(P0.lv[p], (a,))):
                bad.append('.'.join(map(str, p)))
            y = select(A, (add(n0, b),))
            if y is not select(m.Q.lv[p], (b,)) and c.diff(y, select(m.Q.lv[p], (b,))):
                bad2.append('.'.join(map(str, p)))
        except Unsupported as e:
            und.append(str(e))
    if und:
        rep.ob('appending', 'particle data', 'undecided', und[0], loc)
        return
    ob('earlier particles keep their number and data', 'field(s) %s of particle a become something else' % ', '.join(bad) if bad else '')
    ob('appended particles follow in the order given', 'field(s) %s of appended particle b' % ', '.join(bad2) if bad2 else '')
    ch = [('.'.join(map(str, k)), v) for k, v in flatten(m.envval(())).items() if v is not flatten(I.nav(m.S0, m.env.s)).get(k)]
    ob('the environment is left alone', ', '.join(k for k, _ in ch))


def stable(rep, m):
    I = m.I
    P1 = I.read(m.parts, m.st)
    d = nf.Ctx().diff(P1.dims[0], m.psize)
    rep.ob('step', 'the number of particles stays', 'diff' if d else 'ok', 'size after the step: %s' % show(P1.dims[0])[:200] if d else '', 'Computer.hpp')


CHANGE = {'insert', 'erase', 'push_back', 'emplace_back', 'emplace', 'resize', 'clear', 'pop_back', 'assign', 'swap', 'operator='}
REMOVE = {'erase', 'clear', 'pop_back', 'assign', 'swap', 'operator='}
REORDER = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'partition', 'stable_partition', 'remove', 'remove_if', 'unique', 'rotate', 'reverse', 'shuffle', 'random_shuffle', 'iter_swap', 'swap', 'sort_heap', 'make_heap'}


def nodes_in(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def effects(rep, config):
    """calls that add, remove or reorder elements of the list of particles, in everything a step (or an addition) can reach"""
    ir = export('step', config)
    acc = [f for i in ir.byname.get('OpenMps::Computer::Particles', []) for f in [ir.fn(i)]]
    names = {y['d'] for f in acc for y in nodes_in(f['body']) if y.get('k') == 'mem' and y.get('dk') == 'field'}
    # the same field of every instantiation has the same name
    label = {y['n'] for f in acc for y in nodes_in(f['body']) if y.get('k') == 'mem' and y.get('dk') == 'field'}
    if len(label) != 1:
        rep.ob('list of particles', 'accessor', 'undecided', 'fields %s' % sorted(label))
        return

    def is_list(x):
        return isinstance(x, dict) and x.get('k') == 'mem' and x.get('dk') == 'field' and x.get('d') in names

    def about(x):
        return any(is_list(y) for y in nodes_in(x))
    def direct(x):
        """the list itself or one of its elements"""
        while isinstance(x, dict) and x.get('k') in ('cast', 'mat', 'paren') and 'e' in x:
            x = x['e']
        if not isinstance(x, dict):
            return False
        if x.get('k') in ('call', 'opcall', 'mcall') and isinstance(x.get('f'), int) and (ir.functions.get(str(x['f'])) or {}).get('n') in ('operator[]', 'at', 'front', 'back'):
            return is_list(x.get('obj')) or bool(x.get('args')) and is_list(x['args'][0])
        return is_list(x)
    for entry, what, bad in (('verif::step_dt', 'a step', CHANGE), ('verif::step', 'a step', CHANGE), ('verif::add', 'an addition', REMOVE)):
        seen, work = set(), list(ir.byname.get(entry, []))
        hits, n = [], 0
        while work:
            i = str(work.pop())
            if i in seen or i not in ir.functions or 'body' not in ir.functions[i]:
                continue
            seen.add(i)
            f = ir.functions[i]
            for y in nodes_in([f['body'], f.get('inits')]):
                for k in ('f', 'fn', 'lambda', 'd'):
                    v = y.get(k)
                    if isinstance(v, int) and not isinstance(v, bool) and str(v) in ir.functions and str(v) not in seen and (k != 'd' or y.get('dk') in ('fn', 'function', 'func', 'method')):
                        work.append(v)
                if y.get('k') not in ('call', 'opcall', 'mcall') or not isinstance(y.get('f'), int) or not f.get('repo'):
                    continue
                n += 1
                g = ir.functions.get(str(y['f'])) or {}
                nm = g.get('n')
                if nm in bad and (is_list(y.get('obj')) or nm == 'operator=' and y.get('args') and is_list(y['args'][0])):
                    hits.append('%s of the list at %s' % (nm, ir.loc(y.get('l'))))
                elif nm in REORDER and str(g.get('q', '')).startswith('std::') and any(direct(z) if nm == 'swap' else about(z) for z in y.get('args', ())[:2 if 'swap' in nm else 1]):
                    hits.append('%s over the list at %s' % (nm, ir.loc(y.get('l'))))
        rep.add('calls', n)
        if not seen:
            rep.ob('list of particles', '%s (%s)' % (what, entry), 'undecided', 'entry not found')
            continue
        rep.ob('list of particles', '%s adds, removes and reorders nothing it should keep (%s)' % (what, entry), 'diff' if hits else 'ok', '; '.join(sorted(set(hits))[:3]) or '%d functions' % len(seen), hits[0].split(' at ')[-1] if hits else '')
