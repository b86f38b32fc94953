"""Iterations of the parallel loops are independent: no location is written by one iteration and touched by another."""
from . import nodes as nd
from .nodes import *
from .values import *
from . import nf

SPARSE = ('compressed_matrix', 'mapped_matrix', 'coordinate_matrix', 'vector_of_vector', 'generalized_vector_of_vector', 'mapped_vector', 'compressed_vector')


def pathname(root, steps):
    r = root.split('~')[0]
    r = '' if r == 'S' else r
    for t, x in steps:
        if t == 'f':
            r += ('.' if r else '') + str(x)
        else:
            r += '[%s]' % (show(x)[:60] if isinstance(x, N) else x)
    return r or 'the computer'


def own(idx, binder):
    """constant c with idx = binder + c, None otherwise"""
    if not isinstance(idx, N):
        return None
    d = sub(idx, binder)
    return d.a[0] if isc(d) else None


def conflict(p, q, binder):
    """can an access at path p in one iteration and one at path q in another iteration denote overlapping storage?"""
    for (t, x), (u, y) in zip(p, q):
        if t != u:
            return True
        if t == 'f':
            if x != y:
                return False
            continue
        x = x if isinstance(x, N) else C(x)
        y = y if isinstance(y, N) else C(y)
        a, b = own(x, binder), own(y, binder)
        if a is not None and a == b:
            return False                # same index only in the same iteration
        d = sub(x, y)
        if isc(d) and cval(d) != 0 and not dependent(x, binder) and not dependent(y, binder):
            return False                # two different fixed places
        # different values of expressions that vary over the iterations: may coincide
    return True


def dependent(x, binder):
    return not isc(x)


def loop_private(L):
    out = set()
    ii = L.indinfo or {}
    k = ii.get('k') if isinstance(ii, dict) else None
    if k:
        out.add(k[0])
    if getattr(L, 'ind', None):
        out.add(L.ind[0][0])
    names = set()
    red = set()
    for c in L.par.get('cl') or []:
        for v in c.get('v') or []:
            if c['n'] in ('private', 'firstprivate', 'lastprivate', 'linear'):
                names.add(v['n'])
            if c['n'] == 'reduction':
                red.add(v['n'])
    return out, names, red


def both(rep, m):
    """the step with a given time step, then what choosing the time step adds"""
    from .check import model
    seen = races(rep, m)
    races(rep, model(m.config, 'verif::step', []), seen)


def races(rep, m, seen=()):
    I = m.I
    npar = nacc = npair = 0
    locs = set()
    for L in I.loops:
        if not L.par:
            continue
        locs.add((L.fn, str(L.loc)))
        if (L.fn, str(L.loc)) in seen:
            continue
        npar += 1
        priv, names, red = loop_private(L)
        b = L.binder
        whole = 'parallel' in L.par['dir'].split()
        unk = [c['n'] for c in L.par.get('cl') or [] if c['n'] not in ('private', 'firstprivate', 'lastprivate', 'reduction', 'schedule', 'num_threads', 'default', 'shared', 'if', 'nowait', 'proc_bind', 'linear')]
        where = '%s, parallel loop' % L.fn.replace('OpenMps::', '')
        probs = {}
        shared = []
        for a in L.acc:
            kind, root, steps, pc, loc = a[:5]
            at = a[5]
            local = root not in L.entry_roots and not (root[0] == 'g' and root[1:].isdigit())
            if local or root in priv:
                continue
            nm = root.split('~')[0]
            if nm in names and '~' in root:
                continue
            if pc is FALSE:
                continue
            shared.append((kind, root, steps, pc, loc, at, nm in red and '~' in root))
        nacc += len(shared)
        writes = [a for a in shared if a[0] != 'r']
        byroot = {}
        for a in shared:
            byroot.setdefault(a[1], []).append(a)
        done = set()
        for w in writes:
            if w[6]:
                continue
            for a in byroot[w[1]]:
                if a[6]:
                    continue
                key = (w[2], a[2], a[0] == 'r', bool(w[5]) and bool(a[5]))
                if key in done:
                    continue
                done.add(key)
                npair += 1
                if not conflict(w[2], a[2], b) and not sparse(m, L, w):
                    continue
                if w[5] and a[5]:
                    continue            # both atomic / in the critical section
                if once(w[3], b) and once(a[3], b) and w[3] is a[3]:
                    continue
                probs.setdefault('%s of %s while other iterations %s %s' % ('write', pathname(w[1], w[2]), 'read' if a[0] == 'r' else 'write', pathname(a[1], a[2])),
                                 'lines %s and %s' % (w[4][1] if isinstance(w[4], (list, tuple)) else w[4], a[4][1] if isinstance(a[4], (list, tuple)) else a[4]))
        if L.early:
            rep.ob('parallel loops', where, 'undecided', 'leaves the loop early', L.loc)
        if probs and (unk or not whole):
            rep.ob('independence', where, 'undecided', 'directive %s %s: %s' % (L.par['dir'], unk, list(probs)[0]), L.loc)
        else:
            rep.ob('independence', where, 'diff' if probs else 'ok', '; '.join('%s (%s)' % x for x in sorted(probs.items())[:3]), L.loc)
        ths = [t for t in L.throws if t.pc is not FALSE]
        rep.ob('exceptions', where, 'diff' if ths else 'ok', 'an exception (%s) leaves the parallel region under %s' % (ths[0].ty, show(ths[0].pc)[:200]) if ths else '', ths[0].loc if ths else L.loc)
    rep.add('parallel_loops', npar)
    rep.add('shared_accesses', nacc)
    rep.add('access_pairs', npair)
    if not npar and seen == ():
        rep.ob('independence', 'no parallel loops', 'ok', '')
    return locs


def once(pc, b):
    """the path is taken by one iteration only"""
    for x in (pc.a[0] if pc.op == 'and' else (pc,)):
        if x.op == 'zero' and isinstance(x.a[0], N):
            k, t = nd._lin(x.a[0])
            if t.get(b) in (1, -1) and not any(b in y.bv for y in t if y is not b):
                return True
    return False


def sparse(m, L, w):
    """does the written container move other elements when one is written (sparse storage)?"""
    try:
        t = m.comp_t
        ir = m.ir
        for k, x in w[2]:
            if k != 'f':
                return any(s in typename(ir, t) for s in SPARSE)
            r = ir.rec(ir.ty(t)['rec'])
            f = [y for y in r['f'] if y['n'] == x]
            if not f:
                return False
            t = m.strip(f[0]['t'])
    except (KeyError, TypeError):
        return False
    return False


def typename(ir, t):
    ty = ir.ty(t)
    if ty['c'] == 'rec':
        return ir.rec(ty['rec'])['qn']
    return ''
