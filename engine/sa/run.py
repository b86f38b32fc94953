"""Runs the value-flow analysis of one time step (and of the other entry points) for a configuration."""
from . import nodes as nd
from .nodes import *
from .values import *
from .interp import *
from .source import export, SourceError


class Step:
    pass


def wall_models(I):
    def wall(I, st, f, this, args, e):
        a = [I.num(x, st) for x in args]
        st.ev = st.ev + (('call', 'wall', tuple(a)),)
        D = I.schema(f['ret'])[1]
        return Vec(fn('wall', C(d), *a) for d in range(D))

    def pre(I, st, f, this, args, e):
        st.ev = st.ev + (('call', 'wallPre', tuple(I.num(x, st) for x in args)),)
    I.over['VerifWall::operator()'] = wall
    I.over['VerifWallPre::operator()'] = pre


KEEP = ('S.particles.', 'S.neighbor', 'S.grid.')


def prepare():
    PS = sym('S.particles.size')

    def asm(n):
        if n.op == 'sel' and nd.aname(n.a[0]) == 'S.neighbor':
            return (ZERO, PS)
        return None
    nd.ASSUME_INDEX[:] = [asm]
    nd.EXPAND[0] = lambda v: not v.a[0].startswith(KEEP)


def entry(ir, name, args):
    """analyse driver function `name` on an arbitrary object S"""
    prepare()
    I = Interp(ir)
    wall_models(I)
    if name not in ir.byname:
        raise SourceError('driver entry %s missing' % name)
    fid = ir.byname[name][0]
    f = ir.fn(fid)
    st = St({}, (), TRUE)
    t = ir.ty(f['p'][0]['t'])
    while t['c'] == 'r':
        tid = t['pt']
        t = ir.ty(tid)
    st.mem['S'] = I.sym_value(tid, 'S')
    S = Step()
    S.I, S.ir, S.init, S.st = I, ir, dict(st.mem), st
    S.ret = I.inline(int(fid), f, None, [Ref('S')] + args, st)
    return S
