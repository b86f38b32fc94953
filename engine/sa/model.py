"""One configuration's analysed time step, seen through the program's own accessors."""
from . import nodes as nd
from .nodes import *
from .values import *
from .interp import *
from .source import export, SourceError
from .run import wall_models, Step

TYPES = {}


class Anchor(SourceError):
    pass


class Model:
    def __init__(self, ir, config):
        self.ir, self.config = ir, config
        self.I = I = Interp(ir)
        wall_models(I)
        nd.ASSUME_INDEX[:] = []
        fid = self.fid('verif::step_dt')
        f = ir.fn(fid)
        self.comp_t = self.strip(f['p'][0]['t'])
        self.D = None
        st = St({}, (), TRUE)
        st.mem['S'] = I.sym_value(self.comp_t, 'S')
        self.S0 = st.mem['S']
        self.comp = ir.rec(ir.ty(self.comp_t)['rec'])
        self.find_accessors(st)

    # ---- helpers over the program
    def fid(self, name):
        if name not in self.ir.byname:
            raise Anchor('function %s not found' % name)
        return int(self.ir.byname[name][0])

    def strip(self, t):
        ty = self.ir.ty(t)
        while ty['c'] == 'r':
            t = ty['pt']
            ty = self.ir.ty(t)
        return t

    def methods(self, qn):
        return [int(i) for i in self.ir.byname.get(qn, [])]

    def acc(self, qn, this, st, args=(), nargs=None):
        """result of a member function on an object (reference preserved)"""
        for fid in self.methods(qn):
            f = self.ir.fn(fid)
            if len(f['p']) != len(args):
                continue
            s = st.clone()
            return self.I.inline(fid, f, this, list(args), s), s
        raise Anchor('accessor %s/%d not found' % (qn, len(args)))

    def find_accessors(self, st):
        I = self.I
        S = Ref('S')
        # the particle list and the environment are what the public accessors return
        r, _ = self.acc('OpenMps::Computer::Particles', S, st)
        self.parts = r
        sv = I.read(r, st)
        self.psize = sv.dims[0]
        self.pname = sv.name
        r, _ = self.acc('OpenMps::Computer::GetEnvironment', S, st)
        self.env = r
        self.envname = '.'.join(['S'] + [x for _, x in r.s])
        i = sym('$i')
        self.i = i
        el = self.parts.at(('i', i))
        self.field = {}
        for nm in ('X', 'U', 'P', 'N', 'TYPE'):
            r, _ = self.acc('OpenMps::Particle::' + nm, el, st)
            if not isinstance(r, Ref) or len(r.s) != len(el.s) + 1:
                raise Anchor('Particle::%s does not denote a field' % nm)
            self.field[nm] = r.s[-1][1]
        try:
            r, _ = self.acc('OpenMps::Computer::NeighborCount', S, st, (i,))
            r2, _ = self.acc('OpenMps::Computer::Neighbor', S, st, (i, sym('$k')))
        except Unsupported as e:
            raise Anchor('neighbour accessors: %s' % e)
        n = I.read(Ref('S', [x for x in r.s if x[0] == 'f'] if isinstance(r, Ref) else ()), st) if isinstance(r, Ref) else None
        self.neighref = Ref('S', [x for x in r.s if x[0] == 'f']) if isinstance(r, Ref) else None
        if self.neighref is None:
            raise Anchor('NeighborCount does not denote a table entry')
        self.nb = I.read(self.neighref, st)
        self.nbname = self.nb.name
        self.gridname = None
        for f in self.comp['f']:
            ty = self.ir.ty(self.strip(f['t']))
            if ty['c'] == 'rec' and self.ir.rec(ty['rec'])['qn'] == 'OpenMps::Grid':
                self.gridname = 'S.' + f['n']
        sx = self.leafnames('X')
        self.D = len(sx)
        self.types = nd.ENUMS.get(self.leafnames('TYPE')[0])
        self.T = dict(zip(('FLUID', 'WALL', 'DUMMY', 'DISABLED'), self.typevals()))

    def typevals(self):
        for e in self.ir.enums.values():
            d = dict((k, v) for k, v in e['e'])
            if {'IncompressibleNewton', 'Wall', 'Dummy', 'Disabled'} <= set(d):
                return [d['IncompressibleNewton'], d['Wall'], d['Dummy'], d['Disabled']]
        raise Anchor('Particle::Type not found')

    def leafnames(self, nm):
        f = self.field[nm]
        pv = self.I.read(self.parts, St({'S': self.S0}, (), TRUE))
        return ['.'.join([self.pname] + [str(x) for x in p]) for p in pv.lv if p[0] == f]

    def leafpaths(self, nm, S=None):
        f = self.field[nm]
        pv = self.I.read(self.parts, St({'S': self.S0}, (), TRUE))
        return [p for p in pv.lv if p[0] == f]

    # ---- the step
    def configure(self):
        keep = (self.pname + '.', self.nbname, (self.gridname or 'S.grid') + '.')
        PS = self.psize

        def asm(n):
            if n.op == 'sel' and nd.aname(n.a[0]) == self.nbname:
                return (ZERO, PS)
            return None
        nd.ASSUME_INDEX[:] = [asm]
        nd.EXPAND[0] = lambda v: not v.a[0].startswith(keep)

    def run(self, name='verif::step_dt', args=None):
        self.configure()
        I = self.I
        st = St({'S': self.S0}, (), TRUE)
        self.dt = sym('dt')
        self.start = st.clone()
        fid = self.fid(name)
        self.ret = I.inline(fid, self.ir.fn(fid), None, [Ref('S')] + ([self.dt] if args is None else args), st)
        self.st = st
        return self

    def final(self, nm):
        """final array nodes of the particle field"""
        pv = self.I.read(self.parts, self.st)
        return [pv.lv[p] for p in self.leafpaths(nm)]

    def envval(self, path, st=None):
        v = (st or self.st).mem['S']
        return self.I.nav(v, self.env.s + tuple(('f', x) for x in path))

    def versions(self, A):
        """array versions from the initial one to A"""
        out = []
        while True:
            out.append(A)
            if A.op == 'aver':
                d = nd.vdef(A)
                if d is None:
                    d = ALLDEFS.get(A.a[:2])
                    d = d[1] if d else None
                if d is None:
                    break
                if d.op == 'amap':
                    A = d.a[0]
                elif d.op == 'arec':
                    A = d.a[2]
                else:
                    break
            elif A.op in ('astore', 'amap'):
                A = A.a[0]
            elif A.op == 'aite':        # one side continues the other
                x, y = A.a[1], A.a[2]
                if y in self.versions(x):
                    A = x
                elif x in self.versions(y):
                    A = y
                else:
                    break
            else:
                break
        out.reverse()
        return out

    def rule(self, V, i=None):
        """value of one element of an array version in terms of the versions before it"""
        i = i or self.i
        d = nd.vdef(V) if V.op == 'aver' else V
        if d is None:
            return None
        nd.LOOPRANGE[i] = (ZERO, self.psize)
        return select(d, (i,))

    def diffvars(self, n, i=None):
        """rewrite positions and velocities of other particles as differences from particle i's"""
        i = i or self.i
        names = set(self.leafnames('X')) | set(self.leafnames('U'))
        memo = {}

        def go(x):
            if not isinstance(x, N):
                return tuple(go(y) for y in x) if isinstance(x, tuple) else x
            r = memo.get(x)
            if r is not None:
                return r
            if x.op in ('c', 'true', 'false') or x.op in nd.BASES or x.op == 'aver':
                r = x
            elif x.op == 'sel' and nd.aname(x.a[0]) in names and x.a[1] != (i,):
                idx = tuple(go(y) for y in x.a[1])
                r = add(mk('sel', x.a[0], (i,)), fn('D', x.a[0], i, *idx))
            else:
                a = tuple(go(y) for y in x.a)
                r = x if a == x.a else nd.rebuild(x, a)
            memo[x] = r
            return r
        return go(n)
