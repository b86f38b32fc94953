"""The properties and the analyses that decide them."""
from .check import model

ALL = ['default', 'dim3', 'serial', 'no-hs', 'no-hl', 'no-ecs', 'no-ds', 'no-spp', 'no-viennacl', 'gc', 'dim3-gc', 'explicit', 'explicit-no-spp', 'standard']
IMPLICIT = [c for c in ALL if 'explicit' not in c]
FORMULA = ('value-flow analysis of the type-checked syntax tree: every array the step writes is reduced to a gated expression over the state '
           'before it, loops being summarised as sums/maps, and compared with the reference expression by reduction to a normal form')
BASE = ['real arithmetic stands for floating point (rounding, overflow and division by zero are not modelled)',
        'external library calls behave as modelled (boost uBLAS, multi_array, ViennaCL, the standard library)',
        'the neighbour table lists in-range particle numbers, never the particle itself nor a disabled one (decided by the neighbour property)']


class StageProp:
    def __init__(self, stages, kinds, rule, configs=None, labels=None, filt=None):
        self.stages, self.kinds, self.rule = set(stages), kinds, rule
        self._configs = configs or ALL
        self.filt = filt
        self.explanation = FORMULA
        self.assumptions = BASE

    def configs(self, tier):
        return self._configs

    def run(self, rep, config, tier):
        from .stages import Stages
        m = model(config)
        st = Stages(m, want=self.stages, heavy=(tier == 'thorough'), kinds=self.kinds).run()
        for o in st.obs:
            if self.filt is None or self.filt(o):
                rep.stage(o)
        if not st.obs:
            from .model import Anchor
            raise Anchor('no stage of this property found')


REGISTRY = {}
REGISTRY['C21'] = StageProp(['density', 'density2'], 'FWDX', 'after each density evaluation every active particle holds the reference weighted count; inactive ones keep theirs')


class LawProp:
    def __init__(self, fn, rule, configs=None, explanation=FORMULA, assumptions=BASE):
        self.fn, self.rule, self._configs, self.explanation, self.assumptions = fn, rule, configs or ALL, explanation, assumptions

    def configs(self, tier):
        return self._configs

    def run(self, rep, config, tier):
        self.fn(rep, model(config))


from . import laws
REGISTRY['C04'] = LawProp(laws.dummies, 'with every neighbour a dummy, a fluid particle\'s new velocity and position do not mention any neighbour\'s pressure or velocity')
REGISTRY['C06'] = LawProp(laws.pairs, 'F(i,j) + F(j,i) = 0', [c for c in ALL if 'gc' not in c])
REGISTRY['C09'] = LawProp(laws.symmetry, 'F with all positions (velocities) shifted by a constant equals F; F with an axis mirrored or two axes exchanged equals F mirrored or exchanged', [c for c in ALL if 'gc' not in c])


from . import misc


class StepProp(LawProp):
    """both ways of advancing time"""
    def run(self, rep, config, tier):
        misc.advance(rep, model(config, nonempty=False))
        misc.timestep(rep, model(config, 'verif::step', [], nonempty=False))


REGISTRY['C10'] = StepProp(None, 'dt = min(MaxDt, MaxDx / max over enabled i of |u_i|), MaxDt at rest; t_after = t_before + dt; no other field of the environment is written')
REGISTRY['C24'] = LawProp(misc.walls, 'events of the step: one unconditional wallPre(t+dt, dt), before every wall(i, t+dt, dt); the guards of the wall calls sum to 1 for wall and dummy particles, 0 for the others')
REGISTRY['C05'] = LawProp(misc.disabled, 'for a disabled particle every written array equals its old value at the end of the step; every write of a type yields the old type or disabled')
REGISTRY['C03'] = StageProp(['explicit', 'gradient', 'stabilise'], 'WD', 'wall/dummy: x = wall(i, t+dt, dt), u = (x - x_before)/dt after the explicit stage, unchanged by every later stage')
REGISTRY['C07'] = StageProp(['matrix'], 'FWDX', 'for a coupled pair A(i,j), for every particle A(i,i), and zero elsewhere equal the reference coefficients, by particle kind', IMPLICIT)
REGISTRY['C12'] = StageProp(['pressure', 'guess'], 'FWD', 'p = max(0, solution) (or the state equation) by particle kind; the initial guess is the old pressure of included particles')
REGISTRY['C26'] = StageProp(['source'], 'FWDX', 'b(i) equals the reference source term, by particle kind', IMPLICIT)
REGISTRY['C27'] = StageProp(['explicit'], 'F', 'u = u0 + dt (g + nu Laplacian(u0)), x = x0 + dt u for a fluid particle')
REGISTRY['C28'] = StageProp(['gradient'], 'F', 'u and x after the pressure correction equal the reference gradient correction for a fluid particle')
REGISTRY['C29'] = StageProp(['stabilise'], 'F', 'u and x after the stabilising correction equal the reference push for a fluid particle', [c for c in ALL if c not in ('no-ds', 'standard')])


class TwoModels(LawProp):
    """the step with a given increment, then the step that chooses it"""
    def __init__(self, mod, *a, **k):
        super().__init__(None, *a, **k)
        self.first, self.second = mod

    def run(self, rep, config, tier):
        self.first(rep, model(config))
        self.second(rep, model(config, 'verif::step', []))


from . import units, history
REGISTRY['C08'] = TwoModels((units.consistent, units.timestep), 'operands of every sum, comparison and choice have the same dimension; each result has its own',
                            explanation='dimensions of the parameters are prescribed, those of derived and intermediate quantities inferred by unification; checked at every sum, comparison, choice and index of the value graph', assumptions=BASE)
REGISTRY['C23'] = TwoModels((history.step, history.timestep), 'the leaves of each result are particle data, time, parameters, callbacks',
                            explanation='each result is expanded through all work arrays for each particle kind; its remaining leaves are compared with the permitted ones; a leaf counts if two valuations that differ in it alone give different values', assumptions=BASE)


class MultiProp(LawProp):
    """analyses of several entry points, in order; each takes the report and a model, or the report and the configuration's name"""
    def __init__(self, on_model, on_config, rule, configs=None, explanation=FORMULA, assumptions=BASE):
        self.on_model, self.on_config = on_model, on_config
        self.rule, self._configs, self.explanation, self.assumptions = rule, configs or ALL, explanation, assumptions

    def run(self, rep, config, tier):
        for f in self.on_model:
            f(rep, model(config))
        for f in self.on_config:
            f(rep, config)


from . import defined
class Defined(TwoModels):
    def run(self, rep, config, tier):
        super().run(rep, config, tier)
        defined.parameters(rep, config)


REGISTRY['C20'] = Defined((defined.step, defined.timestep), 'every divisor is non-zero and every radicand not negative under the conditions of its evaluation; no unset value is used',
                          explanation='signs of divisors and radicands from the signs of the inputs and from the enclosing conditions; a divisor that is not proved is reported if a valuation of its free quantities makes it zero while the conditions hold',
                          assumptions=BASE + ['two particles never have the same position', 'the influence radius exceeds the particle spacing; spacing, step, density and gravity are positive'])

from . import grid, environ, store, race, bounds
REGISTRY['C01'] = LawProp(race.both, 'for every loop run by the threads and every write path W and access path A of the same object: W and A differ in a field, or have the loop variable (plus the same constant) '
                          'as an index at the same place, or are both atomic; private and reduction variables excepted; no exception leaves the loop',
                          explanation='effect analysis of the loop bodies (calls inlined): the read and write paths of one iteration are compared with those of another', assumptions=['external library calls behave as modelled (boost uBLAS, multi_array, ViennaCL, the standard library)', 'the callbacks given to the computer are safe to call concurrently'])
REGISTRY['C02'] = MultiProp([grid.search], [environ.gridsize], 'grid emptied and filled: counts and slots equal the reference; traversal: for every border class the transition system of the iterator visits '
                            'each stored slot of each existing surrounding block once; filter: j != i, enabled, distance < search radius; block width >= search radius',
                            explanation='loop summaries of the search are decided as a finite transition system per border class with symbolic block populations; guards and indices by algebraic normal form', assumptions=BASE[:2])
REGISTRY['C19'] = MultiProp([], [environ.params], 'each derived parameter equals its definition; lattice sums by equality of summand, coverage of the range, and quotient form', assumptions=BASE[:2])
class Listed(MultiProp):
    def run(self, rep, config, tier):
        store.effects(rep, config)
        super().run(rep, config, tier)


REGISTRY['C13'] = Listed([store.stable], [store.append, bounds.covered], 'after appending Q to P: P[a] unchanged for a < |P|, P[|P| + b] = Q[b]; the step leaves |P|; every array indexed by particle number in a step has |P| elements there', assumptions=BASE[:2])
REGISTRY['C14'] = LawProp(lambda rep, config: bounds.accesses(rep, config), '0 <= index < extent at every access, from loop ranges, guards and the size relations that hold after construction and are kept by appending and stepping',
                          explanation='size relations by partition refinement over construction, appending and stepping; each access by integer linear entailment (Fourier-Motzkin) from the ranges of the loops, the guards on its path and the relations; accesses of the cell '
                          'traversal by the exhaustive enumeration of its transition system', assumptions=BASE[:2] + ['neighbour entries are particle numbers and counts at most what the surrounding blocks hold (decided by the neighbour property)'])
REGISTRY['C14'].run = lambda rep, config, tier: bounds.accesses(rep, config)
from . import solve
REGISTRY['C11'] = MultiProp([], [solve.solver], 'invariants of the solver loop found by induction: residual vector = b - A x, kept scalar = its square, flag implies residual^2 < tolerance^2 residual0^2; on every exit either the condition holds or an exception is raised; '
                            'iterations = unknowns; (p\', A p) = 0 and (r\', p\') = (r\', r\')', IMPLICIT,
                            explanation='the vectors of the iteration are kept as linear combinations over the matrix; invariants are proved by induction over one iteration, exits by propositional entailment over comparison atoms', assumptions=BASE[:2])
from . import combos
REGISTRY['C22'] = combos.Combos()
from . import app
APPCONF = ['default', 'dim3', 'explicit', 'explicit-no-spp', 'no-spp']
APPEXP = ('value-flow analysis of the whole application from main(): texts, streams, maps, configuration values and formatted output are modelled, loops are summarised; '
          'the calls made to the simulation and everything written to a stream are compared with the reference')
APPASS = ['external library calls behave as modelled (the standard library, boost format, split and property tree)', 'real arithmetic stands for floating point']
REGISTRY['C15'] = MultiProp([], [app.setup], 'each parameter of the environment and the solver given to the computer equals the value under its key in the configuration file; the wall callback returns the read position of the particle asked for', APPCONF, APPEXP, APPASS)
REGISTRY['C16'] = MultiProp([], [app.reader], 'per attribute: the cell used is the one whose header cell bears the attribute\'s name; blank, short and illegal rows and headers by evaluation of the guards', APPCONF, APPEXP, APPASS)
REGISTRY['C17'] = MultiProp([], [app.written], 'per file: one row per particle in order, header cells name the values below them; on the normal path the file has been found good after the last write', APPCONF, APPEXP, APPASS)
REGISTRY['C18'] = MultiProp([], [app.schedule], 'file k (k = 0..n) has number offset + k and is written after stepping until time >= k * interval; offset = ceil(start / interval), n = ceil((end - start) / interval)', APPCONF, APPEXP, APPASS)
