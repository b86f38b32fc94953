"""Texts of the properties and of the checks; `python3 -m sa.catalog` writes properties.jsonl and MANIFEST.json from them."""
import json
import os

SRC = 'src/OpenMps/'
COMP, GRID, ENV, PART, MAIN = SRC + 'Computer.hpp', SRC + 'Grid.hpp', SRC + 'Environment.hpp', SRC + 'Particle.hpp', SRC + 'Main.cpp'
VF = 'value-flow abstract interpretation of the typed AST, equality decided by algebraic normal form'
NOTE = ('Static, over every particle arrangement and every option set analysed; real arithmetic stands for floating point, library calls are '
        'modelled, and constructs the analysis cannot follow are listed as undecided in the evidence rather than reported.')
APPNOTE = ('Static, over every input text and parameter value; the boost and standard libraries are modelled, not analysed, and constructs the analysis cannot follow are listed as undecided in the evidence rather than reported.')
ARR = 'every number, type and arrangement of particles, every field value, every physical parameter, in each supported set of compile-time options'
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique=VF, note=NOTE, thorough=True, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, technique=technique, note=note, thorough=thorough, observe=observe))


prop('C01', 'Parallel loops give the same result for any thread count and schedule',
     'In every loop that is distributed over threads, what one iteration writes is neither read nor written by another, apart from reductions and atomic updates. '
     'So a step computes the same state (up to rounding inside reductions) for any number of threads and any schedule, and no exception is thrown out of such a loop.',
     ['schedules', 'inputs', 'configurations'], 'every schedule and thread count; ' + ARR, 'Tests run on one machine with few particles, where conflicting iterations rarely overlap and races rarely change a compared value.',
     [COMP, 'src/OpenMps/Grid.hpp'], [{'name': 'parallel loops', 'where': COMP + ': OMP_PARALLEL_FOR'}],
     technique='effect analysis: read and write access paths of one loop iteration compared with those of another', note=NOTE)

prop('C02', 'The neighbour search finds exactly the enabled particles in range, once each',
     'After the search, each enabled particle\'s neighbour list holds every other enabled particle nearer than the search radius exactly once, and nothing else, wherever the particles lie and whatever earlier steps stored. '
     'An enabled particle outside the region is disabled, others are not, and more particles in one cell than its capacity raise an error instead of being lost.',
     ['inputs', 'histories', 'configurations'], ARR + '; every region size, border situation and cell population', 'Tests search on a few lattices in one region shape; they cannot cover all border situations, populations and repeated searches.',
     [COMP, GRID], [{'name': 'search', 'where': COMP + ': SearchNeighbor'}, {'name': 'cells and their traversal', 'where': GRID}],
     technique='loop summaries and a finite transition system of the cell iterator, explored exhaustively per border class with symbolic populations')

prop('C03', 'Wall and dummy particles follow the prescribed wall motion, nothing else',
     'In every step each wall or dummy particle ends at the position the caller\'s wall-motion function gives for it, and its velocity is that displacement divided by the step. '
     'No force, pressure or stabilising correction of the step ever changes a wall or dummy particle\'s position or velocity.',
     ['inputs', 'configurations'], ARR, 'The tests move a handful of still walls; they cannot cover arbitrary prescribed motions and neighbourhoods.',
     [COMP], [{'name': 'move loop of the explicit stage', 'where': COMP + ': ComputeExplicitForces'}, {'name': 'fluid-only guards of the later corrections', 'where': COMP + ': ModifyByPressureGradient, DynamicStabilize'}])

prop('C04', 'Dummy particles only fill space: no force, no pressure unknown',
     'A dummy neighbour\'s pressure and velocity never influence a fluid particle\'s new velocity or position, and it gives no stabilising push. '
     'A dummy or disabled particle never couples to another particle in the pressure equation and has zero right-hand side and zero initial value there.',
     ['inputs', 'configurations'], ARR, 'Tests place few dummies at fixed lattice positions; independence from all of a dummy\'s data is a statement about every value of it.',
     [COMP], [{'name': 'dummy exclusions in the neighbour sums', 'where': COMP + ': ComputeExplicitForces, SetPressurePoissonEquation, ModifyByPressureGradient, DynamicStabilize'}])

prop('C05', 'A disabled particle stays disabled and is left exactly as it was',
     'Once disabled, a particle is never enabled again, and no step changes its position, velocity, density, or (with the implicit pressure solver) its pressure. '
     'A step never turns any particle into a different kind except by disabling it.',
     ['inputs', 'histories', 'configurations'], ARR + ', over any number of steps', 'Tests disable single particles for one step; permanence is a statement over whole runs.',
     [COMP, GRID, PART], [{'name': 'disabled guards in every per-particle loop', 'where': COMP}, {'name': 'disabling on leaving the domain', 'where': COMP + ': SearchNeighbor'}])

prop('C06', 'Forces between two fluid particles cancel (action equals reaction)',
     'For any two fluid particles in a fully surrounded region, the velocity change each causes on the other by viscosity, by the pressure gradient, and by the stabilising correction are equal and opposite, '
     'so these interactions conserve linear momentum. (The corrected-gradient option, which is not pairwise symmetric by design, is excluded.)',
     ['inputs', 'configurations'], 'every pair of fluid particles at every separation, velocity and pressure, in each option set without gradient correction',
     'Tests compare a few computed values; cancellation must hold for every pair.', [COMP], [{'name': 'pair sums', 'where': COMP + ': ComputeExplicitForces, ModifyByPressureGradient, DynamicStabilize'}])

prop('C07', 'The pressure matrix is the symmetric Laplacian with fixed exclusions',
     'In the pressure equation, the coefficient between two coupled particles is the Laplacian model\'s weight of their distance (the same both ways), the diagonal is minus the sum of the weights of all non-dummy neighbours within the influence radius '
     '(plus the virtual surface particle where surface compensation is on), and everything else is zero. Rows of dummy, disabled (and, without surface compensation, free-surface) particles are identity rows, and the matrix holds nothing from earlier steps.',
     ['inputs', 'histories', 'configurations'], ARR, 'Tests check the matrix for one or two lattices; they cannot show it for every arrangement nor across repeated assembly.',
     [COMP], [{'name': 'matrix assembly', 'where': COMP + ': SetPressurePoissonEquation'}])

prop('C08', 'Results do not depend on the units the input is written in',
     'Every quantity a step computes has one physical dimension: quantities of different dimension are never added, compared, or used as alternatives, and each new position, velocity, pressure, density, time and pressure-equation entry has its own proper dimension. '
     'So the same problem written in other units of length, time and mass gives the same results, expressed in those units. (Guards that only compare with the smallest rounding unit are excepted.)',
     ['inputs', 'configurations'], ARR + '; every choice of units', 'Rescaling relates infinitely many pairs of inputs; tests use one scale, at which a stray absolute threshold or a missing factor may not show.',
     [COMP, ENV, GRID, PART], [{'name': 'formulas and thresholds of the step', 'where': COMP}, {'name': 'derived parameters', 'where': ENV}],
     technique='dimension inference (unification of unit exponents) over the value graph of the step')

prop('C09', 'Fluid interactions have no preferred origin, frame or direction',
     'The change of velocity a fluid particle receives in each part of a step depends on positions and velocities of particles only through their differences. '
     'Mirroring an axis or exchanging two axes (gravity included) mirrors or exchanges the result in the same way.',
     ['inputs', 'configurations'], ARR, 'A symmetry relates infinitely many pairs of inputs; tests check single inputs.',
     [COMP, PART], [{'name': 'pair formulas', 'where': COMP}, {'name': 'distance and weight', 'where': COMP + ', ' + PART}])

prop('C10', 'The time step obeys the Courant limit and time advances by exactly it',
     'When the step is chosen automatically it is the largest allowed step if no enabled particle moves, and otherwise the smaller of that and the allowed displacement divided by the largest speed of any enabled particle. '
     'Each step advances the simulated time by exactly the step used, and leaves every other simulation condition unchanged.',
     ['inputs', 'histories', 'configurations'], ARR, 'Tests call the step with given increments; they do not bound it for every velocity field.',
     [COMP, ENV], [{'name': 'step choice', 'where': COMP + ': DetermineDt'}, {'name': 'clock', 'where': ENV + ': SetNextT'}])

prop('C11', 'The pressure solver returns a converged solution or raises an error',
     'Whenever the linear solver returns normally, the squared residual of the solution it leaves is below the squared tolerance times the initial squared residual (or the initial residual was zero and the start values are kept). '
     'Otherwise it raises an error, after exactly as many iterations as there are unknowns. Successive search directions are conjugate with respect to the matrix, so in exact arithmetic that many iterations suffice for a definite matrix.',
     ['inputs', 'configurations'], 'every matrix, right-hand side, start vector and tolerance, in each implicit option set', 'Tests solve a few small systems that converge; they never see the failure path nor check the residual of the returned solution against the tolerance.',
     [COMP], [{'name': 'conjugate gradient iteration', 'where': COMP + ': SolvePressurePoissonEquation'}],
     technique='induction over one solver iteration on linear combinations of vectors; exits decided by propositional entailment over comparison atoms')

prop('C12', 'Pressures are the clipped solution (or follow the state equation)',
     'After the implicit solve every fluid and wall particle\'s pressure is the solved value with negative values replaced by zero (and zero on the free surface when surface compensation is off), dummy particles keep theirs, and the solver starts from the previous pressures. '
     'With the explicit option the pressure is the square of the sound speed times the excess of density over the reference density, and zero where there is no excess.',
     ['inputs', 'histories', 'configurations'], ARR, 'Tests look at a few pressures of particular lattices.',
     [COMP], [{'name': 'transfer of the solution', 'where': COMP + ': ComputeImplicitForces'}, {'name': 'initial guess', 'where': COMP + ': SetPressurePoissonEquation'}])

prop('C13', 'Adding particles keeps every existing one, in order, and steps keep their number',
     'Particles appended to the computer follow the existing ones in the order given, with all their data, and every existing particle keeps its number and data. '
     'Every per-particle array then covers all particles, and no step adds, removes or renumbers particles.',
     ['inputs', 'histories', 'configurations'], 'every number and content of existing and appended particles, in each option set', 'Tests add particles once to an empty computer.',
     [COMP], [{'name': 'append', 'where': COMP + ': AddParticles'}])

prop('C14', 'Every array access of a step stays inside the array',
     'Whatever the number and arrangement of particles, and however appending and stepping have been interleaved before, every element that a step reads or writes in the particle list, the per-particle arrays, the neighbour table, the cell grid and the pressure equation exists. '
     'The neighbour table has room for every particle that the surrounding cells can hold.',
     ['inputs', 'histories', 'configurations'], 'every number, arrangement and history of particles, every region and radius, in each option set', 'An access beyond an array is usually silent in the tests, and they append once to an empty computer with few neighbours per particle.',
     [COMP, GRID], [{'name': 'sizes', 'where': COMP + ': AddParticles, SetPressurePoissonEquation'}, {'name': 'cells', 'where': GRID}],
     technique='size relations by partition refinement over the public operations; index ranges by integer linear entailment over loop ranges and path guards')

prop('C15', 'A run is set up from the input file exactly as written',
     'Every parameter of the simulation (start, end and output interval, solver tolerance, spacing, Courant number, gravity, density, viscosity, radii, domain) is the value written for it in the input file, and the largest time step is the output interval over the given minimum step count. '
     'The simulation starts with exactly the particles of the file, walls that stay where the file puts them, and the file named on the command line (else the sample).',
     ['inputs', 'configurations'], 'every content of the input file and every command line, in each option set', 'No test runs the program\'s entry point or reads an input file.',
     [MAIN, ENV, 'src/OpenMps/ComputingCondition.hpp'], [{'name': 'loading and construction', 'where': MAIN + ': LoadCondition, LoadEnvironment, LoadParticles, main'}],
     technique='value-flow abstract interpretation of the whole program entry point with models of the parser and stream libraries', note=APPNOTE)

prop('C16', 'The particle reader assigns every column by its header name or reports an error',
     'Each non-blank line after the header becomes one particle, in order, whose type, position, velocity, pressure and density come from the columns the header names, in any column order, spaces and tabs ignored. '
     'Empty input, an unknown or missing header name, too few items in a line, an illegal particle type, and a format other than csv are errors, never silently accepted.',
     ['inputs', 'configurations'], 'every text of the particle section, in two and three dimensions', 'No test reads particles from text.',
     [MAIN, 'src/OpenMps/stov.hpp'], [{'name': 'reader', 'where': MAIN + ': InputFromCsv'}],
     technique='value-flow abstract interpretation of the reader over an arbitrary text with models of the string library', note=APPNOTE)

prop('C17', 'Result files hold every particle, one row each, under matching column names',
     'An output file starts with a header naming each column, then has one row per particle in particle order, whose items are that particle\'s type, position, velocity, pressure and density in the order the header names them, so that a result can be read back as input. '
     'A file that could not be written is reported as an error, and the particle count shown is that of enabled particles.',
     ['inputs', 'histories', 'configurations'], 'every number and content of particles, in two and three dimensions', 'No test writes result files.',
     [MAIN], [{'name': 'writer', 'where': MAIN + ': OutputToCsv'}],
     technique='value-flow abstract interpretation of the writer with a model of streams and formats', note=APPNOTE)

prop('C18', 'Results are written at every output interval under consecutive numbers',
     'The initial state is written before any step under number ceil(start/interval); then, for k = 1 to ceil((end - start)/interval), the simulation is stepped just until its time reaches k intervals and the state is written under the following number. '
     'A failing step or write ends the run after a message giving the error, with nothing computed or written afterwards.',
     ['inputs', 'crash_points', 'histories', 'configurations'], 'every start, end and interval, every number of steps needed, every failing step', 'No test runs the main loop.',
     [MAIN], [{'name': 'main loop', 'where': MAIN + ': main'}],
     technique='value-flow abstract interpretation of the whole program entry point; loop summaries of the output and stepping loops', note=APPNOTE)

prop('C19', 'Derived simulation parameters follow from the inputs by their definitions',
     'The largest step, largest displacement, influence radius, search radius, domain, reference number density and Laplacian coefficient of a simulation are the defined functions of its input parameters, for every parameter value. '
     'The search radius covers the influence radius plus the displacement possible until the next search, and the reference sums run over every lattice point inside the influence radius, the centre excluded.',
     ['inputs', 'configurations'], 'every value of the input parameters, in each option set', 'Tests construct one or two environments.',
     [ENV], [{'name': 'parameter derivation', 'where': ENV + ': Environment constructor and the lattice sums it starts'}])

prop('C20', 'Finite input gives finite results: no quotient or root in a step is undefined',
     'As long as no two particles are at the same place, a step never divides by zero, never takes the root of a negative number, and never uses a value that was not set: not for an isolated particle, a fluid at rest, particles in a line, '
     'densities equal to the reference, or any other arrangement. The same holds for the derived parameters. (The pressure solver\'s own breakdown is an error, see C11.)',
     ['inputs', 'configurations'], ARR, 'Divisors vanish only in arrangements that tests do not contain: no neighbours, singular moments, everything at rest.',
     [COMP, ENV, PART], [{'name': 'surface particle', 'where': COMP + ': AccumulateNeighbor'}, {'name': 'moment matrix', 'where': COMP + ': InvertMatrix'}, {'name': 'stabilisation', 'where': COMP + ': DynamicStabilize'}, {'name': 'time step', 'where': COMP + ': DetermineDt'}],
     technique='sign analysis of all divisors and radicands in the value graph under the conditions that guard them')

prop('C21', 'Number density is the weighted count of all enabled neighbours within the radius',
     'At both density evaluations of a step every fluid and wall particle\'s number density is the sum, over all other enabled particles (dummies included) nearer than the influence radius, of radius/distance minus 1, raised to the reference density when surface compensation is on. '
     'Both evaluations use the positions current at that moment, and dummy and disabled particles keep their stored value.',
     ['inputs', 'configurations'], ARR, 'Tests evaluate the sum on a few lattices with a tolerance.',
     [COMP, PART], [{'name': 'density loop', 'where': COMP + ': ComputeNeighborDensities'}, {'name': 'weight function', 'where': PART + ': W'}])

prop('C22', 'Every documented combination of compile-time options builds',
     'Each calculation option of the program can be switched on or off independently of the others, in two and three dimensions, with and without threads and the solver library, and the whole program still compiles. '
     '(Two options whose code is stale are recorded as known findings.)',
     ['configurations', 'programs'], 'every combination of three (thorough: four) options; the remaining options take both values across the combinations', 'The test suite is built with two fixed sets of options.',
     ['src/OpenMps/defines.hpp', COMP, ENV, MAIN], [{'name': 'option blocks', 'where': 'src/OpenMps/*.hpp: #ifdef'}],
     technique='type checking of the whole program under a covering array of the options', note='Static: parses and type-checks every template instantiated by the program; combinations of more options than the array covers are not exercised.')

prop('C23', 'A step depends on nothing but the particles, the time and the parameters',
     'What a step computes for every particle, the pressure equation it sets up, the point its solver starts from and the automatically chosen step are functions of the particles\' data, the simulated time, the parameters and the wall callbacks alone. '
     'Nothing left by earlier steps in work arrays, matrix, solver vectors, or static or global variables has any influence, so a run continued from its written state (at full precision) takes the same course.',
     ['histories', 'inputs', 'configurations'], ARR + '; every sequence of earlier steps and additions', 'Tests take one or two steps from a fresh computer, where left-over values are zero or equal the fresh ones.',
     [COMP], [{'name': 'work arrays', 'where': COMP + ': du, ecs, originalX, nWithoutSpp, ppe'}, {'name': 'the step', 'where': COMP + ': ForwardTime'}],
     technique='dependence analysis: the leaves of the value graph of every result, per particle kind, after substituting all work arrays')

prop('C24', 'Wall motion is prepared once, then asked once per wall particle',
     'Each step calls the wall preparation exactly once, before any wall position is requested, with the time after the step and the step length. '
     'It then asks for exactly one position per wall or dummy particle, with that particle\'s number and the same time and step, and never for fluid or disabled particles.',
     ['inputs', 'histories', 'configurations'], ARR, 'Tests use functions that ignore their arguments, so they cannot see wrong or repeated requests.',
     [COMP], [{'name': 'wall callbacks', 'where': COMP + ': ComputeExplicitForces'}])

prop('C26', 'The pressure source is the density change rate plus the density error correction',
     'The right-hand side for each included particle is minus density/(reference number density × step) times the predicted rate of number density change, evaluated from the positions and velocities after the explicit motion, plus (when enabled) the error correction evaluated at the start of the step. '
     'With surface compensation the rate counts as zero wherever the uncompensated number density is below the reference; excluded particles get zero.',
     ['inputs', 'configurations'], ARR, 'Tests compare the right-hand side on lattices with simple velocity fields.',
     [COMP], [{'name': 'source term', 'where': COMP + ': SetPressurePoissonEquation, NeighborDensityVariationSpeed, ComputeErrorCorrection'}])

prop('C27', 'The explicit stage applies gravity and viscosity, then moves the fluid',
     'In the explicit half of a step every fluid particle\'s velocity changes by the step times (gravity plus kinematic viscosity times the Laplacian model of velocity over non-dummy neighbours within the influence radius), all evaluated on the state before the motion. '
     'It then moves by the step times its new velocity.',
     ['inputs', 'schedules', 'configurations'], ARR, 'Tests compare a few viscous accelerations on lattices.',
     [COMP], [{'name': 'explicit forces', 'where': COMP + ': ComputeExplicitForces'}])

prop('C28', 'The pressure gradient corrects velocity and position of fluid alike',
     'After the pressure solve every fluid particle\'s velocity changes by minus step × dimension/(density × reference number density) times the sum over non-dummy neighbours of (pressure sum)/distance² × weight × displacement, plus the virtual surface particle where surface compensation is on; with the gradient-correction option the inverse of the local moment matrix takes the place of the scalar factor. '
     'Its position changes by the step times that same velocity change.',
     ['inputs', 'schedules', 'configurations'], ARR, 'Tests compare a few gradients on lattices.',
     [COMP], [{'name': 'pressure gradient', 'where': COMP + ': ModifyByPressureGradient'}, {'name': 'virtual surface particle', 'where': COMP + ': AccumulateNeighbor'}])

prop('C29', 'The stabilising correction separates fluid that came too close',
     'When dynamic stabilisation is on, every fluid particle receives, for each non-dummy neighbour now nearer than the initial spacing minus the allowed displacement, a push along their separation before the pressure correction that would restore that distance, divided by twice (step × reference number density). '
     'Velocity and position change consistently, and particles without such neighbours are unaffected.',
     ['inputs', 'configurations'], ARR, 'Tests check few overlapping pairs.',
     [COMP], [{'name': 'dynamic stabilisation', 'where': COMP + ': DynamicStabilize, SaveX'}])

NA = []


def na(id, title, statement, over, text, tests, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, reason=reason))


na('N01', 'Simulated flows converge to the analytic solution as the spacing shrinks',
   'For flows with a known solution (still water, dam break, rotating fluid) the error of pressure and velocity decreases as particle spacing and time step are reduced.',
   ['inputs', 'configurations'], 'all resolutions and benchmark problems', 'Tests do not run whole simulations at several resolutions.',
   [COMP, 'Benchmark/'], [{'name': 'the whole step', 'where': COMP}],
   'A quantitative convergence claim about trajectories of a nonlinear discrete system; no static argument in reach bounds those errors.')
na('N02', 'The pressure solver converges for every configuration that occurs in a run',
   'For every particle arrangement that arises in a run the iterative solver reaches its tolerance within its iteration limit.',
   ['inputs', 'histories'], 'all reachable particle arrangements', 'Tests solve small well-conditioned systems.',
   [COMP], [{'name': 'conjugate gradient loop', 'where': COMP + ': SolvePressurePoissonEquation'}],
   'Depends on conditioning and rounding of a runtime matrix (free-floating clusters make it singular); not bounded by the source. What the solver guarantees when it does stop is decided by C11.')
na('N03', 'Runs stay stable: particles do not blow up or clump over long simulations',
   'With parameters inside the recommended ranges, speeds and densities stay bounded for the whole run.',
   ['histories'], 'all runs', 'Tests take one step.', [COMP], [{'name': 'the whole step', 'where': COMP}],
   'Stability of a nonlinear particle system over unbounded histories is outside static reach.')
na('N04', 'Two runs of the same input give bitwise identical output',
   'Repeating a run with the same input and thread count reproduces every output digit.',
   ['schedules'], 'all schedules', 'Tests compare with tolerances.', [COMP], [{'name': 'parallel loops', 'where': COMP}],
   'Concerns rounding inside library reductions and compiler code generation, which the source does not determine; schedule independence up to rounding is decided by C01.')


def write():
    from .source import VERIF
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': p['mech'], 'hook_needed': None}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['tests'], 'anchors': a}, ensure_ascii=False) + '\n')
    checks = []
    for p in P:
        if 'reason' in p:
            continue
        c = {'property': p['id'], 'quick_cmd': 'bin/check %s --quick' % p['id'], 'thorough_cmd': 'bin/check %s --thorough' % p['id'],
             'technique': p['technique'], 'level': 'other', 'level_note': p['note']}
        checks.append(c)
    m = {'version': 1, 'setup_cmd': 'engine/build.sh', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if 'reason' in p],
         'notes': 'Every check exports the typed syntax tree of /repo\'s current sources (one per option set) and decides its obligations on it; nothing of openmps is executed.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))


if __name__ == '__main__':
    write()
