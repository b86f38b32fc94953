"""Every documented combination of compile-time options type-checks (the whole program, every template it instantiates)."""
import itertools
import random
from .source import syntax_only, TOGGLES

FACTORS = ('DIM3', 'PRESSURE_EXPLICIT', 'MPS_HS', 'MPS_HL', 'MPS_ECS', 'MPS_GC', 'MPS_DS', 'MPS_SPP', 'USE_VIENNACL', '_OPENMP')
SINGLE = {'PRESSURE_GRADIENT_MIDPOINT': False, 'ARTIFICIAL_COLLISION_FORCE': True}


def covering(t):
    """rows over FACTORS such that every t factors take every combination of values in some row (greedy, fixed)"""
    n = len(FACTORS)
    left = {(c, v) for c in itertools.combinations(range(n), t) for v in itertools.product((0, 1), repeat=t)}
    rnd = random.Random(7)
    allrows = [tuple((k >> i) & 1 for i in range(n)) for k in range(1 << n)]
    rows = []
    while left:
        best, bc = None, -1
        for r in rnd.sample(allrows, 120):
            k = sum(1 for c in itertools.combinations(range(n), t) if (c, tuple(r[i] for i in c)) in left)
            if k > bc:
                best, bc = r, k
        if bc == 0:
            c, v = next(iter(left))
            best = [0] * n
            for i, x in zip(c, v):
                best[i] = x
            best = tuple(best)
        rows.append(best)
        left -= {(c, tuple(best[i] for i in c)) for c in itertools.combinations(range(n), t)}
    return rows


def name(r):
    return ''.join(map(str, r))


class Combos:
    rule = 'the program type-checks with every combination of options; a failure names the combination and the offending line'
    explanation = 'the whole program is parsed and type-checked, every template instantiated, under a covering array of the options: any three (thorough: four) options take every combination of values'
    assumptions = ['a failure that needs four (thorough: five) or more options set in one way is not exercised']

    def configs(self, tier):
        return [name(r) for r in covering(4 if tier == 'thorough' else 3)] + sorted(SINGLE)

    def run(self, rep, config, tier):
        base = {k: False for k in TOGGLES if k in FACTORS}
        if config in SINGLE:
            opts, omp, what = {config: SINGLE[config]}, True, ('with ' if SINGLE[config] else 'without ') + config
        else:
            on = dict(zip(FACTORS, (c == '1' for c in config)))
            opts, omp = {k: on[k] for k in base}, on['_OPENMP']
            what = 'options ' + (' '.join(k for k in FACTORS if on[k]) or 'none')
        ok, err = syntax_only('Main.cpp', opts, omp)
        first = [l for l in err.splitlines() if ' error: ' in l or 'fatal error' in l][:1]
        d = first[0].split('/OpenMps/')[-1][:300] if first else ''
        rep.ob('type-checks', what, 'ok' if ok else 'diff', d, d.split(': ')[0] if d else 'Main.cpp')
        rep.add('programs')
