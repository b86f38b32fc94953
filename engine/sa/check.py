"""Runs the check of one property: analyses the current /repo tree in every configuration the property covers, decides its
obligations, writes the evidence file and reports violations."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.setrecursionlimit(200000)
from . import nf, nodes as nd
from .source import VERIF, SourceError, ensure_exporter, export, CONFIGS

TIMEOUT = 720           # seconds for all configurations of a check together
T0 = time.time()


class Report:
    """what one configuration's analysis found"""
    def __init__(self, config):
        self.config = config
        self.obs = []       # (obligation, where, status, detail, location)
        self.facts = {}
        self.notes = []
        self.error = None

    def ob(self, name, where, status, detail='', loc='?'):
        self.obs.append((name, where, status, str(detail)[:1500], loc))

    def add(self, key, n=1):
        self.facts[key] = self.facts.get(key, 0) + n

    def stage(self, o):
        from .stages import KNAME
        self.ob(o.stage, '%s, %s particle' % (o.label, KNAME.get(o.kind, o.kind)), o.status, o.detail, o.loc)


_cache = {}


def model(config, entry='verif::step_dt', args=None, unit='step', nonempty=True):
    """nonempty: there is a particle (for obligations about an arbitrary particle)"""
    from .model import Model
    k = (config, entry, nonempty)
    if k not in _cache:
        ki = ('ir', config, unit)
        if ki not in _cache:
            _cache[ki] = export(unit, config)
        m = Model(_cache[ki], config)
        nd.NONZERO.clear()
        if nonempty:
            nd.NONZERO.add(m.psize)
        m.run(entry, args)
        _cache[k] = m
    nd.NONZERO.clear()
    if nonempty:
        nd.NONZERO.add(_cache[k].psize)
    return _cache[k]


def worker(job):
    pid, config, tier, seed = job
    from . import props
    rep = Report(config)

    def late(*_):
        raise TimeoutError('analysis time limit reached')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(10, int(TIMEOUT - (time.time() - T0))))
    nf.BUDGET = 30 if tier == 'quick' else 200
    t = time.time()
    nd.NONZERO.clear()
    try:
        P = props.REGISTRY[pid]
        P.run(rep, config, tier)
        ms = [x for k, x in _cache.items() if k[0] != 'ir']
        if ms:
            I = ms[0].I
            rep.facts.setdefault('loops_summarised', len(I.loops))
            rep.facts.setdefault('functions_interpreted', len({l.fn for l in I.loops}) if not hasattr(I, 'fns') else len(I.fns))
            rep.facts.setdefault('memory_accesses', sum(len(l.acc) for l in I.loops))
            for n in list(I.notes)[:20]:
                rep.notes.append(str(n)[:200])
    except SourceError as e:
        rep.error = 'source: %s' % e
    except TimeoutError as e:
        rep.error = str(e)
    except Exception as e:
        rep.error = '%s: %s' % (type(e).__name__, str(e)[:400])
        rep.trace = traceback.format_exc()[-1800:]
    signal.alarm(0)
    rep.wall = time.time() - t
    return rep


def findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding: '):
                d = l[len('finding: '):]
                pid, _, rest = d.partition(' ')
                key, _, text = rest.partition(' :: ')
                out.append((pid.split('=')[1], key.strip(), text))
    return out


def main(argv):
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = [a[9:] for a in argv if a.startswith('--config=')]
    verbose = '-v' in argv
    t0 = time.time()
    from . import props
    P = props.REGISTRY[pid]
    ensure_exporter()
    configs = only or P.configs(tier)
    jobs = [(pid, c, tier, seed) for c in configs]
    if len(jobs) == 1:
        reps = [worker(jobs[0])]
    else:
        with mp.get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            reps = list(pool.imap(worker, jobs, 1))
    if hasattr(P, 'finish'):
        extra = Report('*')
        P.finish(extra, reps, tier)
        reps.append(extra)
    counts = {'ok': 0, 'diff': 0, 'undecided': 0}
    viol, und = [], []
    seen = set()
    for r in reps:
        for o in r.obs:
            counts[o[2]] = counts.get(o[2], 0) + 1
            if o[2] == 'diff':
                viol.append((r.config, o))
            elif o[2] == 'undecided':
                und.append((r.config, o))
    known = []
    left = []
    for c, o in viol:
        key = '%s|%s|%s' % (o[0], o[1], c)
        for kp, kk, text in findings():
            if kp == pid and kk in (key, '%s|%s|*' % (o[0], o[1])):
                known.append((kk, text))
                break
        else:
            left.append((c, o))
    errors = [(r.config, r.error, getattr(r, 'trace', '')) for r in reps if r.error]
    facts = {}
    for r in reps:
        for k, v in r.facts.items():
            facts[k] = facts.get(k, 0) + v if isinstance(v, (int, float)) else v
    samples = []
    for r in reps[:2]:
        for o in r.obs[:4]:
            samples.append('[%s] %s (%s) at %s: %s' % (r.config, o[0], o[1], o[4], o[2]))
    total = sum(counts.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': dict({
            'explanation': P.explanation,
            'rule': P.rule,
            'configurations': len([r for r in reps if not r.error and r.config != '*']),
            'obligations': total, 'discharged': counts['ok'], 'undecided': counts['undecided'],
            'samples': samples,
            'undecided_list': ['[%s] %s (%s): %s' % (c, o[0], o[1], o[3][:160]) for c, o in und[:40]],
            'not_analysed': ['%s: %s' % (c, e[:300]) for c, e, _ in errors],
            'notes': sorted({n for r in reps for n in r.notes})[:40],
        }, **facts),
        'assumptions': P.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(left),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k, text in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (pid, text or k))
    for c, e, tr in errors:
        print('not analysed: [%s] %s' % (c, e))
        if verbose:
            print(tr)
    for c, o in und[:10]:
        print('undecided: [%s] %s (%s) at %s: %s' % (c, o[0], o[1], o[4], o[3][:200]))
    print('property %s: %d obligations, %d hold, %d undecided, %d violated; %d configurations in %.1f s' %
          (pid, total, counts['ok'], counts['undecided'], len(left), len(configs), time.time() - t0))
    if left:
        d = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '.txt')
        with open(path, 'w') as f:
            f.write('property %s is violated by the current source of %s\nreproduce: /verif/bin/check %s\n\n' % (pid, os.environ.get('OPENMPS_REPO', '/repo'), pid))
            for c, o in left:
                f.write('configuration %s\n  obligation: %s (%s)\n  construct: %s\n  why: %s\n\n' % (c, o[0], o[1], o[4], o[3]))
        for c, o in left[:6]:
            print('  [%s] %s (%s) at %s: %s' % (c, o[0], o[1], o[4], o[3][:240]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors and all('does not compile' in e for _, e, _ in errors) and len(errors) == len([r for r in reps if r.config != '*']):
        print('error: the source does not compile')
        return 2
    if counts['ok'] == 0:
        print('undecided: nothing could be decided')
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
