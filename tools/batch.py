#!/usr/bin/env python3
"""Development aid: runs every registered property on a tree (OPENMPS_REPO), sharing the analysis between properties.
usage: batch.py [--configs=a,b] [--props=C01,C02] [--tier=quick]"""
import os, sys, time, pickle, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
sys.setrecursionlimit(200000)


def forked(check, p, c, tier):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        check.T0 = time.time()
        r = check.worker((p, c, tier, 1))
        with os.fdopen(wr, 'wb') as f:
            pickle.dump(r, f)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d)


def work(job):
    c, pids, tier = job
    from sa import check, props
    try:
        check.model(c)
    except Exception:
        pass
    out = []
    t = time.time()
    for p in pids:
        if c not in props.REGISTRY[p].configs(tier):
            continue
        out.append((p, forked(check, p, c, tier)))
    return c, out, time.time() - t


if __name__ == '__main__':
    from sa import check, props
    opt = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--') and '=' in a)
    tier = opt.get('tier', 'quick')
    pids = opt['props'].split(',') if 'props' in opt else sorted(props.REGISTRY)
    confs = opt['configs'].split(',') if 'configs' in opt else sorted({c for p in pids for c in props.REGISTRY[p].configs(tier)}, key=lambda c: (c != 'dim3-gc', c))
    check.ensure_exporter()
    t0 = time.time()
    res = {p: [] for p in pids}
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for c, out, dt in pool.imap_unordered(work, [(c, pids, tier) for c in confs], 1):
            for p, r in out:
                res[p].append((c, r))
    fk = {(p, k) for p, k, t in check.findings()}
    bad = 0
    for p in pids:
        v = [(c, o) for c, r in res[p] for o in r.obs if o[2] == 'diff' and (p, '%s|%s|%s' % (o[0], o[1], c)) not in fk and (p, '%s|%s|*' % (o[0], o[1])) not in fk]
        e = [(c, r.error) for c, r in res[p] if r.error]
        n = sum(len(r.obs) for c, r in res[p])
        ok = sum(1 for c, r in res[p] for o in r.obs if o[2] == 'ok')
        print('%s: %d/%d%s%s' % (p, ok, n, '  VIOLATED %d' % len(v) if v else '', '  ERR %d' % len(e) if e else ''))
        bad += bool(v)
        for c, o in v[:int(opt.get('show', 2))]:
            print('     [%s] %s (%s) %s: %s' % (c, o[0], o[1], o[4], o[3][:160]))
        for c, x in e[:int(opt.get('show', 2))]:
            print('     ERR [%s] %s' % (c, x[:200]))
        if 'und' in opt:
            for c, r in res[p]:
                for o in r.obs:
                    if o[2] == 'undecided':
                        print('     und [%s] %s (%s): %s' % (c, o[0], o[1], o[3][:160]))
    print('%.0f s' % (time.time() - t0))
