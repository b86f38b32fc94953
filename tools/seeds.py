#!/usr/bin/env python3
"""Planted bugs: creates /verif/seeded/<id>/ from the specifications in tools/seedspec_*.py and confirms each one
(applies, builds, stable tests pass, demo passes without and fails with it).
usage: seeds.py [--confirm] [ids...]"""
import glob, importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'seeded')
REPO = '/repo'
SPECS = {}

DEMO = '''#!/bin/bash
# run in the repository root: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s -I"$d" -Isrc/OpenMps -Isrc/viennacl "$d/demo.cpp" -o "$t/demo" %s || exit 3
cd "$t" && OMP_NUM_THREADS=4 timeout 120 ./demo
'''


def S(id, prop, needs, breaks, edits, demo, flags='-fopenmp', libs='', sh=None, files=()):
    assert id not in SPECS, id
    SPECS[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags, libs=libs, sh=sh, files=files)


def load():
    for f in sorted(glob.glob(os.path.join(HERE, 'seedspec_*.py'))):
        src = open(f, encoding='utf-8').read()
        exec(compile(src, f, 'exec'), {'S': S})


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh('git', '-C', REPO, 'checkout', '--', '.')


def make(s):
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f, old, new in s['edits']:
        p = os.path.join(REPO, 'src/OpenMps', f)
        raw = open(p, encoding='utf-8', newline='').read()
        crlf = '\r\n' in raw
        t = raw.replace('\r\n', '\n')
        k = t.count(old)
        if k != 1:
            clean()
            raise SystemExit('%s: %d matches in %s for:\n%s' % (s['id'], k, f, old))
        t = t.replace(old, new)
        open(p, 'w', encoding='utf-8', newline='').write(t.replace('\n', '\r\n') if crlf else t)
    diff = subprocess.run(['git', '-C', REPO, 'diff', '--binary'], stdout=subprocess.PIPE).stdout
    clean()
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(s['sh'] or DEMO % (s['flags'], s['libs']))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if s['demo']:
        open(os.path.join(d, 'demo.py' if s['demo'].startswith('import ') else 'demo.cpp'), 'w').write(s['demo'])
        if 'ref.hpp' in s['demo']:
            shutil.copy(os.path.join(HERE, 'seed', 'ref.hpp'), d)
    for f in s['files']:
        shutil.copy(os.path.join(HERE, 'seed', f), d)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def confirm(s):
    d = os.path.abspath(os.path.join(OUT, s['id']))
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base.get('passed', base.get('stable', [])) if isinstance(base, dict) else base)
    demo = ['bash', os.path.join(d, 'demo.sh')]
    a = sh(*demo, cwd=REPO)
    if a.returncode:
        return 'demo fails on the unchanged tree: ' + a.stdout[-300:]
    try:
        r = sh('git', '-C', REPO, 'apply', os.path.join(d, 'patch.diff'))
        if r.returncode:
            return 'does not apply'
        r = sh('bash', '/opt/vp/build.sh')
        if r.returncode:
            return 'does not build: ' + r.stdout[-400:]
        r = sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
        res = json.load(open('/tmp/seedtest.json'))
        miss = want - set(res['passed'])
        if miss or not want:
            return 'tests fail: %s' % sorted(miss)[:4]
        b = sh(*demo, cwd=REPO)
        if b.returncode == 0:
            return 'demo does not notice'
        return 'confirmed: ' + b.stdout.strip()[-120:].replace('\n', ' | ')
    finally:
        clean()


if __name__ == '__main__':
    load()
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(SPECS)
    os.makedirs(OUT, exist_ok=True)
    for i in ids:
        make(SPECS[i])
    if '--confirm' in sys.argv:
        for i in ids:
            print(i, confirm(SPECS[i])[:300], flush=True)
        sh('bash', '/opt/vp/build.sh')
