"""Obtains the type-checked program of the current /repo tree, for each supported combination of compile-time options."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .ir import IR

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('OPENMPS_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'OpenMps')
EXPORTER = os.path.join(VERIF, 'build', 'vexport')

TOGGLES = ('DIM3', 'ARTIFICIAL_COLLISION_FORCE', 'PRESSURE_GRADIENT_MIDPOINT', 'PRESSURE_EXPLICIT', 'MPS_HS', 'MPS_HL', 'MPS_ECS',
           'MPS_GC', 'MPS_DS', 'MPS_SPP', 'USE_VIENNACL')

# name -> options switched relative to the tree's own defines.hpp, OpenMP on/off
CONFIGS = {
    'default': ({}, True),
    'serial': ({}, False),
    'dim3': ({'DIM3': True}, True),
    'no-hs': ({'MPS_HS': False}, True),
    'no-hl': ({'MPS_HL': False}, True),
    'no-ecs': ({'MPS_ECS': False}, True),
    'no-ds': ({'MPS_DS': False}, True),
    'no-spp': ({'MPS_SPP': False}, True),
    'no-viennacl': ({'USE_VIENNACL': False}, True),
    'gc': ({'MPS_GC': True}, True),
    'dim3-gc': ({'DIM3': True, 'MPS_GC': True}, True),
    'explicit': ({'PRESSURE_EXPLICIT': True}, True),
    'explicit-no-spp': ({'PRESSURE_EXPLICIT': True, 'MPS_SPP': False}, True),
    'standard': ({'MPS_HS': False, 'MPS_HL': False, 'MPS_ECS': False, 'MPS_DS': False, 'MPS_SPP': False}, True),
}


class SourceError(Exception):
    """the tree does not compile, or a construct the analysis is anchored to has vanished"""


def ensure_exporter():
    if not os.path.exists(EXPORTER) or os.path.getmtime(EXPORTER) < os.path.getmtime(os.path.join(VERIF, 'engine', 'vexport.cpp')):
        subprocess.run([os.path.join(VERIF, 'engine', 'build.sh')], check=True)


_res = []


def resource_dir():
    if not _res:
        _res.append(subprocess.run(['clang++-18', '-print-resource-dir'], capture_output=True, text=True, check=True).stdout.strip())
    return _res[0]


def set_toggles(text, opts):
    for k, v in opts.items():
        pat = re.compile(r'^[ \t]*(//[ \t]*)?#define[ \t]+%s\b[^\n]*$' % k, re.M)
        if not pat.search(text):
            if v:
                text = '#define %s\n' % k + text if not text.startswith('\ufeff') else '\ufeff#define %s\n' % k + text[1:]
            continue
        text = pat.sub(('#define %s' % k) if v else ('// #define %s' % k), text, count=1)
    return text


class Overlay:
    """scratch copy of the sources with some options switched; removed on exit"""
    def __init__(self, opts):
        self.dir = tempfile.mkdtemp(prefix='openmps-sa-')
        self.src = os.path.join(self.dir, 'OpenMps')
        shutil.copytree(SRC, self.src)
        if opts:
            p = os.path.join(self.src, 'defines.hpp')
            t = open(p, encoding='utf-8').read()
            open(p, 'w', encoding='utf-8').write(set_toggles(t, opts))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def tree_hash():
    h = hashlib.sha256()
    for base, roots in ((SRC, ('.',)), (os.path.join(VERIF, 'engine'), ('drivers',)),):
        for r in roots:
            for d, _, fs in sorted(os.walk(os.path.join(base, r))):
                for f in sorted(fs):
                    if f.endswith(('.hpp', '.cpp', '.h', '.inl')):
                        p = os.path.join(d, f)
                        h.update(os.path.relpath(p, base).encode())
                        h.update(open(p, 'rb').read())
    h.update(open(EXPORTER, 'rb').read())
    return h.hexdigest()[:24]


def export(unit, config='default', opts=None, omp=None):
    """IR of a translation unit: 'step' (the driver over Computer.hpp) or 'main' (Main.cpp)"""
    ensure_exporter()
    o, m = CONFIGS[config] if opts is None else (opts, omp)
    with Overlay(o) as ov:
        drv = os.path.join(VERIF, 'engine', 'drivers')
        src = os.path.join(ov.src, 'Main.cpp') if unit == 'main' else os.path.join(drv, unit + '.cpp')
        out = os.path.join(ov.dir, 'out.json')
        cmd = [EXPORTER, '--root=' + ov.src, '--root=' + drv, out, '--', src, '-std=c++17'] + (['-fopenmp'] if m else []) + \
              ['-I' + ov.src, '-resource-dir=' + resource_dir()]
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=300)
        if r.returncode != 0 or not os.path.exists(out):
            raise SourceError('%s does not compile with options %s: %s' % (unit, config, (r.stderr or r.stdout)[-1500:]))
        ir = IR(out)
        ir.macros = macros(ov.src, m)
        return ir


def macros(src, omp):
    """options that are on in a source copy, as the preprocessor sees them"""
    r = subprocess.run(['clang++-18', '-dM', '-E', '-x', 'c++', os.path.join(src, 'defines.hpp'), '-std=c++17'] + (['-fopenmp'] if omp else []),
                       capture_output=True, text=True, errors='replace', timeout=100)
    on = set(re.findall(r'^#define (\w+)', r.stdout, re.M))
    return {t for t in TOGGLES if t in on} | ({'_OPENMP'} if omp else set())


def syntax_only(unit_src, opts, omp, timeout=300):
    """(ok, diagnostics) of compiling a translation unit with the given options"""
    with Overlay(opts) as ov:
        src = os.path.join(ov.src, unit_src) if not unit_src.startswith('/') else unit_src
        cmd = ['clang++-18', '-fsyntax-only', src, '-std=c++17', '-I' + ov.src] + (['-fopenmp'] if omp else [])
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout)
        return r.returncode == 0, r.stderr
