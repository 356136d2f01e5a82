"""Builds the real extension from the current sources into a scratch folder."""
import os
import re
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VP_REPO', '/repo')
PY = sys.executable


def flags():
    """compile flags of setup.py (read, not executed); defaults when not recognised"""
    dflt = ['-O3', '-march=native', '-fassociative-math', '-fno-math-errno', '-ffinite-math-only', '-fno-rounding-math',
            '-fno-signed-zeros', '-fno-trapping-math']
    try:
        with open(os.path.join(REPO, 'setup.py')) as f:
            s = f.read()
        s = re.sub(r'#.*', '', s)
        fl = re.findall(r"'(-[A-Za-z][^']*)'", s)
        return fl or dflt
    except OSError:
        return dflt


def command(out, asan=False):
    import pybind11
    src = os.path.join(REPO, 'riptide', 'cpp', 'python_bindings.cpp')
    cmd = ['g++', '-shared', '-fPIC', '-std=c++17', '-fvisibility=hidden', '-DVERSION_INFO=0',
           '-I' + pybind11.get_include(), '-I' + sysconfig.get_paths()['include'], '-I' + os.path.dirname(src), src, '-o', out]
    if asan:
        cmd[1:1] = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']
    else:
        cmd[1:1] = flags()
    return cmd


def start(outdir, asan=False):
    out = os.path.join(outdir, 'libcpp_%s.so' % ('asan' if asan else 'opt'))
    log = open(out + '.log', 'w')
    return out, subprocess.Popen(command(out, asan), stdout=log, stderr=log)
