"""Compiles /repo's current sources to LLVM IR (no optimisation beyond what the
dumper itself requests) and extracts the analysis roots."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .ir import Module

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PICO_REPO', '/repo')
FLAGS = ['-std=gnu++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-exceptions',
         '-fno-threadsafe-statics', '-ffp-contract=off', '-DDEBUG=0', '-DINFO=1', '-Wno-everything', '-fno-discard-value-names']


class AnalysisBroken(Exception):
    pass


def sources():
    out = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'pico-cnn')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.cpp', '.cc', '.cxx')):
                out.append(os.path.join(root, f))
    return out


def irdump():
    exe = os.path.join(HERE, 'build', 'irdump')
    src = os.path.join(HERE, 'tool', 'irdump.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        subprocess.run(['bash', os.path.join(HERE, 'setup.sh')], check=True, stdout=subprocess.DEVNULL)
    return exe


def clang(s, o, inc=()):
    r = subprocess.run(['clang++-18'] + FLAGS + ['-I' + i for i in inc] + ['-I' + REPO, '-emit-llvm', '-c', s, '-o', o],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
    if r.returncode:    # a unit that throws: keep the exceptions, irdump lowers the invokes
        r = subprocess.run(['clang++-18'] + [f for f in FLAGS if f != '-fno-exceptions'] + ['-I' + i for i in inc] +
                           ['-I' + REPO, '-emit-llvm', '-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
    return r.returncode, r.stdout


def compile_module(entries=('entries.cpp', 'entries_jpeg.cpp'), all=False):
    exe = irdump()
    tmp = tempfile.mkdtemp(prefix='picosa.')
    try:
        todo = [os.path.join(HERE, 'tool', e) for e in entries] + sources()
        if len(todo) < 20:
            raise AnalysisBroken('only %d translation units found' % len(todo))
        objs = []

        def one(ix):
            i, s = ix
            o = os.path.join(tmp, '%03d_%s.bc' % (i, os.path.basename(s)))
            return (s, o) + clang(s, o)
        with ThreadPoolExecutor(8) as ex:
            for s, o, rc, msg in ex.map(one, enumerate(todo)):
                if rc:
                    raise AnalysisBroken('cannot compile %s:\n%s' % (s, msg[:2000]))
                objs.append(o)
        m = dump(objs, tmp, all)
        m.units = [os.path.relpath(s, REPO) for s in sources()]
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def dump(objs, tmp, all=False):
    js = os.path.join(tmp, 'ir.json')
    r = subprocess.run([irdump()] + (['-all'] if all else []) + [js] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
    if r.returncode:
        raise AnalysisBroken('IR extraction failed: ' + r.stdout[:2000])
    return Module(js)
