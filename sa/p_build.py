"""P38: the documented way from a model file to a program: the importer's command line, the directory it writes, the Makefiles, the examples.

The importer is abstractly interpreted from its command line. The rules of the generated Makefile and of the library's are expanded by `make -n`
in a scratch directory laid out as documented (nothing is run by it); each compile and link command is then decided by the compiler and linker with
the standard and flags of the rules. No program that is built is run."""
import os
import re
import shlex
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build, importer, models, nets, script
from .script import Opaque

IMPORT = 'onnx_import/onnx_to_pico_cnn.py'
DRIVERS = ('g++', 'gcc', 'c++', 'cc', 'clang++', 'clang')


def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout


def rel(p, T):
    return os.path.relpath(os.path.realpath(p), os.path.realpath(T))


class Tree:
    """scratch copy of what the documented build looks at"""

    def __init__(self):
        self.T = tempfile.mkdtemp(prefix='picosa.')
        skip = shutil.ignore_patterns('*.o', '*.a', '*.so', '*.d')
        shutil.copytree(os.path.join(build.REPO, 'pico-cnn'), os.path.join(self.T, 'pico-cnn'), ignore=skip)
        if os.path.isdir(os.path.join(build.REPO, 'examples')):
            shutil.copytree(os.path.join(build.REPO, 'examples'), os.path.join(self.T, 'examples'), ignore=skip)
        os.makedirs(os.path.join(self.T, 'onnx_import'))
        self.done = {}

    def close(self):
        shutil.rmtree(self.T, ignore_errors=True)

    def put(self, files):
        """what the importer wrote, run in onnx_import"""
        for k, v in files.items():
            if isinstance(v, str) and k.startswith('/work/'):
                p = os.path.join(self.T, 'onnx_import', k[len('/work/'):])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write(v)

    def commands(self, d, target):
        """[(directory, argv)] of the rules for a target, or a message"""
        rc, out = sh(['make', '-n', '-B', '-w', target], d)
        if rc:
            return None, out
        st, res = [d], []
        for ln in out.replace('\\\n', ' ').splitlines():
            m = re.match(r"make(\[\d+\])?: (Entering|Leaving) directory '(.*)'", ln)
            if m:
                if m.group(2) == 'Entering':
                    st.append(m.group(3))
                elif len(st) > 1:
                    st.pop()
                continue
            if not ln.strip() or re.match(r'make(\[\d+\])?[: ]', ln):
                continue
            for part in re.split(r'&&|;', ln):
                try:
                    a = shlex.split(part)
                except ValueError:
                    return None, 'command not understood: ' + part
                if a:
                    res.append((st[-1], a))
        return res, ''


def quick(a):
    return [('-O0' if re.fullmatch(r'-O[0-9sfgz]?|-Ofast', x) else x) for x in a if not x.startswith('-march') and not x.startswith('-mtune')]


def first_error(out):
    for ln in out.splitlines():
        if re.search(r'\berror\b:|undefined reference|No such file|No rule to make|cannot find', ln):
            return ln
    return out.strip().splitlines()[0] if out.strip() else 'fails without a message'


def where_of(msg, cwd, T, default):
    m = re.match(r'([^:\s]+):(\d+):', msg)
    if m:
        p = os.path.join(cwd, m.group(1))
        r = rel(p, T)
        if r.startswith('pico-cnn/') or r.startswith('examples/'):
            return '%s:%s' % (r, m.group(2))
        if r.endswith('dummy_input.cpp') or r.endswith('reference_input.cpp'):
            return 'onnx_import/code_templates/main_program/' + os.path.basename(r)
    return default


def decide(rep, tree, d, target, label, product, extra=()):
    """the rules for the target build the product"""
    cmds, msg = tree.commands(d, target)
    if cmds is None:
        e = first_error(msg)
        rep.ob('the documented target has rules', 1, 0)
        rep.viol('make', 'onnx_import/backend.py', 'BackendRep._export_model', '%s: make %s: %s' % (label, target, e.replace(tree.T + '/', '')), label)
        return
    rep.ob('the documented target has rules')
    par, seq = [], []
    for cwd, a in cmds:
        c = os.path.basename(a[0])
        if c in DRIVERS:
            (par if '-c' in a else seq).append((cwd, a))
        elif c in ('ar', 'gcc-ar', 'ranlib', 'llvm-ar'):
            seq.append((cwd, a))
        elif c in ('echo', 'mkdir', 'true', ':', 'printf', 'cd', 'make', 'gmake'):
            if c == 'mkdir':
                sh(a, cwd)
        elif c == 'rm':
            pass
        else:
            rep.undecided('%s: command %s of a rule' % (label, c))
            return

    def go(x):
        cwd, a = x
        if '*' in ' '.join(a):
            import glob
            a = [y for z in a for y in (sorted(glob.glob(os.path.join(cwd, z))) if '*' in z else [z])]
        k = (cwd, tuple(a))
        if k in tree.done and '-c' in a:
            return tree.done[k]
        r = sh(quick(a) + (list(extra) if '-c' not in a and os.path.basename(a[0]) in DRIVERS else []), cwd)
        tree.done[k] = r
        return r
    bad = None
    with ThreadPoolExecutor(8) as ex:
        for (cwd, a), (rc, out) in list(zip(par, ex.map(go, par))) + [(x, go(x)) for x in []]:
            rep.ob('unit compiles with the flags of its rule', 1, int(rc == 0))
            if rc and not bad:
                bad = (cwd, a, out)
    for x in seq if not bad else ():
        rc, out = go(x)
        rep.ob('program links as its rule says', 1, int(rc == 0))
        if rc:
            bad = x + (out,)
            break
    if bad:
        e = first_error(bad[2])
        w = where_of(e, bad[0], tree.T, 'onnx_import/backend.py')
        rep.viol('build', w, target, '%s: %s: %s' % (label, ' '.join(bad[1][:2]) + ' ...', e.replace(tree.T + '/', '')[:240]), label)
        return
    ok = os.path.exists(os.path.join(d, product))
    rep.ob('the program is where it is documented to be', 1, int(ok))
    if not ok:
        rep.viol('product', 'onnx_import/backend.py', 'BackendRep._export_model', '%s: make %s leaves no program %s' % (label, target, product), label)
    # the documented -DDEBUG
    dbg = [(cwd, a) for cwd, a in cmds if os.path.basename(a[0]) in DRIVERS]

    def check(x):
        cwd, a = x
        src = [y for y in a if y.endswith(('.cpp', '.cc', '.c'))]
        fl = [y for y in quick(a) if y.startswith(('-std', '-I', '-D', '-W'))]
        k = (cwd, 'debug') + tuple(a)
        if k not in tree.done:
            tree.done[k] = sh([a[0], '-fsyntax-only', '-DDEBUG'] + fl + src, cwd)
        return tree.done[k]
    with ThreadPoolExecutor(8) as ex:
        for (cwd, a), (rc, out) in zip(dbg, ex.map(check, dbg)):
            rep.ob('unit compiles with -DDEBUG', 1, int(rc == 0))
            if rc:
                e = first_error(out)
                rep.viol('debug', where_of(e, cwd, tree.T, 'onnx_import/backend.py'), target, '%s: with -DDEBUG: %s' % (label, e.replace(tree.T + '/', '')[:240]), label)
                return


def small(label, shape, outs):
    """a classifier whose parameters are few"""
    x = models.M(label, shape, True, group='build')
    n = models.prod(shape[1:])
    if len(shape) > 2:
        x.op('GlobalAveragePool', [x.cur])
        x.op('Flatten', [x.cur], axis=1)
        n = shape[1]
    x.op('Gemm', [x.cur, x.w('w', outs, n), x.w('b', outs)], transB=1)
    return nets.fin(x)


# model file, its input shape, the example that is copied beside it
CASES = [('../data/lenet/lenet.onnx', 'lenet', (1, 1, 28, 28), 10, 'lenet.cpp'), ('mnist_mlp.onnx', 'mnist_mlp', (1, 784), 10, 'mnist_mlp.cpp'),
         ('../data/mnist_simple_perceptron/mnist_simple_perceptron.onnx', 'mnist_simple_perceptron', (1, 784), 10, 'mnist_simple_perceptron.cpp'),
         ('/abs/zoo/alexnet.onnx', 'alexnet', (1, 3, 227, 227), 1000, 'alexnet.cpp'), ('vgg16.onnx', 'vgg16', (1, 3, 224, 224), 1000, 'vgg.cpp'),
         ('x/tcres8.onnx', 'tcres8', (1, 2, 9), 3, None), ('../zoo.v2/My-net_2.onnx', 'My-net_2', (1, 4), 2, None)]


def light(label, shape, outs):
    """the same interfaces without parameters and with little to fold"""
    x = models.M(label, shape, True, group='build')
    x.op('Relu', [x.cur])
    return nets.fin(x)


def p38(rep, tier, seed):
    rep.rule('each compile, archive and link command of the rules that make expands for the documented targets is accepted by the compiler and linker with the rules\' own standard, '
             'include paths and libraries, also with the documented -DDEBUG; the importer, interpreted from its command line, writes the files the rules and the documentation name')
    tree = Tree()
    try:
        for path, name, shape, outs, example in CASES:
            m = light(name, shape, outs)

            def go():
                return script.ways(IMPORT, ['--input', path], {path: Opaque('model', m.proto)}, infer=m.infer)
            for o in importer.in_thread(go):
                rep.count('models')
                rep.functions.update('%s:%s' % (os.path.relpath(f, build.REPO), n) for f, n in o.reached if str(f).startswith(build.REPO))
                if o.status == 'undecided':
                    rep.undecided('importer: ' + o.why[:140])
                    continue
                if o.status != 'ok':
                    rep.ob('the importer accepts its documented command line', 1, 0)
                    w, fn = o.where if o.at else (IMPORT, 'main')
                    rep.viol('refused', w or IMPORT, fn or 'main', '--input %s: %s' % (path, o.why[:160]), name)
                    continue
                rep.ob('the importer accepts its documented command line')
                if not [p for p in o.state.loaded if p == path]:
                    rep.viol('model', IMPORT, 'main', '--input %s: another file is loaded: %s' % (path, o.state.loaded[:1]), name)
                want = ['network.cpp', 'network.h', 'network.weights.bin', 'Makefile', 'dummy_input.cpp', 'reference_input.cpp']
                miss = [n for n in want if '/work/generated_code/%s/%s' % (name, n) not in o.changed]
                rep.ob('the documented file is written', len(want), len(want) - len(miss))
                if miss:
                    rep.viol('files', 'onnx_import/backend.py', 'BackendRep.save', '--input %s: no file generated_code/%s/%s' % (path, name, miss[0]), name)
                    continue
                tree.put(o.changed)
                d = os.path.join(tree.T, 'onnx_import', 'generated_code', name)
                decide(rep, tree, d, 'dummy_input', name, 'dummy_input')
                decide(rep, tree, d, 'reference_input', name, 'reference_input')
                if example and os.path.exists(os.path.join(tree.T, 'examples', example)):
                    shutil.copy(os.path.join(tree.T, 'examples', example), os.path.join(d, name + '.cpp'))
                    text = open(os.path.join(d, name + '.cpp')).read()
                    extra = ['-ljpeg'] if 'read_jpeg(' in text else []
                    if extra and sh(['g++', '-x', 'c++', '/dev/null', '-shared', '-fPIC', '-ljpeg', '-o', os.path.join(tree.T, 'probe.so')], tree.T)[0]:
                        rep.count('examples that need a library that is not installed')
                        continue
                    decide(rep, tree, d, name, name, name, extra)
                    decide(rep, tree, d, 'all', name, name, extra)
                if len(rep.samples) < 4:
                    rep.samples.append(dict(model=name, makefile=o.changed['/work/generated_code/%s/Makefile' % name].splitlines()[1]))
        rep.count('compile, archive and link commands', len(tree.done))
    finally:
        tree.close()
