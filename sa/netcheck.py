"""From an abstract model to a verdict: the importer's files for it (importer.py), compiled to IR, and the data flow of a program that constructs the
network, loads its weights file, runs it and deletes it, against what the ONNX operator definitions say."""
import ast
import glob
import multiprocessing
import os
import re
import shutil
import subprocess
import tempfile
from . import build, importer, models
from . import term as X
from .fctx import make_tensor, memory, value_diffs
from .flow import *
from .ir import Module
from .netrun import NetFlow
from .p_layers import events, leaks, short
from .pystubs import Sym
from .stdio import AFile, Stdio, cstr

ENTRY = '''#include "network.cpp"
#include "pico-cnn/pico-cnn.h"
extern "C" int E_net__life(const char *path, pico_cnn::naive::Tensor *in0, pico_cnn::naive::Tensor *out0, pico_cnn::naive::Tensor *in1, pico_cnn::naive::Tensor *out1) {
    Network *net = new Network();
    if (read_binary_weights(path, &net->kernels, &net->biases)) { delete net; return 1; }
    net->run(in0, out0);
    net->run(in1, out1);
    delete net;
    return 0;
}
'''


class R:
    """what one way through the importer amounts to (plain data: it crosses processes)"""

    def __init__(self, **k):
        self.status, self.why, self.where, self.fn = 'undecided', '', '', ''
        self.compile = None         # message of the compiler
        self.mains = {}             # main program -> message
        self.events, self.leaks, self.und = [], [], []
        self.diff = None            # (element, got, want, ...)
        self.equal = self.unknown = self.total = 0
        self.node = None            # first node whose result is nowhere
        self.slots = None
        self.ret = None
        self.rec = []
        self.functions, self.pyfns = [], []
        self.text = {}
        self.foreign = []           # (what the weights file holds in addition, outcome, events)
        self.names = []
        self.__dict__.update(k)


OPT = {'add': lambda a, b: X.add(a, b), 'sub': lambda a, b: X.sub(a, b), 'mul': lambda a, b: X.mul(a, b), 'truediv': lambda a, b: X.div(a, b)}


def sterm(k):
    """term of a symbol's key"""
    if not isinstance(k, tuple):
        return X.const(float(k)) if isinstance(k, (int, float)) else X.mk('opq', 'symbol')
    if k[0] == 'w':
        return X.inp('w:' + k[1], 4 * k[2])
    if k[0] == 'op' and k[1] in OPT and len(k) == 4:
        return OPT[k[1]](sterm(k[2]), sterm(k[3]))
    if k[0] == 'op' and k[1] == 'neg':
        return X.neg(sterm(k[2]))
    if k[0] == 'op' and k[1] in ('sqrt', 'exp', 'abs', 'pow', 'tanh'):
        return X.fn(k[1], *[sterm(z) for z in k[2:]])
    return X.mk('opq', 'symbol')


def content(b):
    """bytes of an importer-written file as file content of the stream summaries"""
    out, i = [], 0
    b = list(b) if isinstance(b, (bytes, bytearray)) else list(b.b)
    while i < len(b):
        x = b[i]
        if isinstance(x, int):
            out.append(x)
            i += 1
            continue
        s, f, k = x
        t = sterm(s.key)
        n = {'f': 4, 'd': 8}.get(f)
        run = b[i:i + n] if n else []
        if n == 4 and len(run) == 4 and all(isinstance(y, tuple) and y[0] is s for y in run):
            o = [y[2] for y in run]
            if o == [0, 1, 2, 3]:
                pass
            elif o == [3, 2, 1, 0]:
                t = X.fn('bswap32', t)
            else:
                t = X.fn('bytes%s' % ''.join(map(str, o)), t)
            out += [(t, j) for j in range(4)]
            i += 4
            continue
        out.append((X.fn('bytes' + f, t), 0) if False else X.mk('opq', 'part of a value'))
        i += 1
    return out


def compile_net(files, d, tmp):
    """(Module or None, compiler message)"""
    for n in importer.FILES[:2]:
        with open(os.path.join(tmp, n), 'w') as f:
            f.write(files[d + '/' + n])
    nsym = max([int(x) for n in importer.FILES[:2] for x in re.findall(r'picosym_(\d+)', files[d + '/' + n])] + [-1]) + 1
    src = os.path.join(tmp, 'life.cpp')
    with open(src, 'w') as f:
        f.write(''.join('extern const float picosym_%d;\n' % i for i in range(nsym)) + ENTRY)
    bc = os.path.join(tmp, 'life.bc')
    rc, msg = build.clang(src, bc, [tmp])
    if rc:
        return None, msg.replace(tmp + '/', '')
    return build.dump([bc], tmp, all=True), None


def mains(files, d, tmp, std='c++11'):
    """type-check of every generated unit on its own"""
    out = {}
    nsym = max([int(x) for n, t in files.items() if isinstance(t, str) for x in re.findall(r'picosym_(\d+)', t)] + [-1]) + 1
    hdr = os.path.join(tmp, 'picosym.h')
    with open(hdr, 'w') as f:
        f.write(''.join('extern const float picosym_%d;\n' % i for i in range(nsym)))
    for k, t in files.items():
        n = k.rpartition('/')[2]
        if n.endswith(('.cpp', '.h')):
            with open(os.path.join(tmp, n), 'w') as f:
                f.write(t)
    for k in files:
        n = k.rpartition('/')[2]
        if n.endswith('.cpp'):
            r = subprocess.run(['clang++-18', '-std=' + std, '-fsyntax-only', '-w', '-DINFO', '-include', hdr, '-I' + tmp, '-I' + build.REPO, os.path.join(tmp, n)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out[n] = r.stdout.replace(tmp + '/', '')[:1500] if r.returncode else ''
    return out


def undefined(mod, lib):
    """project functions the network's unit refers to that nothing defines"""
    have = set(mod.fns) | set(lib.mod.fns)
    out = set()
    for f in mod.fns.values():
        for b in f['blocks']:
            for i in b['ins']:
                c = i.get('callee')
                if c and 'pico_cnn' in (i.get('dem') or '') and c not in have and c.replace('C1E', 'C2E').replace('D1E', 'D2E') not in have:
                    if not any(x in (i.get('dem') or '') for x in ('std::', 'basic_')):
                        out.add(i.get('dem'))
    return sorted(out)


def relpath(w):
    w = re.sub(r'[^ ]*picosa\.[^/ ]*/', 'generated ', w)
    return w.replace(build.REPO + '/', '')


def foreign(b):
    """weights files of other networks: the same layers and one more"""
    b = list(b)
    try:
        at = b.index(10, 3) + 1
        n = int.from_bytes(bytes(b[at:at + 4]), 'little')
    except (ValueError, TypeError):
        return []
    u = lambda *v: [x for k in v for x in k.to_bytes(4, 'little')]
    zero = lambda k: [0] * (4 * k)
    name = lambda s: list(('other\n%s\n' % s).encode())
    out = []
    for what, more in (('a convolution', name('Conv') + u(1, 1, 1, 1) + zero(1) + u(0)), ('a product', name('Gemm') + u(1, 1, 1) + zero(1) + u(0)), ('an addition', name('Add') + u(1) + zero(1)),
                       ('a normalisation', name('BatchNormalization') + (u(1) + zero(1)) * 4)):
        out.append((what, b[:at] + u(n + 1) + b[at + 4:-4] + more + b[-4:]))
    return out


def flow_foreign(mod, lib, m, o, res):
    """loading weights files with more parameters than the network has"""
    L = Lib(mod)
    for what, b in foreign(content(o.files[o.dir + '/network.weights.bin'])):
        f = NetFlow(L, [lib], 'E_net__life')
        for i, s in enumerate(o.syms):
            f.globals['picosym_%d' % i] = Obj('symbol %d' % i, 'arg', 4, init={0: sterm(s.key)})
        path = cstr(L, 'network.weights.bin')
        Stdio(f, {path: AFile(b)})
        args = {a['n']: a['i'] for a in f.fn.args}
        f.args[args['path']] = Pt(path)
        for k, dims in (('in0', m.inputs[0][1]), ('out0', m.vals[m.outs[0]].shape), ('in1', m.inputs[0][1]), ('out1', m.vals[m.outs[0]].shape)):
            f.args[args[k]] = Pt(make_tensor(lib.mod, k, dims).body)
        f.run()
        res.und += ['%s%s' % (w, ' at ' + relpath(i) if i else '') for w, i in f.undecided]
        res.foreign.append((what, f.ret if type(f.ret) is int else None, events(f)))


def flow_net(mod, lib, m, o, res):
    L = Lib(mod)
    f = NetFlow(L, [lib], 'E_net__life')
    want = m.vals[m.outs[0]]
    for i, s in enumerate(o.syms):
        g = Obj('symbol %d' % i, 'arg', 4, init={0: sterm(s.key)})
        f.globals['picosym_%d' % i] = g
    path = cstr(L, 'network.weights.bin')
    fl = AFile(content(o.files[o.dir + '/network.weights.bin']))
    Stdio(f, {path: fl})
    args = {a['n']: a['i'] for a in f.fn.args}
    f.args[args['path']] = Pt(path)
    ten = {}
    for k, dims in (('in0', m.inputs[0][1]), ('out0', want.shape), ('in1', m.inputs[0][1]), ('out1', want.shape)):
        t = make_tensor(lib.mod, k, dims)
        t.data.lazy = {'in0': 'first', 'in1': 'in'}.get(k)
        if t.data.lazy is None:
            t.data.kind = 'new'
            t.data.akind = 'caller'
        ten[k] = t
        f.args[args[k]] = Pt(t.body)
    f.run()
    res.functions = sorted(x for x in f.entered)
    res.und = sorted({'%s%s' % (w, ' at ' + relpath(i) if i else '') for w, i in f.undecided})
    for e in events(f):
        res.events.append(e)
    res.dead = f.dead
    if fl.state == 'open' and not f.dead and not getattr(f, 'aborted', False):
        res.events.append(('stream-leak', '', '', 'weights file is left open', ''))
    if f.dead or getattr(f, 'aborted', False):
        res.total = len(want.vals)
        res.unknown = res.total
        return f
    res.leaks = leaks(f)
    res.ret = f.ret if type(f.ret) is int else None
    t = ten['out1']
    pairs = []
    for i, w in enumerate(want.vals):
        c = f.cell(t.data, 4 * i)
        if c is None:
            v = X.mk('undef', 'output', 4 * i)
        else:
            v = f.coerce(c[1], 'float') if c[1] is not KILL and c[0] == 4 else X.mk('opq', 'untracked')
        pairs.append((i, v, X.lift(w)))
    if f.ret != 0 and type(f.ret) is int:
        res.diff = ('weights file', None, None, None, None, 'the generated weights file is refused by the reader')
        res.total = len(pairs)
        return f
    ident, agree, unknown, bad = value_diffs(pairs)
    res.total, res.equal, res.unknown = len(pairs), ident + agree, unknown
    if bad:
        ix = []
        k = bad[0]
        for d in reversed(want.shape):
            ix.append(k % d)
            k //= d
        res.diff = (tuple(reversed(ix)), X.show(bad[1])[:300], X.show(bad[2])[:300]) + tuple(bad[3:])
        res.node = culprit(f, m)
    return f


def culprit(f, m):
    """first node of the model whose result no buffer holds"""
    bufs = {}
    for o, mm in memory(f).items():
        if o.kind == 'new' and 0 in mm and mm[0][0] == 4:
            vs = []
            i = 0
            while i in mm and mm[i][0] == 4 and type(mm[i][1]) is T:
                vs.append(mm[i][1])
                i += 4
            if vs:
                bufs.setdefault(len(vs), []).append(vs)
    for op, name, ins, outs, a in m.nodes:
        v = m.vals.get(outs[0])
        if v is None or all(not isinstance(x, T) for x in v.vals):
            continue
        w = [X.lift(x) for x in v.vals]
        for vs in bufs.get(len(w), []):
            i, g, u, bad = value_diffs([(0, x, y) for x, y in zip(vs, w)], seeds=(0,))
            if not bad:
                break
        else:
            return name, op
    return None


_cls = {}


def generator_of(op):
    """source position of the code of the importer that mentions the operator"""
    if not _cls:
        for p in sorted(glob.glob(os.path.join(build.REPO, 'onnx_import', '*.py'))):
            try:
                tree = ast.parse(open(p).read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                    for c in ast.walk(n):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str) and isinstance(n, ast.ClassDef):
                            _cls.setdefault(c.value, ('%s:%d' % (os.path.relpath(p, build.REPO), n.lineno), n.name))
        _cls.setdefault('', ('onnx_import', ''))
    return _cls.get(op) or ('onnx_import/backend.py', 'BackendRep')


LIB = None


def analyse(m, want_mains=False, other=False):
    """results of one model, one per way through the importer"""
    out = []
    for o in importer.outcomes(m):
        r = R(status=o.status, why=o.why, label=m.label, model_must=m.must, model_ok=m.ok, taken=[str(t) for t in o.taken], rec=list(o.rec))
        r.where, r.fn = o.where
        r.pyfns = sorted(str(x) for x in o.reached)
        out.append(r)
        if o.status != 'ok':
            continue
        tmp = tempfile.mkdtemp(prefix='picosa.')
        try:
            if want_mains:
                r.mains = mains(o.files, o.dir, tmp)
            mod, msg = compile_net(o.files, o.dir, tmp)
            if mod is None:
                r.compile = msg[:1500]
                continue
            r.missing = undefined(mod, LIB)
            if m.ok:
                r.shapes = {}
                flow_net(mod, LIB, m, o, r)
                if other and m.group in ('op', 'param') and r.ret == 0:
                    flow_foreign(mod, LIB, m, o, r)
        except Undecided as e:
            r.und.append(str(e))
        except build.AnalysisBroken as e:
            r.und.append(str(e)[:200])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def work(a):
    i, other, want = a
    try:
        return i, importer.in_thread(analyse, MODELS[i], want, other), None
    except importer.Undecided as e:
        return i, [], 'undecided: %s' % e
    except Exception as e:
        import traceback
        return i, [], 'internal: ' + traceback.format_exc()[-600:]


MODELS = []


def run_all(models_, want_mains=False, procs=8, other=False):
    """[(model, [R])]"""
    global LIB, MODELS
    LIB = Lib(build.compile_module((), all=True))
    build.irdump()
    MODELS = list(models_)
    _cls.clear()
    out = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs) as p:
        for i, rs, err in p.imap(work, [(i, other, want_mains) for i in range(len(MODELS))], chunksize=1):
            if err:
                rs = [R(label=MODELS[i].label, why=err)]
            out.append((MODELS[i], rs))
    return out
