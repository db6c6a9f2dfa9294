"""P36, P37: the main programs that the importer writes beside a network (dummy_input.cpp, reference_input.cpp).

The generated main is compiled to IR and its data flow is analysed from main(argc, argv) through the generated network's constructor and
destructor, the weights reader and the reference-data readers. Network::run is replaced by a summary that records its arguments and sets every
output element to an unknown value, so that the verdict of the program is a formula over (unknown output, unknown reference)."""
import math
import multiprocessing
import os
import re
import shutil
import tempfile
from . import build, importer, models, nets
from . import term as X
from .fctx import data_pointer, fields, known_layout
from .flow import *
from .netcheck import R, content, relpath, sterm
from . import netcheck
from .netrun import NetFlow
from .p_io import P_, refin_file, refout_file
from .p_layers import events, leaks, BAD, HEAP
from .stdio import AFile, Stdio, conststr, floats, text, u32

EPS = 0.001
RANDMAX = 2147483647


def constants(mod):
    """integer constants the main program (not the library or generated network) compares or computes with"""
    out = set()
    for M in mod[:1]:
        for name, fn in M.fns.items():
            for b in fn['blocks']:
                for i in b['ins']:
                    if '/pico-cnn/' in str(i.get('file', '')) or i['op'] in ('getelementptr', 'store', 'alloca', 'call'):
                        continue
                    for o in i.get('ops', []):
                        if o.get('k') == 'int':
                            v = abs(int(o['v']))
                            if i['op'] in ('shl', 'lshr', 'ashr') and v < 9:
                                v = 1 << v
                            if 3 <= v <= 200:
                                out.add(v)
                                if i['op'] == 'and' and not v & (v + 1):
                                    out.add(v + 1)
    return out


def strobj(s):
    b = s.encode() + b'\0'
    o = Obj('"%s"' % (s if len(s) < 40 else '%s... (%d characters)' % (s[:12], len(s))), 'arg', len(b), init={i: c for i, c in enumerate(b)})
    o.init['esz'] = 1
    o.grans.add(1)
    return o


class ByName(Stdio):
    """files named by the text of their path"""

    def __init__(self, flow, files):
        self.by = {}
        for n, fl in files.items():
            self.by[n] = strobj(n)
        super().__init__(flow, {self.by[n]: fl for n, fl in files.items()})
        self.asked = []

    def c_fopen(self, ins, d, a):
        n = conststr(self.f, a[0], ins)
        self.asked.append(n)
        if n not in self.by:
            raise Undecided('another file is opened: %s' % n[:40])
        return super().c_fopen(ins, d, [Pt(self.by[n])] + a[1:])


def pointers(p, c=True):
    """(condition, address) of a conditional address"""
    if type(p) is PS:
        return pointers(p.a, X.c_and(c, p.c)) + pointers(p.b, X.c_and(c, X.c_not(p.c)))
    return [(c, p)]


class MainRun:
    def __init__(self, mod, lib, nsyms, files, argv, in_dims, out_n, argc=None):
        main, net = mod
        self.lib = lib
        f = self.f = NetFlow(Lib(main), [Lib(net), lib], 'main', 60000000)
        for i, s in enumerate(nsyms):
            f.globals['picosym_%d' % i] = Obj('symbol %d' % i, 'arg', 4, init={0: sterm(s.key)})
        f.nans, f.nesting = True, 140
        self.files = files
        self.io = ByName(f, files)
        self.runs, self.said, self.rands, self.opaque_text = [], [], 0, 0
        self.out_n = out_n
        vec = Obj('argv', 'arg', 8 * (len(argv) + 1), init={8 * i: Pt(strobj(s)) for i, s in enumerate(argv)})
        vec.init[8 * len(argv)] = NULL
        args = [a['i'] for a in f.fn.args]
        if len(args) == 2:
            f.args[args[0]] = argc if argc is not None else len(argv)
            f.args[args[1]] = Pt(vec)
        f.hooks['rand'] = f.hooks['random'] = self.rand
        f.hooks['srand'] = f.hooks['srandom'] = lambda fl, ins, d: None
        f.hooks['time'] = lambda fl, ins, d: X.mk('opq', 'time', ins.i)
        names = set()
        for M in (main, net, lib.mod):
            for n, fn in M.fns.items():
                names.add((n, fn.get('demangled') or ''))
                for b in fn['blocks']:
                    for i in b['ins']:
                        if i.get('callee'):
                            names.add((i['callee'], i.get('dem') or ''))
        for c, dm in names:
            if dm.startswith('Network::run('):
                f.hooks[c] = self.net_run
            elif 'operator<<' in dm and 'basic_ostream' in dm:
                f.hooks[c] = self.stream_text if dm.rstrip().endswith('char const*)') else self.stream
            elif 'basic_ostream' in dm and ('std::endl' in dm or 'std::flush' in dm):
                f.hooks[c] = self.stream
        for c in ('printf', 'puts', 'fputs', 'fprintf', 'perror'):
            f.hooks[c] = self.c_print
        f.run()
        self.rets = f.ret
        self.dies = [e for e in f.events if e.kind == 'die']
        self.ev = events(f)

    # ---------------------------------------------------------------- summaries
    def rand(self, f, ins, d):
        self.rands += 1
        return X.inp('rand', 4 * self.rands)

    def stream(self, f, ins, d):
        v = [f.val(o) for o in d.get('ops', [])]
        return v[0] if v else None

    def stream_text(self, f, ins, d):
        v = [f.val(o) for o in d.get('ops', [])]
        self.say(f, v[1], ins)
        return v[0]

    def c_print(self, f, ins, d):
        v = [f.val(o) for o in d.get('ops', [])]
        self.say(f, v[1] if d.get('callee') == 'fprintf' else v[0], ins)
        return f.opq(ins.t, ins) if ins.t != 'void' else None

    def say(self, f, p, ins):
        for c, q in pointers(p, f.cond()):
            if c is False:
                continue
            try:
                g = f.gdata(q.o) if type(q) is Pt else {}
                s = bytes.fromhex(g['hex'])[q.f:].split(b'\0')[0].decode('latin1') if 'hex' in g else conststr(f, q, ins)
            except (Undecided, AttributeError, TypeError):
                self.opaque_text += 1
                continue
            self.said.append((c, s, ins))

    def net_run(self, f, ins, d):
        v = [f.val(o) for o in d.get('ops', [])]
        tens = [x for x in v[1:]]
        r = dict(cond=f.cond(), ins=ins, input=None, n=None)
        if len(tens) != 2 or any(type(x) is not Pt for x in tens):
            raise Undecided('arguments of the network')
        for x in tens:
            if x.o in f.freed:
                f.ev('use-after-free', ins, x.o)
        k = len(self.runs)
        r['input'] = self.elements(tens[0], ins)
        dims = self.dims(tens[0])
        r['dims'] = dims
        o = self.base(tens[1], ins)
        size = o.o.size
        for i in range(self.out_n):
            f.store(Pt(o.o, o.f + 4 * i), X.inp('out%d' % k, 4 * i), 4, ins)
        r['outsize'] = size
        self.runs.append(r)
        return None

    def base(self, t, ins):
        if known_layout(self.lib.mod):
            nd, sh, da, ne = fields(self.lib.mod)
            p = self.f.load(Pt(t.o, t.f + da), 8, 'ptr', ins)
        else:
            p = data_pointer(self.lib, t, self.f.layers)
        if type(p) is not Pt or type(p.f) is not int:
            raise Undecided('data of a tensor of the main program')
        return p

    def dims(self, t):
        if not known_layout(self.lib.mod):
            return None
        f = self.f
        nd, sh, da, ne = fields(self.lib.mod)
        n = f.cell(t.o, t.f + nd)
        s = f.cell(t.o, t.f + sh)
        if not n or not s or type(n[1]) is not int or type(s[1]) is not Pt:
            return None
        out = []
        for i in range(n[1]):
            c = f.cell(s[1].o, s[1].f + 4 * i)
            out.append(c[1] if c else None)
        return tuple(out)

    def elements(self, t, ins):
        p = self.base(t, ins)
        if p.o.size is None:
            raise Undecided('size of the input tensor')
        out = []
        for i in range((p.o.size - p.f) // 4):
            c = self.f.cell(p.o, p.f + 4 * i)
            out.append(X.mk('undef', 'input', i) if c is None else X.mk('opq', 'untracked') if c[1] is KILL or c[0] != 4 else self.f.coerce(c[1], 'float'))
        return out

    def known(self):
        if self.f.undecided:
            raise Undecided('; '.join(w for w, i in self.f.undecided[:2]))
        return self

    def fails(self):
        """every way out reports failure: non-zero exit status"""
        f = self.f
        if f.dead:
            return True
        for c, v in returns(f.ret):
            if type(v) is not int:
                return None
            if v == 0:
                return False
        return True


def returns(v, c=True):
    if type(v) is T and v.k == 'sel':
        return returns(v.a[1], X.c_and(c, v.a[0])) + returns(v.a[2], X.c_and(c, X.c_not(v.a[0])))
    if type(v) is T and v.k == 'c':
        v = int(v.a[0])
    return [(c, v)]


def compile_main(files, d, name, tmp):
    nsym = 0
    for n in importer.FILES[:2] + (name,):
        with open(os.path.join(tmp, n), 'w') as f:
            f.write(files[d + '/' + n])
        nsym = max([nsym] + [int(x) + 1 for x in re.findall(r'picosym_(\d+)', files[d + '/' + n])])
    mods = []
    for n in ('network.cpp', name):     # units of their own: Network::run is a call of the main program
        src = os.path.join(tmp, 'unit_' + n)
        with open(src, 'w') as f:
            f.write(''.join('extern const float picosym_%d;\n' % i for i in range(nsym)) + '#include "%s"\n' % n)
        rc, msg = build.clang(src, src + '.bc', [tmp])
        if rc:
            return None, msg.replace(tmp + '/', '')
        mods.append(build.dump([src + '.bc'], tmp, all=True))
    return (mods[1], mods[0]), None


def template_line(name, ins, files):
    """place in the template of an instruction of the generated program"""
    tpl = 'onnx_import/code_templates/main_program/%s' % name
    if ins is None:
        return tpl, 'main'
    file, line = str(ins.d.get('file', '')), ins.d.get('line')
    if file.startswith(build.REPO):
        return relpath(ins.where()), ins.fn()
    try:
        want = files.splitlines()[int(line) - 1].strip()
        src = open(os.path.join(build.REPO, tpl)).read().splitlines()
        hit = [i + 1 for i, s in enumerate(src) if s.strip() == want]
        if len(hit) == 1:
            return '%s:%d' % (tpl, hit[0]), ins.fn()
    except (OSError, TypeError, ValueError, IndexError):
        pass
    return tpl, ins.fn()


# ------------------------------------------------------------------ models
def main_models(tier):
    L = []

    def m(label, shape, *ops):
        x = models.M(label, shape, True, group='main')
        for o, ins, a in ops:
            x.op(o, [x.cur] + [x.w(n, *s) for n, s in ins], **a)
        L.append(nets.fin(x))
    relu = ('Relu', (), {})
    conv = lambda ic, oc: ('Conv', (('w', (oc, ic, 3, 3)), ('b', (oc,))), dict(kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1]))
    m('image of three channels', (1, 3, 2, 4), conv(3, 1), relu)
    m('image with one output', (1, 1, 1, 1), relu)
    m('signal', (1, 2, 5), relu)
    m('vector', (1, 6), ('Gemm', (('w', (3, 6)), ('b', (3,))), dict(transB=1)))
    m('wide vector', (1, 2), ('MatMul', (('w', (2, 9)),), {}), relu)
    m('image of 65792 elements', (1, 1, 257, 256), ('GlobalAveragePool', (), {}), ('Flatten', (), {}))
    if tier != 'quick':
        m('tall image', (1, 2, 7, 1), relu)
        m('long signal', (1, 1, 40), relu)
        m('large vector', (1, 130), ('Gemm', (('w', (70, 130)),), dict(transB=1)))
        m('image with many outputs', (1, 4, 5, 5), relu)
    return L


# ------------------------------------------------------------------ reference_input
def ref_files(m, o, fail=None):
    shape, out = m.inputs[0][1], m.vals[m.outs[0]].shape
    n = models.prod(out)
    cin, vin = retag(refin_file(tuple(shape)), 'input')
    cout, vout = retag(refout_file(n), 'reference')
    w = content(o.files[o.dir + '/network.weights.bin'])
    fl = dict(w=AFile(w, can_open=fail != 'w'), i=AFile(cin, can_open=fail != 'i'), o=AFile(cout, can_open=fail != 'o'))
    if fail and fail.endswith('cut'):
        k = fail[0]
        fl[k] = AFile(fl[k].content[:-4])
    return fl, vin, vout, n


def retag(cv, tag):
    c, v = cv
    m = {t: X.inp(tag, 4 * i) for i, t in enumerate(v)}
    return [(m[b[0]], b[1]) if type(b) is tuple else b for b in c], [m[t] for t in v]


DELTAS = (0.0, 0.0004, -0.0004, 0.0009, -0.0009, 0.0011, -0.0011, 0.0016, -0.0016, 0.5, -0.5, 3000.0, -3000.0, math.inf, -math.inf, math.nan)


def assignments(n):
    """(label, outputs, references): one element apart, for each element, and mixtures"""
    base = [((i * 7) % 11) / 8.0 - 0.5 for i in range(n)]
    yield 'equal data', list(base), list(base)
    for d in DELTAS[1:]:
        for i in ([0, n - 1] if n > 2 and abs(d) not in (0.0011, 0.5) else range(n)):
            r = list(base)
            r[i] = base[i] + d if not math.isnan(d) else d
            yield 'element %d off by %r' % (i, d), list(base), r
            if math.isnan(d):
                q = list(base)
                q[i] = d
                yield 'element %d of the output not a number' % i, q, list(base)
    if n > 1:
        yield 'differences that cancel', list(base), [b + (0.5 if i == 0 else -0.5 if i == 1 else 0.0) for i, b in enumerate(base)]
        yield 'all slightly off', list(base), [b + (0.0006 if i % 2 else -0.0006) for i, b in enumerate(base)]
        yield 'first off, later equal', list(base), [b + (1.0 if i == 0 else 0.0) for i, b in enumerate(base)]


def verdict(said, e=None):
    """(almost equal is reported, a difference is reported) by the texts that are printed under the assignment; None: not known"""
    text = []
    for c, s, i in said:
        v = e(c) if e is not None and type(c) is T else c
        if v is None:
            return None
        if v:
            text.append(s)
    text = re.sub(r'\s+', ' ', ''.join(text))
    no = text.count('not almost equal')
    return text.count('almost equal') > no, no > 0


def analyse_reference(m, o, lib, tier):
    """[(rule, ok or None, where, function, message)]"""
    out = []
    name = 'reference_input.cpp'
    tmp = tempfile.mkdtemp(prefix='picosa.')
    try:
        mod, msg = compile_main(o.files, o.dir, name, tmp)
        src = o.files[o.dir + '/' + name]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if mod is None:
        return [('compile', None, '', '', msg[:200])]
    shape = tuple(m.inputs[0][1])

    def go(argv, fail=None, argc=None):
        fl, vin, vout, n = ref_files(m, o, fail)
        names = {'w': argv[1] if len(argv) > 1 else 'w', 'i': argv[2] if len(argv) > 2 else 'i', 'o': argv[3] if len(argv) > 3 else 'o'}
        return MainRun(mod, lib, o.syms, {names[k]: v for k, v in fl.items()}, argv, shape, n, argc).known(), vin, vout, n, fl

    def at(ins):
        return template_line(name, ins, src)

    def memory(run, leak, what):
        bad = [e for e in run.ev if e[0] in BAD + HEAP + ('uninit-branch',) and e[5] is True]
        for kind, where, fn, path, t, s, u in bad[:2]:
            i = next((e.ins for e in run.f.events if e.kind == kind and e.ins is not None), None)
            out.append(('memory', False) + at(i) + ('%s: %s: %s' % (what, kind, t),))
        if not bad:
            out.append(('memory', True, '', '', ''))
        if leak:
            ls = leaks(run.f) if not run.f.dead else []
            for where, fn, path, t in ls[:2]:
                out.append(('release', False, relpath(where) if not where.startswith('/tmp') else at(None)[0], fn, '%s: %s is never released' % (what, t)))
            op = [k for k, v in run.files.items() if v.state == 'open']
            for k in op:
                out.append(('release', False) + at(None) + ('%s: a file is left open' % what,))
            if not ls and not op:
                out.append(('release', True, '', '', ''))

    try:
        run, vin, vout, n, fl = go(['prog', 'weights', 'input', 'output'])
        f = run.f
        what = 'three readable files'
        if f.undecided:
            raise Undecided('; '.join(w for w, i in f.undecided[:2]))
        memory(run, True, what)
        if f.dead or f.ret != 0:
            i = run.dies[0].ins if run.dies else None
            out.append(('runs', False) + at(i) + ('with three readable files the program ends with a failure',))
        elif len(run.runs) != 1:
            out.append(('runs', False) + at(run.runs[-1]['ins'] if run.runs else None) + ('the network is run %d times' % len(run.runs),))
        else:
            r = run.runs[0]
            out.append(('runs', True, '', '', ''))
            bad = [i for i, (g, w) in enumerate(zip(r['input'], vin)) if g is not w]
            if len(r['input']) != len(vin) or (r['dims'] is not None and r['dims'] != shape):
                out.append(('input', False) + at(r['ins']) + ('the network gets an input of %s, the model declares %s' % (r['dims'] or len(r['input']), shape),))
            elif bad:
                k = 'opq' if X.leaves(X.lift(r['input'][bad[0]]), ('opq',)) else ''
                out.append(('input', None if k else False) + at(r['ins']) + ('element %d of the input of the network is %s, the file stores %s' % (bad[0], X.show(r['input'][bad[0]])[:80], X.show(vin[bad[0]])),))
            else:
                out.append(('input', True, '', '', ''))
            unk = None
            wrong = None
            cnt = 0
            for lab, a, b in assignments(n):
                e = X.Eval('plain' if 'plain' in X.PROFILES else sorted(X.PROFILES)[0], 0)
                for i in range(n):
                    e.inputs[('out0', 4 * i)] = a[i]
                    e.inputs[('reference', 4 * i)] = b[i]
                want = all(abs(x - y) <= EPS for x, y in zip(a, b))
                v = verdict(run.said, e)
                if v is None:
                    unk = lab
                    continue
                g, h = v
                cnt += 1
                if g != want or h == want:
                    wrong = wrong or (lab, g, h, want)
            ins = next((i for c, s, i in run.said if 'almost equal' in s), None)
            if wrong and not wrong[1] and not wrong[2] and run.opaque_text:
                out.append(('verdict', None, '', '', 'the texts of the program are not known'))
            elif wrong:
                lab, g, h, want = wrong
                out.append(('verdict', False) + at(ins) + ('%s: the program %s, %s' % (
                    lab, 'reports that output and reference are almost equal' if g else 'reports a difference' if h else 'reports nothing',
                    'although every element is within %g' % EPS if want else 'although an element is further than %g away' % EPS),))
            elif unk:
                out.append(('verdict', None, '', '', 'verdict is not a known formula (%s)' % unk))
            else:
                out.append(('verdict', True, '', '', str(cnt)))
    except Undecided as e:
        out.append(('undecided', None, '', '', str(e)[:160]))
    if models.prod(shape) > 60000:
        return out
    for fail, lab in (('w', 'weights file that cannot be opened'), ('i', 'input file that cannot be opened'), ('o', 'reference file that cannot be opened'),
                      ('wcut', 'weights file without end marker'), ('icut', 'input file without end marker'), ('ocut', 'reference file without end marker')):
        try:
            run, *_ = go(['prog', 'weights', 'input', 'output'], fail)
            failed(out, run, lab, at)
            memory(run, False, lab)
        except Undecided as e:
            out.append(('undecided', None, '', '', lab + ': ' + str(e)[:140]))
    usage(out, go, at, memory, 4)
    longpath(out, go, memory, 3)
    return out


def failed(out, run, lab, at):
    ins = run.dies[0].ins if run.dies else None
    s = run.fails()
    if s is None:
        out.append(('failure', None, '', '', lab + ': exit status not known'))
    elif not s:
        out.append(('failure', False) + at(None) + ('%s: the program ends with success' % lab,))
    elif verdict(run.said)[0]:
        out.append(('failure', False) + at(ins) + ('%s: the program reports that output and reference are almost equal' % lab,))
    else:
        out.append(('failure', True, '', '', ''))


def usage(out, go, at, memory, argc):
    full = ['prog', 'a', 'b', 'c', 'd', 'e']
    for k in (1, 2, 3, 5, 6):
        lab = 'started with %d arguments' % (k - 1)
        try:
            run = go(full[:k])[0]
            failed(out, run, lab, at)
            memory(run, False, lab)
            if run.runs or run.io.asked:
                out.append(('failure', False) + at(None) + ('%s: the program goes on' % lab,))
        except Undecided as e:
            out.append(('undecided', None, '', '', lab + ': ' + str(e)[:140]))


def longpath(out, go, memory, n):
    for k in range(1, n + 1):
        for ln in (255, 1022, 1023, 1024, 1500, 4000):
            argv = ['prog'] + [['weights', 'input', 'output'], ['weights', '1', '1']][n == 1][:3]
            argv[k] = 'p' * ln
            try:
                run = go(argv)[0]
                memory(run, False, 'argument %d has %d characters' % (k, ln))
            except Undecided as e:
                out.append(('undecided', None, '', '', 'argument of %d characters: %s' % (ln, str(e)[:120])))


# ------------------------------------------------------------------ dummy_input
def analyse_dummy(m, o, lib, tier):
    out = []
    name = 'dummy_input.cpp'
    tmp = tempfile.mkdtemp(prefix='picosa.')
    try:
        mod, msg = compile_main(o.files, o.dir, name, tmp)
        src = o.files[o.dir + '/' + name]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if mod is None:
        return [('compile', None, '', '', msg[:200])]
    shape = tuple(m.inputs[0][1])
    n = models.prod(m.vals[m.outs[0]].shape)

    def at(ins):
        return template_line(name, ins, src)

    def go(argv, fail=None, argc=None):
        w = content(o.files[o.dir + '/network.weights.bin'])
        fl = AFile(w if fail != 'wcut' else w[:-4], can_open=fail != 'w')
        run = MainRun(mod, lib, o.syms, {argv[1] if len(argv) > 1 else 'weights': fl}, argv, shape, n, argc).known()
        return run, fl

    def memory(run, leak, what):
        bad = [e for e in run.ev if e[0] in BAD + HEAP + ('uninit-branch',) and e[5] is True]
        for kind, where, fn, path, t, s, u in bad[:2]:
            i = next((e.ins for e in run.f.events if e.kind == kind and e.ins is not None), None)
            out.append(('memory', False) + at(i) + ('%s: %s: %s' % (what, kind, t),))
        if not bad:
            out.append(('memory', True, '', '', ''))
        if leak:
            ls = leaks(run.f) if not run.f.dead else []
            op = [k for k, v in run.files.items() if v.state == 'open']
            for where, fn, path, t in ls[:2]:
                out.append(('release', False) + at(None) + ('%s: %s is never released' % (what, t),))
            for k in op:
                out.append(('release', False) + at(None) + ('%s: a file is left open' % what,))
            if not ls and not op:
                out.append(('release', True, '', '', ''))

    more = sorted({r for c in constants(mod) if c <= 70 for r in (c, c + 1, c + 2)}) if tier == 'quick' else sorted({r for c in constants(mod) for r in (c - 1, c, c + 1, c + 2, 2 * c + 1)})
    if models.prod(shape) > 60000:
        full, counts = False, {1}
    else:
        full, counts = True, {0, 1, 2, 3, *more} if tier == 'quick' else {0, 1, 2, 3, 5, 10, 33, *more}
        if m.label == 'image with one output':
            counts |= {100, 257} if tier == 'quick' else {100, 257, 1025}
    for runs in sorted(counts):
        for once in ('0', '1', '2') if runs < 100 and full else ('0', '1'):
            lab = '%d runs, generate once %s' % (runs, once)
            try:
                run, fl = go(['prog', 'weights', str(runs), once])
                f = run.f
                if f.undecided:
                    raise Undecided('; '.join(w for w, i in f.undecided[:2]))
                memory(run, True, lab)
                if f.dead or f.ret != 0:
                    out.append(('runs', False) + at(run.dies[0].ins if run.dies else None) + ('%s: the program ends with a failure' % lab,))
                    continue
                cond = [r for r in run.runs if r['cond'] is not True]
                if cond or len(run.runs) != runs:
                    out.append(('runs', None if cond else False) + at(run.runs[-1]['ins'] if run.runs else None) + ('%s: the network is run %d times' % (lab, len(run.runs)),))
                    continue
                out.append(('runs', True, '', '', ''))
                inputs(out, run, shape, once != '0', lab, at)
            except Undecided as e:
                out.append(('undecided', None, '', '', lab + ': ' + str(e)[:140]))
    if not full:
        return out
    for fail, lab in (('w', 'weights file that cannot be opened'), ('wcut', 'weights file without end marker')):
        try:
            run, fl = go(['prog', 'weights', '2', '1'], fail)
            failed(out, run, lab, at)
            memory(run, False, lab)
            if run.runs:
                out.append(('failure', False) + at(run.runs[0]['ins']) + ('%s: the network is run all the same' % lab,))
        except Undecided as e:
            out.append(('undecided', None, '', '', lab + ': ' + str(e)[:140]))
    usage(out, go, at, memory, 4)
    longpath(out, go, memory, 1)
    return out


def inputs(out, run, shape, once, lab, at):
    n = models.prod(shape)
    prev = None
    for k, r in enumerate(run.runs):
        if len(r['input']) != n or (r['dims'] is not None and r['dims'] != shape):
            out.append(('input', False) + at(r['ins']) + ('%s: the network gets an input of %s, the model declares %s' % (lab, r['dims'] or len(r['input']), shape),))
            return
        drawn = {}
        for i, t in enumerate(r['input']):
            if X.leaves(X.lift(t), ('undef',)):
                out.append(('input', False) + at(r['ins']) + ('%s: element %d of the input of run %d was never set' % (lab, i, k + 1),))
                return
            if X.leaves(X.lift(t), ('opq',)):
                out.append(('input', None, '', '', '%s: element %d of the input is not known' % (lab, i)))
                return
            lv = [x for x in X.leaves(X.lift(t), ('in',))]
            if not lv or any(x.a[0] != 'rand' for x in lv):
                out.append(('input', False) + at(r['ins']) + ('%s: element %d of the input of run %d is %s' % (lab, i, k + 1, X.show(t)[:80]),))
                return
            for x in lv:
                if drawn.setdefault((x.a[0], x.a[1]), i) != i:
                    out.append(('input', False) + at(r['ins']) + ('%s: elements %d and %d of the input of run %d are the same random number' % (lab, drawn[x.a[0], x.a[1]], i, k + 1),))
                    return
            for v in (0, 1, RANDMAX // 3, RANDMAX - 1, RANDMAX):
                e = X.Eval(sorted(X.PROFILES)[0], 0)
                for x in lv:
                    e.inputs[(x.a[0], x.a[1])] = v
                g = e(t) if type(t) is T else t
                if g is None:
                    out.append(('input', None, '', '', '%s: element %d of the input is not a known formula' % (lab, i)))
                    return
                if not -1e-6 <= g <= 1 + 1e-6:
                    out.append(('input', False) + at(r['ins']) + ('%s: element %d of the input of run %d is %g for rand() = %d, outside of [0, 1]' % (lab, i, k + 1, g, v),))
                    return
        if prev is not None and once and any(a is not b for a, b in zip(prev, r['input'])):
            out.append(('input', False) + at(r['ins']) + ('%s: the input of run %d is not the one of run %d' % (lab, k + 1, k),))
            return
        if prev is not None and not once and any(a is b for a, b in zip(prev, r['input'])):
            out.append(('input', False) + at(r['ins']) + ('%s: run %d gets elements of the input of run %d' % (lab, k + 1, k),))
            return
        prev = r['input']
    out.append(('input', True, '', '', ''))


# ------------------------------------------------------------------ checks
RULES = {
    'reference': 'from main(argc, argv) of the generated reference_input.cpp: the conditions under which the two verdict texts are printed are, for every assignment of '
                 'outputs and references that differ in one or several elements, those of |output - reference| <= 0.001 for all elements',
    'dummy': 'from main(argc, argv) of the generated dummy_input.cpp: the calls of Network::run are counted and each input element is a value number over rand() only',
}
LABEL = dict(memory='accesses of the main program are inside of live, set memory', release='what the main program allocates and opens is released', runs='the network is run as often as asked for',
             input='the network gets the input it is meant to get', verdict='the verdict is that of the comparison of all elements', failure='an unusable file or command line ends in a failure')


def job(a):
    i, kind, tier = a
    m = MODELS[i]

    def go():
        res = []
        for o in importer.outcomes(m):
            if o.status != 'ok':
                res.append(('undecided', None, '', '', 'importer: ' + o.why[:120]))
                continue
            fn = '%s/%s' % (o.dir, 'reference_input.cpp' if kind == 'reference' else 'dummy_input.cpp')
            if fn not in o.files:
                res.append(('undecided', None, '', '', 'no file %s is generated' % fn))
                continue
            res += (analyse_reference if kind == 'reference' else analyse_dummy)(m, o, LIB, tier)
        return res
    try:
        return i, importer.in_thread(go)
    except importer.Undecided as e:
        return i, [('undecided', None, '', '', str(e)[:160])]
    except Undecided as e:
        return i, [('undecided', None, '', '', str(e)[:160])]
    except Exception:
        import traceback
        return i, [('undecided', None, '', '', 'internal: ' + traceback.format_exc()[-500:])]


def large(c):
    x = models.M('vector of %d' % (c + 1), (1, c + 1), True, group='main')
    x.op('Relu', [x.cur])
    return nets.fin(x)


def of_code(kind):
    """sizes at which the program that is written for a small model could behave in another way"""
    def go():
        out = set()
        name = 'reference_input.cpp' if kind == 'reference' else 'dummy_input.cpp'
        for o in importer.outcomes(large(1)):
            if o.status == 'ok' and o.dir + '/' + name in o.files:
                tmp = tempfile.mkdtemp(prefix='picosa.')
                try:
                    mod, msg = compile_main(o.files, o.dir, name, tmp)
                finally:
                    shutil.rmtree(tmp, ignore_errors=True)
                if mod:
                    out |= constants(mod)
        return out
    try:
        return {c for c in importer.in_thread(go) if c <= 130}
    except (importer.Undecided, Undecided):
        return set()


MODELS, LIB = [], None


def P(kind):
    def check(rep, tier, seed):
        global MODELS, LIB
        rep.rule(RULES[kind])
        LIB = Lib(build.compile_module((), all=True))
        MODELS = main_models(tier)
        MODELS += [large(k) for k in sorted({k for c in of_code(kind) for k in (c, c + 2)})]
        ctx = multiprocessing.get_context('fork')
        rep.functions.add('main (%s_input.cpp)' % kind)
        with ctx.Pool(8) as p:
            for i, res in p.imap(job, [(i, kind, tier) for i in sorted(range(len(MODELS)), key=lambda i: -models.prod(MODELS[i].inputs[0][1]))], chunksize=1):
                m = MODELS[i]
                rep.count('models')
                for rule, ok, where, fn, msg in res:
                    if rule == 'undecided' or ok is None:
                        rep.undecided('%s: %s' % (m.label, msg[:160]))
                        continue
                    k = int(msg) if rule == 'verdict' and ok and msg.isdigit() else 1
                    rep.ob(LABEL[rule], k, k if ok else 0)
                    if not ok:
                        rep.viol(rule, where, fn, msg, 'model "%s"' % m.label)
                if len(rep.samples) < 4:
                    rep.samples.append(dict(model=m.label, obligations=len(res)))
    return check


p36 = P('reference')
p37 = P('dummy')
