"""P39: the scripts that write reference data; P40: the script that prepares images.

The scripts are abstractly interpreted (script.py): the samples they read are unknown numbers, so a written file is a list of known bytes and of
bytes of unknown numbers. It is then given to the analysis of the library's readers."""
import multiprocessing
import os
from . import build, importer, script
from . import term as X
from .fctx import known_layout
from .flow import *
from .netcheck import relpath
from .p_io import Case, Run, ref_args, ref_cells
from .p_layers import events, BAD, HEAP
from .pystubs import FLOAT64, UINT8, AbsArray, AbsBytes, Sym, items, prod
from .script import Opaque, sym_array

GEN, PARSE, PREP = 'util/generate_reference_data.py', 'util/parse_onnx_reference_files.py', 'util/prepare_images.py'


# ------------------------------------------------------------------ bytes
def content(b, ids):
    """bytes a script wrote as a file of the stream summaries; ids: key of an unknown number -> token"""
    out, b, i = [], items(b), 0
    while i < len(b):
        x = b[i]
        if isinstance(x, int):
            out.append(x)
            i += 1
            continue
        run = b[i:i + 4]
        if x[1] == 'f' and len(run) == 4 and all(isinstance(y, tuple) and y[0].key == x[0].key and y[1] == 'f' for y in run) and [y[2] for y in run] == [0, 1, 2, 3]:
            t = token(x[0].key, ids)
            out += [(t, j) for j in range(4)]
            i += 4
            continue
        out.append(X.mk('opq', 'part of a value'))
        i += 1
    return out


def token(k, ids):
    if isinstance(k, (int, float)):
        return X.const(float(k))
    if k not in ids:
        ids[k] = X.inp('number', 4 * len(ids))
    return ids[k]


def value(v, ids):
    return token(v.key, ids) if isinstance(v, Sym) else X.const(float(v))


def number(k, env):
    """value of an unknown number under an assignment of the random numbers"""
    if isinstance(k, (int, float)):
        return float(k)
    if k[0] == 'w':
        return env(k)
    a = [number(x, env) for x in k[2:]]
    if any(x is None for x in a):
        return None
    try:
        return {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'truediv': lambda x, y: x / y, 'neg': lambda x: -x,
                'max': max, 'min': min, 'abs': abs}[k[1]](*a)
    except (KeyError, ZeroDivisionError):
        return None


# ------------------------------------------------------------------ generate_reference_data
class Sc:
    def __init__(self, label, argv, files, shape, must, outs=((1, 3),), rng=None, single=None):
        self.label, self.argv, self.files, self.shape, self.must, self.outs, self.rng, self.single = label, argv, files, shape, must, outs, rng, single


def strs(*xs):
    return [str(x) for x in xs]


def gen_scenarios(tier):
    out = []
    model = {'models/net.onnx': Opaque('model', 'model')}

    def add(label, shape, must, extra=(), files=None, outs=((1, 3),), rng=(0, 1), model_path='models/net.onnx'):
        fs = dict(files or {})
        fs[model_path] = Opaque('model', 'model')
        out.append(Sc(label, ['--model', model_path, '--shape'] + strs(*shape) + list(extra), fs, tuple(shape), must, outs, rng))
    big = [(1, 3, 8, 8), (1, 1, 28, 28), (1, 4, 1, 33)] if tier != 'quick' else [(1, 3, 5, 4)]
    for s in [(1, 1, 1, 1), (1, 2, 3, 4), (1, 3, 4, 2), (1, 1, 1, 7), (1, 1, 6, 1), (1, 2, 5), (1, 1, 9), (1, 4, 1), (1, 6), (1, 1)] + big:
        add('random input of %s' % 'x'.join(map(str, s)), s, True)
    add('random input of a range', (1, 1, 2, 3), True, ['--range', '-3', '5'], rng=(-3, 5))
    add('random input of a range, rank 3', (1, 2, 3), True, ['--range', '2', '4'], rng=(2, 4))
    add('random input with a seed', (1, 2, 2), True, ['--seed', '7'])
    add('random input, one output', (1, 5), True, outs=((1, 1),))
    add('random input, many outputs', (1, 2, 2, 2), True, outs=((1, 17),))
    add('random input, model without directory', (1, 3), True, model_path='net.onnx')
    add('random input, model of a dotted name', (1, 3), True, model_path='a/my.net.v1.onnx')
    add('random input of rank 1', (1,), False)
    add('random input of rank 5', (1, 1, 1, 2, 2), False)
    add('random input with two batches', (2, 1, 2, 2), False)
    add('random input with no batch', (0, 1, 2, 2), False)

    def wav(n, tag='wav'):
        return Opaque('wav', AbsArray((n,), [Sym('w', tag, i) for i in range(n)], FLOAT64))
    for s in ((1, 1, 1, 6), (1, 1, 6), (1, 2, 3), (1, 1, 2, 3), (1, 2, 1, 4), (1, 1, 1, 1)) + (((1, 1, 1, 50), (1, 5, 8)) if tier != 'quick' else ()):
        add('audio as %s' % 'x'.join(map(str, s)), s, True, ['--file', 'in/sound.wav'], {'in/sound.wav': wav(prod(s))}, rng=None)
    add('audio of another length', (1, 1, 1, 6), False, ['--file', 'sound.wav'], {'sound.wav': wav(5)}, rng=None)
    add('audio with two batches', (2, 1, 1, 3), False, ['--file', 'sound.wav'], {'sound.wav': wav(6)}, rng=None)

    def image(k, *s):
        return Opaque(k, AbsArray(s, [Sym('w', 'pixel', i) for i in range(prod(s))], FLOAT64))
    for h, w in ((2, 3), (3, 2), (1, 4), (4, 1), (1, 1)) + (((7, 9),) if tier != 'quick' else ()):
        add('color image of %dx%d' % (h, w), (1, 3, h, w), True, ['--file', 'p/i.JPEG'], {'p/i.JPEG': image('jpeg', h, w, 3)}, rng=None)
        add('grey jpeg image of %dx%d' % (h, w), (1, 1, h, w), True, ['--file', 'p/i.JPEG'], {'p/i.JPEG': image('jpeg', h, w)}, rng=None)
        add('portable grey map of %dx%d' % (h, w), (1, 1, h, w), True, ['--file', 'p/i.pgm'], {'p/i.pgm': image('pgm', h, w)}, rng=None)
    add('image of another size', (1, 1, 3, 3), False, ['--file', 'i.pgm'], {'i.pgm': image('pgm', 2, 3)}, rng=None)
    add('jpeg image of another size', (1, 3, 3, 3), False, ['--file', 'i.jpg'], {'i.jpg': image('jpeg', 2, 3, 3)}, rng=None)
    add('image with two batches', (2, 1, 2, 3), False, ['--file', 'i.pgm'], {'i.pgm': image('pgm', 4, 3)}, rng=None)
    add('png image', (1, 1, 2, 3), False, ['--file', 'i.png'], {'i.png': image('png', 2, 3)}, rng=None)
    add('text file', (1, 1, 2, 3), False, ['--file', 'i.txt'], {'i.txt': Opaque('text', None)}, rng=None)
    add('missing file', (1, 1, 2, 3), False, ['--file', 'nothing.wav'], rng=None)
    return out


def read_back(lib, root, b, shape, want, ids, label):
    """None if the reader of the library takes the file for a tensor of the shape and gets the values, else what is wrong; 'und': not decided"""
    c = content(b, ids)
    case = Case(root, c, label, ref_args('t', tuple(shape)), 0, cells=ref_cells([value(v, ids) for v in want]))
    r = Run(lib, case)
    if not r.ok or r.f.undecided:
        return 'und', '; '.join(w for w, i in r.f.undecided[:1]) or 'reader not analysed'
    if r.f.dead or r.f.ret != 0:
        if type(r.f.ret) is not int and not r.f.dead:
            return 'und', 'result of the reader is not known'
        return 'no', 'the reader refuses the file'
    for e in events(r.f):
        if e[0] in BAD + HEAP and e[5] is True:
            return 'no', 'the reader runs into %s: %s' % (e[0], e[4])
    if len(want) != r.t.count:
        return 'no', 'the model has %d values, the tensor %d' % (len(want), r.t.count)
    for lab, got, w in case.cells(r):
        g = X.lift(got)
        if g is not X.lift(w):
            if X.leaves(g, ('opq',)):
                return 'und', '%s is not known' % lab
            return 'no', '%s read back is another value' % lab
    return 'ok', ''


def raw(b):
    """known leading bytes"""
    out = bytearray()
    for x in items(b):
        if not isinstance(x, int) or len(out) >= 4:
            break
        out.append(x)
    return bytes(out)


def site(o, path, names=()):
    """where in the script: the place of failure, else the function that writes"""
    w = o.where
    if w and w[0]:
        return w[0], w[1]
    return path, 'main'


def analyse_gen(lib, sc):
    out = []
    for o in script.ways(GEN, sc.argv, sc.files, outs=sc.outs):
        if o.status == 'undecided':
            out.append(('undecided', None, '', '', o.why[:150]))
            continue
        data = {k: v for k, v in o.changed.items()}
        if o.clobbered:
            out.append(('clobber', False, GEN, 'main', 'the file %s is overwritten' % o.clobbered[0]))
        if not sc.must:
            ok = o.status == 'fail'
            if ok:
                out.append(('refused', True, '', '', ''))
                continue
            if not data:
                out.append(('refused', False, GEN, 'main', 'ends with success although nothing is written'))
                continue
        elif o.status == 'fail':
            out.append(('accepted', False) + site(o, GEN) + ('the script fails: %s' % o.why[:120],))
            continue
        else:
            out.append(('accepted', True, '', '', ''))
        ins = [k for k, v in data.items() if raw(v) == b'FCI\n']
        outs = [k for k, v in data.items() if raw(v) == b'FCO\n']
        if len(ins) != 1 or len(outs) != 1:
            out.append(('files', False, GEN, 'main', 'writes %s instead of one file of input and one of output data' % (
                ', '.join(os.path.basename(k) for k in sorted(data)) or 'nothing')))
            continue
        seen = o.state.backend.seen
        if len(seen) != 1:
            out.append(('files', False if not seen else None, GEN, 'main', 'the model is run %d times' % len(seen)))
            continue
        x = seen[0]
        ids = {}
        if x.shape_ != sc.shape:
            out.append(('input', False, GEN, 'main', 'the model is run on an input of %s, asked for is %s' % (x.shape_, sc.shape)))
        elif x.dtype.name != 'float32':
            out.append(('input', False, GEN, 'main', 'the model is run on %s numbers' % x.dtype.name))
        else:
            v, why = read_back(lib, 'E_io__refin', data[ins[0]], sc.shape, x.data_, ids, sc.label)
            out.append(('input', True if v == 'ok' else None if v == 'und' else False, GEN, 'main',
                        'input data is not what the model was run on: %s' % why if v == 'no' else why))
        res = [Sym('w', 'out0', i) for i in range(prod(sc.outs[0]))]
        v, why = read_back(lib, 'E_io__refout', data[outs[0]], sc.outs[0], res, ids, sc.label)
        out.append(('output', True if v == 'ok' else None if v == 'und' else False, GEN, 'main',
                    'output data is not what the model answered: %s' % why if v == 'no' else why))
        if sc.rng:
            ranges(out, x, sc)
    return out


def ranges(out, x, sc):
    keys = set()
    for v in x.data_:
        if not isinstance(v, Sym):
            out.append(('random', False, GEN, 'main', 'an element of the random input is always %r' % (v,)))
            return
        lo, mid, hi = (number(v.key, lambda k, t=t: t) for t in (0.0, 0.37, 1.0))
        if lo is None:
            out.append(('random', None, '', '', 'distribution of the input is not known'))
            return
        if not (min(lo, mid, hi) >= sc.rng[0] - 1e-6 and max(lo, mid, hi) <= sc.rng[1] + 1e-6):
            out.append(('random', False, GEN, 'main', 'random input in [%g, %g), asked for is [%g, %g)' % (min(lo, hi), max(lo, hi), sc.rng[0], sc.rng[1])))
            return
        if lo == hi:
            out.append(('random', False, GEN, 'main', 'an element of the random input is always %g' % lo))
            return
        keys.add(v.key)
    out.append(('random', True, '', '', ''))


# ------------------------------------------------------------------ parse_onnx_reference_files
def parse_scenarios(tier):
    out = []

    def add(label, ins, outs, good, d='ref/test_data_set_0', extra=None):
        fs = {}
        for i, s in enumerate(ins):
            fs['%s/input_%d.pb' % (d, i)] = Opaque('tensor', sym_array('in%d' % i, s))
        for i, s in enumerate(outs):
            fs['%s/output_%d.pb' % (d, i)] = Opaque('tensor', sym_array('ref%d' % i, s))
        fs.update(extra or {})
        fs.setdefault(d + '/notes.txt', 'text')
        s = Sc(label, ['--input', d], fs, None, good)
        s.ins, s.outs, s.dir = ins, outs, d
        out.append(s)
    for s in ((1, 1, 1, 1), (1, 3, 2, 4), (1, 2, 4, 3), (1, 1, 7, 1), (1, 4, 1, 3)) + (((1, 3, 9, 7),) if tier != 'quick' else ()):
        add('one pair, input of %s' % 'x'.join(map(str, s)), [s], [(1, 5)], True)
    for n in (1, 2, 12) + ((150,) if tier != 'quick' else ()):
        add('one pair, output of %d' % n, [(1, 1, 2, 2)], [(1, n)], True)
    add('two pairs', [(1, 1, 2, 3), (1, 2, 3, 1)], [(1, 3), (1, 4)], True)
    add('directory with a trailing slash', [(1, 1, 2, 3)], [(1, 3)], True, d='ref/')
    add('twelve pairs', [(1, 1, 1, 1 + i % 3) for i in range(12)], [(1, 1 + i % 4) for i in range(12)], True)
    add('inputs only', [(1, 1, 2, 2)], [], False)
    add('outputs only', [], [(1, 2)], False)
    add('nothing', [], [], False)
    add('input of rank 3', [(1, 2, 2)], [(1, 2)], None)
    add('input with two batches', [(2, 1, 2, 2)], [(1, 2)], None)
    add('output of rank 4', [(1, 1, 2, 2)], [(1, 2, 1, 1)], None)
    add('output with two batches', [(1, 1, 2, 2)], [(2, 3)], None)
    return out


def analyse_parse(lib, sc):
    out = []
    for o in script.ways(PARSE, sc.argv, sc.files):
        if o.status == 'undecided':
            out.append(('undecided', None, '', '', o.why[:150]))
            continue
        if o.clobbered:
            out.append(('clobber', False, PARSE, 'main', 'the file %s is overwritten' % o.clobbered[0]))
        if sc.must is False:
            out.append(('refused', o.status == 'fail', PARSE, 'main', 'ends with success although reference files are missing'))
        elif sc.must and o.status == 'fail':
            out.append(('accepted', False) + site(o, PARSE) + ('the script fails: %s' % o.why[:120],))
            continue
        got = {}
        for k, v in o.changed.items():
            got[os.path.basename(k)] = v
        for kind, shapes, root, tag in (('input', sc.ins, 'E_io__refin', 'in'), ('output', sc.outs, 'E_io__refout', 'ref')):
            for i, s in enumerate(shapes):
                n = '%s_%d.data' % (kind, i)
                sup = s[0] == 1 and len(s) == (4 if kind == 'input' else 2)
                if n not in got:
                    if sc.must:
                        out.append(('files', False, PARSE, 'main', 'no file %s is written' % n))
                    continue
                ids = {}
                want = [Sym('w', '%s%d' % (tag, i), j) for j in range(prod(s))]
                if len(s) not in (2, 3, 4) or kind == 'output' and len(s) != 2:
                    s2 = (1, prod(s[1:])) if kind == 'output' else s
                else:
                    s2 = s
                v, why = read_back(lib, root, got[n], s2, want, ids, sc.label)
                out.append((kind, True if v == 'ok' else None if v == 'und' else False, PARSE, 'main',
                            '%s is not the data of %s_%d.pb: %s' % (n, kind, i, why) if v == 'no' else why))
        odd = [n for n in got if not any(n == '%s_%d.data' % (k, i) for k, ss in (('input', sc.ins), ('output', sc.outs)) for i in range(len(ss)))]
        if odd:
            out.append(('files', False, PARSE, 'main', 'writes a file %s that belongs to no reference file' % odd[0]))
        elif sc.must:
            out.append(('files', True, '', '', ''))
    return out


# ------------------------------------------------------------------ prepare_images
def prep_scenarios(tier):
    out = []
    images = {'ILSVRC_a.JPEG': (10, 8), 'ILSVRC_b.JPEG': (7, 9), 'ILSVRC_c.1.JPEG': (11, 11), 'ILSVRC_c.2.JPEG': (6, 7), 'ILSVRC_d.v-1.JPEG': (8, 11),
              'ILSVRC_d.v-1.x.JPEG': (12, 6)}

    def add(label, size, mode, must, pos=None, d='pics'):
        fs = {'%s/%s' % (d, n): Opaque('image', s) for n, s in images.items()}
        fs[d + '/notes.txt'] = 'text'
        fs[d + '/README'] = 'text'
        fs[d + '/ILSVRC_c.1.txt'] = 'text'
        fs[d + '/.index'] = 'text'
        s = Sc(label, ['--directory', d, '--size'] + strs(*size) + ['--mode', mode] + (['--crop_pos'] + strs(*pos) if pos is not None else []), fs, None, must)
        s.size, s.mode, s.pos, s.dir, s.images = size, mode, pos, d, images
        out.append(s)
    for size in ((4,), (5,), (4, 3), (3, 6), (5, 2), (1, 1)) + (((6, 7), (2, 7), (3, 3)) if tier != 'quick' else ()):
        add('scaled to %s' % 'x'.join(map(str, size)), size, 'scale', True)
        add('center of %s' % 'x'.join(map(str, size)), size, 'center_crop', True)
    add('scaled up', (20, 30), 'scale', True)
    for size, pos in (((3,), (1,)), ((3, 2), (2, 1)), ((2, 4), (0, 0)), ((2,), (3, 1)), ((4, 3), (1, 2))):
        add('crop of %s at %s' % (size, pos), size, 'crop', True, pos)
    add('crop without position', (3,), 'crop', False)
    add('crop outside of the image', (6, 3), 'crop', None, (3, 3))
    add('crop below the image', (2, 6), 'crop', None, (1, 4))
    add('crop with a position of three numbers', (3,), 'crop', False, (1, 2, 3))
    add('size of three numbers', (1, 2, 3), 'scale', False)
    add('size of three numbers, center', (1, 2, 3), 'center_crop', False)
    add('unknown mode', (3,), 'rotate', False)
    return out


def geometry(how, size):
    """the part of the source (box) and the final size, composed from the operations"""
    box, cur = [0.0, 0.0, float(size[0]), float(size[1])], size
    for op, a in how:
        sx, sy = (box[2] - box[0]) / cur[0], (box[3] - box[1]) / cur[1]
        if op == 'crop':
            box = [box[0] + a[0] * sx, box[1] + a[1] * sy, box[0] + a[2] * sx, box[1] + a[3] * sy]
            cur = (a[2] - a[0], a[3] - a[1])
        else:
            cur = a
    return box, cur


def analyse_prep(lib, sc):
    out = []
    for o in script.ways(PREP, sc.argv, sc.files):
        if o.status == 'undecided':
            out.append(('undecided', None, '', '', o.why[:150]))
            continue
        fn = {'scale': 'scale_images', 'crop': 'crop_images', 'center_crop': 'center_crop_images'}.get(sc.mode, 'main')
        saved = o.state.saved
        if o.clobbered:
            out.append(('clobber', False, PREP, fn, 'the file %s is overwritten' % o.clobbered[0]))
        else:
            out.append(('clobber', True, '', '', ''))
        if sc.must is False:
            out.append(('refused', not saved, PREP, fn, 'images are written all the same'))
            continue
        if o.status == 'fail' and sc.must:
            out.append(('accepted', False) + site(o, PREP) + ('the script fails: %s' % o.why[:120],))
            continue
        w, h = (sc.size * 2)[:2] if len(sc.size) == 1 else sc.size
        targets = [s[0] for s in saved]
        if len(set(targets)) != len(targets):
            out.append(('images', False, PREP, fn, 'two images are saved as %s' % os.path.basename(sorted(targets)[0])))
        by = {}
        for t, src, size, how in saved:
            by.setdefault(os.path.basename(src), []).append((t, size, how))
        for n, s in sorted(sc.images.items()):
            if n not in by:
                if sc.must:
                    out.append(('images', False, PREP, fn, 'no image is written for %s' % n))
                continue
            for t, size, how in by[n]:
                if n not in os.path.basename(t):
                    out.append(('images', False, PREP, fn, '%s is saved as %s' % (n, os.path.basename(t))))
                    continue
                box, cur = geometry(how, s)
                if cur != (w, h):
                    out.append(('size', False, PREP, fn, 'an image of %dx%d becomes one of %dx%d, asked for is %dx%d' % (s + cur + (w, h))))
                    continue
                out.append(('size', True, '', '', ''))
                bad = None
                if sc.mode == 'scale' and box != [0, 0, s[0], s[1]]:
                    bad = 'scaling uses %s of an image of %dx%d' % ((box,) + s)
                if sc.mode != 'scale' and (box[2] - box[0], box[3] - box[1]) != (w, h):
                    bad = 'the cut-out is scaled'
                if sc.mode == 'center_crop' and not bad and any(abs(a - (e - b)) > 1 for a, b, e in ((box[0], box[2], s[0]), (box[1], box[3], s[1]))):
                    bad = 'the cut-out %s is not in the center of an image of %dx%d' % ((box,) + s)
                if sc.mode == 'crop' and not bad:
                    px, py = (sc.pos * 2)[:2] if len(sc.pos) == 1 else sc.pos
                    if (box[0], box[1]) != (px, py):
                        bad = 'the cut-out starts at %g, %g, asked for is %d, %d' % (box[0], box[1], px, py)
                    elif box[2] > s[0] or box[3] > s[1]:
                        bad = 'the cut-out %s leaves an image of %dx%d' % ((box,) + s)
                out.append(('part', not bad, PREP, fn, bad or ''))
        extra = [n for n in by if n not in sc.images]
        if extra:
            out.append(('images', False, PREP, fn, '%s is processed' % extra[0]))
        elif sc.must:
            out.append(('images', True, '', '', ''))
    return out


# ------------------------------------------------------------------ checks
LABEL = dict(accepted='the script accepts what it documents', refused='the script refuses what it does not support', files='one data file per tensor', clobber='no existing file is overwritten',
             input='the library reads back exactly the input', output='the library reads back exactly the output', random='random input is random and inside of the range asked for',
             images='one image is written per image', size='the image has the size asked for', part='the image shows the part asked for')
KINDS = dict(gen=(gen_scenarios, analyse_gen, GEN), parse=(parse_scenarios, analyse_parse, PARSE), prep=(prep_scenarios, analyse_prep, PREP))
SC, LIB = [], None


def job(i):
    kind, sc = SC[i]
    try:
        return i, importer.in_thread(lambda: KINDS[kind][1](LIB, sc))
    except (Undecided, importer.Undecided) as e:
        return i, [('undecided', None, '', '', str(e)[:150])]
    except Exception:
        import traceback
        return i, [('undecided', None, '', '', 'internal: ' + traceback.format_exc()[-500:])]


def P(kinds, rule):
    def check(rep, tier, seed):
        global SC, LIB
        rep.rule(rule)
        LIB = Lib(build.compile_module()) if 'prep' not in kinds else None
        SC = [(k, s) for k in kinds for s in KINDS[k][0](tier)]
        for k in kinds:
            rep.functions.add(KINDS[k][2])
        with multiprocessing.get_context('fork').Pool(8) as p:
            for i, res in p.imap(job, range(len(SC)), chunksize=1):
                kind, sc = SC[i]
                rep.count('command lines')
                for r, ok, where, fn, msg in res:
                    if ok is None:
                        rep.undecided('%s: %s' % (sc.label, msg[:160]))
                        continue
                    rep.ob(LABEL[r], 1, int(ok))
                    if not ok:
                        rep.viol(r, where, fn, msg, sc.label)
                if len(rep.samples) < 4:
                    rep.samples.append(dict(command=' '.join(sc.argv), obligations=len(res)))
    return check


p39 = P(('gen', 'parse'), 'the bytes the scripts write, as functions of unknown samples, are fed to the data-flow analysis of read_binary_reference_input_data and '
                          'read_binary_reference_output_data: every tensor element is the value number of the number the inference engine was given or answered')
p40 = P(('prep',), 'for images of unknown content and known size, the sequence of geometric operations applied to each saved image is composed to the part of the source it shows and its final size')
