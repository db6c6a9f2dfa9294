"""Abstract interpretation of one of the repository's command line programs, from its source, for a fixed command line and file system."""
import argparse
import fnmatch
import os
import posixpath
from . import build, jinja, pystubs
from .importer import Outcome
from .pyabs import Interp, Undecided, suspicious
from .pystubs import FLOAT32, FS, UINT8, AbsArray, AbsBytes, Exit, Sym, Syms, asarray, mod, prod, und


class Opaque:
    """content of a file that only summarised functions look into"""

    def __init__(self, what, value):
        self.what, self.value = what, value

    def __len__(self):
        return 1

    def __getitem__(self, i):
        return self

    def decode(self, *a):
        raise Undecided('text of a %s' % self.what)


def sym_array(tag, shape, dt=FLOAT32):
    return AbsArray(shape, [Sym('w', tag, i) for i in range(prod(shape))], dt)


def parser_class(argv, prog):
    class Parser(argparse.ArgumentParser):
        def parse_args(self, args=None, namespace=None):
            return super().parse_args(list(argv) if args is None else args, namespace)

        def parse_known_args(self, args=None, namespace=None):
            return super().parse_known_args(list(argv) if args is None else args, namespace)

        def _print_message(self, message, file=None):
            pass

        def exit(self, status=0, message=None):
            raise Exit(status)

        def error(self, message):
            raise Exit(2)
    return Parser


def fold(op):
    """max / min over unknown numbers"""
    def g(*a, **k):
        real = max if op == 'max' else min
        xs = list(a[0].data_ if isinstance(a[0], AbsArray) and len(a[0].shape_) == 1 else a[0]) if len(a) == 1 else list(a)
        if any(isinstance(x, AbsArray) and x.size > 1 for x in xs):
            raise ValueError('The truth value of an array with more than one element is ambiguous')
        xs = [x.item() if isinstance(x, AbsArray) else x for x in xs]
        if not any(isinstance(x, Sym) for x in xs):
            return real(*a, **k)
        if k:
            raise Undecided('%s with a key over unknown numbers' % op)
        r = xs[0]
        for x in xs[1:]:
            if not (isinstance(x, Sym) and isinstance(r, Sym) and x.key == r.key):
                r = Sym('op', op, r.key if isinstance(r, Sym) else r, x.key if isinstance(x, Sym) else x)
        return r
    return g


class Backend:
    """an inference engine: records what it is given, answers unknown numbers"""

    def __init__(self, outs):
        self.outs, self.seen = outs, []

    def run_model(self, model, inputs, device='CPU', **k):
        self.note(inputs)
        return [sym_array('out%d' % i, s) for i, s in enumerate(self.outs)]

    def note(self, inputs):
        if isinstance(inputs, dict):
            inputs = list(inputs.values())
        if isinstance(inputs, (list, tuple)) and len(inputs) == 1 and isinstance(inputs[0], AbsArray):
            inputs = inputs[0]
        if not isinstance(inputs, AbsArray):
            raise Undecided('input of the model')
        self.seen.append(inputs.copy())

    def prepare(self, model, device='CPU', **k):
        return mod('prepared', run=lambda i, **k: self.run_model(model, i))

    def module(self, name):
        return mod(name, run_model=self.run_model, prepare=self.prepare, supports_device=lambda d: True)


class Random:
    """numpy.random: unknown numbers of [0, 1)"""

    def __init__(self, seeds):
        self.n, self.seeds = 0, seeds

    def draw(self, size):
        if size is None:
            size = ()
        if isinstance(size, int):
            size = (size,)
        size = tuple(int(x) for x in size)
        k = self.n
        self.n += prod(size)
        a = AbsArray(size, [Sym('w', 'random', k + i) for i in range(prod(size))], pystubs.FLOAT64)
        return a if size else a.data_[0]

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.draw(size) * (high - low) + low

    def seed(self, s=None):
        self.seeds.append(s)

    def module(self):
        def gen(s=None):
            self.seeds.append(s)
            return g
        g = mod('Generator', uniform=self.uniform, random=lambda size=None: self.draw(size))
        return mod('numpy.random', uniform=self.uniform, rand=lambda *s: self.draw(s), random=self.draw, random_sample=self.draw, ranf=self.draw,
                   sample=self.draw, seed=self.seed, default_rng=gen, RandomState=gen)


def onnx_extra(om):
    o, NH = om['onnx'], om['onnx.numpy_helper']

    class TP:
        FLOAT, INT32, INT64, DOUBLE, UNDEFINED = 1, 6, 7, 11, 0

        def __init__(self):
            self.v = None

        def ParseFromString(self, d):
            if not isinstance(d, Opaque) or d.what != 'tensor':
                raise Undecided('parse of other data')
            self.v = d.value
            return 1
        MergeFromString = ParseFromString

        @classmethod
        def FromString(cls, d):
            t = cls()
            t.ParseFromString(d)
            return t
        dims = property(lambda s: list(s.v.shape_))
        float_data = property(lambda s: list(s.v.data_))

    def to_array(t, *a):
        if not isinstance(t, TP) or t.v is None:
            raise Undecided('numpy_helper.to_array')
        return t.v.copy()
    NH.__dict__['to_array'] = to_array
    o.__dict__['TensorProto'] = TP
    return TP


class Image:
    """an image of unknown content: size, how it came about, where it is saved"""

    def __init__(self, st, src, size, how=()):
        self.st, self.src, self.size, self.how, self.mode, self.format = st, src, tuple(size), how, 'RGB', 'JPEG'
    width = property(lambda s: s.size[0])
    height = property(lambda s: s.size[1])

    def ints(self, xs):
        xs = tuple(xs)
        if any(not isinstance(x, (int, float)) for x in xs):
            raise Undecided('geometry of an image')
        return tuple(int(round(x)) for x in xs)

    def resize(self, size, *a, **k):
        s = self.ints(size)
        if min(s) < 1:
            raise ValueError('height and width must be > 0')
        return Image(self.st, self.src, s, self.how + (('resize', s),))

    def crop(self, box=None):
        if box is None:
            return self.copy()
        b = self.ints(box)
        if b[2] < b[0] or b[3] < b[1]:
            raise ValueError('box')
        return Image(self.st, self.src, (b[2] - b[0], b[3] - b[1]), self.how + (('crop', b),))

    def copy(self):
        return Image(self.st, self.src, self.size, self.how)

    def convert(self, *a, **k):
        return self.copy()

    def load(self):
        pass
    close = load

    def save(self, p, *a, **k):
        self.st.saved.append((self.st.fs.key(p), self.src, self.size, self.how))
        d = posixpath.dirname(self.st.fs.key(p))
        if not self.st.fs.isdir(d):
            raise FileNotFoundError(p)
        self.st.fs.files[self.st.fs.key(p)] = Opaque('image', self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Undecided('Image.%s' % n)


def pil(st):
    def open_(p, mode='r', *a, **k):
        key = st.fs.key(p)
        if key not in st.fs.files:
            raise FileNotFoundError(key)
        v = st.fs.files[key]
        if not isinstance(v, Opaque) or v.what != 'image':
            raise ValueError('cannot identify image file')
        v = v.value
        return v.copy() if isinstance(v, Image) else Image(st, key, v)
    consts = dict(ANTIALIAS=1, LANCZOS=1, BICUBIC=3, BILINEAR=2, NEAREST=0, BOX=4, HAMMING=5)
    im = mod('PIL.Image', open=open_, Image=Image, Resampling=mod('Resampling', **consts), **consts)
    return {'PIL': mod('PIL', Image=im), 'PIL.Image': im}


class State:
    def __init__(self):
        self.saved, self.printed, self.seeds, self.fs, self.backend, self.loaded = [], [], [], None, None, []


def run(path, argv, files=None, dirs=(), outs=((1, 3),), proto=None, infer=None, decisions=(), steps=3000000):
    """path: the program, relative to the repository; files: name -> content; outs: shapes of the outputs of the inference engine"""
    src = os.path.join(build.REPO, os.path.dirname(path))
    it = Interp([src], {}, {}, decisions, steps)
    fs = FS(it, build.REPO)
    st = State()
    st.fs, st.backend = fs, Backend(outs)
    for d in ('/work',) + tuple(dirs):
        fs.makedirs(d, exist_ok=True)
    for k, v in (files or {}).items():
        fs.makedirs(posixpath.dirname(fs.key(k)), exist_ok=True)
        fs.files[fs.key(k)] = v
    before = dict(fs.files)
    jm, rec = jinja.modules(fs)
    it.builtins.update(pystubs.builtin(it, fs))
    it.builtins.update(max=fold('max'), min=fold('min'))
    ms = pystubs.modules(it, fs, infer or und, jm)
    TP = onnx_extra(ms)
    prog = os.path.basename(path)
    ms['argparse'] = mod('argparse', ArgumentParser=parser_class(argv, prog), Namespace=argparse.Namespace, FileType=lambda *a: und('FileType'),
                         **{k: getattr(argparse, k) for k in ('HelpFormatter', 'RawTextHelpFormatter', 'RawDescriptionHelpFormatter', 'ArgumentDefaultsHelpFormatter',
                                                             'ArgumentTypeError', 'SUPPRESS', 'REMAINDER', 'OPTIONAL', 'ZERO_OR_MORE', 'ONE_OR_MORE', 'Action')})
    ms['sys'].__dict__['argv'] = [prog] + list(argv)

    def get(p, what):
        k = fs.key(p)
        if k not in fs.files:
            raise FileNotFoundError(k)
        v = fs.files[k]
        if not isinstance(v, Opaque) or v.what not in what:
            raise ValueError('not a file of this kind: %s' % k)
        return v.value

    def load(p, *a, **k):
        st.loaded.append(p)
        v = get(p, ('model',))
        return v() if callable(v) else v

    def load_tensor(p, *a):
        t = TP()
        t.v = get(p, ('tensor',))
        return t
    ms['onnx'].__dict__.update(load=load, load_model=load, load_tensor=load_tensor)
    KIND = {'wav': 'audio/x-wav', 'jpeg': 'image/jpeg', 'pgm': 'image/x-portable-greymap', 'png': 'image/png', 'text': 'text/plain'}

    def kind(p):
        v = fs.files.get(fs.key(p))
        if v is None:
            raise FileNotFoundError(p)
        return KIND.get(v.what, 'application/octet-stream') if isinstance(v, Opaque) else 'text/plain'
    ms['magic'] = mod('magic', from_file=lambda p, mime=False: kind(p) if mime else 'data',
                      Magic=lambda mime=False, **k: mod('Magic', from_file=lambda p: kind(p) if mime else 'data'))
    wr = mod('scipy.io.wavfile', read=lambda p, *a, **k: (16000, get(p, ('wav',)).copy()))
    sio = mod('scipy.io', wavfile=wr)
    ms['scipy'], ms['scipy.io'], ms['scipy.io.wavfile'] = mod('scipy', io=sio), sio, wr
    rd = lambda p, *a, **k: get(p, ('jpeg', 'pgm', 'png')).copy()
    ms['imageio'] = mod('imageio', imread=rd, v2=mod('imageio.v2', imread=rd))
    ms['imageio.v2'] = ms['imageio'].v2
    cb = st.backend.module('caffe2.python.onnx.backend')
    for n in ('caffe2', 'caffe2.python', 'caffe2.python.onnx'):
        ms[n] = mod(n)
    ms['caffe2'].__dict__['python'] = ms['caffe2.python']
    ms['caffe2.python'].__dict__['onnx'] = ms['caffe2.python.onnx']
    ms['caffe2.python.onnx'].__dict__['backend'] = cb
    ms['caffe2.python.onnx.backend'] = cb
    ms['onnx_tf'] = mod('onnx_tf', backend=cb)
    ms['onnx_tf.backend'] = cb
    ms['numpy'].__dict__['random'] = Random(st.seeds).module()
    ms['numpy.random'] = ms['numpy'].random

    def listdir(p='.'):
        k = fs.key(p)
        if not fs.isdir(k):
            raise FileNotFoundError(p)
        return sorted({x[len(k) + 1:].split('/')[0] for x in list(fs.files) + list(fs.dirs) if x.startswith(k + '/')})

    def glob(pat, recursive=False, **k):
        d, b = posixpath.split(pat)
        if any(c in d for c in '*?[') or recursive:
            raise Undecided('glob over directories')
        if not fs.isdir(d or '.'):
            return []
        return [posixpath.join(d, n) for n in listdir(d or '.') if fnmatch.fnmatchcase(n, b) and not (n.startswith('.') and not b.startswith('.'))]
    ms['glob'] = mod('glob', glob=glob, iglob=glob)
    ms['fnmatch'] = fnmatch
    osm = ms['os']
    osm.__dict__.update(listdir=listdir)

    def destroy(*a, **k):
        raise Undecided('a file is removed or renamed')
    for n in ('remove', 'unlink', 'rename', 'replace', 'rmdir', 'chdir', 'system', 'walk', 'scandir'):
        osm.__dict__[n] = destroy
    ms.update(pil(st))
    it.summaries.update(ms)
    Syms.cur = Syms(it)
    try:
        it.load(os.path.basename(path)[:-3], True)
        o = Outcome('ok')
    except Undecided as e:
        w = it.where()
        o = Outcome('undecided', '%s (%s:%s)' % (e, os.path.basename(w[0]), w[1]))
    except RecursionError:
        o = Outcome('undecided', 'recursion')
    except SystemExit as e:
        o = Outcome('fail' if e.code not in (None, 0, False) else 'ok', 'exit(%r)' % (e.code,), getattr(e, '_at', None))
    except BaseException as e:
        if suspicious(e) or getattr(e, '_at', None) is None:
            o = Outcome('undecided', '%s: %s' % (type(e).__name__, e))
        else:
            o = Outcome('fail', '%s: %s' % (type(e).__name__, str(e)[:200]), e._at)
    o.state, o.rec, o.taken, o.reached, o.nodes = st, rec, list(it.taken), it.reached, it.nodes
    o.changed = {k: v for k, v in fs.files.items() if k not in before or before[k] is not v}
    o.clobbered = [k for k in o.changed if k in before]
    o.reached_fns = it.reached
    return o


def ways(*a, limit=40, **k):
    """one outcome per way through the branches on unknown numbers"""
    out, todo = [], [()]
    while todo:
        d = todo.pop()
        o = run(*a, decisions=d, **k)
        out.append(o)
        if len(out) >= limit:
            o.status, o.why = 'undecided', 'too many branches on unknown numbers'
            break
        for i in range(len(d), len(o.taken)):
            todo.append(tuple(o.taken[:i]) + (not o.taken[i],))
    return out
