"""Analysis of the importer for one abstract model: every path of the importer's source over that model, each ending in files or in a refusal."""
import os
import sys
import threading
from . import build, jinja, pystubs
from .pyabs import Interp, Undecided, suspicious
from .pystubs import FS, Syms


class Outcome:
    """status: 'ok' (files written), 'reject' (refused), 'undecided'"""

    def __init__(self, status, why='', at=None):
        self.status, self.why, self.at = status, why, at or []
        self.files, self.syms, self.taken, self.rec, self.reached, self.nodes, self.partial = {}, [], [], [], set(), 0, False

    def __repr__(self):
        return '<%s %s>' % (self.status, self.why)

    @property
    def where(self):
        for f, l, n in reversed(self.at):
            if f.startswith(build.REPO):
                return '%s:%d' % (os.path.relpath(f, build.REPO), l), n
        return '', ''


FILES = ('network.cpp', 'network.h', 'network.weights.bin')
ENTRY = 'onnx_to_pico_cnn'


def one(model, decisions=(), steps=4000000):
    src = os.path.join(build.REPO, 'onnx_import')
    it = Interp([src], {}, {}, decisions, steps)
    fs = FS(it, build.REPO)
    jm, rec = jinja.modules(fs)
    it.builtins.update(pystubs.builtin(it, fs))
    it.summaries.update(pystubs.modules(it, fs, model.infer, jm))
    Syms.cur = Syms(it)
    o = None
    try:
        m = it.load(ENTRY)
        f = m.__dict__.get(ENTRY)
        if f is None:
            raise Undecided('no function %s' % ENTRY)
        f(model.proto(), model.name)
        o = Outcome('ok')
    except Undecided as e:
        w = it.where()
        o = Outcome('undecided', '%s (%s:%s)' % (e, os.path.basename(w[0]), w[1]))
    except RecursionError:
        o = Outcome('undecided', 'recursion')
    except SystemExit as e:
        code = e.code
        o = Outcome('reject' if code not in (None, 0) else 'exit0', 'exit(%r)' % (code,), getattr(e, '_at', None))
    except BaseException as e:
        if suspicious(e) or getattr(e, '_at', None) is None:
            o = Outcome('undecided', '%s: %s' % (type(e).__name__, e))
        else:
            o = Outcome('reject', '%s: %s' % (type(e).__name__, str(e)[:200]), e._at)
            o.raised = type(e).__name__
    o.taken, o.rec, o.reached, o.nodes = list(it.taken), rec, it.reached, it.nodes
    o.syms = Syms.cur.list
    pre = '/work/generated_code/'
    o.files = {k[len(pre):]: v for k, v in fs.files.items() if k.startswith(pre)}
    o.all_files = dict(fs.files)
    dirs = {k.rpartition('/')[0] for k in o.files if k.rpartition('/')[2] in FILES}
    o.dir = sorted(dirs)[0] if dirs else None
    if o.status == 'ok' and (o.dir is None or any(o.dir + '/' + n not in o.files for n in FILES)):
        o.status, o.why = 'reject', 'returns without writing the network'
    return o


def outcomes(model, limit=32):
    """one outcome per way through the branches on tensor data"""
    out, todo = [], [()]
    while todo:
        d = todo.pop()
        o = one(model, d)
        o.model = model
        out.append(o)
        if len(out) >= limit:
            o.status, o.why = 'undecided', 'too many branches on tensor data'
            break
        for i in range(len(d), len(o.taken)):
            todo.append(tuple(o.taken[:i]) + (not o.taken[i],))
    return out


def in_thread(f, *a):
    """deep recursion: the interpreter's own"""
    res = []
    sys.setrecursionlimit(20000)

    def go():
        try:
            res.append((True, f(*a)))
        except BaseException as e:
            res.append((False, e))
    old = threading.stack_size(512 << 20)
    t = threading.Thread(target=go)
    t.start()
    threading.stack_size(old)
    t.join()
    ok, v = res[0]
    if not ok:
        raise v
    return v
