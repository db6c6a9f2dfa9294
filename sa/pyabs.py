"""Abstract interpretation of Python source over its syntax tree.

The importer is never imported or run: its modules are parsed, and their statements are given an abstract semantics here. Tensor
contents, and whatever is computed from them, are symbols; shapes, names and attributes are constants of the analysed context. A branch
on a symbol is followed both ways (one analysis per way). Modules outside the repository are replaced by the summaries of pystubs.py;
what has no summary leaves the analysis undecided."""
import ast
import builtins
import operator
import os
import threading
import types


class Undecided(BaseException):
    """the analysis has no answer; not catchable by the analysed program"""


class Exit(SystemExit):
    pass


_MISSING = object()
RET, BRK, CNT = 'ret', 'brk', 'cnt'


class Scope:
    __slots__ = ('vars', 'parent', 'kind', 'globals', 'locals', 'gnames', 'nnames', 'cell', 'fn', 'clsname', 'mod')

    def __init__(self, kind, parent, vars=None, locals=None, mod=None):
        self.kind, self.parent = kind, parent
        self.vars = {} if vars is None else vars
        self.locals = locals
        self.globals = self.vars if kind == 'module' else parent.globals
        self.gnames, self.nnames = (), ()
        self.cell = parent.cell if parent is not None else None
        self.clsname = parent.clsname if parent is not None else None
        self.fn = parent.fn if parent is not None else None
        self.mod = mod if mod is not None else parent.mod


def assigned(body):
    """names bound by the statements of a function body (not of nested scopes)"""
    out, gl, nl, gen = set(), set(), set(), [False]

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
                self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def comp(self, n):
            self.visit(n.generators[0].iter)
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    out.add(sub.target.id)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

        def visit_Name(self, n):
            if not isinstance(n.ctx, ast.Load):
                out.add(n.id)

        def visit_Global(self, n):
            gl.update(n.names)

        def visit_Nonlocal(self, n):
            nl.update(n.names)

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                out.add(n.name)

        def visit_MatchMapping(self, n):
            if n.rest:
                out.add(n.rest)
            self.generic_visit(n)

        def visit_Yield(self, n):
            gen[0] = True
            self.generic_visit(n)
        visit_YieldFrom = visit_Yield
    v = V()
    for s in body:
        v.visit(s)
    return out - gl - nl, gl, nl, gen[0]


class Info:
    """static facts of one function definition"""
    cache = {}

    @staticmethod
    def of(node):
        i = Info.cache.get(id(node))
        if i is None or i[0] is not node:
            body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
            i = (node,) + assigned(body)
            Info.cache[id(node)] = i
        return i


class PyFunc:
    """a function of the analysed program"""

    def __init__(self, it, node, scope, name, qual):
        self.it, self.node, self.scope = it, node, scope
        self.__name__ = name
        self.__qualname__ = qual
        self.__module__ = scope.globals.get('__name__')
        self.__doc__ = None
        self.__dict__['__wrapped_info__'] = None
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.posonly = {x.arg for x in a.posonlyargs}
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = [it.ev(d, scope) for d in a.defaults]
        self.kwdefaults = {k.arg: it.ev(d, scope) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        self.__defaults__ = tuple(self.defaults)
        self.__annotations__ = {}
        self.info = Info.of(node)

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __repr__(self):
        return '<function %s>' % self.__qualname__

    def bind(self, args, kw):
        v = {}
        n = len(self.pos)
        name = self.__name__
        if len(args) > n:
            if self.vararg is None:
                raise TypeError('%s() takes %d positional arguments but %d were given' % (name, n, len(args)))
            v[self.vararg] = tuple(args[n:])
            args = args[:n]
        elif self.vararg is not None:
            v[self.vararg] = ()
        for k, x in zip(self.pos, args):
            v[k] = x
        rest = {}
        for k, x in kw.items():
            if (k in self.pos and k not in self.posonly) or k in self.kwonly:
                if k in v:
                    raise TypeError("%s() got multiple values for argument '%s'" % (name, k))
                v[k] = x
            elif self.kwarg is not None:
                rest[k] = x
            else:
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (name, k))
        if self.kwarg is not None:
            v[self.kwarg] = rest
        d0 = n - len(self.defaults)
        for i, k in enumerate(self.pos):
            if k not in v:
                if i >= d0:
                    v[k] = self.defaults[i - d0]
                else:
                    raise TypeError("%s() missing 1 required positional argument: '%s'" % (name, k))
        for k in self.kwonly:
            if k not in v:
                if k in self.kwdefaults:
                    v[k] = self.kwdefaults[k]
                else:
                    raise TypeError("%s() missing 1 required keyword-only argument: '%s'" % (name, k))
        return v

    def __call__(self, *args, **kw):
        it, node = self.it, self.node
        v = self.bind(args, kw)
        _, loc, gl, nl, gen = self.info
        sc = Scope('function', self.scope, v, loc | set(v))
        sc.gnames, sc.nnames = gl, nl
        sc.fn = (self, args[0] if args else _MISSING)
        it.reached.add((sc.mod, self.__qualname__))
        if isinstance(node, ast.Lambda):
            it.push(sc, self, node)
            try:
                return it.ev(node.body, sc)
            finally:
                it.stack.pop()
        if gen:
            return Gen(it, self, sc)
        it.push(sc, self, node)
        try:
            r = it.block(node.body, sc)
        finally:
            it.stack.pop()
        return r[1] if r is not None and r[0] is RET else None


class Gen:
    """a generator of the analysed program; its statements are analysed on demand, in a thread of their own that runs in turn with ours"""

    def __init__(self, it, fn, sc):
        self.it, self.fn, self.sc = it, fn, sc
        self.started = self.done = False
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.msg = self.out = None
        self.stack = None

    def body(self):
        self.go.acquire()
        it = self.it
        try:
            self.take()
            r = it.block(self.fn.node.body, self.sc)
            self.out = ('done', r[1] if r is not None and r[0] is RET else None)
        except BaseException as e:
            self.out = ('raise', e)
        self.back.release()

    def take(self):
        if self.msg[0] == 'raise':
            raise self.msg[1]
        return self.msg[1]

    def yield_(self, v):
        self.out = ('yield', v)
        self.back.release()
        self.go.acquire()
        return self.take()

    def resume(self, msg):
        if self.done:
            if msg[0] == 'raise':
                raise msg[1]
            raise StopIteration
        if not self.started:
            self.started = True
            old = threading.stack_size(64 << 20)
            t = threading.Thread(target=self.body, daemon=True)
            t.start()
            threading.stack_size(old)
        it = self.it
        self.msg = msg
        outer_gen, outer_stack = it.gen, it.stack
        it.gen = self
        if self.stack is None:
            self.stack = []
            it.stack = outer_stack[:]
            it.push(self.sc, self.fn, self.fn.node)
        else:
            it.stack = self.stack
        self.go.release()
        self.back.acquire()
        self.stack = it.stack
        it.gen, it.stack = outer_gen, outer_stack
        k, v = self.out
        if k == 'yield':
            return v
        self.done = True
        if k == 'done':
            raise StopIteration(v)
        raise v

    def __iter__(self):
        return self

    def __next__(self):
        return self.resume(('send', None))

    def send(self, v):
        return self.resume(('send', v))

    def throw(self, t, v=None, tb=None):
        e = v if isinstance(v, BaseException) else t if isinstance(t, BaseException) else t()
        return self.resume(('raise', e))

    def close(self):
        if not self.started or self.done:
            self.done = True
            return
        try:
            self.resume(('raise', GeneratorExit()))
        except (GeneratorExit, StopIteration):
            pass


class Frame:
    __slots__ = ('file', 'line', 'name')

    def __init__(self, file, line, name):
        self.file, self.line, self.name = file, line, name


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_,
       ast.BitXor: operator.xor, ast.BitAnd: operator.and_, ast.MatMult: operator.matmul}
IBIN = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv,
        ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.LShift: operator.ilshift, ast.RShift: operator.irshift, ast.BitOr: operator.ior,
        ast.BitXor: operator.ixor, ast.BitAnd: operator.iand, ast.MatMult: operator.imatmul}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
UN = {ast.UAdd: operator.pos, ast.USub: operator.neg, ast.Invert: operator.invert}


class Interp:
    def __init__(self, paths, modules, builtin, decisions=(), steps=4000000):
        """paths: directories of the analysed modules; modules: name -> summary; builtin: overrides of builtins"""
        self.paths = paths
        self.summaries = modules
        self.mods = {}
        self.builtins = {k: getattr(builtins, k) for k in dir(builtins) if not k.startswith('_')}
        for k in ('eval', 'exec', 'compile', 'input', 'breakpoint', 'help', 'memoryview', 'globals', 'locals', 'open', 'print'):
            self.builtins.pop(k, None)
        self.builtins.update(builtin)
        self.builtins['__import__'] = None
        self.stack = []
        self.steps = steps
        self.decisions = list(decisions)
        self.taken = []
        self.choice = {}
        self.gen = None
        self.reached = set()
        self.trees = {}
        self.raised_at = None
        self.nodes = 0
        self.line_seen = set()

    # ------------------------------------------------------------ context
    def push(self, sc, fn, node):
        if len(self.stack) > 180:
            raise Undecided('recursion')
        self.stack.append(Frame(sc.mod, node.lineno, fn.__qualname__))

    def where(self):
        f = self.stack[-1] if self.stack else None
        return (f.file, f.line, f.name) if f else ('?', 0, '?')

    def decide(self, key, neg=None):
        """a branch on a symbol: follow one way, leave the other for another analysis"""
        if key in self.choice:
            return self.choice[key]
        if neg is not None and neg in self.choice:
            return not self.choice[neg]
        i = len(self.taken)
        v = self.decisions[i] if i < len(self.decisions) else True
        if i > 24:
            raise Undecided('branches on tensor data')
        self.taken.append(v)
        self.choice[key] = v
        return v

    # ------------------------------------------------------------ modules
    def find(self, name):
        rel = name.replace('.', '/')
        for p in self.paths:
            for f in (os.path.join(p, rel + '.py'), os.path.join(p, rel, '__init__.py')):
                if os.path.exists(f):
                    return f
        return None

    def load(self, name, main=False):
        if name in self.mods:
            return self.mods[name]
        f = self.find(name)
        if f is None:
            if name in self.summaries:
                m = self.summaries[name]
                if callable(m) and not isinstance(m, types.ModuleType) and getattr(m, 'lazy', False):
                    m = m()
                self.mods[name] = m
                return m
            if any(os.path.isdir(os.path.join(p, name.replace('.', '/'))) for p in self.paths):
                m = types.ModuleType(name)
                self.mods[name] = m
                return m
            raise Undecided('module %s has no summary' % name)
        m = types.ModuleType(name)
        m.__dict__['__file__'] = f
        if main:
            m.__dict__['__name__'] = '__main__'
        m.__dict__['__package__'] = name if f.endswith('__init__.py') else name.rpartition('.')[0]
        self.mods[name] = m
        src = open(f, encoding='utf-8').read()
        tree = ast.parse(src, f)
        self.trees[f] = tree
        sc = Scope('module', None, m.__dict__, mod=f)
        self.stack.append(Frame(f, 1, '<module>'))
        try:
            self.block(tree.body, sc)
        finally:
            self.stack.pop()
        return m

    def imp(self, name, sc, level=0):
        if level:
            pkg = sc.globals.get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = (pkg + '.' + name if name else pkg) if pkg else name
        return self.load(name)

    # ------------------------------------------------------------ names
    def get(self, name, sc):
        if name in sc.gnames:
            if name in sc.globals:
                return sc.globals[name]
        s = sc
        first = True
        while s is not None:
            if first or s.kind != 'class':
                if name in s.vars:
                    return s.vars[name]
                if s.locals is not None and name in s.locals and s.kind == 'function':
                    raise UnboundLocalError("local variable '%s' referenced before assignment" % name)
            first = False
            s = s.parent
        if name in self.builtins:
            v = self.builtins[name]
            if v is not None:
                return v
        if name == '__class__' and sc.cell:
            return sc.cell['__class__']
        if hasattr(builtins, name):
            raise Undecided('builtin %s' % name)
        raise NameError("name '%s' is not defined" % name)

    def set(self, name, v, sc):
        if name in sc.gnames:
            sc.globals[name] = v
            return
        if name in sc.nnames:
            s = sc.parent
            while s is not None:
                if s.kind == 'function' and (name in s.vars or (s.locals and name in s.locals)):
                    s.vars[name] = v
                    return
                s = s.parent
        while sc.kind == 'comp' and name not in sc.locals:      # := inside a comprehension
            sc = sc.parent
            if name in sc.gnames or name in sc.nnames:
                return self.set(name, v, sc)
        sc.vars[name] = v

    def mangle(self, n, sc):
        if n.startswith('__') and not n.endswith('__') and sc.clsname:
            return '_' + sc.clsname.lstrip('_') + n
        return n

    # ------------------------------------------------------------ statements
    def block(self, body, sc):
        for s in body:
            r = self.stmt(s, sc)
            if r is not None:
                return r
        return None

    def stmt(self, s, sc):
        self.steps -= 1
        if self.steps < 0:
            raise Undecided('step budget')
        if self.stack:
            self.stack[-1].line = s.lineno
        self.nodes += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        try:
            return m(s, sc)
        except (Undecided, GeneratorExit):
            raise
        except BaseException as e:
            if getattr(e, '_at', None) is None:
                try:
                    e._at = [(f.file, f.line, f.name) for f in self.stack]
                except Exception:
                    pass
            raise

    def s_Expr(self, s, sc):
        self.ev(s.value, sc)

    def s_Pass(self, s, sc):
        return None

    def s_Break(self, s, sc):
        return (BRK,)

    def s_Continue(self, s, sc):
        return (CNT,)

    def s_Return(self, s, sc):
        return (RET, self.ev(s.value, sc) if s.value is not None else None)

    def s_Global(self, s, sc):
        if sc.kind != 'function':
            sc.gnames = set(sc.gnames) | set(s.names)

    def s_Nonlocal(self, s, sc):
        return None

    def s_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if sc.kind == 'class' and isinstance(s.target, ast.Name):
            try:
                an = self.ev(s.annotation, sc)
            except Exception:
                an = object
            sc.vars.setdefault('__annotations__', {})[s.target.id] = an
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        t = s.target
        if isinstance(t, ast.Name):
            v = IBIN[type(s.op)](self.get(t.id, sc), self.ev(s.value, sc))
            self.set(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            n = self.mangle(t.attr, sc)
            setattr(o, n, IBIN[type(s.op)](getattr(o, n), self.ev(s.value, sc)))
        else:
            o = self.ev(t.value, sc)
            k = self.ev(t.slice, sc)
            o[k] = IBIN[type(s.op)](o[k], self.ev(s.value, sc))

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.set(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            setattr(self.ev(t.value, sc), self.mangle(t.attr, sc), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            o[self.ev(t.slice, sc)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i, n = st[0], len(t.elts)
                if len(vs) < n - 1:
                    raise ValueError('not enough values to unpack')
                vs = vs[:i] + [vs[i:len(vs) - (n - 1 - i)]] + vs[len(vs) - (n - 1 - i):]
            elif len(vs) != len(t.elts):
                raise ValueError('not enough values to unpack' if len(vs) < len(t.elts) else 'too many values to unpack (expected %d)' % len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise Undecided('assignment target')

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in sc.gnames:
                    del sc.globals[t.id]
                elif t.id in sc.vars:
                    del sc.vars[t.id]
                else:
                    raise NameError(t.id)
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, sc), self.mangle(t.attr, sc))
            elif isinstance(t, ast.Subscript):
                del self.ev(t.value, sc)[self.ev(t.slice, sc)]
            else:
                for e in t.elts:
                    self.s_Delete(ast.Delete([e]), sc)

    def s_If(self, s, sc):
        return self.block(s.body if self.truth(self.ev(s.test, sc)) else s.orelse, sc)

    def truth(self, v):
        return True if v is True else False if v is False or v is None else bool(v)

    def s_While(self, s, sc):
        while self.truth(self.ev(s.test, sc)):
            self.steps -= 1
            if self.steps < 0:
                raise Undecided('step budget')
            r = self.block(s.body, sc)
            if r is not None:
                if r[0] is BRK:
                    return None
                if r[0] is RET:
                    return r
        return self.block(s.orelse, sc)

    def s_For(self, s, sc):
        for v in self.ev(s.iter, sc):
            self.assign(s.target, v, sc)
            r = self.block(s.body, sc)
            if r is not None:
                if r[0] is BRK:
                    return None
                if r[0] is RET:
                    return r
        return self.block(s.orelse, sc)

    def s_With(self, s, sc):
        return self.with_(s.items, s.body, sc)

    def with_(self, items, body, sc):
        if not items:
            return self.block(body, sc)
        it = items[0]
        cm = self.ev(it.context_expr, sc)
        ex = type(cm).__exit__
        v = type(cm).__enter__(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, sc)
        try:
            r = self.with_(items[1:], body, sc)
        except Undecided:
            raise
        except BaseException as e:
            if not self.truth(ex(cm, type(e), e, e.__traceback__)):
                raise
            return None
        ex(cm, None, None, None)
        return r

    def s_Raise(self, s, sc):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if not cur:
                raise RuntimeError('No active exception to reraise')
            raise cur[-1]
        e = self.ev(s.exc, sc)
        if isinstance(e, type):
            e = e()
        if s.cause is not None:
            c = self.ev(s.cause, sc)
            e.__cause__ = c if not isinstance(c, type) else c()
        raise e

    def s_Try(self, s, sc):
        try:
            r = self.block(s.body, sc)
            if r is None:
                r = self.block(s.orelse, sc) if s.orelse else None
        except Undecided:
            raise
        except BaseException as e:
            if isinstance(e, (RecursionError, MemoryError)):
                raise Undecided('resources of the analysis')
            for h in s.handlers:
                t = self.ev(h.type, sc) if h.type is not None else BaseException
                if isinstance(e, t):
                    if suspicious(e):
                        raise Undecided('an exception of the summaries: %s' % e)
                    if h.name:
                        self.set(h.name, e, sc)
                    st = getattr(self, 'handling', None)
                    if st is None:
                        st = self.handling = []
                    st.append(e)
                    try:
                        r = self.block(h.body, sc)
                    except BaseException as e2:
                        if s.finalbody and not isinstance(e2, Undecided):
                            f = self.block(s.finalbody, sc)
                            if f is not None:
                                return f
                        raise
                    finally:
                        st.pop()
                    break
            else:
                if s.finalbody:
                    f = self.block(s.finalbody, sc)
                    if f is not None:
                        return f
                raise
        if s.finalbody:
            f = self.block(s.finalbody, sc)
            if f is not None:
                return f
        return r

    def s_Assert(self, s, sc):
        if not self.truth(self.ev(s.test, sc)):
            raise AssertionError(self.ev(s.msg, sc) if s.msg is not None else '')

    def s_Import(self, s, sc):
        for a in s.names:
            m = self.load(a.name)
            if '.' in a.name:
                parts = a.name.split('.')
                top = self.load(parts[0])
                cur, nm = top, parts[0]
                for p in parts[1:]:
                    nm += '.' + p
                    sub = self.load(nm)
                    if isinstance(cur, types.ModuleType) and p not in cur.__dict__:
                        cur.__dict__[p] = sub
                    cur = sub
                self.set(a.asname or parts[0], m if a.asname else top, sc)
            else:
                self.set(a.asname or a.name, m, sc)

    def s_ImportFrom(self, s, sc):
        if s.module == '__future__':
            return
        m = self.imp(s.module or '', sc, s.level)
        for a in s.names:
            if a.name == '*':
                names = m.__dict__.get('__all__') or [k for k in m.__dict__ if not k.startswith('_')]
                for k in names:
                    self.set(k, getattr(m, k), sc)
                continue
            if isinstance(m, types.ModuleType) and a.name in m.__dict__:
                v = m.__dict__[a.name]
            else:
                sub = (m.__name__ + '.' + a.name) if getattr(m, '__name__', '') else a.name
                if self.find(sub) or sub in self.summaries:
                    v = self.load(sub)
                else:
                    try:
                        v = getattr(m, a.name)
                    except AttributeError:
                        raise ImportError("cannot import name '%s' from '%s'" % (a.name, getattr(m, '__name__', '?')))
            self.set(a.asname or a.name, v, sc)

    def qual(self, name, sc):
        s = sc
        parts = [name]
        while s is not None and s.kind != 'module':
            if s.kind == 'class':
                parts.append(s.clsname)
            elif s.kind == 'function' and s.fn:
                parts.append(s.fn[0].__name__)
            s = s.parent
        return '.'.join(reversed(parts))

    def s_FunctionDef(self, s, sc):
        f = PyFunc(self, s, sc, s.name, self.qual(s.name, sc))
        f.__doc__ = ast.get_docstring(s)
        for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
            if a.annotation is not None:
                try:
                    f.__annotations__[a.arg] = self.ev(a.annotation, sc)
                except Exception:
                    pass
        if s.returns is not None:
            try:
                f.__annotations__['return'] = self.ev(s.returns, sc)
            except Exception:
                pass
        v = f
        for d in reversed(s.decorator_list):
            v = self.ev(d, sc)(v)
        self.set(s.name, v, sc)

    def s_ClassDef(self, s, sc):
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases += list(self.ev(b.value, sc))
            else:
                bases.append(self.ev(b, sc))
        kw = {k.arg: self.ev(k.value, sc) for k in s.keywords}
        cell = {}

        def body(ns):
            cs = Scope('class', sc, ns)
            cs.cell, cs.clsname = cell, s.name
            ns['__module__'] = sc.globals.get('__name__')
            ns['__qualname__'] = self.qual(s.name, sc)
            d = ast.get_docstring(s)
            if d is not None:
                ns['__doc__'] = d
            self.block(s.body, cs)
        rb = types.resolve_bases(tuple(bases))
        if rb != tuple(bases):
            plain = body

            def body(ns):
                ns['__orig_bases__'] = tuple(bases)
                plain(ns)
        c = types.new_class(s.name, rb, kw, body)
        cell['__class__'] = c
        for d in reversed(s.decorator_list):
            c = self.ev(d, sc)(c)
        self.set(s.name, c, sc)

    def s_Match(self, s, sc):
        v = self.ev(s.subject, sc)
        for c in s.cases:
            b = {}
            if self.pat(c.pattern, v, sc, b):
                for k, x in b.items():
                    self.set(k, x, sc)
                if c.guard is None or self.truth(self.ev(c.guard, sc)):
                    return self.block(c.body, sc)
        return None

    def pat(self, p, v, sc, b):
        t = type(p).__name__
        if t == 'MatchValue':
            return self.truth(v == self.ev(p.value, sc))
        if t == 'MatchSingleton':
            return v is p.value
        if t == 'MatchAs':
            if p.pattern is not None and not self.pat(p.pattern, v, sc, b):
                return False
            if p.name:
                b[p.name] = v
            return True
        if t == 'MatchOr':
            return any(self.pat(q, v, sc, b) for q in p.patterns)
        if t == 'MatchSequence':
            if isinstance(v, (str, bytes)) or not isinstance(v, (list, tuple)):
                return False
            st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if not st:
                return len(v) == n and all(self.pat(q, x, sc, b) for q, x in zip(p.patterns, v))
            if len(v) < n - 1:
                return False
            i = st[0]
            k = n - 1 - i
            if not all(self.pat(q, x, sc, b) for q, x in zip(p.patterns[:i], v[:i])):
                return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = list(v[i:len(v) - k])
            return all(self.pat(q, x, sc, b) for q, x in zip(p.patterns[i + 1:], v[len(v) - k:]))
        if t == 'MatchMapping':
            if not isinstance(v, dict):
                return False
            for k, q in zip(p.keys, p.patterns):
                kk = self.ev(k, sc)
                if kk not in v or not self.pat(q, v[kk], sc, b):
                    return False
            return True
        if t == 'MatchClass':
            c = self.ev(p.cls, sc)
            if not isinstance(v, c):
                return False
            if p.patterns:
                if c in (int, str, float, bytes, list, tuple, dict, bool, set) and len(p.patterns) == 1:
                    if not self.pat(p.patterns[0], v, sc, b):
                        return False
                else:
                    for n, q in zip(c.__match_args__, p.patterns):
                        if not self.pat(q, getattr(v, n), sc, b):
                            return False
            return all(hasattr(v, n) and self.pat(q, getattr(v, n), sc, b) for n, q in zip(p.kwd_attrs, p.kwd_patterns))
        raise Undecided('pattern ' + t)

    # ------------------------------------------------------------ expressions
    def ev(self, e, sc):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        self.steps -= 1
        if self.steps < 0:
            raise Undecided('step budget')
        return m(e, sc)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.get(e.id, sc)

    def e_Attribute(self, e, sc):
        return getattr(self.ev(e.value, sc), self.mangle(e.attr, sc))

    def e_Subscript(self, e, sc):
        return self.ev(e.value, sc)[self.ev(e.slice, sc)]

    def e_Slice(self, e, sc):
        return slice(*(None if x is None else self.ev(x, sc) for x in (e.lower, e.upper, e.step)))

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_List(self, e, sc):
        return self.elts(e.elts, sc)

    def e_Set(self, e, sc):
        return set(self.elts(e.elts, sc))

    def elts(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.ev(x.value, sc))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, sc))
            else:
                kk = self.ev(k, sc)
                d[kk] = self.ev(v, sc)
        return d

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.ev(x, sc)
            if self.truth(v) != isand:
                return v
        return self.ev(e.values[-1], sc)

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        self.set(e.target.id, v, sc)
        return v

    def e_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        b = self.ev(e.right, sc)
        return BIN[type(e.op)](a, b)

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return UN[type(e.op)](v)

    def e_IfExp(self, e, sc):
        return self.ev(e.body if self.truth(self.ev(e.test, sc)) else e.orelse, sc)

    def e_Lambda(self, e, sc):
        return PyFunc(self, e, sc, '<lambda>', self.qual('<lambda>', sc))

    def e_Compare(self, e, sc):
        a = self.ev(e.left, sc)
        r = True
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, sc)
            t = type(op)
            if t is ast.Is:
                r = a is b
            elif t is ast.IsNot:
                r = a is not b
            elif t is ast.In:
                r = operator.contains(b, a)
            elif t is ast.NotIn:
                r = not operator.contains(b, a)
            else:
                r = CMP[t](a, b)
            if len(e.ops) > 1 and not self.truth(r):
                return r
            a = b
        return r

    def e_Starred(self, e, sc):
        raise Undecided('starred expression')

    def e_JoinedStr(self, e, sc):
        return ''.join(self.ev(v, sc) for v in e.values)

    def e_FormattedValue(self, e, sc):
        v = self.ev(e.value, sc)
        if e.conversion == 115:
            v = str(v)
        elif e.conversion == 114:
            v = repr(v)
        elif e.conversion == 97:
            v = ascii(v)
        return format(v, self.ev(e.format_spec, sc) if e.format_spec is not None else '')

    def gen_(self, gens, sc, fn):
        g = gens[0]

        def go(i, sc):
            g = gens[i]
            it = self.ev(g.iter, sc if i else sc)
            for v in it:
                self.assign(g.target, v, sc)
                if all(self.truth(self.ev(c, sc)) for c in g.ifs):
                    if i + 1 < len(gens):
                        yield from go(i + 1, sc)
                    else:
                        yield fn(sc)
        first = self.ev(g.iter, sc)
        names = {n.id for x in gens for n in ast.walk(x.target) if isinstance(n, ast.Name)}
        cs = Scope('comp', sc, {}, names)
        if any(x.is_async for x in gens):
            raise Undecided('async')

        def top():
            for v in first:
                self.assign(g.target, v, cs)
                if all(self.truth(self.ev(c, cs)) for c in g.ifs):
                    if len(gens) > 1:
                        yield from go(1, cs)
                    else:
                        yield fn(cs)
        return top()

    def e_ListComp(self, e, sc):
        return list(self.gen_(e.generators, sc, lambda s: self.ev(e.elt, s)))

    def e_SetComp(self, e, sc):
        return set(self.gen_(e.generators, sc, lambda s: self.ev(e.elt, s)))

    def e_GeneratorExp(self, e, sc):
        return self.gen_(e.generators, sc, lambda s: self.ev(e.elt, s))

    def e_DictComp(self, e, sc):
        return dict(self.gen_(e.generators, sc, lambda s: (self.ev(e.key, s), self.ev(e.value, s))))

    def e_Yield(self, e, sc):
        v = self.ev(e.value, sc) if e.value is not None else None
        return self.gen.yield_(v)

    def e_YieldFrom(self, e, sc):
        me = self.gen
        it = iter(self.ev(e.value, sc))
        while True:
            try:
                v = next(it)
            except StopIteration as x:
                return x.value
            me.yield_(v)

    def e_Call(self, e, sc):
        f = self.ev(e.func, sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.ev(a.value, sc))
            else:
                args.append(self.ev(a, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, sc)
                for n in d:
                    if n in kw:
                        raise TypeError("got multiple values for keyword argument '%s'" % n)
                    kw[n] = d[n]
            else:
                kw[k.arg] = self.ev(k.value, sc)
        if self.stack:
            self.stack[-1].line = e.lineno
        if f is super and not args:
            if not sc.cell or '__class__' not in sc.cell or sc.fn is None:
                raise RuntimeError('super(): no arguments')
            s = sc
            while s.kind != 'function':
                s = s.parent
            return super(sc.cell['__class__'], s.fn[1])
        if type(f) is types.BuiltinMethodType and type(f.__self__) is bytes and f.__name__ == 'join':
            from .pystubs import joinbytes
            return joinbytes(f.__self__, args[0])
        return f(*args, **kw)


def suspicious(e):
    """raised by a summary that does not know what it was given, rather than by the analysed program"""
    m = str(e)
    return isinstance(e, (TypeError, AttributeError, ValueError, NotImplementedError)) and any(
        x in m for x in ('Abs', 'Sym', 'PyFunc', 'pystubs', 'Gen', 'NpInt', 'NpFloat', 'summar', 'DType'))
