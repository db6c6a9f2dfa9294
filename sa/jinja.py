"""The template language of the code generator, given an abstract semantics: templates are parsed from /repo and expanded over the abstract
values the interpreter hands in."""
import posixpath
import re

from .pyabs import Undecided
from .pystubs import mod


class UndefinedError(Exception):
    pass


class TemplateNotFound(Exception):
    pass


class TemplateSyntaxError(Exception):
    pass


class Undef:
    """a name the template was not given: prints as nothing"""

    def __init__(self, name, env=None):
        self.name = name

    def fail(self, *a, **k):
        raise UndefinedError("'%s' is undefined" % self.name)
    __call__ = __getitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __lt__ = __le__ = __gt__ = __ge__ = __int__ = __float__ = fail
    __floordiv__ = __mod__ = __neg__ = __rtruediv__ = fail

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self.fail()

    def __str__(self):
        return ''

    def __len__(self):
        return 0

    def __iter__(self):
        return iter(())

    def __bool__(self):
        return False

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __ne__(self, o):
        return not isinstance(o, Undef)

    def __hash__(self):
        return 1


class Strict(Undef):
    __str__ = __len__ = __iter__ = __bool__ = __eq__ = __ne__ = Undef.fail
    __hash__ = Undef.__hash__


TOK = re.compile(r'\s*(?:(\d+\.\d+|\d+)|([A-Za-z_]\w*)|("(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\')|(==|!=|<=|>=|//|\*\*|[-+*/%<>|.,:()\[\]{}~=]))', re.S)


def tokens(s):
    out, p = [], 0
    while s[p:].strip():
        m = TOK.match(s, p)
        if not m:
            raise TemplateSyntaxError('unexpected %r' % s[p:p + 10])
        p = m.end()
        if m.group(1):
            out.append(('num', float(m.group(1)) if '.' in m.group(1) else int(m.group(1))))
        elif m.group(2):
            out.append(('name', m.group(2)))
        elif m.group(3):
            out.append(('str', m.group(3)[1:-1].encode().decode('unicode_escape')))
        else:
            out.append(('op', m.group(4)))
    return out


class Parser:
    """expressions to closures over (env, scope)"""

    def __init__(self, s):
        # "a.0.1" tokenizes 0.1 as a number: split integers after a dot
        s = re.sub(r'(?<=\.)(\d+)\.(?=\d)', r'\1 .', s) if re.search(r'[\w\])]\.\d+\.\d', s) else s
        s = re.sub(r'([A-Za-z_\])])\.(\d)', r'\1 . \2', s)
        self.t, self.p = tokens(s), 0

    def peek(self, *v):
        if self.p >= len(self.t):
            return False
        k, x = self.t[self.p]
        return x in v and k in ('op', 'name') if v else True

    def take(self, *v):
        if self.peek(*v):
            self.p += 1
            return self.t[self.p - 1][1]
        return None

    def need(self, v):
        if self.take(v) is None:
            raise TemplateSyntaxError('expected %s' % v)

    def name(self):
        if self.p >= len(self.t) or self.t[self.p][0] != 'name':
            raise TemplateSyntaxError('expected a name')
        self.p += 1
        return self.t[self.p - 1][1]

    def done(self):
        if self.p != len(self.t):
            raise TemplateSyntaxError('unexpected %r' % (self.t[self.p][1],))

    def expr(self):
        a = self.or_()
        if self.take('if'):
            c = self.or_()
            b = self.expr() if self.take('else') else (lambda e, s: e.undef(''))
            return lambda e, s: a(e, s) if c(e, s) else b(e, s)
        return a

    def tuple_(self):
        a = self.expr()
        if not self.peek(','):
            return a
        xs = [a]
        while self.take(','):
            if self.p >= len(self.t) or self.peek(')'):
                break
            xs.append(self.expr())
        return lambda e, s: tuple(x(e, s) for x in xs)

    def or_(self):
        a = self.and_()
        while self.take('or'):
            a = (lambda a, b: lambda e, s: a(e, s) or b(e, s))(a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.take('and'):
            a = (lambda a, b: lambda e, s: a(e, s) and b(e, s))(a, self.not_())
        return a

    def not_(self):
        if self.take('not'):
            a = self.not_()
            return lambda e, s: not a(e, s)
        return self.cmp()

    def cmp(self):
        a = self.concat()
        links = []
        while True:
            op = self.take('==', '!=', '<', '<=', '>', '>=', 'in')
            if op is None and self.peek('not') and self.p + 1 < len(self.t) and self.t[self.p + 1] == ('name', 'in'):
                self.p += 2
                op = 'not in'
            if op is None:
                break
            links.append((op, self.concat()))
        if not links:
            return a
        F = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
             'in': lambda x, y: x in y, 'not in': lambda x, y: x not in y}

        def go(e, s):
            x = a(e, s)
            for op, f in links:
                y = f(e, s)
                r = F[op](x, y)
                if not r:
                    return r
                x = y
            return r
        return go

    def concat(self):
        a = self.add()
        if not self.peek('~'):
            return a
        xs = [a]
        while self.take('~'):
            xs.append(self.add())
        return lambda e, s: ''.join(e.text(x(e, s)) for x in xs)

    def bin_(self, ops, sub):
        a = sub()
        while True:
            op = self.take(*ops)
            if op is None:
                return a
            b = sub()
            F = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '//': lambda x, y: x // y, '%': lambda x, y: x % y,
                 '**': lambda x, y: x ** y}
            a = (lambda a, b, f: lambda e, s: f(a(e, s), b(e, s)))(a, b, F[op])

    def add(self):
        return self.bin_(('+', '-'), self.mul)

    def mul(self):
        return self.bin_(('*', '/', '//', '%'), self.pow)

    def pow(self):
        return self.bin_(('**',), self.unary)

    def unary(self):
        if self.take('-'):
            a = self.unary()
            return lambda e, s: -a(e, s)
        if self.take('+'):
            return self.unary()
        return self.post(self.atom())

    def args(self):
        pos, kw = [], {}
        while not self.peek(')'):
            if self.t[self.p][0] == 'name' and self.p + 1 < len(self.t) and self.t[self.p + 1] == ('op', '='):
                n = self.name()
                self.p += 1
                kw[n] = self.expr()
            else:
                pos.append(self.expr())
            if not self.take(','):
                break
        self.need(')')
        return lambda e, s: ([x(e, s) for x in pos], {k: x(e, s) for k, x in kw.items()})

    def post(self, a):
        while True:
            if self.take('.'):
                k, n = self.t[self.p]
                self.p += 1
                if k == 'num':
                    a = (lambda a, n: lambda e, s: e.item(a(e, s), n))(a, n)
                else:
                    a = (lambda a, n: lambda e, s: e.attr(a(e, s), n))(a, n)
            elif self.take('['):
                lo = None if self.peek(':') else self.expr()
                if self.take(':'):
                    hi = None if self.peek(']', ':') else self.expr()
                    st = None
                    if self.take(':'):
                        st = None if self.peek(']') else self.expr()
                    a = (lambda a, lo, hi, st: lambda e, s: a(e, s)[slice(*(x(e, s) if x else None for x in (lo, hi, st)))])(a, lo, hi, st)
                else:
                    a = (lambda a, lo: lambda e, s: e.item(a(e, s), lo(e, s)))(a, lo)
                self.need(']')
            elif self.take('('):
                a = (lambda a, g: lambda e, s: (lambda pk: a(e, s)(*pk[0], **pk[1]))(g(e, s)))(a, self.args())
            elif self.take('|'):
                n = self.name()
                g = self.args() if self.take('(') else (lambda e, s: ([], {}))
                a = (lambda a, n, g: lambda e, s: (lambda pk: e.filter(n)(a(e, s), *pk[0], **pk[1]))(g(e, s)))(a, n, g)
            elif self.peek('is'):
                self.p += 1
                neg = bool(self.take('not'))
                n = self.name()
                g = self.args() if self.take('(') else (lambda e, s: ([], {}))
                a = (lambda a, n, g, neg: lambda e, s: (lambda pk: e.test(n)(a(e, s), *pk[0]) != neg)(g(e, s)))(a, n, g, neg)
            else:
                return a

    def atom(self):
        if self.p >= len(self.t):
            raise TemplateSyntaxError('unexpected end of template')
        k, x = self.t[self.p]
        self.p += 1
        if k in ('num', 'str'):
            return lambda e, s: x
        if k == 'name':
            if x in ('true', 'True'):
                return lambda e, s: True
            if x in ('false', 'False'):
                return lambda e, s: False
            if x in ('none', 'None'):
                return lambda e, s: None
            return lambda e, s: e.lookup(x, s)
        if x == '(':
            a = self.tuple_()
            self.need(')')
            return a
        if x == '[':
            xs = []
            while not self.peek(']'):
                xs.append(self.expr())
                if not self.take(','):
                    break
            self.need(']')
            return lambda e, s: [y(e, s) for y in xs]
        if x == '{':
            ks = []
            while not self.peek('}'):
                a = self.expr()
                self.need(':')
                ks.append((a, self.expr()))
                if not self.take(','):
                    break
            self.need('}')
            return lambda e, s: {a(e, s): b(e, s) for a, b in ks}
        raise TemplateSyntaxError('unexpected %r' % x)


class Loop:
    def __init__(self, n):
        self.n, self.i = n, 0
    index0 = property(lambda s: s.i)
    index = property(lambda s: s.i + 1)
    first = property(lambda s: s.i == 0)
    last = property(lambda s: s.i == s.n - 1)
    length = property(lambda s: s.n)
    revindex = property(lambda s: s.n - s.i)
    revindex0 = property(lambda s: s.n - s.i - 1)


PIECE = re.compile(r'(\{\{[-+]?|\{%[-+]?|\{#[-+]?)')
END = {'{{': re.compile(r'([-+]?)\}\}'), '{%': re.compile(r'([-+]?)%\}'), '{#': re.compile(r'([-+]?)#\}')}


def split(src, env):
    """source -> list of (kind, text)"""
    out, p = [], 0
    strip = None
    while True:
        m = PIECE.search(src, p)
        text = src[p:m.start() if m else len(src)]
        if strip == '-':
            text = text.lstrip()
        elif strip == 'trim' and text.startswith('\n'):
            text = text[1:]
        if m:
            kind, mark = m.group(1)[:2], m.group(1)[2:]
            if mark == '-':
                text = text.rstrip()
            elif mark != '+' and env.lstrip_blocks and kind != '{{':
                text = re.sub(r'(^|\n)[ \t]*$', r'\1', text)
        if text:
            out.append(('text', text))
        if not m:
            return out
        if kind != '{#':
            # strings inside a block may contain the closing mark
            q = m.end()
            pat = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|' + END[kind].pattern, re.S)
            while True:
                e = pat.search(src, q)
                if not e:
                    raise TemplateSyntaxError('unclosed block')
                if e.group(0)[0] in '"\'':
                    q = e.end()
                    continue
                break
        else:
            e = END[kind].search(src, m.end())
            if not e:
                raise TemplateSyntaxError('unclosed comment')
        body = src[m.end():e.start()]
        if kind != '{#':
            out.append(('expr' if kind == '{{' else 'stmt', body))
        strip = '-' if e.group(1) == '-' else 'trim' if kind != '{{' and env.trim_blocks else None
        p = e.end()


def parse(pieces, env):
    pos = [0]

    def block(*ends):
        body = []
        while pos[0] < len(pieces):
            k, t = pieces[pos[0]]
            pos[0] += 1
            if k == 'text':
                body.append((lambda t: lambda e, s: t)(t))
            elif k == 'expr':
                q = Parser(t)
                x = q.tuple_()
                q.done()
                body.append((lambda x: lambda e, s: e.text(x(e, s)))(x))
            else:
                q = Parser(t)
                w = q.name()
                if w in ends:
                    return body, w, q
                body.append(stmt(w, q))
        if ends:
            raise TemplateSyntaxError('missing %s' % ends[-1])
        return body, None, None

    def run(body):
        return lambda e, s: ''.join(f(e, s) for f in body)

    def stmt(w, q):
        if w == 'if':
            arms = []
            c = q.expr()
            q.done()
            while True:
                b, w2, q2 = block('elif', 'else', 'endif')
                arms.append((c, run(b)))
                if w2 == 'elif':
                    c = q2.expr()
                    q2.done()
                    continue
                if w2 == 'else':
                    b, _, _ = block('endif')
                    arms.append((lambda e, s: True, run(b)))
                break

            def go(e, s):
                for c, b in arms:
                    if c(e, s):
                        return b(e, s)
                return ''
            return go
        if w == 'for':
            names = [q.name()]
            while q.take(','):
                names.append(q.name())
            q.need('in')
            src = q.or_()
            cond = None
            if q.take('if'):
                cond = q.expr()
            q.done()
            b, w2, _ = block('else', 'endfor')
            body = run(b)
            other = None
            if w2 == 'else':
                b, _, _ = block('endfor')
                other = run(b)

            def bind(v, s):
                d = dict(s)
                if len(names) == 1:
                    d[names[0]] = v
                else:
                    vs = list(v)
                    if len(vs) != len(names):
                        raise ValueError('not enough values to unpack')
                    d.update(zip(names, vs))
                return d

            def go(e, s):
                items = list(src(e, s))
                if cond:
                    items = [v for v in items if cond(e, bind(v, s))]
                if not items and other:
                    return other(e, s)
                lp = Loop(len(items))
                out = []
                for i, v in enumerate(items):
                    d = bind(v, s)
                    lp.i = i
                    d['loop'] = lp
                    out.append(body(e, d))
                return ''.join(out)
            return go
        if w == 'set':
            n = q.name()
            if q.take('='):
                x = q.tuple_()
                q.done()
            else:
                b, _, _ = block('endset')
                x = run(b)

            def go(e, s):
                s[n] = x(e, s)
                return ''
            return go
        if w == 'macro':
            n = q.name()
            q.need('(')
            params = []
            while not q.peek(')'):
                pn = q.name()
                params.append((pn, q.expr() if q.take('=') else None))
                if not q.take(','):
                    break
            q.need(')')
            b, _, _ = block('endmacro')
            body = run(b)

            def go(e, s):
                def call(*a, **k):
                    d = dict(s)
                    for i, (pn, df) in enumerate(params):
                        d[pn] = a[i] if i < len(a) else k[pn] if pn in k else df(e, s) if df else e.undef(pn)
                    return body(e, d)
                s[n] = call
                return ''
            return go
        if w == 'include':
            x = q.expr()
            return lambda e, s: e.get_template(x(e, s)).body(e, s)
        if w in ('with',):
            sets = []
            while q.p < len(q.t):
                n = q.name()
                q.need('=')
                sets.append((n, q.expr()))
                q.take(',')
            b, _, _ = block('endwith')
            body = run(b)

            def go(e, s):
                d = dict(s)
                for n, x in sets:
                    d[n] = x(e, s)
                return body(e, d)
            return go
        if w == 'raw':
            raise Undecided('template statement raw')
        if w in ('block',):
            q.name()
            b, _, _ = block('endblock')
            return run(b)
        if w in ('elif', 'else', 'endif', 'endfor', 'endset', 'endmacro'):
            raise TemplateSyntaxError('unexpected %s' % w)
        raise Undecided('template statement %s' % w)
    body, _, _ = block()
    return run(body)


class Template:
    def __init__(self, src, env=None, name=None):
        self.env = env or Environment()
        self.name = name
        if not self.env.keep_trailing_newline and src.endswith('\n'):
            src = src[:-1]
        self.body = parse(split(src, self.env), self.env)

    def render(self, *a, **k):
        d = dict(self.env.globals)
        for x in a:
            d.update(x)
        d.update(k)
        self.env.current = self.name
        return self.body(self.env, d)


class FileSystemLoader:
    def __init__(self, searchpath, encoding='utf-8', followlinks=False):
        self.paths = [searchpath] if isinstance(searchpath, (str,)) or hasattr(searchpath, '__fspath__') else list(searchpath)


class Environment:
    rec = None          # names of templates read, and names the templates lacked

    def __init__(self, loader=None, trim_blocks=False, lstrip_blocks=False, keep_trailing_newline=False, undefined=Undef, autoescape=False, extensions=(), **k):
        if k:
            raise Undecided('jinja2 option %s' % sorted(k)[0])
        self.loader, self.trim_blocks, self.lstrip_blocks, self.keep_trailing_newline = loader, trim_blocks, lstrip_blocks, keep_trailing_newline
        self.undefined = undefined
        self.globals = {'range': range, 'dict': dict}
        self.filters = Filters()
        self.tests = {}
        self.cache = {}
        self.current = None

    def get_template(self, name, *a, **k):
        if isinstance(name, Template):
            return name
        if name not in self.cache:
            parts = name.split('/')
            if '..' in parts:
                raise TemplateNotFound(name)
            for p in self.loader.paths:
                f = self.fs.key(posixpath.join(str(p), name))
                if self.fs.exists(f) and not self.fs.isdir(f):
                    self.cache[name] = Template(self.fs.open(f).read(), self, name)
                    break
            else:
                raise TemplateNotFound(name)
        return self.cache[name]

    def from_string(self, s, *a, **k):
        return Template(s, self, '<string>')

    def undef(self, name):
        return self.undefined(name)

    def lookup(self, n, s):
        if n in s:
            return s[n]
        if self.rec is not None:
            self.rec.append((self.current, n))
        return self.undef(n)

    def attr(self, o, n):
        try:
            return getattr(o, n)
        except AttributeError:
            try:
                return o[n]
            except (TypeError, LookupError, AttributeError):
                if self.rec is not None:
                    self.rec.append((self.current, n))
                return self.undef(n)

    def item(self, o, n):
        if isinstance(o, Undef):
            return o[n]
        try:
            return o[n]
        except (TypeError, LookupError, AttributeError):
            if isinstance(n, str):
                try:
                    return getattr(o, n)
                except AttributeError:
                    pass
            if self.rec is not None:
                self.rec.append((self.current, n))
            return self.undef(n)

    def text(self, v):
        return str(v)

    def filter(self, n):
        f = self.filters.get(n)
        if f is None:
            raise Undecided('template filter %s' % n)
        return f

    def test(self, n):
        f = self.tests.get(n) or TESTS.get(n)
        if f is None:
            raise Undecided('template test %s' % n)
        return f


TESTS = {'defined': lambda v: not isinstance(v, Undef), 'undefined': lambda v: isinstance(v, Undef), 'none': lambda v: v is None, 'string': lambda v: isinstance(v, str),
         'even': lambda v: v % 2 == 0, 'odd': lambda v: v % 2 == 1, 'divisibleby': lambda v, n: v % n == 0, 'sequence': lambda v: hasattr(v, '__getitem__'),
         'iterable': lambda v: hasattr(v, '__iter__'), 'number': lambda v: isinstance(v, (int, float)), 'sameas': lambda v, o: v is o,
         'equalto': lambda v, o: v == o, 'eq': lambda v, o: v == o, 'ne': lambda v, o: v != o, 'lt': lambda v, o: v < o, 'gt': lambda v, o: v > o, 'le': lambda v, o: v <= o,
         'ge': lambda v, o: v >= o, 'in': lambda v, o: v in o, 'mapping': lambda v: isinstance(v, dict)}


def default(v, d='', boolean=False):
    return d if isinstance(v, Undef) or (boolean and not v) else v


def Filters():
    def indent(s, width=4, first=False, *a):
        ls = str(s).split('\n')
        return '\n'.join((' ' * width + x if x and (i or first) else x) for i, x in enumerate(ls))
    return {'default': default, 'd': default, 'join': lambda v, s='', attribute=None: str(s).join(str(getattr(x, attribute) if attribute else x) for x in v),
            'length': len, 'count': len, 'int': lambda v, d=0: int(v), 'upper': lambda v: str(v).upper(), 'lower': lambda v: str(v).lower(),
            'replace': lambda v, a, b: str(v).replace(a, b), 'string': str, 'trim': lambda v: str(v).strip(), 'list': list, 'first': lambda v: list(v)[0],
            'last': lambda v: list(v)[-1], 'sum': lambda v, start=0: sum(v, start), 'safe': lambda v: v, 'abs': abs, 'indent': indent, 'float': lambda v: v,
            'max': max, 'min': min, 'reverse': lambda v: list(reversed(v)), 'sort': sorted,
            'map': lambda v, f=None, attribute=None: [getattr(x, attribute) for x in v] if attribute else [Filters()[f](x) for x in v],
            'capitalize': lambda v: str(v).capitalize(), 'format': lambda v, *a: str(v) % a, 'round': lambda v, n=0: round(v, n)}


def modules(fs):
    rec = []

    class Env(Environment):
        pass
    Env.fs, Env.rec = fs, rec

    class Temp(Template):
        def __init__(self, src, **k):
            Template.__init__(self, src, Env(**k), '<string>')
    m = mod('jinja2', Environment=Env, FileSystemLoader=FileSystemLoader, Template=Temp, StrictUndefined=Strict, Undefined=Undef, TemplateNotFound=TemplateNotFound,
            UndefinedError=UndefinedError, TemplateSyntaxError=TemplateSyntaxError)
    ex = mod('jinja2.exceptions', TemplateNotFound=TemplateNotFound, UndefinedError=UndefinedError, TemplateSyntaxError=TemplateSyntaxError)
    return {'jinja2': m, 'jinja2.exceptions': ex}, rec
