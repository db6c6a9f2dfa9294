"""Summaries of the C stream and string library for the data-flow analysis, over a file whose structure is known and
whose payload is unknown. Nothing is executed: the summaries map known bytes to known bytes and payload to leaves."""
import re
from .flow import *
from . import flow as FL
from . import term as X

EOFV = 0xffffffff
BODY = []


def byte_leaf(i):
    return X.inp('byte:file', i)


def text_leaf(i):
    return X.inp('text:file', i)


class AFile:
    """content: list of bytes; a byte is an int, a byte term, or (term, k): byte k of a four-byte value"""

    def __init__(self, content, can_open=True, write_fails=False):
        self.content = content
        self.can_open = can_open
        self.write_fails = write_fails
        self.obj = Obj('FILE', 'file', None)
        self.state = None
        self.pos = 0
        self.eof = False
        self.err = False
        self.mode = None
        self.out = []
        self.log = []
        self.reads = 0
        self.short = 0
        self.pushed = []


def cstr(lib, s):
    """a constant string argument"""
    b = s.encode() + b'\0'
    o = Obj('string "%s"' % s, 'arg', len(b), init={i: c for i, c in enumerate(b)})
    o.init['esz'] = 1
    o.grans.add(1)
    return o


def floats(vals):
    """payload of float terms as bytes"""
    out = []
    for v in vals:
        out += [(v, k) for k in range(4)]
    return out


def u32(v):
    return list((v & 0xffffffff).to_bytes(4, 'little'))


def be32(v):
    return list((v & 0xffffffff).to_bytes(4, 'big'))


def text(s):
    return list(s.encode('latin1'))


def put(flow, p, data, ins, asked=None):
    """store file bytes at p; the access is checked for everything that was asked for"""
    n = len(data) if asked is None else asked
    if n == 0:
        return
    if type(p) is PS or type(p) is not Pt:
        raise Undecided('read into an unknown place at ' + ins.where())
    flow.stores.setdefault(p.o, {}).setdefault(ins.i, (ins, flow.cond()))
    flow.nstore += 1
    ok = flow.access('write', p, n, ins)
    if p.o.kind == 'null' or type(p.f) is not int:
        return
    lim = len(data)
    if not ok and p.o.size is not None:
        lim = max(0, min(lim, p.o.size - p.f))
    m = flow.layers[-1].setdefault(p.o, {})
    i = 0
    while i < lim:
        v = data[i]
        if type(v) is tuple:
            t, k = v
            if k == 0 and i + 4 <= lim and all(type(data[i + j]) is tuple and data[i + j] == (t, j) for j in range(4)):
                s, v = 4, t
            else:
                s, v = 1, X.mk('opq', 'part of a value')
        else:
            s = 1
        p.o.grans.add(s)
        if len(p.o.grans) > 1:
            flow.split(p.o, p.f + i, s, m)
        m[p.f + i] = (s, v)
        i += s


def getstr(flow, p, ins, limit=4096):
    """bytes of a C string up to the terminator"""
    out = []
    if type(p) is not Pt:
        raise Undecided('string at an unknown place at ' + ins.where())
    if p.o.kind == 'null':
        flow.ev('null', ins, 'string')
        raise Undecided('null string')
    if p.o.kind == 'ext':
        raise Undecided('unknown string at ' + ins.where())
    while len(out) < limit:
        v = flow.load(Pt(p.o, p.f + len(out)), 1, 'i8', ins)
        if type(v) is int:
            if v == 0:
                return out
        elif not (type(v) is T and v.k == 'in' and str(v.a[0]).startswith('text:')):
            if type(v) is T and v.k in ('undef', 'opq'):
                if v.k == 'undef':
                    flow.ev('uninit-string', ins, p.o.name)
                raise Undecided('string with unknown content at ' + ins.where())
            raise Undecided('string with payload at ' + ins.where())
        out.append(v)
    raise Undecided('string without end')


def conststr(flow, p, ins):
    s = getstr(flow, p, ins)
    if not all(type(c) is int for c in s):
        raise Undecided('string with payload at ' + ins.where())
    return bytes(s).decode('latin1')


class Stdio:
    def __init__(self, flow, files):
        """files: {object of the path argument: AFile}"""
        self.f = flow
        self.files = files
        self.handles = {a.obj: a for a in files.values()}
        for n in dir(self):
            if n.startswith('c_'):
                names = [n[2:]] + {'fscanf': ['__isoc23_fscanf', '__isoc99_fscanf'], 'sscanf': ['__isoc23_sscanf', '__isoc99_sscanf'],
                                   'strtol': ['__isoc23_strtol', '__isoc23_strtoll', 'strtoll'], 'strtoul': ['__isoc23_strtoul', '__isoc23_strtoull', 'strtoull'],
                                   'fgetc': ['getc', '_IO_getc', 'getc_unlocked', 'fgetc_unlocked'], 'fputc': ['putc', '_IO_putc', 'putc_unlocked', 'fputc_unlocked'],
                                   'fread': ['fread_unlocked'], 'fwrite': ['fwrite_unlocked'], 'fopen': ['fopen64'], 'strtof': ['strtod'],
                                   'feof': ['feof_unlocked'], 'ferror': ['ferror_unlocked'], 'fseek': ['fseeko', 'fseeko64'], 'ftell': ['ftello', 'ftello64']}.get(n[2:], [])
                for k in names:
                    flow.hooks[k] = self.wrap(getattr(self, n), k)

    def wrap(self, m, name):
        def h(flow, ins, d):
            return m(ins, d, [flow.val(o) for o in d.get('ops', [])])
        return h

    def plain(self, ins):
        if self.f.cond() is not True:
            raise Undecided('stream operation under a condition on the payload at ' + ins.where())

    def handle(self, p, ins, what):
        if type(p) is int and p == 0:
            p = NULL
        if type(p) is not Pt:
            raise Undecided('unknown stream at ' + ins.where())
        if p.o.kind == 'null':
            self.f.ev('stream-null', ins, what)
            raise Undecided('stream is null')
        a = self.handles.get(p.o)
        if a is None:
            return None
        if a.state != 'open':
            self.f.ev('stream-closed', ins, what)
            raise Undecided('stream is closed')
        return a

    def benign(self, ins):
        return self.f.opq(ins.t, ins) if ins.t != 'void' else None

    # ------------------------------------------------------------- streams
    def c_fopen(self, ins, d, a):
        self.plain(ins)
        if type(a[0]) is not Pt or a[0].o not in self.files:
            raise Undecided('another file is opened at ' + ins.where())
        fl = self.files[a[0].o]
        fl.mode = conststr(self.f, a[1], ins)
        fl.opened = ins
        if not fl.can_open:
            self.f.ev('open-failed', ins, fl.mode)
            return NULL
        if fl.state == 'open':
            self.f.ev('stream-leak', fl.opened_at, 'opened again while open')
        fl.state = 'open'
        fl.opened_at = ins
        fl.pos = 0
        self.f.ev('open', ins, fl.mode)
        return Pt(fl.obj)

    def c_fclose(self, ins, d, a):
        if self.f.cond() is not True:
            raise Undecided('close under a condition on the payload at ' + ins.where())
        fl = self.handle(a[0], ins, 'fclose')
        if fl is None:
            raise Undecided('unknown stream at ' + ins.where())
        fl.state = 'closed'
        self.f.ev('close', ins, None)
        return EOFV if fl.write_fails == 'close' else 0

    def take(self, fl, n):
        r = fl.content[fl.pos:fl.pos + n]
        fl.pos += len(r)
        if len(r) < n:
            fl.eof = True
            fl.short += 1
        fl.reads += 1
        return r

    def c_fread(self, ins, d, a):
        self.plain(ins)
        fl = self.handle(a[3], ins, 'fread')
        if fl is None:
            raise Undecided('unknown stream at ' + ins.where())
        size, n = a[1], a[2]
        if type(size) is not int or type(n) is not int:
            raise Undecided('amount to read is not known at ' + ins.where())
        if size * n == 0:
            return 0
        if size * n > 1 << 24:
            self.big(a[0], size * n, ins)
        r = self.take(fl, size * n)
        put(self.f, a[0], r, ins, asked=size * n)
        return len(r) // size

    def big(self, p, n, ins):
        if type(p) is Pt and p.o.kind not in ('null', 'ext') and type(p.f) is int and p.o.size is not None and p.f + n > p.o.size:
            self.f.ev('oob', ins, ('write', p.o, p.f, n))

    def c_fgets(self, ins, d, a):
        self.plain(ins)
        fl = self.handle(a[2], ins, 'fgets')
        if fl is None or type(a[1]) is not int:
            raise Undecided('unknown stream at ' + ins.where())
        n = a[1]
        if type(a[0]) is Pt and a[0].o.kind not in ('ext',) and n > 0:
            self.f.access('write', a[0], n, ins)
        out = []
        while len(out) < n - 1:
            r = self.take(fl, 1)
            if not r:
                break
            out.append(r[0])
            if r[0] == 10:
                break
        if not out:
            return NULL
        put(self.f, a[0], out + [0], ins)
        return a[0]

    def c_fgetc(self, ins, d, a):
        self.plain(ins)
        fl = self.handle(a[0], ins, 'fgetc')
        if fl is None:
            raise Undecided('unknown stream at ' + ins.where())
        r = self.take(fl, 1)
        if not r:
            return EOFV
        return X.mk('opq', 'part of a value') if type(r[0]) is tuple else r[0]

    def c_ungetc(self, ins, d, a):
        self.plain(ins)
        fl = self.handle(a[1], ins, 'ungetc')
        if fl is None:
            raise Undecided('unknown stream at ' + ins.where())
        if type(a[0]) is int and a[0] == EOFV:
            return EOFV
        if fl.pos > 0:
            fl.pos -= 1
            fl.eof = False
            return a[0]
        return EOFV

    def c_feof(self, ins, d, a):
        fl = self.handle(a[0], ins, 'feof')
        if fl is None:
            raise Undecided('unknown stream at ' + ins.where())
        return int(fl.eof)

    def c_ferror(self, ins, d, a):
        fl = self.handle(a[0], ins, 'ferror')
        if fl is None:
            raise Undecided('unknown stream at ' + ins.where())
        return int(fl.write_fails == 'error' and bool(fl.out) and not getattr(fl, 'cleared', False))

    def c_fflush(self, ins, d, a):
        if type(a[0]) is Pt and a[0].o in self.handles:
            fl = self.handle(a[0], ins, 'fflush')
            return EOFV if fl.write_fails else 0
        return self.benign(ins)

    def c_rewind(self, ins, d, a):
        self.plain(ins)
        fl = self.handle(a[0], ins, 'rewind')
        if fl is None:
            raise Undecided('unknown stream at ' + ins.where())
        fl.pos = 0
        fl.eof = False
        fl.cleared = True

    def c_clearerr(self, ins, d, a):
        self.plain(ins)
        fl = self.handle(a[0], ins, 'clearerr')
        if fl is None:
            raise Undecided('unknown stream at ' + ins.where())
        fl.eof = False
        fl.cleared = True

    def c_fseek(self, ins, d, a):
        self.plain(ins)
        fl = self.handle(a[0], ins, 'fseek')
        if fl is None or type(a[1]) is not int or type(a[2]) is not int:
            raise Undecided('unknown position at ' + ins.where())
        off = a[1] - (1 << 64) if a[1] >> 63 else a[1]
        new = {0: 0, 1: fl.pos, 2: len(fl.content)}.get(a[2], 0) + off
        if new < 0:
            return EOFV
        fl.pos = new
        fl.eof = False
        return 0

    def c_ftell(self, ins, d, a):
        fl = self.handle(a[0], ins, 'ftell')
        return fl.pos

    # ---------------------------------------------------------------- scanning
    def scan(self, getc, unget, fmt, args, ins):
        n = 0
        i = 0
        ai = 0
        ws = ' \t\n\r\v\f'

        def skip():
            while True:
                c = getc()
                if c is None:
                    return
                if type(c) is not int or chr(c) not in ws:
                    unget()
                    return
        while i < len(fmt):
            ch = fmt[i]
            if ch in ws:
                skip()
                i += 1
                continue
            if ch != '%':
                c = getc()
                if c is None:
                    return n if n else EOFV
                if type(c) is not int or chr(c) != ch:
                    unget()
                    return n
                i += 1
                continue
            m = re.match(r'%(\*?)(\d*)(hh|h|ll|l|L|z|j|t)?([a-zA-Z%]|\[\^?[^\]]*\])', fmt[i:])
            if not m:
                raise Undecided('scan format %r at %s' % (fmt, ins.where()))
            star, width, ln, conv = m.groups()
            width = int(width) if width else None
            i += len(m.group(0))
            if conv not in ('c',) and conv[0] != '[':
                skip()
            txt = []
            if conv == 'c':
                w = width or 1
                while len(txt) < w:
                    c = getc()
                    if c is None:
                        break
                    txt.append(c)
                if len(txt) < w:
                    return n if n else EOFV
            else:
                if conv in 'diuxXo':
                    ok = '0123456789+-' + ('abcdefABCDEFxX' if conv in 'xXi' else '')
                elif conv in 'aefgAEFG':
                    ok = '0123456789+-.eEpPxXaAbBcCdDfFinftyINFTYN'
                elif conv == 's':
                    ok = None
                elif conv[0] == '[':
                    body = conv[1:-1]
                    neg = body.startswith('^')
                    body = body[1:] if neg else body
                    ok = (neg, body)
                else:
                    raise Undecided('scan format %r at %s' % (fmt, ins.where()))
                got_any = False
                while width is None or len(txt) < width:
                    c = getc()
                    if c is None:
                        break
                    got_any = True
                    if conv[0] == '[':
                        hit = type(c) is int and chr(c) in ok[1]
                        if hit == ok[0]:
                            unget()
                            break
                    elif type(c) is not int:
                        if ok is not None:
                            unget()
                            break
                    elif ok is None and chr(c) in ws or ok is not None and chr(c) not in ok:
                        unget()
                        break
                    txt.append(c)
                if not txt:
                    return n if n or got_any else EOFV
            if conv in 'diuxXo':
                s = ''.join(map(chr, txt))
                m2 = re.match(r'[+-]?(0[xX][0-9a-fA-F]+|\d+)' if conv == 'i' else r'[+-]?\d+' if conv in 'du' else r'[+-]?(0[xX])?[0-9a-fA-F]+' if conv in 'xX' else r'[+-]?[0-7]+', s)
                if not m2:
                    return n
                v = int(m2.group(0), {'x': 16, 'X': 16, 'o': 8, 'i': 0}.get(conv, 10)) if conv != 'i' or not re.match(r'[+-]?0\d', s) else int(m2.group(0), 8)
                size = {'hh': 1, 'h': 2, None: 4, 'l': 8, 'll': 8, 'z': 8, 'j': 8, 't': 8}[ln]
                if not star:
                    put(self.f, args[ai], list((v & ((1 << 8 * size) - 1)).to_bytes(size, 'little')), ins)
                    ai += 1
                    n += 1
                continue
            if conv in 'aefgAEFG':
                s = ''.join(map(chr, txt))
                v = tofloat(s)
                if v is None:
                    return n
                if not star:
                    if ln == 'l':
                        data = list(FL.F64.pack(v))
                    elif ln is None:
                        data = list(FL.F32.pack(v))
                    else:
                        raise Undecided('scan format %r at %s' % (fmt, ins.where()))
                    put(self.f, args[ai], data, ins)
                    ai += 1
                    n += 1
                continue
            if not star:
                if width is not None and conv != 'c' and type(args[ai]) is Pt and args[ai].o.kind != 'ext':
                    self.f.access('write', args[ai], width + 1, ins)
                if width is None and conv == 's':
                    self.f.ev('unbounded', ins, '%s without a width')
                put(self.f, args[ai], txt + ([] if conv == 'c' else [0]), ins)
                ai += 1
                n += 1
        return n

    def c_fscanf(self, ins, d, a):
        self.plain(ins)
        fl = self.handle(a[0], ins, 'fscanf')
        if fl is None:
            raise Undecided('unknown stream at ' + ins.where())
        fmt = conststr(self.f, a[1], ins)
        fl.reads += 1
        last = []

        def getc():
            if fl.pos >= len(fl.content):
                fl.eof = True
                fl.short += 1
                return None
            fl.pos += 1
            v = fl.content[fl.pos - 1]
            return v

        def unget():
            fl.pos -= 1
        r = self.scan(getc, unget, fmt, a[2:], ins)
        return r

    def c_sscanf(self, ins, d, a):
        s = getstr(self.f, a[0], ins)
        pos = [0]

        def getc():
            if pos[0] >= len(s):
                return None
            pos[0] += 1
            return s[pos[0] - 1]

        def unget():
            pos[0] -= 1
        return self.scan(getc, unget, conststr(self.f, a[1], ins), a[2:], ins)

    # ---------------------------------------------------------------- strings
    def c_strcmp(self, ins, d, a, n=None):
        x, y = getstr(self.f, a[0], ins), getstr(self.f, a[1], ins)
        x.append(0)
        y.append(0)
        for k in range(min(len(x), len(y)) if n is None else min(len(x), len(y), n)):
            if x[k] is y[k] or (type(x[k]) is int and type(y[k]) is int and x[k] == y[k]):
                if x[k] == 0 and type(x[k]) is int:
                    return 0
                continue
            if type(x[k]) is int and type(y[k]) is int:
                return 1 if x[k] > y[k] else EOFV
            lo = [v for v in (x[k], y[k]) if type(v) is int]
            if lo and not 32 <= lo[0] <= 126:
                big = x[k] if type(x[k]) is T else y[k]
                return 1 if big is x[k] else EOFV
            raise Undecided('comparison of text payload at ' + ins.where())
        return 0

    def c_strncmp(self, ins, d, a):
        if type(a[2]) is not int:
            raise Undecided('comparison of unknown length')
        # neither side needs a terminator inside the compared part
        for k in range(a[2]):
            x = self.f.load(Pt(a[0].o, a[0].f + k), 1, 'i8', ins) if type(a[0]) is Pt else None
            y = self.f.load(Pt(a[1].o, a[1].f + k), 1, 'i8', ins) if type(a[1]) is Pt else None
            if type(x) is int and type(y) is int:
                if x != y:
                    return 1 if x > y else EOFV
                if x == 0:
                    return 0
                continue
            if x is y and x is not None and x.k == 'in':
                continue
            k2 = [v for v in (x, y) if type(v) is int]
            t = [v for v in (x, y) if type(v) is T and v.k == 'in' and str(v.a[0]).startswith('text:')]
            if len(k2) == 1 and len(t) == 1 and not 32 <= k2[0] <= 126:
                return 1 if t[0] is x else EOFV
            raise Undecided('comparison of unknown text at ' + ins.where())
        return 0

    def c_strlen(self, ins, d, a):
        return len(getstr(self.f, a[0], ins))

    def c_strnlen(self, ins, d, a):
        return min(len(getstr(self.f, a[0], ins)), a[1])

    def c_strcspn(self, ins, d, a):
        s, r = getstr(self.f, a[0], ins), conststr(self.f, a[1], ins)
        for k, c in enumerate(s):
            if type(c) is int and chr(c) in r:
                return k
            if type(c) is not int and any(32 <= ord(z) <= 126 for z in r):
                raise Undecided('search in text payload')
        return len(s)

    def c_strchr(self, ins, d, a):
        s = getstr(self.f, a[0], ins)
        if type(a[1]) is not int:
            raise Undecided('search for an unknown character')
        z = a[1] & 255
        for k, c in enumerate(s):
            if type(c) is int and c == z:
                return Pt(a[0].o, a[0].f + k)
            if type(c) is not int and 32 <= z <= 126:
                raise Undecided('search in text payload')
        return Pt(a[0].o, a[0].f + len(s)) if z == 0 else NULL

    def c_strrchr(self, ins, d, a):
        s = getstr(self.f, a[0], ins)
        z = a[1] & 255
        if not all(type(c) is int for c in s) and 32 <= z <= 126:
            raise Undecided('search in text payload')
        for k in range(len(s) - 1, -1, -1):
            if type(s[k]) is int and s[k] == z:
                return Pt(a[0].o, a[0].f + k)
        return NULL

    def c_strcpy(self, ins, d, a):
        put(self.f, a[0], getstr(self.f, a[1], ins) + [0], ins)
        return a[0]

    def c_strncpy(self, ins, d, a):
        n = a[2]
        if type(n) is not int:
            raise Undecided('copy of unknown length')
        out = []
        for k in range(n):
            v = self.f.load(Pt(a[1].o, a[1].f + k), 1, 'i8', ins)
            if type(v) is int and v == 0:
                break
            out.append(v)
        put(self.f, a[0], out + [0] * (n - len(out)), ins)
        return a[0]

    def c_strdup(self, ins, d, a):
        s = getstr(self.f, a[0], ins) + [0]
        o = Obj('strdup@' + ins.where(), 'new', len(s))
        o.ins = ins
        o.akind = 'malloc'
        self.f.ev('alloc', ins, o)
        put(self.f, Pt(o), s, ins)
        return Pt(o)

    def c_strndup(self, ins, d, a):
        n = a[1]
        s = getstr(self.f, a[0], ins)[:n] + [0]
        o = Obj('strdup@' + ins.where(), 'new', len(s))
        o.ins = ins
        o.akind = 'malloc'
        self.f.ev('alloc', ins, o)
        put(self.f, Pt(o), s, ins)
        return Pt(o)

    def number(self, p, ins, rx):
        s = getstr(self.f, p, ins)
        t = ''.join(chr(c) if type(c) is int else '\1' for c in s)
        if '\1' in t:
            if re.match(r'\s*[+-]?\d*\1', t):
                raise Undecided('number in text payload at ' + ins.where())
        m = re.match(r'\s*' + rx, t)
        return m, t

    def c_atoi(self, ins, d, a):
        m, t = self.number(a[0], ins, r'[+-]?\d+')
        return int(m.group(0)) & ((1 << (FL.ibits(ins.t) or 32)) - 1) if m else 0

    c_atol = c_atoi

    def c_strtol(self, ins, d, a):
        base = a[2]
        if base not in (0, 10, 16):
            raise Undecided('number base')
        m, t = self.number(a[0], ins, r'[+-]?\d+' if base == 10 else r'[+-]?(0[xX])?[0-9a-fA-F]+')
        if type(a[1]) is Pt and a[1].o.kind != 'null':
            self.f.store(a[1], Pt(a[0].o, a[0].f + (m.end() if m else 0)), 8, ins)
        return int(m.group(0), base) & ((1 << (FL.ibits(ins.t) or 64)) - 1) if m else 0

    c_strtoul = c_strtol

    def c_strtof(self, ins, d, a):
        m, t = self.number(a[0], ins, r'[+-]?(0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*([pP][+-]?\d+)?|\d*\.?\d*([eE][+-]?\d+)?|inf|nan)')
        v = tofloat(m.group(0)) if m else None
        if type(a[1]) is Pt and a[1].o.kind != 'null':
            self.f.store(a[1], Pt(a[0].o, a[0].f + (m.end() if v is not None else 0)), 8, ins)
        return X.const(v if v is not None else 0.0)

    def c_atof(self, ins, d, a):
        return self.c_strtof(ins, d, [a[0], NULL])

    def c_memchr(self, ins, d, a):
        for k in range(a[2]):
            v = self.f.load(Pt(a[0].o, a[0].f + k), 1, 'i8', ins)
            if type(v) is not int:
                raise Undecided('search in payload')
            if v == a[1] & 255:
                return Pt(a[0].o, a[0].f + k)
        return NULL

    def c_isspace(self, ins, d, a):
        if type(a[0]) is int:
            return int(chr(a[0] & 255) in ' \t\n\r\v\f')
        raise Undecided('character class of payload')

    def c_isdigit(self, ins, d, a):
        if type(a[0]) is int:
            return int(chr(a[0] & 255) in '0123456789')
        raise Undecided('character class of payload')

    # ---------------------------------------------------------------- output
    def emit(self, fl, toks, ins):
        c = self.f.cond()
        for t in toks:
            fl.out.append((c, t, ins))

    def render(self, fmt, args, ins):
        out, i, ai = [], 0, 0
        while i < len(fmt):
            if fmt[i] != '%':
                out.append(ord(fmt[i]))
                i += 1
                continue
            m = re.match(r'%([-+ #0]*)(\d*)(\.\d*)?(hh|h|ll|l|L|z|j|t)?([a-zA-Z%])', fmt[i:])
            if not m:
                raise Undecided('print format %r at %s' % (fmt, ins.where()))
            fl, wd, pr, ln, conv = m.groups()
            i += len(m.group(0))
            if conv == '%':
                out.append(37)
                continue
            v = args[ai]
            ai += 1
            if conv in 'diuxXo':
                if type(v) is not int:
                    out.append(('int', conv, v))
                    continue
                w = {'hh': 8, 'h': 16, None: 32}.get(ln, 64)
                v &= (1 << w) - 1
                if conv in 'di' and v >> (w - 1):
                    v -= 1 << w
                out += [ord(c) for c in ('%' + fl + wd + (pr or '') + {'i': 'd', 'u': 'd'}.get(conv, conv)) % v]
            elif conv == 'c':
                out.append(('byte', self.byte(v)) if type(v) is not int else v & 255)
            elif conv == 's':
                out += getstr(self.f, v, ins)
            elif conv in 'aAeEfFgG':
                prec = int(pr[1:] or 0) if pr else None
                exact = conv in 'aA' and prec is None or conv in 'eE' and prec is not None and prec >= 8 or conv in 'gG' and prec is not None and prec >= 9
                out.append(('num', 'exact' if exact and not wd and not fl else 'rounded %s' % m.group(0), FL.num(self.f, v)))
            else:
                raise Undecided('print format %r at %s' % (fmt, ins.where()))
        return out

    def byte(self, v):
        return v

    def c_fprintf(self, ins, d, a):
        if not (type(a[0]) is Pt and (a[0].o in self.handles or a[0].o.kind == 'null')):
            return self.benign(ins)
        fl = self.handle(a[0], ins, 'fprintf')
        self.emit(fl, self.render(conststr(self.f, a[1], ins), a[2:], ins), ins)
        return 1 if not fl.write_fails else EOFV if fl.write_fails == 'error' else 1

    def c_fputs(self, ins, d, a):
        if not (type(a[1]) is Pt and (a[1].o in self.handles or a[1].o.kind == 'null')):
            return self.benign(ins)
        fl = self.handle(a[1], ins, 'fputs')
        self.emit(fl, getstr(self.f, a[0], ins), ins)
        return 1 if fl.write_fails != 'error' else EOFV

    def c_fputc(self, ins, d, a):
        if not (type(a[1]) is Pt and (a[1].o in self.handles or a[1].o.kind == 'null')):
            return self.benign(ins)
        fl = self.handle(a[1], ins, 'fputc')
        self.emit(fl, [a[0] & 255 if type(a[0]) is int else ('byte', a[0])], ins)
        return a[0] if fl.write_fails != 'error' else EOFV

    def c_fwrite(self, ins, d, a):
        if not (type(a[3]) is Pt and (a[3].o in self.handles or a[3].o.kind == 'null')):
            return self.benign(ins)
        fl = self.handle(a[3], ins, 'fwrite')
        if type(a[1]) is not int or type(a[2]) is not int:
            raise Undecided('amount to write is not known')
        out = []
        n = a[1] * a[2]
        self.f.access('read', a[0], n, ins)
        for k in range(n):
            v = self.f.load(Pt(a[0].o, a[0].f + k), 1, 'i8', ins)
            out.append(v if type(v) is int else ('byte', v))
        self.emit(fl, out, ins)
        return a[2] if fl.write_fails != 'error' else 0

    def c_snprintf(self, ins, d, a):
        out = self.render(conststr(self.f, a[2], ins), a[3:], ins)
        if not all(type(c) is int for c in out):
            raise Undecided('payload printed into a buffer')
        put(self.f, a[0], out[:max(0, a[1] - 1)] + [0], ins)
        return len(out)

    def c_sprintf(self, ins, d, a):
        out = self.render(conststr(self.f, a[1], ins), a[2:], ins)
        if not all(type(c) is int for c in out):
            raise Undecided('payload printed into a buffer')
        put(self.f, a[0], out + [0], ins)
        return len(out)


def tofloat(s):
    s = s.strip()
    try:
        if re.match(r'[+-]?0[xX]', s):
            return float.fromhex(s)
        return float(s)
    except ValueError:
        return None
