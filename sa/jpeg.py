"""Summary of the libjpeg decompressor for an image of known extents and unknown pixels."""
from .flow import *
from . import term as X


class Jpeg:
    def __init__(self, flow, run):
        self.f, self.run = flow, run
        self.img = run.case.jpeg          # (height, width, components)
        self.state = {}
        self.pool = []
        self.off = {}
        for n in run.lib.mod.fns:
            if n.startswith('E_joff__'):
                q = Flow(run.lib, n)
                q.run()
                self.off[n[8:]] = q.ret
        for n, m in (('jpeg_std_error', self.std_error), ('jpeg_CreateDecompress', self.create), ('jpeg_stdio_src', self.src),
                     ('jpeg_read_header', self.header), ('jpeg_start_decompress', self.start), ('jpeg_read_scanlines', self.lines),
                     ('jpeg_finish_decompress', self.finish), ('jpeg_destroy_decompress', self.destroy), ('jpeg_abort_decompress', self.abort),
                     ('jpeg_destroy', self.destroy), ('@alloc_sarray', self.sarray)):
            flow.hooks[n] = (lambda mm: lambda fl, ins, d: mm(ins, [fl.val(o) for o in d.get('ops', [])]))(m)

    def put(self, p, name, v, size, ins):
        self.f.store(Pt(p.o, p.f + self.off[name]), v, size, ins)

    def get(self, p, name):
        return self.f.load(Pt(p.o, p.f + self.off[name]), 4, 'i32', None)

    def at(self, p, ins, what, states):
        if type(p) is not Pt or self.f.cond() is not True:
            raise Undecided('decompressor under a condition at ' + ins.where())
        s = self.state.get(p.o, 'none')
        if s not in states:
            self.f.ev('jpeg-state', ins, '%s while %s' % (what, s))
            raise Undecided('decompressor used out of order at ' + ins.where())

    def std_error(self, ins, a):
        self.f.kill(a[0])
        return a[0]

    def create(self, ins, a):
        self.at(a[0], ins, 'jpeg_create_decompress', ('none', 'destroyed'))
        self.state[a[0].o] = 'created'
        self.created = (a[0].o, ins)
        mem = Obj('jpeg memory manager', 'arg', self.off['memsize'], init={self.off['alloc_sarray']: Pt(self.f.gobj('@@alloc_sarray'))})
        self.put(a[0], 'mem', Pt(mem), 8, ins)

    def src(self, ins, a):
        self.at(a[0], ins, 'jpeg_stdio_src', ('created',))
        fl = self.run.file
        if type(a[1]) is Pt and a[1].o.kind == 'null':
            self.f.ev('stream-null', ins, 'jpeg_stdio_src')
        elif not (type(a[1]) is Pt and a[1].o is fl.obj):
            raise Undecided('unknown stream at ' + ins.where())
        elif fl.state != 'open':
            self.f.ev('stream-closed', ins, 'jpeg_stdio_src')
        self.state[a[0].o] = 'source'

    def need_open(self, ins, what):
        if self.run.file.state != 'open':
            self.f.ev('stream-closed', ins, what)

    def header(self, ins, a):
        self.at(a[0], ins, 'jpeg_read_header', ('source',))
        self.need_open(ins, 'jpeg_read_header')
        h, w, c = self.img
        self.put(a[0], 'image_width', w, 4, ins)
        self.put(a[0], 'image_height', h, 4, ins)
        self.put(a[0], 'num_components', c, 4, ins)
        self.put(a[0], 'out_color_space', {3: 2, 4: 4}.get(c, 1), 4, ins)
        self.put(a[0], 'jpeg_color_space', {3: 3, 4: 4}.get(c, 1), 4, ins)
        self.state[a[0].o] = 'header'
        return 1

    def start(self, ins, a):
        self.at(a[0], ins, 'jpeg_start_decompress', ('header',))
        h, w, c = self.img
        cs = self.f.load(Pt(a[0].o, a[0].f + self.off['out_color_space']), 4, 'i32', ins)
        self.comps = {1: 1, 2: 3}.get(cs, c) if type(cs) is int else c
        for n, v in (('output_width', w), ('output_height', h), ('output_components', self.comps), ('out_color_components', self.comps), ('output_scanline', 0)):
            self.put(a[0], n, v, 4, ins)
        self.state[a[0].o] = 'started'
        self.line = 0
        return 1

    def sarray(self, ins, a):
        if type(a[2]) is not int or type(a[3]) is not int:
            raise Undecided('size of a row buffer')
        rows = Obj('jpeg rows', 'arg', 8 * a[3])
        rows.init = {'esz': 8}
        for i in range(a[3]):
            r = Obj('jpeg row', 'arg', a[2])
            rows.init[8 * i] = Pt(r)
            self.pool.append(r)
        self.pool.append(rows)
        return Pt(rows)

    def lines(self, ins, a):
        self.at(a[0], ins, 'jpeg_read_scanlines', ('started',))
        self.need_open(ins, 'jpeg_read_scanlines')
        h, w, c = self.img
        if self.line >= h:
            return 0
        row = self.f.load(a[1], 8, 'ptr', ins)
        if type(row) is not Pt:
            raise Undecided('row buffer')
        from .stdio import put
        put(self.f, row, [self.px(self.line, x, k) for x in range(w) for k in range(self.comps)], ins)
        self.line += 1
        self.put(a[0], 'output_scanline', self.line, 4, ins)
        return 1

    def px(self, y, x, k):
        h, w, c = self.img
        return X.inp('byte:file', (y * w + x) * max(3, c) + (k if c >= 3 else 0))

    def finish(self, ins, a):
        self.at(a[0], ins, 'jpeg_finish_decompress', ('started',))
        if self.line < self.img[0]:
            self.f.ev('jpeg-state', ins, 'jpeg_finish_decompress after %d of %d lines' % (self.line, self.img[0]))
        self.state[a[0].o] = 'finished'
        return 1

    def abort(self, ins, a):
        self.state[a[0].o] = 'finished'

    def destroy(self, ins, a):
        self.at(a[0], ins, 'jpeg_destroy_decompress', ('created', 'source', 'header', 'started', 'finished'))
        self.state[a[0].o] = 'destroyed'
        for o in self.pool:
            self.f.freed[o] = 'yes'
