"""P26..P34: the importer and what it generates, decided over the abstract models of nets.py."""
from . import importer, netcheck, nets
from .p_layers import BAD, HEAP

HEAPK = tuple(HEAP) + ('use-after-free',)
MEM = tuple(BAD) + ('uninit-branch',)


def at(r, op=None):
    """(where, function) of a rejection"""
    if r.where:
        return r.where, r.fn
    return netcheck.generator_of(op) if op else ('onnx_import/backend.py', 'BackendRep._export_model')


def place(where, fn, op=None):
    w = netcheck.relpath(where or '')
    if w.startswith('generated') or not w or w == '?':
        g = netcheck.generator_of(op) if op else ('onnx_import/backend.py', 'BackendRep')
        return '%s (%s)' % (g[0], w or 'generated code'), g[1]
    return w, fn


def mainop(m):
    """the operator a one-operator model is about"""
    ops = [n[0] for n in m.nodes]
    rest = [o for o in ops if o not in ('Relu', 'Flatten', 'Reshape')]
    return (rest or ops or [''])[0]


class Judge:
    def __init__(self, rep, want):
        self.rep, self.want = rep, want

    def viol(self, rule, where, fn, msg, m, **k):
        self.rep.viol(rule, where, fn, msg, 'model "%s"' % m.label, **k)

    def one(self, m, rs):
        rep, want = self.rep, self.want
        rep.count('models')
        rep.add('operators', *[n[0] for n in m.nodes])
        for r in rs:
            rep.functions.update(r.functions)
            rep.functions.update(r.pyfns)
            rep.count('ways through the importer')
            if r.status == 'undecided':
                rep.undecided('importer not analysed: ' + r.why[:120])
                continue
            if r.status in ('reject', 'exit0'):
                rep.count('refused models')
                if m.must and 'refused' in want:
                    w, f = at(r, mainop(m))
                    rep.ob('supported model is accepted', 1, 0)
                    self.viol('refused', w, f, 'a model of supported operators is refused: %s' % r.why, m)
                elif not m.must and 'accepted' in want:
                    rep.ob('unsupported model is refused or imported correctly')
                continue
            if m.must and 'refused' in want:
                rep.ob('supported model is accepted')
            self.files(m, r)
            if r.compile is not None:
                continue
            dies = any(e[0] == 'die' and e[6] for e in r.events)
            if 'accepted' in want and not m.must:
                ok = m.ok or dies
                rep.ob('unsupported model is refused or imported correctly', 1, int(ok))
                if not ok:
                    w, f = netcheck.generator_of(m.beyond)
                    self.viol('accepted', w, f, 'a model with %s outside of what the importer implements is accepted' % (m.beyond or 'operators'), m)
            self.memory(m, r)
            self.others(m, r)
            if m.ok:
                self.values(m, r, dies)
            for u in r.und:
                rep.undecided(u[:140])

    def files(self, m, r):
        rep, want = self.rep, self.want
        if 'compile' not in want:
            return
        errs = [('network.cpp', r.compile)] if r.compile else []
        errs += [(n, e) for n, e in sorted(r.mains.items()) if e]
        rep.ob('generated unit passes the type checker', max(1, len(r.mains)), max(1, len(r.mains)) - len(errs))
        for n, e in errs:
            first = [ln for ln in e.splitlines() if 'error:' in ln][:1] or [e[:200]]
            w, f = netcheck.generator_of(mainop(m))
            if n not in ('network.cpp', 'life.cpp') and not r.compile:
                w, f = 'onnx_import/generate_dummy.py', n
            self.viol('compile', w, f, 'generated %s does not compile: %s' % (n, first[0][:240]), m)
        mi = getattr(r, 'missing', None) or []
        rep.ob('generated code only refers to functions that exist', 1, int(not mi))
        if mi:
            w, f = netcheck.generator_of(mainop(m))
            self.viol('undefined', w, f, 'generated code refers to %s, which nothing defines' % mi[0], m)

    def memory(self, m, r):
        rep, want = self.rep, self.want
        bad = 0
        for kind, where, fn, path, text, sat, unc in r.events:
            if sat is not True and kind != 'stream-leak':
                continue
            if kind in HEAPK + ('stream-leak',) and 'life' in want or kind in MEM and 'bounds' in want:
                bad += 1
                w, f = place(where, fn, mainop(m) if m.group in ('op', 'bad') else None)
                self.viol(kind, w, f, 'in the generated network: %s' % (text,), m, path=path)
        if 'life' in want:
            for where, fn, path, what in r.leaks:
                bad += 1
                w, f = place(where, fn, mainop(m) if m.group in ('op', 'bad') else None)
                self.viol('leak', w, f, 'deleting the generated network leaves %s allocated' % what, m, path=path)
        if not r.unknown or r.total:
            if 'life' in want:
                rep.ob('generated network releases what it allocates, once', 1, int(not bad))
            if 'bounds' in want:
                rep.ob('accesses of the generated network are inside of set memory', 1, int(not bad))

    def others(self, m, r):
        """weights files of other networks"""
        for what, ret, evs in r.foreign:
            if ret is None and not evs:
                continue
            ev = [e for e in evs if e[0] in MEM and e[5] is True]
            self.rep.ob('a weights file with more parameters than the network stays inside its arrays', 1, int(not ev))
            if ev:
                e = ev[0]
                w, f = place(e[1], e[2])
                self.viol(e[0], 'onnx_import/backend.py', 'BackendRep', 'a weights file with %s in addition is read past the arrays of the generated network (%s in %s: %s)' % (what, w, f, e[4]), m)

    def values(self, m, r, dies):
        rep, want = self.rep, self.want
        if 'value' not in want and 'weights' not in want:
            return
        kind = 'element of the network output equals the ONNX definition'
        if dies:
            e = [e for e in r.events if e[0] == 'die' and e[6]][0]
            if m.must:
                rep.ob(kind, r.total, 0)
                w, f = place(e[1], e[2])
                self.viol('dies', w, f, 'the generated network ends the program instead of computing its output', m, path=e[3])
            else:
                rep.count('generated networks that end with a message')
            return
        if r.diff and r.diff[0] == 'weights file':
            if m.must:
                rep.ob(kind, r.total, 0)
                self.viol('weights', 'onnx_import/backend.py', 'BackendRep._generate_weights_file', 'the reader refuses the weights file written for the network', m)
            else:
                rep.count('generated networks whose weights file is refused')
            return
        rep.ob(kind, r.equal + (1 if r.diff else 0), r.equal)
        if r.unknown:
            ev = [e for e in r.events if e[0] in MEM + ('div0',) and e[5] is True]
            if ev and not r.diff and 'value' in want:
                e = ev[0]
                w, f = place(e[1], e[2], mainop(m) if m.group in ('op', 'bad') else None)
                self.viol('value', w, f, 'the output depends on an undefined operation of the generated network (%s: %s)' % (e[0], e[4]), m, path=e[3])
            else:
                rep.undecided('output elements of unknown value', r.unknown)
        if r.diff:
            ix, got, wantv = r.diff[:3]
            op = r.node[1] if r.node else None
            w, f = netcheck.generator_of(op) if op else ('onnx_import/backend.py', 'BackendRep')
            self.viol('value', w, f, 'output element %s is %s, the model defines %s%s' % (
                list(ix), got[:160], wantv[:160], '; first node whose result no buffer holds: %s (%s)' % r.node if r.node else ''), m)


RULES = {
    'refused': 'every path of the importer over a model of supported operators and attributes ends in written files',
    'accepted': 'every path of the importer over a model outside of the supported set ends in a refusal or in a network that computes the ONNX definition',
    'compile': 'the generated units pass the front end of the compiler against the library headers (C++11)',
    'life': 'ownership analysis of a program that constructs, loads, runs twice and deletes the generated network',
    'bounds': 'every address the generated network or the library uses on its behalf lies in a live object, every value read was set',
    'value': 'value number of each output element equals the one composed from the ONNX operator definitions',
    'weights': 'the generated weights file, read by the analysed reader, puts each parameter where the network uses it',
}


def P(groups, want, rand=0, mains=False, deep=1500):
    def check(rep, tier, seed):
        for w in want:
            rep.rule(RULES[w])
        gs = list(groups)
        n = rand if tier == 'quick' else deep
        if n:
            gs.append((seed, n))
        ms = nets.group(*gs)
        j = Judge(rep, want)
        for m, rs in netcheck.run_all(ms, mains, other='bounds' in want and 'life' not in want and 'value' not in want):
            j.one(m, rs)
            if len(rep.samples) < 6 and rs and rs[0].status == 'ok':
                rep.samples.append(dict(model=m.label, nodes=[n[0] for n in m.nodes], output=rs[0].equal, status=rs[0].status))
    return check


p26 = P(('op', 'net', 'param', 'name', 'fold', 'shape', 'bad'), ('compile',), 30, True, 600)
p27 = P(('bad',), ('accepted', 'value', 'bounds', 'life'), 0, False, 0)
p28 = P(('param', 'op', 'net', 'name'), ('weights', 'value', 'bounds', 'refused'), 40)
p29 = P(('op', 'net', 'param', 'name', 'fold', 'shape', 'bad'), ('life',), 60)
p30 = P(('op', 'net', 'param', 'name', 'fold', 'shape', 'bad'), ('bounds',), 60)
p31 = P(('shape', 'op', 'net'), ('refused', 'value', 'bounds'), 60)
p32 = P(('fold', 'net'), ('refused', 'value', 'bounds', 'compile'), 30)
p33 = P(('name', 'net'), ('refused', 'value', 'compile'), 0, True, 100)
p34 = P(('op', 'net'), ('refused', 'value'), 120, False, 3000)
