"""C01: the non-interactive writer prints exactly the tree (structure, punctuation, quoting)."""
from common import *
from nodes import NodeWorld

LIT = {'Null': 'null', 'bool': 'true/false'}


class WriterMon:
    """st.mon = ('W', phase, main-node id, extra...)"""

    def __init__(self, chk):
        self.c = chk

    # -- helpers
    def bad(self, eng, st, rule, msg):
        eng.report(st, rule, msg)
        st.mon = ('W', 'error', st.mon[2], None)

    def on_output(self, eng, st, q, segs):
        if not (q[1] == self.c.out):
            return None
        cur = [st]
        for g in segs:
            nxt = []
            for s in cur:
                if g[0] == 'k':
                    c2 = [s]
                    for ch in g[1]:
                        c2 = [y for x in c2 for y in self.char(eng, x, ch)]
                    nxt += c2
                else:
                    nxt += self.piece(eng, s, g)
            cur = nxt
        return cur

    def kinds(self, st, k):
        p = self.c.p
        cls = st.mem[k].cls
        out = set()
        for t in cls:
            out.add('obj' if t in p.OBJECT else 'arr' if t in p.ARRAY else 'ent' if t in p.ENTRY else
                    'str' if t in p.STRING else 'prim')
        return out

    def char(self, eng, st, ch):
        _, ph, node, ex = st.mon
        c = chr(ch)
        if ph == 'error':
            return [st]
        ws = c in ' \t\n\r'
        if ph in ('V', 'I0', 'I+', 'M', 'CV', 'CM', 'colon', 'D', 'Icomma') and ws:
            return [st]
        name = {'V': 'a value', 'I0': 'the first child or the closing bracket', 'I+': 'a comma or the closing bracket',
                'M': 'an object member', 'CV': 'a comma', 'CM': 'a comma', 'colon': '":"', 'D': 'nothing more',
                'S2': 'the closing quote', 'S1': 'the string text', 'K1': 'the key text', 'K2': 'the closing quote of the key',
                'Icomma': 'the next child'}
        if ph == 'V':
            ks = self.kinds(st, node)
            if c == '"' and ks == {'str'}:
                st.mon = ('W', 'S1', node, ex)
                return [st]
            if c == '[' and ks == {'arr'} or c == '{' and ks == {'obj'}:
                st.mon = ('W', 'I0', node, ex)
                return [st]
            self.bad(eng, st, 'value-start', 'writes %r where the value of a %s must start' % (c, '/'.join(sorted(ks))))
            return [st]
        if ph == 'CV' and c == ',':
            st.mon = ('W', 'V', node, ex)
            return [st]
        if ph == 'CM' and c == ',':
            st.mon = ('W', 'M', node, ex)
            return [st]
        if ph == 'M' and c == '"':
            st.mon = ('W', 'K1', node, ex)
            return [st]
        if ph == 'K2' and c == '"':
            st.mon = ('W', 'colon', node, ex)
            return [st]
        if ph == 'colon' and c == ':':
            v = self.entry_value(eng, st, node)
            st.mon = ('W', 'V', v, ('entry', node))
            return [st]
        if ph == 'S2' and c == '"':
            st.mon = ('W', 'D', node, ex)
            return [st]
        if ph in ('I0', 'I+') and c in ']}':
            ks = self.kinds(st, node)
            if ks != ({'arr'} if c == ']' else {'obj'}):
                self.bad(eng, st, 'bracket-kind', 'closes a %s with %r' % ('/'.join(sorted(ks)), c))
                return [st]
            if not self.exhausted(st, node, ph):
                self.bad(eng, st, 'child-missing', 'the container is closed before all of its children were written')
                return [st]
            st.mon = ('W', 'D', node, ex)
            return [st]
        if ph == 'I+' and c == ',':
            st.mon = ('W', 'Icomma', node, ex)
            return [st]
        self.bad(eng, st, 'punctuation', 'writes %r where %s is expected' % (c, name.get(ph, ph)))
        return [st]

    def entry_value(self, eng, st, node):
        r = eng.load(st, ('p', node, self.c.valoff), PTR)
        return r[0][1][1]

    def exhausted(self, st, node, ph):
        return 'endseen' in st.mem[node].cells and st.mem[node].cells['endseen'] == TRUE

    def piece(self, eng, st, g):
        _, ph, node, ex = st.mon
        if ph == 'error':
            return [st]
        if g[0] == 'rep':
            vs = eng.values_of(st, g[1])
            if vs and vs <= {32, 9, 10, 13} and ph in ('V', 'I0', 'I+', 'M', 'CV', 'CM', 'colon', 'D', 'Icomma'):
                return [st]
            self.bad(eng, st, 'punctuation', 'writes repeated characters in phase %s' % ph)
            return [st]
        o = st.mem[node]
        if g[0] == 'a':
            if ph == 'V' and self.kinds(st, node) == {'prim'} and o.cells.get('id:text') == g:
                st.mon = ('W', 'D', node, ex)
                return [st]
            if ph == 'S1' and o.cells.get('id:text') == g:
                self.c.raw.setdefault('string value', eng.where(st)[0])
                st.mon = ('W', 'S2', node, ex)
                return [st]
            if ph == 'K1' and o.cells.get('id:key') == g:
                self.c.raw.setdefault('object key', eng.where(st)[0])
                st.mon = ('W', 'K2', node, ex)
                return [st]
            what = 'some text'
            for k2, o2 in st.mem.items():
                for w in ('text', 'key'):
                    if o2.cells.get('id:' + w) == g:
                        what = 'the %s of %s' % (w, 'this node' if k2 == node else 'another node') + (
                            ' (kind %s)' % '/'.join(sorted(self.kinds(st, k2))) if o2.cls else '')
            self.bad(eng, st, 'text', 'writes %s where phase %s is expected' % (what, ph))
            return [st]
        if g[0] == 'num' and ph == 'V':
            v = g[1]
            if any(x == v for kk, x in o.cells.items() if isinstance(kk, int)) and self.kinds(st, node) == {'prim'}:
                st.mon = ('W', 'D', node, ex)
                return [st]
        if g[0] == 'ch':
            vs = eng.values_of(st, g[1])
            if vs is not None and len(vs) <= 4:
                out = []
                for v in sorted(vs):
                    s2 = st.copy()
                    for s3, b in eng.split(s2, eng.mk('icmp eq', 1, g[1], C(v, 8))):
                        if b:
                            out += self.char(eng, s3, v)
                return out
        self.bad(eng, st, 'text', 'writes %r in phase %s' % (g[0], ph))
        return [st]

    # -- child iteration
    def step(self, st, pos, nv, inc):
        if st.mon is None:
            return
        node = st.mon[2]
        n = st.mem[nv].cells.get(0)
        mark = st.mem[pos].cells.get('done') if pos in st.mem else None
        if inc and mark == TRUE:
            st.wobj(nv).cells['exp'] = TRUE

    def end(self, st, slot):
        if st.mon is None:
            return
        _, ph, node, ex = st.mon
        c = st.mem[slot].cells
        if c.get('first') == TRUE or c.get('exp') == TRUE:
            n = c.get(0)
            if n is not None and st.mem[n[1]].cells.get('owner') == ('p', node, 0):
                st.wobj(node).cells['endseen'] = TRUE

    # -- recursion
    def on_call(self, eng, st, ins, fn, q, args):
        if fn.declared or not fn.is_repo():
            return None
        if not any(f.fn is fn for f in st.frames):
            return None
        for a in args:
            if a[0] == 'p' and self.c.world.is_node(st, a[1]):
                return self.cut(eng, st, ins, fn, args, a[1])
        return None

    def cut(self, eng, st, ins, fn, args, child):
        _, ph, node, ex = st.mon
        if ph == 'error':
            return [(st, UNDEF)]
        o = st.mem[child]
        slot = o.cells.get('slot')
        if ph == 'V' and child == node:
            # the value of this entry, written by a recursive call
            self.spawn(eng, st, fn, args, child, 'V')
            st.mon = ('W', 'D', node, ex)
            return [(self.havoc(eng, st, args), UNDEF)]
        if ph not in ('I0', 'I+', 'Icomma'):
            self.bad(eng, st, 'order', 'a child is written in phase %s' % ph)
            return [(st, UNDEF)]
        if slot is None or o.cells.get('owner') != ('p', node, 0):
            self.bad(eng, st, 'order', 'a node that is not a child of the container being written is written inside it')
            return [(st, UNDEF)]
        sc = st.mem[slot[1]].cells
        first = sc.get('first') == TRUE
        if ph == 'I0' and not first or ph != 'I0' and sc.get('exp') != TRUE:
            self.bad(eng, st, 'order', 'a child is skipped, repeated or written out of order')
            return [(st, UNDEF)]
        st.wobj(slot[1]).cells['done'] = TRUE
        st.wobj(slot[1]).cells.pop('exp', None)
        ent = self.kinds(st, node) == {'obj'}
        start = ('M' if ent else 'V') if ph in ('I0', 'Icomma') else ('CM' if ent else 'CV')
        self.spawn(eng, st, fn, args, child, start)
        st.mon = ('W', 'I+', node, ex)
        return [(self.havoc(eng, st, args), UNDEF)]

    def havoc(self, eng, st, args):
        for a in args:
            if a[0] == 'p' and not self.c.world.is_node(st, a[1]) and st.mem[a[1]].kind in ('alloca', 'lazy', 'heap'):
                w = st.wobj(a[1])
                for off, v in list(w.cells.items()):
                    if isinstance(off, int) and v[0] in ('c', 'e', 'y', 'o') and eng.width(v) < 64:
                        w.cells[off] = eng.sym(st, 8, (0, 1), 'hv') if eng.width(v) == 8 else eng.opaque(eng.width(v), 'hv')
        return st

    def spawn(self, eng, st, fn, args, child, start):
        p = self.c.p
        for ti in sorted(st.mem[child].cls):
            s = st.copy()
            s.frames = []
            s.wobj(child).cls = frozenset([ti])
            s.wobj(child).cells = {k: v for k, v in s.mem[child].cells.items() if str(k).startswith('id:')}
            vals = [None]
            if ti in p.ENTRY:
                vals = sorted(p.VALUE)
            for vt in vals:
                s2 = s.copy()
                if vt is not None:
                    v = self.c.world.new(s2, [vt], owner=('p', child, 0))
                    s2.wobj(child).cells[self.c.valoff] = ('p', v, 0)
                s2.mon = ('W', start, child, None)
                self.c.enqueue(eng, s2, fn, args, child)


class Check:
    def __init__(self):
        self.p = prog()
        self.out = None
        self.raw = {}
        self.queue, self.seen = [], set()
        self.obl = 0
        self.nprim = 0
        self.samples = []

    def primitives(self):
        """constructors of the primitive classes: the text kept for output is the JSON text of the value"""
        p, out = self.p, []
        for ti in sorted(p.PRIM):
            nm = demangle_ti(ti)
            cands = [f for f in p.mod.find('JSonPrimitive::JSonPrimitive') if '_Z' in f.name and
                     f.name.startswith('_ZN' + ti[4:] + 'C')]
            if not cands:
                raise AnalysisBroken('constructor of %s not found' % nm)
            fn = cands[0]
            eng = Engine(p.mod, p.di, name='C01')
            st = State()
            obj = eng.new_obj(st, 'heap', size=200)
            mem = p.di.members(p.didesc(ti))
            val = eng.new_obj(st, 'lazy', lazy='any')
            isb = nm.endswith('<bool>')
            if isb:
                st.mem[val].cells[0] = eng.sym(st, 8, (0, 1), 'b')
            eng.push(st, fn, [('p', obj, 0), NULL, ('p', val, 0)])
            n = 0
            for x in eng.run([st]):
                n += 1
                if x.kind != 'ret':
                    eng.report(x.state, 'primitive-text', 'constructor of %s does not return' % nm)
                    continue
                s = x.state
                g = models.get_s(eng, s, obj, mem['stringValue'][0])
                v = s.mem[val].cells.get(0)
                want = None
                if nm.endswith('<string>'):
                    want = models.get_s(eng, s, val, 0)
                elif nm.endswith('<Null>'):
                    want = (('k', b'null'),)
                elif isb:
                    vs = eng.values_of(s, v)
                    want = (('k', b'true' if vs == {1} else b'false'),) if vs and len(vs) == 1 else None
                elif nm.endswith('<double>'):
                    want = (('fnum', v),)
                else:
                    want = (('num', v, 's'),)
                if g != want:
                    fe = g and g[0][0] == 'fnum'
                    eng.report(s, 'primitive-text', 'the output text of a %s is %r, not the JSON text of its value (%r)' % (
                        nm, g, want), key=('pt', nm, repr(g)))
                elif nm.endswith('<double>'):
                    pass
            if not n:
                raise AnalysisBroken('constructor of %s: no path' % nm)
            self.nprim += 1
            out += eng.violations.values()
        return out

    def enqueue(self, eng, st, fn, args, child):
        nargs = []
        for a in args:
            nargs.append(a)
            if a[0] == 'p' and not self.world.is_node(st, a[1]) and st.mem[a[1]].kind in ('alloca', 'heap'):
                w = st.wobj(a[1])
                for off, v in list(w.cells.items()):
                    if isinstance(off, int) and v[0] in ('c', 'e') and eng.width(v) in (16, 32, 64) and v != NULL:
                        w.cells[off] = eng.opaque(eng.width(v), 'w')
                w.kind = 'heap'
        # forget every fact: the run starts from an arbitrary context
        keep = set()

        def ids(v):
            if isinstance(v, Id):
                keep.add(v)
            elif isinstance(v, tuple):
                for x in v:
                    ids(x)
        for a in nargs:
            ids(a)
        ids(st.mon)
        st.facts, st.trace = {}, (None, 'entered %s for a %s in phase %s' % (
            fn.qual, demangle_ti(sorted(st.mem[child].cls)[0]), st.mon[1]))
        eng.push(st, fn, nargs)
        key = eng.canon(st)
        if key in self.seen:
            return
        self.seen.add(key)
        self.samples.append(st.trace[1])
        self.queue.append(st)

    def run(self):
        p = self.p
        eng = self.eng = Engine(p.mod, p.di, name='C01')
        self.world = NodeWorld(p, eng)
        mon = eng.mon = WriterMon(self)
        eng.step_hook = mon.step
        eng.end_hook = mon.end

        disp = p.mod.one('SimpleOutput::display')
        ent = sorted(p.ENTRY)[0]
        self.valoff = p.di.off(demangle_ti(ent), 'value')
        roots = []
        st0 = State()
        self.out = eng.new_obj(st0, 'lazy', lazy='any')
        par = eng.new_obj(st0, 'lazy', lazy='any', cls=frozenset(['_ZTI6Params']), di='Params')
        for ti in sorted(p.VALUE):
            s = st0.copy()
            n = self.world.new(s, [ti])
            s.mon = ('W', 'V', n, None)
            eng.push(s, disp, [('p', self.out, 0), ('p', n, 0), ('p', par, 0)])
            s.trace = (None, 'document root is a ' + demangle_ti(ti))
            self.queue.append(s)
        while self.queue:
            st = self.queue.pop()
            self.obl += 1
            for x in eng.run([st]):
                self.finish(eng, x)
        return eng

    def finish(self, eng, x):
        st = x.state
        if x.kind == 'ret':
            if st.mon[1] not in ('D', 'error'):
                eng.report(st, 'incomplete', 'returns while %s is still expected (phase %s)' % ('output', st.mon[1]),
                           key=('inc', st.mon[1], st.trace and st.trace[1]))
        elif x.kind == 'throw':
            eng.report(st, 'throws', 'writer throws ' + str(x.ti))


def check(tier):
    c = Check()
    eng = c.run()
    viol = list(eng.violations.values())
    for what, where in sorted(c.raw.items()):
        viol.append(dict(rule='raw-text', fid='raw-' + what.replace(' ', '-'), where=where,
                         message='the text of a %s is written between quotes without escaping' % what))
    viol += c.primitives()
    if c.obl < 20 or not c.raw:
        raise AnalysisBroken('writer analysis reached only %d contexts' % c.obl)
    return dict(
        violations=viol,
        coverage=dict(contexts=c.obl, functions=sorted(eng.analysed), functions_analysed=len(eng.analysed),
                      paths=eng.stats['paths'], abstract_states=eng.stats['states'], steps=eng.stats['steps'],
                      primitive_classes=c.nprim, samples=c.samples[:5]),
        explanation='Path-sensitive abstract interpretation (fixpoint over finite abstract states, LLVM IR of the current '
                    'tree) of the plain writer over a lazily materialised tree of every node kind; every character written '
                    'is fed to a JSON-grammar monitor for the node being written; recursive calls are replaced by the '
                    'contract being proved and analysed as separate contexts.',
        assumptions=['std::string/std::list/std::ostream behave as modelled in jsa/models.py',
                     'the tree is finite, acyclic and without null children (properties C02, C05)'])
