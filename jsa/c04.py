"""C04: plain output is laid out as asked: compressed without any white space, otherwise one line per element, indented by its depth.

The writer is interpreted for a root of every class and, for the recursive calls it makes, for an element of every class at some depths and
at any depth, with compression asked for or not.  Every character written apart from the texts is followed: without compression a line begins
with as many spaces as four times the depth of its element, holds something and ends before another element begins; recursive calls are made
at the beginning of a line, at the depth of the element they write, and are taken to leave the depth as it was, which is proved of every
call.  With compression no white space is written."""
from ui import *

LEVEL = 4


class Layout:
    def __init__(self):
        self.p = p = prog()
        self.eng = eng = Engine(p.mod, p.di, name='C04')
        self.world = NodeWorld(p, eng)
        eng.mon = self
        self.n = dict(contexts=0, lines=0, calls=0, compressed=0, left_out=0)
        self.queue, self.seen = [], set()
        self.off = p.di.off('SimpleOutput', 'indent')
        self.valoff = p.di.off(demangle_ti(sorted(p.ENTRY)[0]), 'value')
        eng.cuts['Params::compressed'] = self.compressed
        eng.cuts['AParams::compressed'] = self.compressed

    # st.mon = (compressed, depth, 'begin' | 'spaces' | 'line', spaces so far, node)
    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg))
        raise Stop()

    def compressed(self, eng, st, ins, fn, args):
        return [(st, C(int(st.mon[0]), ins.ty[1]))]

    def on_output(self, eng, st, q, segs):
        if q[1] != self.out:
            return None
        for g in segs:
            if g[0] == 'k':
                for ch in g[1]:
                    self.char(st, ch, C(1, 64))
            elif g[0] == 'rep':
                n = eng.rebind(st, g[2])
                vs = eng.values_of(st, g[1])
                if n == C(0, 64):
                    continue
                if not vs or len(vs) != 1:
                    raise AnalysisBroken('C04: repeated characters')
                self.char(st, next(iter(vs)), n)
            elif g[0] == 'ch':
                vs = eng.values_of(st, g[1])
                if vs and vs & {32, 9, 10, 13}:
                    raise AnalysisBroken('C04: a character that is not known')
                self.char(st, ord('x'), C(1, 64))
            else:
                if g[0] == 'a' and not self.text(st, g):
                    # made up by a loop that was not followed to its end: decided by the contexts of small depths
                    D = st.mon[1]
                    if D[0] == 'c' and D[1] < 40:
                        raise AnalysisBroken('C04: a text that is not known')
                    self.n['left_out'] += 1
                    raise Stop()
                self.char(st, ord('x'), C(1, 64))
        return None

    def text(self, st, g):
        return any(o.cells.get('id:' + w) == g for o in st.mem.values() for w in ('text', 'key'))

    def char(self, st, ch, n):
        comp, D, ph, sp, node = st.mon
        eng = self.eng
        if comp:
            if ch in (32, 9, 10, 13):
                self.rep(st, 'space', 'white space is written although compression was asked for')
            return
        if ch == 10:
            if ph != 'line':
                self.rep(st, 'blank', 'a line without anything is written')
            if n != C(1, 64):
                self.rep(st, 'blank', 'empty lines are written')
            st.mon = (comp, D, 'begin', C(0, 64), node)
            return
        if ph == 'line':
            if ch == 32 and (n != C(1, 64) or sp == C(1, 64)):
                self.rep(st, 'space', 'a line has a gap inside')
            st.mon = (comp, D, ph, C(int(ch == 32), 64), node)
            return
        if ch == 32:
            st.mon = (comp, D, 'spaces', eng.mk('add', 64, sp, eng.mk('zext', 64, n) if eng.width(n) < 64 else n), node)
            return
        if ch in (9, 13):
            self.rep(st, 'indent', 'a line is indented by something else than spaces')
        self.n['lines'] += 1
        if D[0] != 'c' and D[1] not in ids(sp, {}):
            pass        # not an expression of the depth: decided by the contexts of a known depth
        elif differs(eng, st, sp, eng.mk('mul', 64, self.wide(D), C(LEVEL, 64))):
            self.rep(st, 'indent', 'a line is not indented by the depth of its element')
        st.mon = (comp, D, 'line', C(0, 64), node)

    def wide(self, D):
        return self.eng.mk('zext', 64, D)

    # -- calls for the elements inside
    def on_call(self, eng, st, ins, fn, q, args):
        if fn.declared or not fn.is_repo() or not any(f.fn is fn for f in st.frames):
            return None
        for a in args:
            if a[0] == 'p' and self.world.is_node(st, a[1]):
                return self.cut(eng, st, fn, args, a[1])
        return None

    def depth(self, st, k):
        """levels between the element of the context and this one"""
        n, node = 0, st.mon[4]
        while k != node:
            o = st.mem[k].cells.get('owner')
            if o is None or o[0] != 'p' or not self.world.is_node(st, o[1]):
                raise AnalysisBroken('C04: an element from elsewhere')
            k = o[1]
            if st.mem[k].cls <= self.p.CONT:
                n += 1
        return n

    def cut(self, eng, st, fn, args, child):
        comp, D, ph, sp, node = st.mon
        self.n['calls'] += 1
        this = [a[1] for a in args if a[0] == 'p' and a[1] in st.mem and not self.world.is_node(st, a[1]) and self.off in st.mem[a[1]].cells]
        if not this:
            raise AnalysisBroken('C04: writer of a recursive call')
        this = this[0]
        if not comp:
            if ph != 'begin':
                self.rep(st, 'line', 'an element does not begin in a line of its own')
            want = eng.mk('add', 16, D, C(self.depth(st, child), 16))
            if differs(eng, st, eng.rebind(st, st.mem[this].cells[self.off]), want):
                self.rep(st, 'indent', 'an element is written at another depth than its own')
        for ti in sorted(st.mem[child].cls):
            for d in (C(1, 16), C(2, 16), C(5, 16), C(40, 16), C(300, 16), None) if not comp else (C(1, 16),):
                for vt in sorted(self.p.VALUE) if ti in self.p.ENTRY else [None]:
                    for flag in (0, 1):
                        self.enqueue(st, fn, args, child, this, ti, vt, d, flag)
        return [(st, UNDEF)]

    def enqueue(self, st, fn, args, child, this, ti, vt, d, flag):
        eng = self.eng
        key = (fn.name, ti, vt, d, st.mon[0], flag)
        if key in self.seen:
            return
        self.seen.add(key)
        s = st.copy()
        s.frames, s.facts, s.trace = [], {}, None
        if d is None:
            d = eng.opaque(16, 'depth')
            s.facts[('rng', d)] = (1, 60000)
        s.mem[this].kind
        w = s.wobj(this)
        w.kind = 'heap'
        w.cells[self.off] = d
        n = self.world.new(s, [ti])
        if vt is not None:
            v = self.world.new(s, [vt], owner=('p', n, 0))
            s.wobj(n).cells[self.valoff] = ('p', v, 0)
        s.mon = (st.mon[0], d, 'begin', C(0, 64), n)
        na = []
        for a in args:
            if a[0] == 'p' and a[1] == child:
                a = ('p', n, 0)
            elif a[0] != 'p' and a != NULL:
                a = C(flag, eng.width(a))
            elif a[0] == 'p' and a[1] in s.mem:
                s.wobj(a[1]).kind = 'heap'
            na.append(a)
        self.push(s, fn, na, this)

    def push(self, st, fn, args, this):
        self.eng.push(st, fn, args)
        self.queue.append((st, this))

    def run(self):
        p, eng = self.p, self.eng
        disp = p.mod.one('SimpleOutput::display')
        st0 = State()
        self.out = eng.new_obj(st0, 'lazy', lazy='any')
        par = eng.new_obj(st0, 'lazy', lazy='any', cls=frozenset(['_ZTI6Params']), di='Params')
        for comp in (False, True):
            for ti in sorted(p.VALUE):
                s = st0.copy()
                n = self.world.new(s, [ti])
                s.mon = (comp, C(0, 16), 'begin', C(0, 64), n)
                self.push(s, disp, [('p', self.out, 0), ('p', n, 0), ('p', par, 0)], None)
        while self.queue:
            st, this = self.queue.pop()
            self.n['contexts'] += 1
            self.n['compressed'] += st.mon[0]
            eng.keep_mem = (this,) if this else ()
            eng.stats['steps'] = 0
            for x in eng.run([st]):
                s = x.state
                comp, D, ph, sp, node = s.mon
                try:
                    if x.kind != 'ret':
                        self.rep(s, 'throws', 'writing an element ends with an exception')
                    if not comp and ph != 'begin':
                        self.rep(s, 'line', 'the last line of an element is not ended')
                    if this and not comp and differs(eng, s, eng.rebind(s, s.mem[this].cells[self.off]), D):
                        self.rep(s, 'depth', 'the depth is not the same after an element was written')
                except Stop:
                    pass
        return self


def check(tier):
    c = Layout().run()
    v = list(c.eng.violations.values())
    if not v and (c.n['contexts'] < 40 or c.n['lines'] < 40 or not c.n['compressed']):
        raise AnalysisBroken('C04: only %r' % c.n)
    return dict(violations=v,
                coverage=dict(c.n, functions=sorted(c.eng.analysed), functions_analysed=len(c.eng.analysed), paths=c.eng.stats['paths']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['std::string/std::ostream behave as modelled in jsa/models.py', 'documents are less than 60000 levels deep'])
