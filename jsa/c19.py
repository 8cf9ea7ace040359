"""C19: members of sorted objects are ordered by their keys.

The function that attaches a member to an object that keeps its members sorted is interpreted for a list of any length whose members
are in ascending order of their keys; comparisons of keys are nondeterministic and recorded.  At the insertion, the key of the member
before the place of insertion is known not to be greater, and that of the one after it not to be less, so that the order is kept; the
new member has the given key and value, and nothing else of the list changes."""
from common import *
from nodes import NodeWorld


class Mon:
    def __init__(self, c):
        self.c = c

    def on_insert(self, eng, st, ins, fn, ck, pos, src):
        if ck != (self.c.obj, self.c.listoff):
            return
        if src is None:
            raise AnalysisBroken('C19: several members are inserted at once')
        it = models.load_it(eng, st, pos)[0][1]
        q = st.mem[ck[0]].cells.get(ck[1])
        if q[1] == 'fin':
            if q[2]:
                raise AnalysisBroken('C19: insertion into a list that was changed before')
            return self.place(eng, st, None, None, src)
        p = it[2]
        if p == 'end':
            return self.back(eng, st, src)
        if isinstance(p, (int, tuple)) and not isinstance(p, Id):
            raise AnalysisBroken('C19: position of an insertion')
        self.at(eng, st, p, src)

    def at(self, eng, st, p, src):
        cells = st.mem[p].cells
        prev = None if cells.get('first') == TRUE else cells.get('prev', 'unknown')
        if prev == 'unknown' or cells.get('any') == TRUE:
            n = len(eng.violations)
            self.place(eng, st, None, ('p', p, 0), src)
            if len(eng.violations) > n:
                return
            raise AnalysisBroken('C19: the list is not searched from its beginning')
        end = models.end_known(eng, st, p)
        self.place(eng, st, prev, None if end else ('p', p, 0), src)

    def on_push(self, eng, st, ins, fn, ck, src):
        if ck == (self.c.obj, self.c.listoff):
            if fn.qual.endswith('front'):
                q = st.mem[ck[0]].cells.get(ck[1])
                if q[1] == 'fin' and not q[2]:
                    return self.place(eng, st, None, None, src)
                return self.at(eng, st, models.first_slot(eng, st, ck[0], ck[1], fn), src)
            return self.back(eng, st, src)

    def back(self, eng, st, src):
        q = st.mem[self.c.obj].cells.get(self.c.listoff)
        if q[1] == 'fin' and not q[2]:
            return self.place(eng, st, None, None, src)
        for k, o in st.mem.items():
            if o.cells.get('end') == TRUE and ('prev' in o.cells or o.cells.get('first') == TRUE):
                return self.place(eng, st, None if o.cells.get('first') == TRUE else o.cells['prev'], None, src)
        self.c.rep(st, 'a member is appended without having been compared with the last one')

    def on_erase(self, eng, st, ins, fn, ck, pos):
        if ck == (self.c.obj, self.c.listoff):
            self.c.rep(st, 'a member is removed while another is attached')

    def on_clear(self, eng, st, ins, fn, ck):
        if ck == (self.c.obj, self.c.listoff):
            self.c.rep(st, 'a member is removed while another is attached')

    def key(self, eng, st, slot):
        for s, v in eng.load(st, slot, PTR):
            return tuple(models.get_s(eng, s, eng.rebind(s, v)[1], self.c.keyoff))

    def less(self, eng, st, a, b):
        """value of a < b, if known"""
        v = st.facts.get(('slt', a, b))
        if v is None:
            return None
        vs = eng.values_of(st, eng.rebind(st, v))
        return bool(min(vs)) if vs is not None and len(vs) == 1 else None

    def place(self, eng, st, prev, nxt, src):
        c = self.c
        m = st.mon
        if m[1]:
            return c.rep(st, 'a member is attached twice')
        st.mon = ('A', 1)
        r = [eng.rebind(s, v) for s, v in eng.load(st, src, PTR)]
        x = r[0]
        if x[0] != 'p' or x[2] != 0 or not (eng.class_of(st, x[1]) or frozenset()) <= c.p.ENTRY:
            return c.rep(st, 'something that is not a member is attached')
        key = tuple(models.get_s(eng, st, x[1], c.keyoff))
        if key != c.key:
            return c.rep(st, 'the member attached has another key')
        if st.mem[x[1]].cells.get(c.valoff) != c.val:
            return c.rep(st, 'the member attached has another value')
        if st.mem[x[1]].cells.get(c.paroff) != ('p', c.obj, 0):
            return c.rep(st, 'the member attached has another parent')
        c.n['places'] += 1
        for slot, before in ((prev, True), (nxt, False)):
            if slot is None:
                continue
            k = self.key(eng, st, slot)
            lo, hi = (k, key) if before else (key, k)
            if lo == hi or st.facts.get(('seq', lo, hi)) is True or st.facts.get(('seq', hi, lo)) is True:
                continue
            if self.less(eng, st, lo, hi) is True or self.less(eng, st, hi, lo) is False:
                continue
            c.rep(st, 'a member is attached %s one whose key %s' % (
                'after' if before else 'before', 'is not known to be less' if before else 'is not known to be greater'))
            return

    def step(self, st, pos, nv, inc):
        if not inc:
            return
        st.wobj(nv).cells['prev'] = ('p', pos, 0)
        st.wobj(pos).cells.pop('prev', None)


class Check:
    def __init__(self):
        self.p = p = prog()
        ent = demangle_ti(sorted(p.ENTRY)[0])
        self.valoff, self.keyoff = p.di.off(ent, 'value'), p.di.off(ent, 'key')
        self.paroff = p.di.off('JSonElement', 'parent')
        self.sorted = [t for t in sorted(p.OBJECT) if 'Sorted' in p.classes[t]]
        self.listoff = [o for n, (o, t) in p.di.members(demangle_ti(sorted(p.ARRAY)[0])).items() if n.startswith('base:list<')][0]
        self.n = dict(places=0, classes=0)
        if not self.sorted:
            raise AnalysisBroken('C19: sorted object class not found')

    def rep(self, st, msg):
        self.eng.report(st, 'order', msg, key=('order', msg))

    def target(self, ti):
        """the function that attaches a member to an object of this class"""
        p = self.p
        base = p.mod.one('JSonObject::push')
        slots = p.mod.vtable_slots('_ZTI10JSonObject')[0]
        ix = [i for i, s in enumerate(slots) if s[1] == ('g', base.name)]
        if len(ix) != 1:
            raise AnalysisBroken('C19: JSonObject::push is not virtual')
        s = p.mod.vtable_slots(ti)[0][ix[0]]
        return p.mod.func(s[1][1])

    def go(self):
        p = self.p
        eng = self.eng = Engine(p.mod, p.di, name='C19')
        eng.mon = Mon(self)
        eng.step_hook = eng.mon.step
        self.world = NodeWorld(p, eng)
        for ti in self.sorted:
            fn = self.target(ti)
            self.n['classes'] += 1
            st = State()
            st.mon = ('A', 0)
            self.obj = self.world.new(st, [ti])
            st.mem[self.obj].cells[self.listoff] = ('Q', 'lazy', eng.new_id('q'), None)
            v = self.world.new(st, p.VALUE)
            self.val = ('p', v, 0)
            ks = eng.new_obj(st, 'heap')
            self.key = (eng.atom('newkey'),)
            models.put_s(eng, st, ks, 0, self.key)
            st2 = st.copy()
            st2.wobj(self.obj).cells[self.listoff] = ('Q', 'fin', ())
            eng.keep_mem = (self.obj, v, ks)
            for s in (st, st2):
                eng.push(s, fn, [('p', self.obj, 0), ('p', ks, 0), self.val])
            for x in eng.run([st, st2]):
                if x.kind == 'throw' and x.ti == '_ZTISt9bad_alloc':
                    continue
                if x.kind != 'ret':
                    self.rep(x.state, 'attaching a member ends with an exception')
                elif x.state.mon[1] != 1:
                    self.rep(x.state, 'the member is not attached')
        return self


def check(tier):
    c = Check().go()
    eng = c.eng
    if not eng.violations and c.n['places'] < 3:
        raise AnalysisBroken('C19: only %r' % c.n)
    return dict(violations=list(eng.violations.values()),
                coverage=dict(sorted_classes=c.n['classes'], insertions=c.n['places'], functions=sorted(eng.analysed),
                              functions_analysed=len(eng.analysed), paths=eng.stats['paths'], steps=eng.stats['steps']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['std::string and std::list behave as modelled', 'keys of an object are distinct (C02)'])
