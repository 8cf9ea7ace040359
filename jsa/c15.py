"""C15: a search finds every element that matches, and the next result is the one that follows the selection.

Searching is interpreted for both views from the moment the text was typed: over lazily materialised documents the elements tested, in
their order, and those recorded are compared with what the documents hold; recursive calls are replaced by the contract that is
checked for them (the subtree is searched), and analysed separately.  Going to the next result is interpreted the same way: whether the
selection was passed, whether an element is a result, and which element becomes the selection.  Opening the containers around an element
and drawing a message are interpreted for themselves."""
from ui import *

MSG_NONE, MSG_BOTTOM = b'Pattern not found', b'Search hit BOTTOM, continuing at TOP'


class Search(UI):
    def __init__(self, tier):
        super().__init__('C15')
        self.n = dict(searches=0, subtrees=0, tested=0, recorded=0, next=0, subtrees_next=0, unfolded=0, messages=0)
        eng = self.eng
        eng.mon = self
        eng.widen_delay = 2
        eng.keep_links = ('owner',)
        eng.step_hook, eng.end_hook, eng.slot_hook = self.step, self.end, self.slot
        self.R = self.p.di.enum('inputResult')
        self.valoff = self.off('JSonObjectEntry', 'value')
        self.queue, self.seen = [], set()
        self.mode = None
        self.ck = self.item = None
        cuts = eng.cuts
        cuts['CurseOutput::inputSearch'] = self.prompt
        cuts['SearchPattern::isEmpty'] = self.isempty
        cuts['JSonElement::match'] = self.match
        cuts['SearchPattern::~SearchPattern'] = lambda eng, st, ins, fn, args: [(st, UNDEF)]
        for cls, _ in self.views + [('CurseOutput', None)]:
            cuts[cls + '::nextResult'] = self.nextresult
            cuts[cls + '::setSelection'] = self.setselection
            cuts[cls + '::redraw'] = self.redraw
        cuts['CurseOutput::unfold'] = self.unfold
        self.others = dict(cuts)

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg))

    # -- nodes
    def owner(self, st, k):
        o = st.mem[k].cells.get('owner')
        return o[1] if o is not None and o[0] == 'p' else None

    def is_a(self, st, k, cls):
        c = st.mem[k].cls
        if c <= cls:
            return True
        if c & cls:
            raise AnalysisBroken('C15: kind of an element is not decided')
        return False

    def value(self, st, e):
        return self.eng.load(st, ('p', e, self.valoff), PTR)[0][1][1]

    def window(self, st, k):
        while 'win' not in st.mem[k].cells:
            k = self.owner(st, k)
            if k is None:
                return None
        return st.mem[k].cells['win'][1]

    # -- walking through a document: events in document order
    def next_child(self, st, k, what):
        """k is tested or visited now: is it the next child?"""
        c = st.mem[k].cells
        sl = c.get('slot')
        if sl is None:
            return True
        sc = st.mem[sl[1]].cells
        if sc.get('done') == TRUE:
            self.rep(st, 'repeated', 'an element is %s twice' % what)
        elif sc.get('first') != TRUE and sc.get('exp') != TRUE:
            self.rep(st, 'order', 'an element is %s out of order, or elements before it are left out' % what)
        return True

    def done(self, st, k):
        sl = st.mem[k].cells.get('slot')
        if sl is not None:
            st.wobj(sl[1]).cells['done'] = TRUE
            st.wobj(sl[1]).cells.pop('exp', None)

    def step(self, st, pos, nv, inc):
        if self.mode == 'next':
            r = self.results_step(st, pos, nv)
            if r is not None:
                return r
        if inc and pos in st.mem and st.mem[pos].cells.get('done') == TRUE:
            st.wobj(nv).cells['exp'] = TRUE

    def end(self, st, slot):
        c = st.mem[slot].cells
        if c.get('first') == TRUE or c.get('exp') == TRUE:
            n = c.get(0)
            if n is not None and n[0] == 'p' and n[1] in st.mem:
                o = self.owner(st, n[1])
                if o is not None:
                    st.wobj(o).cells['endseen'] = TRUE

    def slot(self, st, s, ck, et):
        self.world.slot_hook(st, s, ck, et)
        if ck == self.ck:
            st.mem[s].cells['res'] = TRUE

    def visited(self, st, k, what):
        """the element itself (not its children) is dealt with now"""
        c = st.mem[k].cells
        if c.get('tested') == TRUE:
            self.rep(st, 'repeated', 'an element is %s twice' % what)
        own = self.owner(st, k)
        if own is not None and self.is_a(st, own, self.p.ENTRY) and not c.get('main') == TRUE:
            self.entry_value(st, own, what)
        elif not c.get('main') == TRUE:
            self.next_child(st, k, what)
            if self.is_a(st, k, self.p.PRIM):
                self.done(st, k)
        st.wobj(k).cells['tested'] = TRUE

    def entry_value(self, st, e, what):
        c = st.mem[e].cells
        if c.get('tested') != TRUE:
            self.rep(st, 'order', 'the value of a member is %s before its key' % what)
        if c.get('valdone') == TRUE:
            self.rep(st, 'repeated', 'the value of a member is %s twice' % what)
        st.wobj(e).cells['valdone'] = TRUE
        if c.get('main') != TRUE:
            self.done(st, e)

    def subtree(self, st, k, what):
        """a whole subtree is dealt with by a recursive call"""
        own = self.owner(st, k)
        if st.mem[k].cells.get('main') == TRUE or own is None:
            self.rep(st, 'recursion', 'the function calls itself for the same element')
            raise Stop()
        if self.is_a(st, own, self.p.ENTRY):
            self.entry_value(st, own, what)
        else:
            self.next_child(st, k, what)
            self.done(st, k)

    def complete(self, st, k):
        """None, or what is missing of k"""
        c = st.mem[k].cells
        cls = st.mem[k].cls
        if cls <= self.p.CONT:
            return None if c.get('endseen') == TRUE else 'the children of a container'
        if cls & self.p.CONT:
            return 'an element'
        if c.get('tested') != TRUE:
            return 'the key of a member' if cls <= self.p.ENTRY else 'a value'
        if cls <= self.p.ENTRY and c.get('valdone') != TRUE:
            return 'the value of a member'
        return None

    # -- recursion: a function that is running is called for a node
    def on_call(self, eng, st, ins, fn, q, args):
        if fn.declared or not fn.is_repo() or not any(f.fn is fn for f in st.frames):
            return None
        nodes = [a[1] for a in args if a[0] == 'p' and self.world.is_node(st, a[1])]
        if not nodes or q in eng.cuts:
            return None
        k = nodes[0]
        if self.mode == 'search':
            self.flush(st)
            self.subtree(st, k, 'searched')
            self.spawn(st, fn, args, k, None)
            for lk, lo in self.lists:
                st.wobj(lk).cells[lo] = ('Q', 'lazy', eng.new_id('q'), None)
            return [(st, eng.fresh(st, ins.ty) if ins.ty[0] == 'i' else UNDEF)]
        return self.next_contract(st, ins, fn, args, k)

    def spawn(self, st, fn, args, k, mon):
        """analyse the call for itself: only what is an element, where it hangs and what was passed matters"""
        eng, p = self.eng, self.p
        win = self.window(st, k)
        ownc = st.mem[self.owner(st, k)].cls
        flag = lambda a: eng.values_of(st, eng.rebind(st, eng.load(st, a, ('i', 8))[0][1]))
        kinds = []
        for a in args:
            if a == ('p', k, 0):
                kinds.append('node')
            elif a == ('p', self.this, 0):
                kinds.append('this')
            elif a[0] == 'p' and mon is None:
                if eng.rebind(st, a)[1] != self.pattern(st):
                    self.rep(st, 'pattern', 'an element is compared with another text than the one that was typed')
                kinds.append('pattern')
            elif a[0] == 'p' and self.world.is_node(st, a[1]):
                kinds.append('root')
            elif a[0] == 'p':
                kinds.append(('flag', tuple(sorted(flag(a)))))
            else:
                v = eng.values_of(st, eng.rebind(st, a))
                if v is None or len(v) != 1:
                    raise AnalysisBroken('C15: a parameter of %s' % fn.qual)
                kinds.append(('const', next(iter(v)), eng.width(a)))
        for ti in sorted(st.mem[k].cls):
            key = (self.view, self.mode, self.selwin, fn.name, win, ownc, ti, mon, tuple(kinds), self.work(st))
            if key not in self.seen:
                self.seen.add(key)
                self.queue.append(key + (fn,))

    def work(self, st):
        """the window that is being worked on"""
        if not self.wins:
            return None
        v = self.eng.values_of(st, self.eng.rebind(st, st.mem[self.this].cells[self.off(self.view, 'workingWin')]))
        if v is None or len(v) != 1:
            raise AnalysisBroken('C15: the window worked on')
        return next(iter(v))

    def contexts(self, key):
        """the states in which such a call is analysed"""
        eng, p = self.eng, self.p
        cls, mode, sel, _, win, ownc, ti, mon, kinds, work, fn = key
        cti = [t for c, t in self.views if c == cls][0]
        for vt in sorted(p.VALUE) if ti in p.ENTRY else [None]:
            st, this = self.make(cls, cti, sel)
            ok = self.world.new(st, ownc)
            st.mem[ok].cells['win'] = ('w', win)
            k = self.world.new(st, [ti], owner=('p', ok, 0), main=TRUE, win=('w', win))
            if ownc <= p.ENTRY:
                st.mem[ok].cells[self.valoff] = ('p', k, 0)
            if vt:
                v = self.world.new(st, [vt], owner=('p', k, 0))
                st.mem[k].cells[self.valoff] = ('p', v, 0)
            if work is not None:
                st.mem[this].cells[self.off(cls, 'workingWin')] = C(work, 16)
            st.trace = (None, 'entered %s for a %s' % (fn.qual, demangle_ti(ti)))
            st.mon = mon if mon is not None else (None,)
            self.pat = None
            args, flags = [], []
            for kd in kinds:
                if kd == 'pattern':
                    self.pat = eng.new_obj(st, 'heap')
                    args.append(('p', self.pat, 0))
                elif kd in ('node', 'this', 'root'):
                    args.append(('p', {'node': k, 'this': this, 'root': self.roots[win]}[kd], 0))
                elif kd[0] == 'const':
                    args.append(C(kd[1], kd[2]))
                else:
                    f = eng.new_obj(st, 'heap')
                    if len(kd[1]) != 1:
                        raise AnalysisBroken('C15: a flag that is not known')
                    st.mem[f].cells[0] = C(kd[1][0], 8)
                    flags.append(('p', f, 0))
                    args.append(flags[-1])
            eng.push(st, fn, args)
            yield st, k, flags

    # -- search: events
    def prompt(self, eng, st, ins, fn, args):
        if any(e[0] == 'prompt' for e in st.mon[1:]):
            self.rep(st, 'prompt', 'the search text is asked for twice')
            raise Stop()
        s2 = st.copy()
        st.mon += (('prompt', None),)
        pk = eng.new_obj(s2, 'heap', size=self.p.di.size('SearchPattern') if hasattr(self.p.di, 'size') else 256)
        s2.mon += (('prompt', pk),)
        return [(st, NULL), (s2, ('p', pk, 0))]

    def pattern(self, st):
        for e in st.mon[1:]:
            if e[0] == 'prompt':
                return e[1]
        return self.pat

    def isempty(self, eng, st, ins, fn, args):
        for e in st.mon[1:]:
            if e[0] == 'empty':
                return [(st, TRUE if e[1] else FALSE)]
        s2 = st.copy()
        st.mon += (('empty', True),)
        s2.mon += (('empty', False),)
        return [(st, TRUE), (s2, FALSE)]

    def flush(self, st):
        """the element that matched last has to be recorded by now"""
        p = st.mon[0]
        if p is not None and not p[2]:
            self.rep(st, 'not-recorded', 'an element that matches is not recorded')
        if p is not None:
            st.mon = (None,) + st.mon[1:]

    def match(self, eng, st, ins, fn, args):
        k = args[0][1]
        pt = eng.rebind(st, args[1])
        self.n['tested'] += 1
        if pt[0] != 'p' or pt[1] != self.pattern(st):
            self.rep(st, 'pattern', 'an element is compared with another text than the one that was typed')
        if not self.world.is_node(st, k):
            raise AnalysisBroken('C15: test of something that is no element')
        c = st.mem[k].cls
        parts = [x for x in (c & self.p.CONT, c & self.p.ENTRY, c & self.p.PRIM) if x]
        if len(parts) > 1:
            out = []
            for x in parts:
                s = st.copy()
                s.wobj(k).cls = frozenset(x)
                out += self.match(eng, s, ins, fn, args) or [(s, FALSE)]
            return out
        if c & self.p.CONT:
            return None
        self.flush(st)
        self.visited(st, k, 'searched')
        s2 = st.copy()
        own = self.owner(st, k)
        e = own if own is not None and self.is_a(st, own, self.p.ENTRY) else k
        rec = st.mem[e].cells.get('rec') == TRUE
        st.mon = ((e, self.window(st, k), rec),) + st.mon[1:]
        return [(st, TRUE), (s2, FALSE)]

    def on_push(self, eng, st, ins, fn, ck, ptr):
        if self.mode != 'search':
            return
        if ck not in self.lists:
            raise AnalysisBroken('C15: an unknown list')
        self.n['recorded'] += 1
        v = eng.rebind(st, eng.load(st, ptr, PTR)[0][1])
        p = st.mon[0]
        if p is None:
            return self.rep(st, 'recorded', 'an element is recorded that was not found to match')
        if v != ('p', p[0], 0):
            self.rep(st, 'recorded', 'another element is recorded than the one that matches (for the value of a member: the member)')
        if p[1] is not None and self.lists[ck] != p[1]:
            self.rep(st, 'window', 'a result is recorded for another window than the one that shows it')
        if fn.qual.endswith('front'):
            self.rep(st, 'order', 'the results are not kept in the order of the document')
        st.wobj(p[0]).cells['rec'] = TRUE
        st.mon = (None,) + st.mon[1:]

    def on_clear(self, eng, st, ins, fn, ck):
        if ck in self.lists and self.mode == 'search':
            if any(st.mem[r].cells.get('tested') == TRUE or st.mem[r].cells.get('endseen') == TRUE for r in self.roots):
                self.rep(st, 'cleared', 'results are thrown away after they were found')
            st.mon += (('clear', self.lists[ck]),)

    def nextresult(self, eng, st, ins, fn, args):
        if self.mode != 'search':
            return None
        self.flush(st)
        r = eng.opaque(8, 'next')
        st.mon += (('next', r),)
        return [(st, r)]

    def redraw(self, eng, st, ins, fn, args):
        if len(models.params(fn)) != 1 or not models.STR.match(models.params(fn)[0]):
            if not models.params(fn):
                st.mon += (('redraw', None),)
                return [(st, TRUE)]
            return None
        seg = None
        for s, q in eng.deref(st, args[1]):
            seg = models.get_s(eng, s, q[1], q[2])
        st.mon += (('redraw', seg, self.current(st)),)
        return [(st, TRUE)]

    # -- the view
    def make(self, cls, ti, sel=0):
        eng, p = self.eng, self.p
        st = State()
        st.mon = (None,)
        self.view = cls
        this = self.this = self.obj(st, cls, ti)
        c = st.mem[this].cells
        self.roots, self.lists, self.selwin, self.wins = [], {}, sel, None
        roots = []
        for i in range(1 if cls == 'CurseSimpleOutput' else 2):
            r = self.world.new(st, p.VALUE, owner=NULL)
            st.mem[r].cells['win'] = ('w', i)
            roots.append(r)
        if cls == 'CurseSimpleOutput':
            c[self.off(cls, 'data')] = ('p', roots[0], 0)
            self.lists[(this, self.off(cls, 'search_result'))] = 0
            self.selcell = [(this, self.off(cls, 'selection'))]
        else:
            w = self.windows(st, this)
            c[self.off(cls, 'selectedWin')] = C(sel, 16)
            c[self.off(cls, 'workingWin')] = C(0, 16)
            c[self.off(cls, 'nbInputs')] = C(2, 16)
            for i, k in enumerate(w):
                st.mem[k].cells[self.off('t_subWindow', 'root')] = ('p', roots[i], 0)
                self.lists[(k, self.off('t_subWindow', 'searchResults'))] = i
            self.selcell = [(w[sel], self.off('t_subWindow', 'selection')), (w[sel], self.off('t_subWindow', 'lastSelection'))]
            self.wins = w
        self.roots = roots
        self.selv = eng.opaque(64, 'selection')
        for k, o in self.selcell:
            st.mem[k].cells[o] = self.selv
        for lk, lo in self.lists:
            st.mem[lk].cells[lo] = ('Q', 'lazy', eng.new_id('q'), None)
        eng.keep_mem = (this,) + tuple(roots) + tuple(k for k, _ in self.lists)
        return st, this

    def current(self, st):
        k, o = self.selcell[-1]
        return self.eng.rebind(st, st.mem[k].cells.get(o, UNDEF))

    def go(self):
        p, eng = self.p, self.eng
        for cls, ti in self.views:
            for sel in (0,) if cls == 'CurseSimpleOutput' else (0, 1):
                self.search(cls, ti, sel)
                self.jump(cls, ti, sel)
        self.unfolding()
        self.message()
        return self

    def only(self, qual, n):
        f = [f for f in self.p.mod.find(qual) if len(models.params(f)) == n]
        if len(f) != 1:
            raise AnalysisBroken('C15: %s with %d parameters' % (qual, n))
        return f[0]

    def search(self, cls, ti, sel):
        eng, p = self.eng, self.p
        self.mode = 'search'
        fn = self.only(cls + '::initSearch', 0)
        st, this = self.make(cls, ti, sel)
        self.pat = None
        eng.push(st, fn, [('p', this, 0)])
        for x in eng.run([st]):
            self.n['searches'] += 1
            self.searched(x, cls)
        while self.queue:
            for s, k, _ in self.contexts(self.queue.pop()):
                self.n['subtrees'] += 1
                for x in eng.run([s]):
                    t = x.state
                    if x.kind != 'ret':
                        self.rep(t, 'throws', 'searching ends with an exception')
                        continue
                    self.flush(t)
                    m = self.complete(t, k)
                    if m:
                        self.rep(t, 'left-out', '%s: %s not searched' % (cls, m + (' are' if 'children' in m else ' is')))

    def searched(self, x, cls):
        st = x.state
        if x.kind != 'ret':
            return self.rep(st, 'throws', 'searching ends with an exception')
        ev = {}
        for e in st.mon[1:]:
            ev.setdefault(e[0], []).append(e)
        if 'prompt' not in ev:
            return self.rep(st, 'prompt', 'the search text is not asked for')
        v = self.eng.values_of(st, x.value) or set()
        redraws = {self.R['redraw'], self.R['redrawAll']}
        clears = {e[1] for e in ev.get('clear', ())}
        tested = [r for r in self.roots if st.mem[r].cells.get('tested') == TRUE or st.mem[r].cells.get('endseen') == TRUE]
        if self.current(st) != self.eng.rebind(st, self.selv):
            self.rep(st, 'selection', 'searching changes the selection')
        if ev['prompt'][0][1] is None:
            if clears:
                self.rep(st, 'aborted', 'an aborted search forgets the results of the one before')
            if not v <= redraws or 'next' in ev:
                self.rep(st, 'aborted', 'an aborted search does more than draw the view again')
            return
        if clears != set(self.lists.values()):
            self.rep(st, 'cleared', 'results of the search before are kept')
        empty = ev.get('empty', [(None, False)])[0][1]
        if empty:
            if not v <= redraws and 'next' not in ev:
                self.rep(st, 'empty', 'an empty search text does more than draw the view again')
            return
        for r in self.roots:
            m = self.complete(st, r)
            if m:
                self.rep(st, 'left-out', '%s: %s of %s not searched' % (cls, m, 'the document' if len(self.roots) == 1 else 'one of the documents'))
                break
        if len(ev.get('next', ())) != 1 or self.eng.rebind(st, x.value) != self.eng.rebind(st, ev['next'][0][1]):
            self.rep(st, 'next', 'the first result after the selection is not gone to after a search')

    # -- the next result
    def setselection(self, eng, st, ins, fn, args):
        v = eng.rebind(st, args[1])
        for k, o in self.selcell:
            st.wobj(k).cells[o] = v
        return [(st, UNDEF)]

    def unfold(self, eng, st, ins, fn, args):
        if self.mode == 'unfold':
            return None
        st.mon += (('unfold', eng.rebind(st, args[1])),)
        return [(st, UNDEF)]

    def same(self, st, slot):
        v = st.mem[slot].cells.get(0)
        if v is None:
            return None
        v = self.eng.rebind(st, v)
        if v[0] == 'o':
            return False if st.facts.get(('peq', v, self.item)) is False else None
        return self.eng.ptr_eq(st, v, self.item)

    def results_step(self, st, pos, nv):
        """the result that is left behind is, or is not, the element"""
        eng = self.eng
        if pos not in st.mem or st.mem[pos].cells.get('res') != TRUE:
            return None
        st.wobj(nv).cells['res'] = TRUE
        if self.item is None:
            return [st]
        r, out = self.same(st, pos), [st]
        if r is None:
            v = eng.rebind(st, eng.load(st, ('p', pos, 0), PTR)[0][1])
            s2 = st.copy()
            self.other(s2, pos)
            s2.bind[v[1]] = s2.mem[pos].cells[0]
            eng.stats['forks'] += 1
            st.bind[v[1]] = self.item
            st.wobj(pos).cells[0] = self.item
            r = True
            out.append(s2)
        if r:
            st.wobj(self.item[1]).cells['result'] = TRUE
            self.other(st, nv)
        return out

    def other(self, st, slot):
        st.wobj(slot).cells[0] = ('p', self.eng.new_obj(st, 'heap'), 0)

    def passed(self, st, k):
        """was the selection passed when the subtree of k is entered (None: not known)"""
        if st.mon[0] == 'after':
            return True
        # the elements that were entered so far and may be the selection
        s = self.eng.rebind(st, self.selv)
        for m in [k] + self.around(st, k):
            c = st.mem[m].cells
            if not (c.get('main') == TRUE or m in self.roots or c.get('tested') == TRUE):
                continue
            if s == ('p', m, 0):
                return True
            if s[0] == 'o' and st.facts.get(('peq', s, ('p', m, 0))) is not False and st.facts.get(('peq', ('p', m, 0), s)) is not False:
                return None
        return False

    def around(self, st, k):
        out = []
        while True:
            k = self.owner(st, k)
            if k is None:
                return out
            out.append(k)
            if st.mem[k].cells.get('main') == TRUE:
                return out

    def decided(self, st, flag):
        """the states in which it is known whether the flag is set"""
        v = self.eng.rebind(st, self.eng.load(st, flag, ('i', 8))[0][1])
        if v[0] in ('c', 'u'):
            return [st]
        parts = self.eng.split(st, v)
        for s, b in parts:
            s.wobj(flag[1]).cells[flag[2]] = C(1 if b else 0, 8)
        return [s for s, b in parts]

    def next_contract(self, st, ins, fn, args, k):
        eng = self.eng
        if st.mon[0] == 'found':
            self.rep(st, 'next', 'the search for the next result goes on after it was found')
            raise Stop()
        flags = [a for a in args if a[0] == 'p' and not self.world.is_node(st, a[1]) and a[1] != self.this]
        if len(flags) != 1:
            raise AnalysisBroken('C15: how the search for the next result knows that the selection was passed')
        parts = self.decided(st, flags[0])
        if len(parts) > 1:
            out = []
            for s in parts:
                try:
                    out += self.next_contract(s, ins, fn, [eng.rebind(s, a) for a in args], k)
                except Stop:
                    pass
            return out
        st = parts[0]
        own = self.owner(st, k)
        if own is not None and self.is_a(st, own, self.p.ENTRY):
            st.wobj(own).cells['tested'] = TRUE
        self.subtree(st, k, 'looked at')
        f = eng.values_of(st, eng.rebind(st, eng.load(st, flags[0], ('i', 8))[0][1]))
        was = self.passed(st, own)
        if f is None or len(f) != 1 or was is None or bool(next(iter(f))) != was:
            self.rep(st, 'passed', 'whether the selection was passed is not known correctly when the next element is looked at')
            raise Stop()
        self.overlooked(st, own, was)
        self.spawn(st, fn, args, k, ('after' if was else 'before',))
        out = []
        for new, found in ((('after', False), ('after', True)) if was else (('before', False), ('after', False), ('after', True))):
            s = st.copy()
            if not was and new == 'after':
                # the selection lies in this subtree: it is none of the elements seen here
                if eng.rebind(s, self.selv)[0] != 'o':
                    continue
                s.bind[self.selv[1]] = ('p', eng.new_obj(s, 'heap'), 0)
            s.mon = (('found' if found else new),) + s.mon[1:]
            s.wobj(flags[0][1]).cells[flags[0][2]] = C(1 if new == 'after' else 0, 8)
            if found:
                r = ('p', eng.new_obj(s, 'heap'), 0)
                s.mon += (('result', r),)
                for ck, o in self.selcell:
                    s.wobj(ck).cells[o] = r
            out.append((s, TRUE if found else FALSE))
        return out

    def overlooked(self, st, k, was):
        """when the walk goes on after k itself: k is no result that follows the selection"""
        if not was or not st.mem[k].cls & (self.p.PRIM | self.p.ENTRY):
            return
        if eng_is(self.eng, st, self.selv, ('p', k, 0)):
            return
        if st.mon[0] != 'after' and not st.mon[0] == 'before':
            return
        if st.mon[0] == 'before':
            return
        c = st.mem[k].cells
        if c.get('result') == TRUE or self.may_be(st, k):
            self.rep(st, 'overlooked', 'a result that follows the selection is passed over')

    def may_be(self, st, k):
        """may k be a result that was not compared with all results?"""
        if not (self.item and self.item[1] == k):
            return False
        if st.mem[k].cells.get('result') == TRUE:
            return True
        q = st.mem[self.ck[0]].cells.get(self.ck[1])
        if q is not None and q[1] == 'fin' and not q[2]:
            return False
        ends = [s for s, o in st.mem.items() if o.kind == 'elem' and o.cells.get('res') == TRUE and o.cells.get('end') == TRUE]
        here = [s for s, o in st.mem.items() if o.kind == 'elem' and o.cells.get('res') == TRUE and o.cells.get('end') != TRUE and self.same(st, s)]
        return bool(here) or not ends

    def jump(self, cls, ti, sel):
        eng, p = self.eng, self.p
        self.mode = 'next'
        fn = self.only(cls + '::nextResult', 0)
        for kind in ('none', 'some'):
            for root in [None] if kind == 'none' else sorted(p.VALUE):
                st, this = self.make(cls, ti, sel)
                lk, lo = self.ck = [c for c, w in self.lists.items() if w == sel][0]
                self.item = None
                front = None
                if kind == 'none':
                    st.mem[lk].cells[lo] = ('Q', 'fin', ())
                else:
                    st.wobj(self.roots[sel]).cls = frozenset([root])
                    if root in p.PRIM:
                        self.item = ('p', self.roots[sel], 0)
                    front = ('p', eng.new_obj(st, 'lazy', lazy='any'), 0) if root not in p.PRIM else self.item
                    sl = eng.new_obj(st, 'elem')
                    st.mem[sl].cells.update({0: front, 'first': TRUE, 'end': FALSE, 'res': TRUE})
                    st.mem[lk].cells[lo] = ('Q', 'lazy', eng.new_id('q'), sl)
                st.mon = ('before',)
                eng.push(st, fn, [('p', this, 0)])
                eng.cuts.pop(cls + '::nextResult')
                for x in eng.run([st]):
                    self.n['next'] += 1
                    self.jumped(x, cls, kind, front, sel)
                eng.cuts[cls + '::nextResult'] = self.nextresult
        while self.queue:
            for s, k, f in self.contexts(self.queue.pop()):
                self.n['subtrees_next'] += 1
                self.item = ('p', k, 0) if s.mem[k].cls & (p.PRIM | p.ENTRY) else None
                self.ck = [c for c, w in self.lists.items() if w == sel][0]
                if s.mon[0] == 'after':
                    s.bind[self.selv[1]] = ('p', eng.new_obj(s, 'heap'), 0)
                    for ck, o in self.selcell:
                        s.wobj(ck).cells[o] = s.bind[self.selv[1]]
                start = s.mon[0]
                for x in eng.run([s]):
                    self.subtree_done(x, k, start, f)

    def subtree_done(self, x, k, start, f):
        eng, st = self.eng, x.state
        if x.kind != 'ret':
            return self.rep(st, 'throws', 'looking for the next result ends with an exception')
        for st in self.decided(st, f[0]) if len(f) == 1 else [st]:
            self.subtree_ended(x, st, k, start, f)

    def subtree_ended(self, x, st, k, start, f):
        eng = self.eng
        v = eng.values_of(st, eng.rebind(st, x.value))
        if v is None or len(v) != 1:
            return self.rep(st, 'next', 'whether the next result was found is not known')
        found = bool(next(iter(v)))
        cur = self.current(st)
        sel = eng.rebind(st, self.selv)
        r = [e[1] for e in st.mon[1:] if e[0] == 'result']
        if st.mon[0] == 'found':
            if not found or cur != r[-1]:
                self.rep(st, 'next', 'the next result was found but is not selected')
            return
        prim = st.mem[k].cls & (self.p.PRIM | self.p.ENTRY)
        if found:
            if not prim or start != 'after' or cur != ('p', k, 0) or st.mem[k].cells.get('result') != TRUE and not self.is_result(st, k):
                self.rep(st, 'next', 'an element is selected that is no result, or does not follow the selection')
            return
        if cur != sel:
            self.rep(st, 'next', 'the selection changes although no result was found')
        if prim and start == 'after' and (st.mem[k].cells.get('result') == TRUE or self.may_be(st, k)):
            self.rep(st, 'overlooked', 'a result that follows the selection is passed over')
        st.wobj(k).cells['tested'] = TRUE
        m = self.complete(st, k)
        if m:
            self.rep(st, 'left-out', '%s not looked at for the next result' % (m + (' are' if 'children' in m else ' is')))
        if len(f) == 1:
            fv = eng.values_of(st, eng.rebind(st, eng.load(st, f[0], ('i', 8))[0][1]))
            was = self.passed(st, k)
            if was is None or fv is None or len(fv) != 1 or bool(next(iter(fv))) != was:
                self.rep(st, 'passed', 'that the selection was passed is forgotten or not noticed')

    def is_result(self, st, k):
        return any(o.kind == 'elem' and o.cells.get('res') == TRUE and o.cells.get('end') != TRUE and self.same(st, s)
                   for s, o in st.mem.items())

    def jumped(self, x, cls, kind, front, selw):
        eng, st = self.eng, x.state
        if x.kind != 'ret':
            return self.rep(st, 'throws', 'going to the next result ends with an exception')
        v = eng.values_of(st, x.value) or set()
        msgs = [(i, e) for i, e in enumerate(st.mon) if e[0] == 'redraw' and i and e[1] is not None]
        unf = [(i, e[1]) for i, e in enumerate(st.mon) if i and e[0] == 'unfold']
        cur, sel = self.current(st), eng.rebind(st, self.selv)
        redraws = {self.R['redraw'], self.R['redrawAll']}
        keep = {self.R['nextInput']}
        text = [e[1] for _, e in msgs]
        if kind == 'none':
            if cur != sel:
                self.rep(st, 'none', 'the selection changes although nothing was found')
            if text != [(('k', MSG_NONE),)] or not v <= keep:
                self.rep(st, 'none', 'that nothing was found is not said, or not for long')
            return
        if st.mon[0] == 'found':
            r = [e[1] for e in st.mon[1:] if e[0] == 'result'][-1]
            if cur != r:
                self.rep(st, 'next', 'the next result was found but is not selected')
            if not unf or unf[-1][1] != r:
                self.rep(st, 'unfold', 'the containers around the result are not expanded')
            if msgs or not v <= redraws:
                self.rep(st, 'next', 'the view is not drawn again after the next result was selected')
            return
        root = self.roots[selw]
        st.wobj(root).cells['tested'] = TRUE
        m = self.complete(st, root)
        if m:
            return self.rep(st, 'left-out', '%s of the document are not looked at for the next result' % m)
        if cur != front:
            self.rep(st, 'first', 'the first result is not selected although none follows')
        if not unf or unf[-1][1] != front:
            self.rep(st, 'unfold', 'the containers around the result are not expanded')
        if text != [(('k', MSG_BOTTOM),)] or not v <= keep:
            self.rep(st, 'first', 'that the first result is gone to again is not said, or not for long')
        elif unf and (msgs[-1][0] < unf[-1][0] or eng.rebind(st, msgs[-1][1][2]) != front):
            self.rep(st, 'first', 'the view is drawn before the first result was selected and its containers were expanded')

    # -- opening the containers around an element
    def unfolding(self):
        eng, p = self.eng, self.p
        self.mode = 'unfold'
        self.ck = self.item = None
        fn = self.only('CurseOutput::unfold', 1)
        cls, ti = self.views[0]
        for depth in range(0, 7):
            for shape in range(2):
                st, this = self.make(cls, ti)
                k = self.roots[0]
                st.wobj(k).cls = frozenset(sorted(p.CONT)[:1]) if depth else frozenset(sorted(p.VALUE)[:1])
                chain = [k]
                for d in range(depth):
                    c = p.ARRAY if (d + shape) % 2 else p.OBJECT
                    st.wobj(chain[-1]).cls = frozenset(c)
                    if c == p.OBJECT:
                        e = self.world.new(st, p.ENTRY, owner=('p', chain[-1], 0))
                        chain.append(e)
                        if d == depth - 1 and shape:
                            break
                    n = self.world.new(st, p.VALUE, owner=('p', chain[-1], 0))
                    chain.append(n)
                if self.p.mod and st.mem[chain[-1]].cls == p.VALUE:
                    st.wobj(chain[-1]).cls = frozenset(p.STRING)
                eng.keep_mem = (this,) + tuple(chain)
                before = {n: eng.opaque(64, 'x') for n in ()}
                eng.push(st, fn, [('p', this, 0), ('p', chain[-1], 0)])
                off = self.off('CurseOutput', 'collapsed')
                for x in eng.run([st]):
                    self.n['unfolded'] += 1
                    s = x.state
                    if x.kind != 'ret':
                        self.rep(s, 'throws', 'expanding containers ends with an exception')
                        continue
                    m = models.get_m(eng, s, this, off)
                    ent = {e[0]: e[1] for e in m[2]}
                    for n in chain[:-1]:
                        if s.mem[n].cls <= p.CONT and not (ent.get(('p', n, 0)) is False or m[1] == 'empty' and ('p', n, 0) not in ent):
                            self.rep(s, 'unfold', 'a container around the element stays collapsed')
                    if any(b is not False and b is not None for b in ent.values() if b is True and False):
                        pass

    # -- a message
    def message(self):
        eng, p = self.eng, self.p
        self.mode = 'message'
        fn = [f for f in p.mod.find('CurseOutput::redraw') if len(models.params(f)) == 1]
        if len(fn) != 1:
            raise AnalysisBroken('C15: drawing with a message')
        log = []

        def draw(eng, st, ins, fn, args):
            if len(models.params(fn)):
                return None
            if len([e for e in st.mon[1:] if e == ('drawn', False)]) >= 3:
                st.mon += (('drawn', True),)
                return [(st, TRUE)]
            s2 = st.copy()
            st.mon += (('drawn', True),)
            s2.mon += (('drawn', False),)
            return [(st, TRUE), (s2, FALSE)]

        def bottom(eng, st, ins, fn, args):
            for s, q in eng.deref(st, args[1]):
                st.mon += (('bottom', models.get_s(eng, s, q[1], q[2])),)
            return [(st, UNDEF)]
        for c, _ in self.views + [('CurseOutput', None)]:
            eng.cuts[c + '::redraw'] = draw
            eng.cuts[c + '::writeBottomLine'] = bottom
        for cls, ti in self.views:
            st, this = self.make(cls, ti)
            k = eng.new_obj(st, 'heap')
            a = eng.atom('message')
            models.put_s(eng, st, k, 0, (a,))
            eng.push(st, fn[0], [('p', this, 0), ('p', k, 0)])
            for x in eng.run([st]):
                self.n['messages'] += 1
                s = x.state
                if x.kind != 'ret':
                    self.rep(s, 'throws', 'showing a message ends with an exception')
                    continue
                ev = s.mon[1:]
                d = [i for i, e in enumerate(ev) if e[0] == 'drawn']
                b = [i for i, e in enumerate(ev) if e[0] == 'bottom']
                if not d or ev[d[-1]] != ('drawn', True):
                    self.rep(s, 'message', 'a message is shown in a view that is not completely drawn (nothing may be selected then)')
                if len(b) != 1 or ev[b[0]][1] != (a,) or d and b[0] < d[-1]:
                    self.rep(s, 'message', 'a message is not shown, or drawn over')


def eng_is(eng, st, a, b):
    a = eng.rebind(st, a)
    return a == b


def check(tier):
    c = Search(tier).go()
    v = list(c.eng.violations.values())
    n = c.n
    if not v and (n['searches'] < 9 or n['subtrees'] < 20 or n['tested'] < 20 or n['subtrees_next'] < 20 or n['unfolded'] < 10 or
                  n['messages'] < 4 or n['recorded'] < 10):
        raise AnalysisBroken('C15: only %r' % n)
    return dict(violations=v,
                coverage=dict(n, functions=sorted(c.eng.analysed), functions_analysed=len(c.eng.analysed), paths=c.eng.stats['paths']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['the tree is finite and acyclic, every element has its container or member as parent (C02)',
                             'in the selected window of a comparison something is selected',
                             'at most six containers around an element are followed (the loop keeps nothing but the element it is at)'])
