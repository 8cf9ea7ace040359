"""C16: texts are drawn with the attributes of the element they belong to.

First part: the function that computes the flags of an element is interpreted for an element of every class, any selection and any list
of results of a search: the flags say that it is selected, found, of which kind, and (comparison) what the comparison made of it.
Second part: the functions that write a text or a character are interpreted for all flags and any position: at the moment of printing the
attributes of the window are exactly those the flags call for, the text is the one given, at the place given minus the lines scrolled
away, and afterwards no attribute stays on."""
from ui import *

KIND = [('STRING', 'TYPE_STRING'), ('bool', 'TYPE_BOOL'), ('Null', 'TYPE_NULL'), ('PRIM', 'TYPE_NUMBER'), ('OBJECT', 'TYPE_OBJ'), ('ARRAY', 'TYPE_ARR')]


class Flags(UI):
    def __init__(self):
        super().__init__('C16 flags')
        self.n = dict(flags=0, results_lists=0)
        self.types = {n: self.const(n) for n in ('TYPE_STRING', 'TYPE_BOOL', 'TYPE_NULL', 'TYPE_NUMBER', 'TYPE_OBJ', 'TYPE_ARR')}
        eng = self.eng
        eng.mon = self
        eng.step_hook = self.step
        eng.slot_hook = self.slot
        eng.widen_delay = 2
        eng.cuts['LevenshteinMatrice_base::get'] = self.diffget
        self.ops = self.p.di.enum('eLevenshteinOperator')

    def kind(self, ti):
        p = self.p
        if ti in p.STRING:
            return 'TYPE_STRING'
        if ti in p.PRIM:
            d = demangle_ti(ti)
            return 'TYPE_BOOL' if d.endswith('<bool>') else 'TYPE_NULL' if d.endswith('<Null>') else 'TYPE_NUMBER'
        return 'TYPE_OBJ' if ti in p.OBJECT else 'TYPE_ARR'

    def diffget(self, eng, st, ins, fn, args):
        a = eng.rebind(st, args[1])
        if a != self.item:
            eng.report(st, 'flag-diff', 'the state of another element is looked up in the comparison')
        s2 = st.copy()
        st.mon = (st.mon[0], 'none')
        out = [(st, Throw('_ZTISt12out_of_range', 'map::at'))]
        for n, v in self.ops.items():
            s = s2.copy()
            s.mon = (st.mon[0], n)
            out.append((s, C(v, 8)))
        return out

    # membership of the item in the list of results (which holds an element once at most)
    def slot(self, st, s, ck, et):
        self.world.slot_hook(st, s, ck, et)
        if ck == self.ck:
            st.mem[s].cells['res'] = TRUE

    def same(self, st, slot):
        v = st.mem[slot].cells.get(0)
        if v is None:
            return None
        v = self.eng.rebind(st, v)
        if v[0] == 'o':
            return False if st.facts.get(('peq', v, self.item)) is False else None
        return self.eng.ptr_eq(st, v, self.item)

    def step(self, st, pos, nv, inc):
        """decide whether the result that is left behind is the element"""
        eng = self.eng
        if st.mem[pos].cells.get('res') != TRUE:
            return
        st.wobj(nv).cells['res'] = TRUE
        r, out = self.same(st, pos), [st]
        if r is None:
            v = eng.rebind(st, eng.load(st, ('p', pos, 0), PTR)[0][1])
            s2 = st.copy()
            self.other(s2, pos)
            s2.bind[v[1]] = s2.mem[pos].cells[0]
            eng.stats['forks'] += 1
            st.bind[v[1]] = self.item
            st.wobj(pos).cells[0] = self.item
            r = True
            out.append(s2)
        if r:
            st.mon = ('F!',) + st.mon[1:]
        if st.mon[0] == 'F!':
            self.other(st, nv)
        return out

    def other(self, st, slot):
        st.wobj(slot).cells[0] = ('p', self.eng.new_obj(st, 'heap'), 0)

    def go(self):
        eng, p = self.eng, self.p
        for cls, ti in self.views:
            fn = [f for f in p.mod.find(cls + '::getFlag') if len(models.params(f)) == 1]
            if len(fn) != 1:
                raise AnalysisBroken('C16: %s::getFlag' % cls)
            for t in sorted(p.PRIM | p.CONT | p.ENTRY):
                for vt in sorted(p.VALUE) if t in p.ENTRY else [None]:
                    for parent in ('none', 'array', 'entry') if t in p.VALUE else ('object',):
                        for work, sel in [(0, 0)] if cls == 'CurseSimpleOutput' else [(0, 0), (0, 1), (1, 0), (1, 1)]:
                            self.one(cls, ti, fn[0], t, vt, parent, work, sel)
        return self

    def one(self, cls, ti, fn, t, vt, parent, work, selw):
        eng, p = self.eng, self.p
        st = State()
        st.mon = ('F', None)
        this = self.obj(st, cls, ti)
        par = NULL
        if parent != 'none':
            pk = self.world.new(st, p.ARRAY if parent == 'array' else p.ENTRY if parent == 'entry' else p.OBJECT)
            par = ('p', pk, 0)
        it = self.world.new(st, [t], owner=par)
        self.item = ('p', it, 0)
        if vt:
            v = self.world.new(st, [vt], owner=self.item)
            st.mem[it].cells[self.off('JSonObjectEntry', 'value')] = ('p', v, 0)
        if parent == 'entry':
            st.mem[pk].cells[self.off('JSonObjectEntry', 'value')] = self.item
        sel = eng.opaque(64, 'selection')
        if cls == 'CurseSimpleOutput':
            holder = this
            st.mem[this].cells[self.off(cls, 'selection')] = sel
            ck = (this, self.off(cls, 'search_result'))
        else:
            w = self.windows(st, this)
            c = st.mem[this].cells
            c[self.off(cls, 'workingWin')] = C(work, 16)
            c[self.off(cls, 'selectedWin')] = C(selw, 16)
            c[self.off(cls, 'nbInputs')] = C(2, 16)
            dm = eng.new_obj(st, 'lazy', lazy='any')
            c[self.off(cls, 'diffMatrice')] = ('p', dm, 0)
            st.mem[w[work]].cells[self.off('t_subWindow', 'selection')] = sel
            ck = (w[work], self.off('t_subWindow', 'searchResults'))
        st.mem[ck[0]].cells[ck[1]] = ('Q', 'lazy', eng.new_id('q'), None)
        self.ck = ck
        ret = eng.new_obj(st, 'heap')
        if not fn.sret:
            raise AnalysisBroken('C16: result of getFlag')
        eng.keep_mem = (this, it, ret, ck[0])
        eng.push(st, fn, [('p', ret, 0), ('p', this, 0), self.item])
        for x in eng.run([st]):
            if x.kind != 'ret':
                eng.report(x.state, 'flag', 'the flags of an element cannot be computed')
                continue
            self.n['flags'] += 1
            self.judge(x.state, cls, ret, t, vt, par, parent, sel, ck)

    def judge(self, st, cls, ret, t, vt, par, parent, sel, ck):
        eng = self.eng
        f = {n: eng.rebind(st, st.mem[ret].cells.get(self.off('OutputFlag', n), UNDEF)) for n in ('mode', '_type', 'diffOpt')}
        mode = self.single(st, f['mode'])
        rep = lambda r, m: eng.report(st, r, '%s: %s' % (cls, m), key=(r, m, cls))
        if mode is None:
            return rep('flag', 'whether an element is selected or found is not determined')
        s = eng.rebind(st, sel)
        eq = lambda p: eng.ptr_eq(st, s, p) if s[0] != 'o' else False if st.facts.get(('peq', s, p)) is False else None
        want = eq(self.item)
        if cls != 'CurseSimpleOutput' and parent == 'entry' and want is not True:
            e2 = eq(par)
            want = True if e2 else None if e2 is None or want is None else False
        if want is None or bool(mode & 1) != want:
            rep('flag-selected', 'an element is marked as selected although it is not' if mode & 1 else 'the selected element is not marked as selected')
        # found
        q = st.mem[ck[0]].cells.get(ck[1])
        res = [k for k, o in st.mem.items() if o.kind == 'elem' and o.cells.get('res') == TRUE]
        found = st.mon[0] == 'F!' or any(self.same(st, k) for k in res if st.mem[k].cells.get('end') != TRUE)
        if mode & 2:
            if not found:
                rep('flag-found', 'an element is marked as a result of the search although it is none')
        else:
            if found:
                rep('flag-found', 'a result of the search is not marked')
            elif not any(st.mem[k].cells.get('end') == TRUE for k in res) and not (q[1] == 'fin' and not q[2]):
                rep('flag-found', 'an element is not marked although not all results were compared with it')
        if mode & ~3:
            rep('flag', 'unknown flags are set')
        ty = self.single(st, f['_type'])
        k = self.kind(vt or t)
        if ty != self.types[k] & 255:
            rep('flag-type', 'a %s is drawn as another kind of value' % k[5:].lower())
        op = self.single(st, f['diffOpt'])
        exp = 'equ' if cls == 'CurseSimpleOutput' else {'none': 'add'}.get(st.mon[1], st.mon[1])
        if exp is None or op != self.ops[exp] & 255:
            rep('flag-diff', 'the flags do not say what the comparison says of the element')

    def single(self, st, v):
        vs = self.eng.values_of(st, v) if v[0] != 'u' else None
        return next(iter(vs)) if vs is not None and len(vs) == 1 else None


class Writes(UI):
    def __init__(self):
        super().__init__('C16 writes')
        self.n = dict(writes=0, printed=0)
        self.eng.mon = self
        self.scr = Screen(self.eng, self)
        names = ('STRING', 'NUMBER', 'BOOL', 'OBJ', 'OBJKEY', 'ARR', 'NULL')
        self.T = {n: self.const('TYPE_' + n) for n in names}
        self.SEARCH = self.const('SPECIAL_SEARCH')
        self.ops = self.p.di.enum('eLevenshteinOperator')
        self.MARK = {'add': (b'++', self.const('DIFF_ADD')), 'mod': (b'!!', self.const('DIFF_MOD')), 'rem': (b'--', self.const('DIFF_REM'))}
        self.eng.cuts['CurseOutput::getNbLines'] = lambda eng, st, ins, fn, args: [(st, eng.opaque(32, 'lines'))]

    def on_print(self, eng, st, w, pos, segs, attrs):
        self.n['printed'] += 1
        if w != self.win:
            self.rep(st, 'window', 'something is written into another window')
            return
        mark = {m: (op, c) for op, (m, c) in self.MARK.items()}
        seg = models.norm(eng, st, segs) if all(g[0] in ('k', 'a', 'ch', 'rep') for g in segs) else tuple(segs)
        text, marks = st.mon[1:]
        if self.split and len(seg) == 1 and seg[0][0] == 'k' and seg[0][1] in mark and \
                pos != ('after',) and eng.rebind(st, pos[1]) == C(0, 32) and seg != self.segs:
            op, col = mark[seg[0][1]]
            st.mon = ('P', text, marks + (op,))
            if op != self.op or marks:
                self.rep(st, 'marker', 'the mark of a difference does not belong to the element')
            if self.row is None or differs(eng, st, pos[0], self.row):
                self.rep(st, 'marker-row', 'the mark of a difference is not on the row of the element')
            if attrs != (A_REVERSE | A_BOLD | col << 8):
                self.rep(st, 'marker', 'the mark of a difference has other attributes')
            return
        st.mon = ('P', text + 1, marks)
        if text:
            self.rep(st, 'text', 'more than the text is written')
        if seg != self.segs:
            self.rep(st, 'text', 'another text is written than the one given')
        if self.row is not None and (pos == ('after',) or differs(eng, st, pos[0], self.row) or differs(eng, st, pos[1], self.col)):
            self.rep(st, 'position', 'the text is not written at the place given')
        if self.row is None and pos != ('after',):
            self.rep(st, 'position', 'the text is not written where the last one ended')
        want = (A_REVERSE | A_BOLD if self.mode & 1 else 0) | (self.color << 8)
        if attrs != want:
            self.rep(st, 'attributes', 'the text of %s element%s is written with %s' % (
                'a selected' if self.mode & 1 else 'an', ' that was found' if self.mode & 2 else '', self.attrs(attrs)))

    def attrs(self, a):
        n = [x for b, x in ((A_REVERSE, 'reverse'), (A_BOLD, 'bold')) if a & b]
        if a & A_COLOR:
            n.append('colour %d' % ((a & A_COLOR) >> 8))
        return ' '.join(n) or 'no attribute'

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, '%s: %s' % (self.what, msg), key=(rule, msg, self.what))

    def go(self):
        p = self.p
        for cls, ti in self.views:
            fs = p.mod.find(cls + '::write')
            for fn in fs:
                ps = models.params(fn)
                self.kind = 'here' if len(ps) == 2 else 'char' if 'char' in ps else 'string'
                if self.kind == 'here' and not models.STR.match(ps[0]) or self.kind != 'here' and len(ps) < 5:
                    raise AnalysisBroken('C16: ' + fn.dname)
                self.n['writes'] += 1
                self.what = fn.qual + {'here': ' (at the cursor)', 'char': ' (character)', 'string': ' (text)'}[self.kind]
                for mode in range(4):
                    for ty in sorted(self.T.values()) + [0]:
                        for op in sorted(self.ops) if cls != 'CurseSimpleOutput' else ['equ']:
                            for work in (0, 1) if cls != 'CurseSimpleOutput' and ty == 1 else (0,):
                                for colors in (True, False):
                                    self.one(cls, ti, fn, ps, mode, ty, op, work, colors)
        return self

    def one(self, cls, ti, fn, ps, mode, ty, op, work, colors):
        eng = self.eng
        st = State()
        st.mon = ('P', 0, ())
        self.mode, self.op, self.split = mode, op if self.kind != 'here' else None, cls != 'CurseSimpleOutput'
        inset = {self.T[n] for n in ('NUMBER', 'BOOL', 'STRING', 'OBJKEY', 'NULL')} if colors else set()
        self.color = self.SEARCH if mode & 2 else ty if ty in inset else 0
        this = self.obj(st, cls, ti)
        scr = self.scr.start(st)
        c = st.mem[this].cells
        c[self.off(cls, 'colors')] = ('M', 'empty', tuple((C(x, 8), True) for x in sorted(inset)))
        y, x = eng.opaque(32, 'y'), eng.opaque(32, 'x')
        top = eng.opaque(32, 'scrollTop')
        if self.split:
            w = self.windows(st, this)
            c[self.off(cls, 'workingWin')] = C(work, 16)
            c[self.off(cls, 'nbInputs')] = C(2, 16)
            wins = []
            for k in w:
                wk = eng.new_obj(st, 'lazy', lazy='any')
                wins.append(('p', wk, 0))
                st.mem[k].cells[self.off('t_subWindow', 'innerWin')] = ('p', wk, 0)
                st.mem[k].cells[self.off('t_subWindow', 'scrollTop')] = top if k == w[work] else eng.opaque(32, 'scrollTop2')
            self.win = wins[work]
        else:
            c[self.off(cls, 'scrollTop')] = top
            eng.gobj(st, 'stdscr')
            eng.load(st, ('p', ('G', 'stdscr'), 0), PTR)
            self.win = self.scr.win0
        fl = self.flags(st, C(mode, 16), C(ty, 8), C(self.ops[op], 8))
        ar = [('p', this, 0)]
        a = eng.atom('text')
        ch = eng.opaque(8, 'char')
        ks = eng.new_obj(st, 'heap')
        models.put_s(eng, st, ks, 0, (a,))
        ky = eng.new_obj(st, 'heap')
        st.mem[ky].cells[0], st.mem[ky].cells[4] = y, x
        self.segs = (('ch', ch),) if self.kind == 'char' else (a,)
        if self.kind == 'here':
            ar += [('p', ks, 0), ('p', fl, 0)]
            self.row = self.col = None
        else:
            ar += [('p', ky, 4), ('p', ky, 0)]
            ar += [ch] if self.kind == 'char' else [('p', ks, 0), eng.opaque(64, 'len')]
            ar += [eng.opaque(32, 'width'), ('p', fl, 0)]
            self.row, self.col = eng.mk('sub', 32, y, top), x
        if len(ar) - 1 != len(ps):
            raise AnalysisBroken('C16: parameters of ' + fn.dname)
        eng.keep_mem = (this, scr, ky, ks)
        eng.push(st, fn, ar)
        for e in eng.run([st]):
            s = e.state
            if e.kind != 'ret':
                self.rep(s, 'text', 'writing ends with an exception')
                continue
            text, marks = s.mon[1:]
            if s.mem[scr].cells[0][1]:
                self.rep(s, 'attributes', 'attributes stay on after the text was written')
            vis = True
            if self.kind != 'here':
                r = {b for _, b in eng.split(s.copy(), eng.icmp_val(s, 'ule', y, top, ('i', 32)))}
                if len(r) != 1:
                    if text or marks:
                        self.rep(s, 'position', 'a text is written without regard of the lines scrolled away')
                    else:
                        self.rep(s, 'text', 'the text is not written')
                    continue
                vis = not r.pop()
            if vis and text != 1:
                self.rep(s, 'text', 'the text is not written')
            elif not vis and (text or marks):
                self.rep(s, 'position', 'a text that is scrolled away is written')
            if vis and self.split and self.kind != 'here' and op != 'equ' and marks != (op,):
                self.rep(s, 'marker', 'a difference is not marked')


def check(tier):
    f = Flags().go()
    w = Writes().go()
    v = list(f.eng.violations.values()) + list(w.eng.violations.values())
    if not v and (f.n['flags'] < 200 or w.n['writes'] < 6 or w.n['printed'] < 500):
        raise AnalysisBroken('C16: only %r %r' % (f.n, w.n))
    fa = f.eng.analysed | w.eng.analysed
    return dict(violations=v,
                coverage=dict(flag_results=f.n['flags'], write_functions=w.n['writes'], prints=w.n['printed'], functions=sorted(fa),
                              functions_analysed=len(fa), paths=f.eng.stats['paths'] + w.eng.stats['paths']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['ncurses attribute functions as documented', 'two views are compared at most'])
