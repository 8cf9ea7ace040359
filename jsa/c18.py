"""C18: the keys that move the selection select the element they should, in both views and both windows of a comparison.

The actions are interpreted over documents of bounded shape: every arrangement of arrays, objects and simple values up to the bound, every
element selected, every container collapsed or not; kinds of simple values, texts, and the other document of a comparison are abstract (the
counterpart of an element is any element, or there is none).  Afterwards the selection of every window, what is collapsed, the position of
the view and the window that is active are compared with what the action should have done."""
from ui import *
import shapes


class Moves(UI):
    def __init__(self, tier):
        super().__init__('C18')
        self.size = 5 if tier == 'thorough' else 4
        self.n = dict(documents=0, actions=0, window_changes=0, results=0)
        eng = self.eng
        eng.mon = self
        eng.endless = lambda st: self.rep(st, 'endless', 'an action never ends')
        self.R = self.p.di.enum('inputResult')
        eng.cuts['LevenshteinMatrice_base::getEquivalence'] = self.equivalence
        eng.cuts['LevenshteinMatrice::getEquivalence'] = self.equivalence
        eng.cuts['LevenshteinMatriceWithScore::getEquivalence'] = self.equivalence
        eng.max_rec = 12
        self.coloff = self.off('CurseOutput', 'collapsed')

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg))

    def one(self, q, n):
        f = [f for f in self.p.mod.find(q) if not f.declared and len(models.params(f)) == n]
        if len(f) != 1:
            raise AnalysisBroken('C18: %s' % q)
        return f[0]

    # -- the other document
    def equivalence(self, eng, st, ins, fn, args):
        a = eng.rebind(st, args[1])
        if a[0] == 'n' or a == NULL:
            return [(st, NULL)]
        for e in st.mon:
            if e[0] == 'eq' and e[1] == a:
                return [(st, e[2])]
        out = []
        s2 = st.copy()
        r = ('p', self.world.new(st, self.p.VALUE | self.p.ENTRY), 0)
        st.mon += (('eq', a, r),)
        s2.mon += (('eq', a, NULL),)
        return [(st, r), (s2, NULL)]

    def eq(self, st, a):
        for e in st.mon:
            if e[0] == 'eq' and e[1] == a:
                return e[2]
        return None

    # -- states
    def make(self, cls, ti, tree, sel, pick, focus, others):
        """a view of the document in which the pick-th selectable element is selected"""
        eng, p = self.eng, self.p
        st = State()
        st.mon = ()
        root = shapes.build(self.world, st, tree)
        node = list(shapes.walk(root))[pick]
        con = node.container()
        up = set()
        x = node
        while x is not None:
            up.add(x)
            x = x.up
        ent = []
        for x in shapes.every(root):
            if x.kind in 'AO':
                ent.append((('p', x.obj, 0), focus if x is con else False if x in up else others))
        this = self.obj(st, cls, ti)
        c = st.mem[this].cells
        c[self.coloff] = ('M', 'empty', tuple(ent))
        U = ('p', self.world.new(st, p.VALUE | p.ENTRY), 0)
        D = ('p', con.kids[0].obj, 0) if con and con.kids and not focus else ('p', self.world.new(st, p.VALUE | p.ENTRY), 0)
        me = ('p', node.obj, 0)
        S = dict(this=this, cls=cls, root=root, node=node, con=con, me=me, U=U, D=D, collapsed=dict(ent), sel=sel, focus=focus)
        if cls == 'CurseSimpleOutput':
            S['home'] = this
            S['names'] = dict(selection=self.off(cls, 'selection'), up=self.off(cls, 'select_up'), down=self.off(cls, 'select_down'),
                              top=self.off(cls, 'scrollTop'), last=self.off(cls, 'selectIsLast'))
            c[self.off(cls, 'data')] = ('p', root.obj, 0)
        else:
            w = self.windows(st, this)
            self.number(st, c, sel)
            S['home'], S['other'] = w[sel], w[1 - sel]
            S['names'] = dict(selection=self.off('t_subWindow', 'selection'), up=self.off('t_subWindow', 'select_up'),
                              down=self.off('t_subWindow', 'select_down'), top=self.off('t_subWindow', 'scrollTop'),
                              lastsel=self.off('t_subWindow', 'lastSelection'), last=self.off('t_subWindow', 'selectIsLast'))
            st.mem[w[sel]].cells[self.off('t_subWindow', 'root')] = ('p', root.obj, 0)
            st.mem[w[sel]].cells[S['names']['lastsel']] = me
            S['os'] = ('p', self.world.new(st, p.VALUE | p.ENTRY), 0)
            S['ol'] = ('p', self.world.new(st, p.VALUE | p.ENTRY), 0)
            o = st.mem[w[1 - sel]].cells
            o[S['names']['selection']], o[S['names']['lastsel']] = S['os'], S['ol']
            o[S['names']['top']] = S['otop'] = eng.opaque(32, 'scrollTop')
            o[self.off('t_subWindow', 'root')] = ('p', self.world.new(st, p.VALUE, owner=NULL), 0)
            self.matrix(st, c)
        N = S['names']
        h = st.mem[S['home']].cells
        h[N['selection']], h[N['up']], h[N['down']] = me, U, D
        h[N['top']] = S['top'] = eng.opaque(32, 'scrollTop')
        h[N['last']] = S['last'] = eng.sym(st, 8, (0, 1), 'last')
        return st, S

    def number(self, st, c, sel):
        c[self.off('CurseSplitOutput', 'selectedWin')] = C(sel, 16)
        c[self.off('CurseSplitOutput', 'workingWin')] = C(0, 16)
        c[self.off('CurseSplitOutput', 'nbInputs')] = C(2, 16)

    def matrix(self, st, c):
        k = self.eng.new_obj(st, 'lazy', lazy='any', cls=frozenset(['_ZTI18LevenshteinMatrice']), di='LevenshteinMatrice')
        c[self.off('CurseSplitOutput', 'diffMatrice')] = ('p', k, 0)

    # -- what an action should do
    def expected(self, S, action, last):
        """(selection, collapsed set, scrolled by) afterwards"""
        node, con, col = S['node'], S['con'], dict(S['collapsed'])
        key = con and ('p', con.obj, 0)
        ptr = lambda n: S['me'] if n is None else ('p', n.obj, 0)
        if action == 'selectUp':
            return S['U'], col, 0
        if action == 'selectDown':
            if S['cls'] == 'CurseSimpleOutput' and last:
                return S['me'], col, 2
            return S['D'], col, 0
        if action == 'selectPUp':
            return ptr(node.prev() or node.around()), col, 0
        if action == 'selectPDown':
            return ptr(node.next()), col, 0
        if action == 'expandSelection':
            if con is None:
                return S['me'], col, 0
            if S['focus']:
                col[key] = False
                return S['me'], col, 0
            return ptr(con.kids[0] if con.kids else None), col, 0
        if con is None or S['focus'] or not con.kids:
            if node.up is None and con is not None and not con.kids:
                return S['me'], None, 0   # an empty document: collapsing it makes no difference worth telling
            return ptr(node.around()), col, 0
        col[key] = True
        return S['me'], col, 0

    def compare(self, x, S, action):
        eng, st = self.eng, x.state
        self.n['results'] += 1
        what = self.names[action]
        if x.kind != 'ret':
            return self.rep(st, 'throws', '%s: %s ends with an exception' % (S['cls'], what))
        N = S['names']
        r = lambda k, o: eng.rebind(st, st.mem[k].cells.get(o, UNDEF))
        last = eng.rebind(st, S['last'])
        lv = eng.values_of(st, last)
        for l in sorted(lv):
            sel, col, by = self.expected(S, action, l)
            top = eng.mk('add', 32, S['top'], C(by, 32)) if by else S['top']
            got = r(S['home'], N['selection'])
            if got != sel:
                kind = {'P': 'a simple value', 'A': 'an array', 'O': 'an object', 'E': 'a member'}[S['node'].kind]
                return self.rep(st, 'selection', '%s: %s selects the wrong element when %s%s is selected' % (
                    S['cls'], what, kind, ' that is the document' if S['node'].up is None else
                    ' in an array' if S['node'].up.kind == 'A' else ''))
            if differs(eng, st, r(S['home'], N['top']), top):
                return self.rep(st, 'scrolls', '%s: %s scrolls the view wrongly' % (S['cls'], what))
            m = models.get_m(eng, st, S['this'], self.coloff)
            have = {k: b for k, b in m[2]}
            if col is None:
                col = S['collapsed']
                for k in (S['me'], self.eq(st, S['me'])):
                    if k in col:
                        have[k] = col[k]
                    else:
                        have.pop(k, None)
            bad = [k for k, b in col.items() if have.get(k, m[1] != 'empty' and None) != b]
            if bad:
                return self.rep(st, 'collapsed', '%s: after %s the wrong containers are collapsed' % (S['cls'], what))
            changed = sel != S['me'] or col != S['collapsed'] or by
            extra = {k for k, b in have.items() if b and k not in S['collapsed']}
            if S['cls'] == 'CurseSplitOutput':
                home = r(S['home'], N['lastsel'])
                if home != sel:
                    return self.rep(st, 'selection', 'the selection is not remembered after %s' % what)
                os, ol = r(S['other'], N['selection']), r(S['other'], N['lastsel'])
                if sel != S['me']:
                    q = self.eq(st, sel)
                    if q is None or os != q or ol != (S['ol'] if q == NULL else q):
                        return self.rep(st, 'counterpart', 'after %s the other window does not select the counterpart, or forgets what it selected last' % what)
                elif (os, ol) != (S['os'], S['ol']):
                    q = self.eq(st, sel)
                    if q is None or os != q or ol != (S['ol'] if q == NULL else q):
                        return self.rep(st, 'counterpart', '%s changes the selection of the other window although the selection does not move' % what)
                if r(S['other'], N['top']) != S['otop']:
                    return self.rep(st, 'scrolls', '%s scrolls the other window' % what)
                wn = r(S['this'], self.off('CurseSplitOutput', 'selectedWin'))
                if wn != C(S['sel'], 16):
                    return self.rep(st, 'window', '%s changes the active window' % what)
                if col != S['collapsed'] and S['con'] is not None:
                    q = self.eq(st, ('p', S['con'].obj, 0))
                    want = action == 'collapseSelection'
                    if q is None or q != NULL and have.get(q) != want:
                        return self.rep(st, 'counterpart', 'the counterpart of a container that is %s is not' % ('collapsed' if want else 'expanded'))
                    extra.discard(q)
                elif S['focus'] and action == 'collapseSelection':
                    extra.discard(self.eq(st, ('p', S['con'].obj, 0)))   # collapsed with its counterpart already
            if S['con'] is None and S['node'].up is None:
                extra -= {S['me'], self.eq(st, S['me'])}   # a simple document: it makes no difference
            extra.discard(NULL)
            if extra:
                return self.rep(st, 'collapsed', '%s: %s collapses something else' % (S['cls'], what))
            v = eng.values_of(st, x.value) or set()
            if changed and not v <= {self.R['redraw'], self.R['redrawAll']} or v & {self.R['quit']} or not v:
                return self.rep(st, 'redraw', '%s: the view is not drawn again after %s' % (S['cls'], what))

    names = dict(selectUp='going up', selectDown='going down', selectPUp='going to the element before', selectPDown='going to the element after',
                 expandSelection='expanding', collapseSelection='collapsing')

    def action(self, cls, ti, tree, sel, pick, focus, others, action):
        eng = self.eng
        st, S = self.make(cls, ti, tree, sel, pick, focus, others)
        self.n['actions'] += 1
        for v in ((S['D'], S['me']) if action == 'selectDown' else (S['U'], S['me']) if action == 'selectUp' else (None,)):
            s = st.copy()
            T = dict(S)
            if v is not None:
                T['D' if action == 'selectDown' else 'U'] = v
                s.wobj(S['home']).cells[S['names']['down' if action == 'selectDown' else 'up']] = v
            eng.push(s, self.one(cls + '::' + action, 0), [('p', S['this'], 0)])
            for x in eng.run([s]):
                self.compare(x, T, action)

    # -- the active window of a comparison
    def windows_changed(self):
        eng, p = self.eng, self.p
        cls, ti = self.views[1]
        fn = self.one(cls + '::changeWindow', 2)
        for sel in (0, 1):
            for d, cycle in ((1, 1), (1, 0), (-1, 0)):
                for null in (False, True):
                    st, S = self.make(cls, ti, 'P', sel, 0, False, False)
                    N = S['names']
                    if null:
                        st.mem[S['other']].cells[N['selection']] = NULL
                    self.n['window_changes'] += 1
                    eng.push(st, fn, [('p', S['this'], 0), C(d & 255, 8), C(cycle, 1)])
                    for x in eng.run([st]):
                        s = x.state
                        self.n['results'] += 1
                        if x.kind != 'ret':
                            self.rep(s, 'throws', 'changing the window ends with an exception')
                            continue
                        r = lambda k, o: eng.rebind(s, s.mem[k].cells.get(o, UNDEF))
                        new = sel + d
                        new = new if 0 <= new < 2 else new % 2 if cycle else sel
                        if r(S['this'], self.off(cls, 'selectedWin')) != C(new, 16):
                            self.rep(s, 'window', 'the wrong window becomes the active one')
                            continue
                        have = (r(S['home'], N['selection']), r(S['home'], N['lastsel'])), (r(S['other'], N['selection']), r(S['other'], N['lastsel']))
                        if new != sel and null:
                            q = self.eq(s, S['ol'])
                            want = None if q is None else ((q, S['me'] if q == NULL else q), (S['ol'], S['ol']))
                        else:
                            want = (S['me'], S['me']), (NULL if null else S['os'], S['ol'])
                        if have != want:
                            self.rep(s, 'window', 'the selections are wrong after the active window was changed')
                        v = eng.values_of(s, x.value) or set()
                        if new != sel and not v <= {self.R['redraw'], self.R['redrawAll']} or not v or self.R['quit'] in v:
                            self.rep(s, 'redraw', 'the view is not drawn again after the active window was changed')

    def go(self):
        for cls, ti in self.views:
            split = cls == 'CurseSplitOutput'
            for t in shapes.upto(self.size):
                self.n['documents'] += 1
                st = State()
                root = shapes.build(self.world, st, t)
                size = len([1 for x in shapes.every(root) if x.kind != 'E'])
                for pick, node in enumerate(shapes.walk(root)):
                    acts = ['selectPUp', 'selectPDown']
                    if size <= self.size - 1:
                        acts += ['expandSelection', 'collapseSelection']
                    if size <= 2:
                        acts += ['selectUp', 'selectDown']
                    for sel in (0, 1) if split and size <= 3 else (0,):
                        for a in acts:
                            for focus in (False, True) if node.container() else (False,):
                                if a in ('selectPUp', 'selectPDown') and focus and size > 3:
                                    continue
                                for others in (False, True) if size == self.size - 1 and a[0] in 'ec' else (False,):
                                    self.action(cls, ti, t, sel, pick, focus, others, a)
        self.windows_changed()
        return self


def check(tier):
    c = Moves(tier).go()
    v = list(c.eng.violations.values())
    n = c.n
    if not v and (n['actions'] < 2000 or n['window_changes'] < 12 or n['results'] < 2500):
        raise AnalysisBroken('C18: only %r' % n)
    return dict(violations=v,
                coverage=dict(n, functions=sorted(c.eng.analysed), functions_analysed=len(c.eng.analysed), paths=c.eng.stats['paths']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['documents are trees as they are read (C02), of up to %d elements' % c.size,
                             'in the selected window of a comparison something is selected; the neighbours of the selection are those found by drawing'])
