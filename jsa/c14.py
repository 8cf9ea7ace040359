"""C14: drawing shows the document, element after element, and finds the neighbours of the selection.

Drawing is interpreted for both views over documents of bounded shape, with every element selected, every container collapsed or not, the view
scrolled to different lines and of different heights, until the view says that it is drawn.  What was printed in each row is compared with
the lines of the document (texts are abstract, of one line each): every row of the view shows the line that belongs there, whole, with the
selected element highlighted and in view; and the elements before and after the selection are the ones Up and Down should go to."""
from ui import *
import shapes
import parallel

INDENT = 4
REV = A_REVERSE | A_BOLD


class Draw(UI):
    def __init__(self, tier):
        super().__init__('C14')
        self.n = dict(documents=0, drawn=0, rows=0, passes=0, gaps=0)
        eng = self.eng
        eng.mon = self
        eng.endless = lambda st: self.rep(st, 'endless', 'drawing never ends')
        eng.max_rec = 12
        eng.str_limit = lambda st: 64
        self.scr = Screen(eng, self)
        c = eng.cuts
        for q in ('JSonElement::lazystrlen', 'JSonElement::strlen'):
            c[q] = lambda eng, st, ins, fn, args: [(st, C(5, 64))]
        c['CurseOutput::getNbLines'] = self.lines
        c['JSonPrimitive::stringify'] = lambda *a: self.text(*a, 'text')
        c['JSonObjectEntry::stringify'] = lambda *a: self.text(*a, 'key')
        c['LevenshteinMatrice_base::get'] = self.operation
        for q in ('LevenshteinMatrice_base', 'LevenshteinMatrice', 'LevenshteinMatriceWithScore'):
            c[q + '::getEquivalence'] = self.equivalence
        self.ops = self.p.di.enum('eLevenshteinOperator')
        self.coloff = self.off('CurseOutput', 'collapsed')

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg))

    # -- parts of the program that other checks decide
    def lines(self, eng, st, ins, fn, args):
        a = [eng.rebind(st, x) for x in args[-2:]]
        if any(x[0] != 'c' for x in a) or not a[1][1]:
            raise AnalysisBroken('C14: length of a text')
        return [(st, C((a[0][1] + a[1][1] - 1) // a[1][1], 32))]

    def text(self, eng, st, ins, fn, args, what):
        ret, this = args[0], args[1]
        if not fn.sret:
            return None
        models.put_s(eng, st, ret[1], ret[2], (('a', self.world.tag(st, this[1], what)),))
        return [(st, UNDEF)]

    def equivalence(self, eng, st, ins, fn, args):
        a = eng.rebind(st, args[1])
        return [(st, self.equiv.get(a, NULL))]

    def operation(self, eng, st, ins, fn, args):
        a = eng.rebind(st, args[1])
        return [(st, C(self.ops['equ' if a in self.equiv else 'add'], 8))]

    # -- printing
    def on_print(self, eng, st, win, pos, segs, attrs):
        st.mon += ((win, pos, segs, attrs),)

    def on_screen(self, eng, st, name, args):
        if name in ('clear', 'wclear', 'erase', 'werase'):
            w = self.scr.win0 if name in ('clear', 'erase') else self.scr.win(eng, st, args[0])
            st.mon = tuple(e for e in st.mon if e[0] != w)

    # -- the lines of a document
    def document(self, st, root, col):
        """[(element, pieces, selectable element it belongs to or None, depth)]"""
        out = []
        K = lambda s: ('k', s.encode())
        A = lambda n, w: ('a', self.world.tag(st, n.obj, w))

        def value(n, who, depth, key=None):
            if n.kind == 'P':
                out.append((who, (A(n, 'text'),), who, depth))
                return
            o, c = '[]' if n.kind == 'A' else '{}'
            if n.obj in col:
                out.append((who, (K(o + ' ... ' + c),), who, depth))
                return
            out.append((who, (K(o),), who, depth))
            for k in n.kids:
                member(k, depth + 'c') if k.kind == 'E' else value(k, k, depth + 'c')
            out.append((who, (K(c),), None, depth))

        def member(e, depth):
            v = e.val
            k = (A(e, 'key'), K(': '))
            o, c = '[]' if v.kind == 'A' else '{}'
            if v.kind == 'P':
                out.append((e, k + (A(v, 'text'),), e, depth))
            elif v.obj in col:
                out.append((e, k + (K(o + ' ... ' + c),), e, depth))
            elif not v.kids and not self.open_empty:
                out.append((e, k + (K(o + ' ' + c),), e, depth))
            else:
                out.append((e, k, e, depth))
                value(v, e, depth + 'v')
                i = [j for j, x in enumerate(out) if x[0] is e][1]
                out[i] = out[i][:2] + (None,) + out[i][3:]
        value(root, root, '')
        return out

    def visible(self, root, col):
        def go(n):
            yield n
            c = n.container()
            if c and c.obj not in col:
                for k in c.kids:
                    yield from go(k)
        return list(go(root))

    # -- what was printed
    def rows(self, st, win):
        """{row: (column, segs, highlighted)}"""
        out, cur = {}, None
        for w, pos, segs, attrs in st.mon:
            if w != win:
                continue
            if pos != ('after',):
                y, x = (self.num(st, v) for v in pos)
                cur = y
                out.setdefault(y, []).append([x, (), set(), 0])
            if cur is None:
                return None
            r = out[cur][-1]
            r[1] += tuple(segs)
            r[2].add(attrs & REV == REV)
            r[3] += 1
        return out

    def flat(self, st, segs):
        out = []
        for g in norm(self.eng, st, segs):
            if g[0] == "ch" and self.eng.rebind(st, g[1])[0] == "c":
                g = ("k", bytes([self.eng.rebind(st, g[1])[1]]))
            if g[0] == "k" and out and out[-1][0] == "k":
                g = ("k", out.pop()[1] + g[1])
            out.append(g)
        return out

    def num(self, st, v):
        vs = self.eng.values_of(st, v)
        if vs is None or len(vs) != 1:
            raise AnalysisBroken('C14: place of a text')
        return sgn(next(iter(vs)), 32)

    def compare(self, st, what, lines, rows, top, height, first, node, gaps=()):
        """rows first.. of a window against the lines of its document; lines: [(who, pieces, selectable, depth)] or None for a gap"""
        cols = {}
        sel = [i for i, l in enumerate(lines) if l and l[2] is node]
        if node is not None and not (sel and first <= sel[0] - top + first < first + height):
            return self.rep(st, 'selection', '%s: the selected element is not in view' % what)
        for y in range(first, first + height):
            i = y - first + top
            l = lines[i] if 0 <= i < len(lines) else None
            got = [g for g in rows.get(y, []) if g[0] >= 2 or not self.split]
            marks = [self.flat(st, g[1]) for g in rows.get(y, []) if g[0] < 2 and self.split]
            self.n['rows'] += 1
            gap = 0 <= i < len(lines) and l is None
            self.n['gaps'] += gap
            if self.split and (gap and marks != [[('k', b'--')]] or not gap and [('k', b'--')] in marks):
                return self.rep(st, 'gap', '%s: what only the other document has is not marked in the row where it is shown there, or something else is' % what)
            if l is None:
                if got:
                    return self.rep(st, 'row', '%s: a text is drawn where there is none' % what)
                continue
            if not got:
                return self.rep(st, 'row', '%s: a line of the document is left out' % what)
            for x, segs, hi, _ in got:
                if self.flat(st, segs) != self.flat(st, l[1]):
                    return self.rep(st, 'row', '%s: a line of the document is not drawn where it should be, or something else is' % what)
                if hi != {l[0] is node}:
                    return self.rep(st, 'highlight', '%s: the selected element is not highlighted, or another one is' % what)
                if cols.setdefault(l[3], x) != x:
                    return self.rep(st, 'indent', '%s: lines of the same depth do not begin in the same column' % what)
        for d in cols:
            if d and d[:-1] in cols and not (cols[d] > cols[d[:-1]] or d[-1] == 'v' and cols[d] == cols[d[:-1]]):
                return self.rep(st, 'indent', '%s: what is inside of something does not begin further to the right' % what)

    # -- the plain view
    def simple(self, tree, pick, col, top, height):
        eng, p = self.eng, self.p
        cls, ti = self.views[0]
        self.split = self.open_empty = False
        st = State()
        st.mon = ()
        self.scr.start(st)
        root = shapes.build(self.world, st, tree, prim=p.STRING)
        conts = [n for n in shapes.every(root) if n.kind in 'AO']
        col = {n.obj for i, n in enumerate(conts) if col >> i & 1}
        vis = self.visible(root, col)
        node = vis[pick]
        this = self.obj(st, cls, ti)
        c = st.mem[this].cells
        o = lambda f: self.off(cls, f)
        c[self.coloff] = ('M', 'empty', tuple((('p', n.obj, 0), n.obj in col) for n in conts))
        c[o('data')], c[o('selection')] = ('p', root.obj, 0), ('p', node.obj, 0)
        c[o('scrollTop')] = C(top, 32)
        c[o('search_result')] = ('Q', 'fin', ())
        par = eng.new_obj(st, 'lazy', lazy='any', cls=frozenset(['_ZTI6Params']), di='Params')
        c[self.off('CurseOutput', 'params')] = ('p', par, 0)
        c[self.off('CurseOutput', 'colors')] = ('M', 'empty', ())
        so = self.off('CurseOutput', 'screenSize')
        c[so], c[so + 4] = C(1000, 32), C(height, 32)
        name = ('k', b'name of the input')
        models.put_s(eng, st, this, o('inputName'), (name,))
        fn = [f for f in p.mod.find(cls + '::redraw') if not f.declared and len(models.params(f)) == 0]
        if len(fn) != 1:
            raise AnalysisBroken('C14: ' + cls)
        lines = self.document(st, root, col)
        self.n['drawn'] += 1
        todo = [(st, 0)]
        while todo:
            s, k = todo.pop()
            if k > len(lines) + 4:
                self.rep(s, 'endless', '%s: drawing never ends' % cls)
                continue
            eng.push(s, fn[0], [('p', this, 0)])
            for x in eng.run([s]):
                self.n['passes'] += 1
                t = x.state
                if x.kind != 'ret':
                    self.rep(t, 'throws', '%s: drawing ends with an exception' % cls)
                    continue
                v = eng.values_of(t, x.value)
                if v == {0}:
                    todo.append((t, k + 1))
                elif v == {1}:
                    self.drawn(t, cls, this, o, lines, vis, node, top, height, name)
                else:
                    raise AnalysisBroken('C14: result of drawing')

    def drawn(self, st, cls, this, o, lines, vis, node, top0, height, name):
        eng = self.eng
        g = lambda f: eng.rebind(st, st.mem[this].cells.get(o(f), UNDEF))
        top = self.num(st, g('scrollTop'))
        rows = self.rows(st, self.scr.win0)
        if rows is None:
            return self.rep(st, 'row', '%s: a text is drawn at no place' % cls)
        self.compare(st, cls, lines, rows, top, height - 1, 1, node)
        self.title(st, cls, rows, name)
        if g('selection') != ('p', node.obj, 0):
            self.rep(st, 'selection', '%s: drawing changes the selection' % cls)
        line = [i for i, l in enumerate(lines) if l[2] is node][0]
        want = top0
        if line < top0:
            want = line
        elif line - top0 + 1 > height - 1:
            want = line - (height - 2)
        if top != want:
            self.rep(st, 'scroll', '%s: the view is scrolled more or less than it takes to show the selected element' % cls)
        self.neighbours(st, cls, g('select_up'), g('select_down'), vis, node)
        sl = eng.values_of(st, g('selectIsLast'))
        i = vis.index(node)
        shown = lambda l: top <= l < top + height - 1
        if i + 1 < len(vis):
            need = not shown([j for j, l in enumerate(lines) if l[2] is vis[i + 1]][0])
        else:
            need = not shown(len(lines) - 1)
        full = len(lines) - 1 == top + height - 2   # the last line in the last row: it may scroll once more
        if sl != {int(need)} and not (full and i + 1 == len(vis)):
            self.rep(st, 'last', '%s: %s' % (cls, 'Down would not scroll although what follows the selection is not drawn' if need else
                                             'Down would scroll although what follows the selection is drawn'))

    def has(self, segs, name):
        return any(g[0] == 'k' and name[1] in g[1] or g[0] == 'fmt' and isinstance(g[3], tuple) and name in g[3] for g in segs)

    def title(self, st, what, rows, name):
        t = rows.get(0, [])
        if not t or not any(self.has(r[1], name) for r in t):
            self.rep(st, 'title', '%s: the name of the document is not shown' % what)
        elif any(r[3] > 1 or not self.has(r[1], name) for r in t):
            self.rep(st, 'title', '%s: a text is drawn over the name of the document' % what)

    def neighbours(self, st, what, up, down, vis, node):
        i = vis.index(node)
        w = ('p', vis[max(i - 1, 0)].obj, 0)
        if up != w:
            self.rep(st, 'up', '%s: Up would not go to the element drawn before the selection' % what)
        w = ('p', vis[min(i + 1, len(vis) - 1)].obj, 0)
        if down != w:
            self.rep(st, 'down', '%s: Down would not go to the element drawn after the selection' % what)

    # -- a comparison
    def comparison(self, tree, pick, cut, side, top, height, mode, fold=0):
        '''cut: number of the element that only one document has (None: none); side: the document that has it; mode 0: the first, 1: the second
        window is selected; fold: the containers that are collapsed (in both)'''
        eng, p = self.eng, self.p
        cls, ti = self.views[1]
        self.split, self.open_empty = True, False
        st = State()
        st.mon = ()
        self.scr.start(st)
        full = shapes.build(self.world, st, tree, prim=p.STRING)
        nodes = list(shapes.every(full))
        gone = None
        small = tree
        if cut is not None:
            ks = [n for n in nodes if n.up is not None and n.up.kind in 'AO']
            gone = ks[cut]
            small = self.without(full, gone)
        other = shapes.build(self.world, st, small, prim=p.STRING)
        left = []
        for n in nodes:
            x = n
            while x is not None and x is not gone:
                x = x.up
            if gone is None or x is None:
                left.append(n)
        self.equiv = {}
        twin = {}
        if cut != 'all':
            for a, b in zip(left, shapes.every(other)):
                self.equiv[('p', a.obj, 0)], self.equiv[('p', b.obj, 0)] = ('p', b.obj, 0), ('p', a.obj, 0)
                twin[a], twin[b] = b, a
        roots = [full, other] if side == 0 else [other, full]
        lines = {}
        col = {}
        for r in (full, other):
            cs = [n for n in shapes.every(r) if n.kind in 'AO']
            col[r] = {n.obj for i, n in enumerate(cs) if fold >> i & 1}
            lines[r] = self.document(st, r, col[r])
        if gone is not None:
            keep = [l[0] in twin for l in lines[full]]
            it = iter(lines[other])
            lines[other] = [next(it) if k else None for k in keep]
        vis = [self.visible(r, col[r]) for r in roots]
        node = [None, None]
        node[mode] = vis[mode][pick]
        node[1 - mode] = twin.get(node[mode])
        this = self.obj(st, cls, ti)
        c = st.mem[this].cells
        o = lambda f: self.off(cls, f)
        wo = lambda f: self.off('t_subWindow', f)
        c[self.coloff] = ('M', 'empty', tuple((('p', n.obj, 0), n.obj in col[r]) for r in (full, other) for n in shapes.every(r) if n.kind in 'AO'))
        par = eng.new_obj(st, 'lazy', lazy='any', cls=frozenset(['_ZTI6Params']), di='Params')
        c[self.off('CurseOutput', 'params')] = ('p', par, 0)
        c[self.off('CurseOutput', 'colors')] = ('M', 'empty', ())
        so = self.off('CurseOutput', 'screenSize')
        c[so], c[so + 4] = C(1000, 32), C(height, 32)
        c[o('nbInputs')], c[o('selectedWin')], c[o('workingWin')] = C(2, 16), C(mode, 16), C(0, 16)
        k = eng.new_obj(st, 'lazy', lazy='any', cls=frozenset(['_ZTI18LevenshteinMatrice']), di='LevenshteinMatrice')
        c[o('diffMatrice')] = ('p', k, 0)
        w = self.windows(st, this)
        inner, names = [], []
        for i, x in enumerate(w):
            q = st.mem[x].cells
            q[wo('root')] = ('p', roots[i].obj, 0)
            last = node[i] or roots[i]
            q[wo('selection')] = ('p', node[i].obj, 0) if node[i] else NULL
            q[wo('lastSelection')] = ('p', last.obj, 0)
            q[wo('scrollTop')] = C(top, 32)
            q[wo('searchResults')] = ('Q', 'fin', ())
            left = eng.new_obj(st, 'elem')     # where the last drawing ended
            st.mem[left].cells.update({0: C(0, 32), 8: ('p', roots[i].obj, 0)})
            q[wo('parentsIterators')] = ('Q', 'fin', (left,)) if roots[i].kind in 'AO' else ('Q', 'fin', ())
            for n in ('innerWin', 'outerWin'):
                q[wo(n)] = ('p', eng.new_obj(st, 'lazy', lazy='any'), 0)
            inner.append(q[wo('innerWin')])
            names.append(('k', b'name of input %d' % i))
            models.put_s(eng, st, x, wo('fileName'), (names[i],))
        fn = [f for f in p.mod.find(cls + '::redraw') if not f.declared and len(models.params(f)) == 0]
        if len(fn) != 1:
            raise AnalysisBroken('C14: ' + cls)
        self.n['drawn'] += 1
        todo = [(st, 0)]
        while todo:
            s, n = todo.pop()
            if n > 2 * len(lines[full]) + 6:
                self.rep(s, 'endless', '%s: drawing never ends' % cls)
                continue
            eng.push(s, fn[0], [('p', this, 0)])
            for x in eng.run([s]):
                self.n['passes'] += 1
                t = x.state
                if x.kind != 'ret':
                    self.rep(t, 'throws', '%s: drawing ends with an exception' % cls)
                    continue
                v = eng.values_of(t, x.value)
                if v == {0}:
                    todo.append((t, n + 1))
                    continue
                if v != {1}:
                    raise AnalysisBroken('C14: result of drawing')
                for i in (0, 1):
                    g = lambda f: eng.rebind(t, t.mem[w[i]].cells.get(wo(f), UNDEF))
                    ls = lines[roots[i]]
                    at = self.num(t, g('scrollTop'))
                    rows = self.rows(t, inner[i])
                    if rows is None:
                        self.rep(t, 'row', '%s: a text is drawn at no place' % cls)
                        continue
                    last = node[i] or roots[i]
                    if node[i] or height > 20:
                        self.compare(t, cls, ls, rows, at, height - 1, 1, node[i])
                    self.title(t, cls, rows, names[i])
                    if g('selection') != (('p', node[i].obj, 0) if node[i] else NULL) or g('lastSelection') != ('p', last.obj, 0):
                        self.rep(t, 'selection', '%s: drawing changes the selection' % cls)
                    line = [j for j, l in enumerate(ls) if l and l[2] is last][0]
                    want = top
                    if line < top:
                        want = line
                    elif line - top + 1 > height - 1:
                        want = line - (height - 2)
                    if at != want:
                        self.rep(t, 'scroll', '%s: the view is scrolled more or less than it takes to show the selected element' % cls)
                    self.neighbours(t, cls, g('select_up'), g('select_down'), vis[i], last)

    def without(self, n, gone):
        """the shape of a document without one element"""
        if n.kind == 'P':
            return 'P'
        return (n.kind, tuple(self.without(k.val if k.kind == 'E' else k, gone) for k in n.kids if k is not gone))

    # -- everything
    def jobs(self, tier):
        out = []
        for t in shapes.upto(5 if tier == 'thorough' else 4):
            st = State()
            root = shapes.build(self.world, st, t, prim=self.p.STRING)
            conts = [n for n in shapes.every(root) if n.kind in 'AO']
            size = len([1 for x in shapes.every(root) if x.kind != 'E'])
            for col in range(1 << len(conts)):
                cs = {n.obj for i, n in enumerate(conts) if col >> i & 1}
                if any(not n.kids for n in conts if n.obj in cs) and size > 2:
                    continue   # an empty container is hardly ever collapsed
                vis = self.visible(root, cs)
                if any(n.obj in cs and not self.seen(n, vis) for n in conts):
                    continue   # hidden: it does not matter
                for pick in range(len(vis)):
                    places = [(t0, h) for t0 in (0, 1, 3, 9) for h in (4, 6, 60)] if size <= 3 else \
                        [(0, 4), (1, 6), (3, 60), (2, 4)] if size == 4 else [(0, 4), (1, 6)]
                    for p in places:
                        out.append(('simple', t, pick, col) + p)
        for t in shapes.upto(5 if tier == 'thorough' else 4):
            st = State()
            root = shapes.build(self.world, st, t, prim=self.p.STRING)
            every = list(shapes.every(root))
            vis = list(shapes.walk(root))
            size = len([n for n in every if n.kind != 'E'])
            for pick in range(len(vis)):
                for mode in (0, 1) if size <= 3 else (0,):
                    for top, h in [(0, 4), (1, 6), (3, 60), (2, 4)] if size <= 3 else [(0, 4), (1, 60)]:
                        out.append(('comparison', t, pick, None, 0, top, h, mode))
            conts = [n for n in every if n.kind in 'AO']
            for fold in range(1, 1 << len(conts)) if size <= 3 else ():
                cs = {n.obj for i, n in enumerate(conts) if fold >> i & 1}
                if any(not n.kids for n in conts if n.obj in cs):
                    continue
                v = self.visible(root, cs)
                if all(self.seen(n, v) for n in conts if n.obj in cs):
                    out += [('comparison', t, pick, None, 0, pick % 2, 4 + 56 * (fold & 1), 0, fold) for pick in range(len(v))]
            cuts = [n for n in every if n.up is not None and n.up.kind in 'AO']
            for cut, gone in enumerate(cuts):
                if len(gone.up.kids) == 1 and gone.up.up is not None and gone.up.up.kind == 'E':
                    continue   # the other document has the container in one line
                rest = [n for n in vis if not self.within(n, gone)]
                for side in (0, 1):
                    for mode in (0, 1):
                        for top, h in [(0, 60), (2, 60), (0, 4)] if size <= 3 else [(0, 60), (1, 5)] if mode == side else [(1, 60)]:
                            for pick in range(len(vis) if mode == side else len(rest)):
                                if mode == side and self.within(vis[pick], gone) and h < 60:
                                    continue
                                out.append(('comparison', t, pick, cut, side, top, h, mode))
        if tier != 'thorough':   # the largest documents: a part
            big = [j for j in out if self.size(j[1]) > 3]
            drop = {j for i, j in enumerate(big) if i % (2 if j[0] == 'simple' else 5)}
            out = [j for j in out if j not in drop]
        return out

    def size(self, t):
        return 1 if t == 'P' else 1 + sum(self.size(k) for k in t[1])

    def within(self, n, a):
        while n is not None:
            if n is a:
                return True
            n = n.up
        return False

    def seen(self, n, vis):
        return shapes.head(n) in vis

    def work(self, job):
        self.eng.stats['steps'] = 0
        getattr(self, job[0])(*job[1:])


def check(tier):
    c = Draw(tier)
    jobs = c.jobs(tier)
    c.n['documents'] = len({j[1] for j in jobs})
    fns, paths, v = parallel.run(c, jobs)
    n = c.n
    if not v and (n['drawn'] < 3000 or n['rows'] < 20000):
        raise AnalysisBroken('C14: only %r' % n)
    return dict(violations=v,
                coverage=dict(n, functions=sorted(fns), functions_analysed=len(fns), paths=paths),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['documents are trees as they are read (C02), of up to %d elements' % (5 if tier == 'thorough' else 4),
                             'every text takes one line; the view is at least four lines high',
                             'attributes, kinds and marks of a comparison are decided by C16'])
