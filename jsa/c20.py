"""C20: a comparison pairs the elements of two documents with the fewest changes.

The builder of the comparison is interpreted for pairs of documents of bounded shape.  Texts are abstract: whether two simple values are alike,
two keys equal or two kinds the same is undecided until the builder asks, and both answers are followed.  What the result says about every
element (its counterpart and its mark) is compared with what a reference over the same answers allows: the alignments with the
fewest changes.  For documents of any size, the type of the cells of the table is compared with the sizes under which it is chosen."""
from ui import *
from engine import fnum
import shapes
import itertools
import parallel


class Diff(UI):
    def __init__(self, tier):
        super().__init__('C20')
        self.n = dict(pairs=0, comparisons=0, elements=0, tables=0, kinds=0, texts=0, shares=0)
        eng = self.eng
        eng.mon = self
        eng.endless = lambda st: self.rep(st, 'endless', 'a comparison never ends')
        eng.max_rec = 14
        eng.ring = True
        eng.split_bool = True
        eng.MAX_STEPS = 40_000_000 if tier == 'thorough' else 6_000_000
        c = eng.cuts
        self.big, self.size = (), {}
        for q in ('std::list::size', 'JSonContainer::size'):
            c[q] = self.long
        c['levenshteinPercent'] = self.percent
        c['AJSonPrimitive::sameType'] = self.same
        c['JSonPrimitive::stringify'] = lambda *a: self.text(*a, 'text')
        c['JSonObjectEntry::stringify'] = lambda *a: self.text(*a, 'key')
        self.ops = {v: k for k, v in self.p.di.enum('eLevenshteinOperator').items()}
        f = [f for f in self.p.mod.find('LevenshteinMatrice_base::Builder::build') if not f.declared]
        if len(f) != 1:
            raise AnalysisBroken('C20: the builder')
        self.build = f[0]
        self.mixed = False

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg))

    def on_div(self, eng, st, ins, a, c):
        out = []
        for s, z in eng.split(st, eng.icmp_val(st, 'eq', c, C(0, ins.ty[1]), ins.ty)):
            if z:
                self.rep(s, 'zero', 'a comparison ends with a division by zero')
            else:
                s.frames[-1].regs[ins.res] = eng.arith(s, ins.op, ins.ty, a, c)
                s.frames[-1].idx += 1
                out.append(s)
        return out

    # -- texts and kinds
    def text(self, eng, st, ins, fn, args, what):
        if not fn.sret:
            return None
        models.put_s(eng, st, args[0][1], args[0][2], (('a', self.world.tag(st, args[1][1], what)),))
        return [(st, UNDEF)]

    def ask(self, eng, st, key, yes, no):
        if key in st.facts:
            return [(st, yes if st.facts[key] else no)]
        s2 = st.copy()
        st.facts[key], s2.facts[key] = True, False
        st.mon += ((key, True),)
        s2.mon += ((key, False),)
        return [(st, yes), (s2, no)]

    def percent(self, eng, st, ins, fn, args):
        t = []
        for a in args[-2:]:
            r = models.segs_of(eng, st, a)
            if len(r) != 1 or len(r[0][1]) != 1 or r[0][1][0][0] != 'a':
                raise AnalysisBroken('C20: text that is compared')
            t.append(r[0][1][0][1])
        return self.ask(eng, st, ('alike', frozenset(t)), ('fc', 1.0), ('fc', 0.0))

    def same(self, eng, st, ins, fn, args):
        a, b = (eng.rebind(st, x) for x in args[-2:])
        if not self.mixed:
            return [(st, TRUE)]
        return self.ask(eng, st, ('same', frozenset((a[1], b[1]))), TRUE, FALSE)

    # -- the reference
    def judge(self, st, pick):
        """functions of the answers: pick(question) decides what was not asked"""
        tag = lambda n, w: self.world.tag(st, n.obj, w)
        memo = {}

        def alike(a, b):
            return pick(('alike', frozenset((tag(a, 'text'), tag(b, 'text')))))

        def same(a, b):
            return not self.mixed or pick(('same', frozenset((a.obj, b.obj))))

        def key(a, b):
            return pick(('key', tag(a, 'key'), tag(b, 'key')))

        def cost(a, b):
            """(changes if they are counterparts, alike)"""
            k = (a, b)
            if k not in memo:
                memo[k] = cost1(a, b)
            return memo[k]

        def cost1(a, b):
            ca, cb = a.kind in 'AO', b.kind in 'AO'
            if ca and cb:
                d = dist(a.kids, b.kids)
                ok = d < max(len(a.kids), len(b.kids)) or not a.kids and not b.kids
                return (0 if ok else d), ok
            if ca or cb:
                c = a if ca else b
                if c in self.big:
                    return (1 if pick(('long', c.obj, 0)) else 2 if pick(('long', c.obj, 1)) else 3), False
                return len(c.kids) + 1, False
            if a.kind == 'E' and b.kind == 'E' and key(a, b):
                return cost(a.val, b.val)
            if a.kind == 'E' or b.kind == 'E':
                return 1, False
            ok = alike(a, b)
            return int(not ok), ok

        def dist(x, y):
            t = list(range(len(y) + 1))
            for i, a in enumerate(x):
                n = [i + 1]
                for j, b in enumerate(y):
                    n.append(min(t[j + 1] + 1, n[j] + 1, t[j] + cost(a, b)[0]))
                t = n
            return t[-1]
        return cost, dist, same, key

    def inside(self, n):
        return [x for x in shapes.every(n) if x is not n]

    def verdict(self, a, b, eq, op, judge):
        """None or what is wrong with the counterparts and marks under the answers"""
        cost, dist, same, key = judge

        def none(xs):
            if any(eq.get(x) for x in xs):
                return 'something inside of what has no counterpart has one'
            if any(op.get(x, 'add') == 'equ' for x in xs):
                return 'something that only one document has is not marked'

        def pair(x, y, root):
            """x and y are counterparts (or compared as documents)"""
            ca, cb = x.kind in 'AO', y.kind in 'AO'
            if ca and cb:
                ok = cost(x, y)[1]
                if not ok:
                    if op.get(x, 'add') == 'equ' or op.get(y, 'add') == 'equ':
                        return 'containers that have nothing in common are not marked'
                    if root and (eq.get(x) or eq.get(y)):
                        return 'containers that have nothing in common are counterparts'
                    return none(self.inside(x) + self.inside(y))
                if eq.get(x) is not y or eq.get(y) is not x:
                    return 'containers that have something in common are not counterparts'
                d = dist(x.kids, y.kids)
                for q in (x, y):
                    if op.get(q, 'add') not in (('equ',) if not d else ('equ', 'mod')):
                        return 'a container that both documents have is marked as if only one had it'
                return kids(x, y, d)
            if ca or cb:
                if op.get(x, 'add') == 'equ' or op.get(y, 'add') == 'equ':
                    return 'a simple value in the place of a container is not marked'
                return none(self.inside(x) + self.inside(y))
            if x.kind == 'E' and y.kind == 'E' and key(x, y):
                c, ok = cost(x, y)
                for q in (x, y):
                    if (op.get(q, 'add') == 'equ') != (c == 0):
                        return 'the mark of a member does not agree with its value'
                return pair(x.val, y.val, False)
            if x.kind == 'E' or y.kind == 'E':
                if op.get(x, 'add') == 'equ' or op.get(y, 'add') == 'equ':
                    return 'members of different names are not marked'
                return none(self.inside(x) + self.inside(y))
            c, ok = cost(x, y)
            s = same(x, y)
            if root and ((eq.get(x), eq.get(y)) != ((y, x) if s else (None, None))):
                return 'the documents are simple values and not counterparts, or taken for it'
            want = 'equ' if ok else 'mod'
            for q in (x, y):
                o = op.get(q, 'add')
                if (o != want) if s else (o == 'equ'):
                    return 'a simple value that %s' % ('is the same in both documents is marked' if ok else 'was changed is not marked as changed')

        def kids(x, y, d):
            at, total, paired = -1, 0, set()
            for c in x.kids:
                e = eq.get(c)
                if e is None:
                    total += 1
                    w = none([c] + self.inside(c))
                    if w:
                        return w
                    continue
                if e not in y.kids or eq.get(e) is not c:
                    return 'an element has a counterpart elsewhere, or not the other way round'
                if e.i <= at:
                    return 'the counterparts of two elements are in another order'
                at = e.i
                paired.add(e)
                total += cost(c, e)[0]
                w = pair(c, e, False)
                if w:
                    return w
            for c in y.kids:
                if c not in paired:
                    total += 1
                    w = none([c] + self.inside(c))
                    if w:
                        return w
            if total != d:
                return 'the documents could have been paired with fewer changes'
        return pair(a, b, True)

    # -- one pair of documents
    def long(self, eng, st, ins, fn, args):
        a = eng.rebind(st, args[0])
        for b in self.big:
            if a[0] == 'p' and a[1] == b.obj:
                return [(st, self.size[b.obj])]

    def compare(self, ta, tb, mixed=False, big=()):
        for few in itertools.product((0, 1, None), repeat=len(big)):
            self.compare1(ta, tb, mixed, big, few)

    def compare1(self, ta, tb, mixed, big, few):
        eng, p = self.eng, self.p
        self.mixed = mixed
        st = State()
        st.mon = ()
        a, b = (shapes.build(self.world, st, t, prim=p.STRING) for t in (ta, tb))
        self.big = [n for n in (b.kids[i] for i in big)]
        self.size = {}
        for n, k in zip(self.big, few):
            if n.kind not in 'AO' or n.kids:
                raise AnalysisBroken('C20: a long container')
            self.size[n.obj] = eng.opaque(64, 'n')
            st.facts[('rng', self.size[n.obj])] = (2, (1 << 31) - 1)
            if k is not None:
                self.size[n.obj] = C(k, 64)
        builder = eng.new_obj(st, 'lazy', lazy='any')
        self.n['pairs'] += 1
        old = set(st.mem)
        eng.push(st, self.build, [('p', builder, 0), ('p', a.obj, 0), ('p', b.obj, 0)])
        for x in eng.run([st]):
            s = x.state
            self.n['comparisons'] += 1
            if x.kind != 'ret':
                self.rep(s, 'throws', 'a comparison ends with an exception')
                continue
            r = eng.rebind(s, x.value)
            if r[0] != 'p':
                self.rep(s, 'none', 'a comparison has no result')
                continue
            left = [k for k, o in s.mem.items() if o.kind == 'heap' and not o.freed and k not in old and k != r[1]]
            if left:
                self.rep(s, 'leak', 'something allocated for a comparison is never freed')
            self.result(s, r, a, b)

    def call(self, st, this, name, arg):
        """[(state, value or None if it throws)] of a virtual function of the result"""
        eng = self.eng
        f = None
        vt = st.mem[this[1]].cells.get(0)
        if vt and vt[0] == 'p' and str(vt[1][1]).startswith('_ZTV'):
            for grp in self.p.mod.vtable_slots('_ZTI' + vt[1][1][4:]) or ():
                for x in grp:
                    v = x[1] if isinstance(x, tuple) and len(x) == 2 else x
                    g = self.p.mod.func(v[1]) if v[0] == 'g' else None
                    if g is not None and g.qual.endswith('::' + name):
                        f = g if not g.declared else f
        if f is None:
            f = [g for g in self.p.mod.find('LevenshteinMatrice_base::' + name) if not g.declared]
            if len(f) != 1:
                raise AnalysisBroken('C20: ' + name)
            f = f[0]
        eng.push(st, f, [this, arg])
        return [(x.state, x.value if x.kind == 'ret' else None) for x in eng.run([st])]

    def result(self, st, r, a, b):
        eng = self.eng
        nodes = {('p', n.obj, 0): n for d in (a, b) for n in shapes.every(d)}
        eq, op = {}, {}
        for q, n in nodes.items():
            self.n['elements'] += 1
            for name in ('getEquivalence', 'get'):
                o = self.call(st, r, name, q)
                if len(o) != 1:
                    raise AnalysisBroken('C20: answers of the result')
                st, v = o[0]
                if name == 'get':
                    if v is not None:
                        vs = eng.values_of(st, v)
                        if not vs or len(vs) != 1:
                            return self.rep(st, 'mark', 'the mark of an element is not set')
                        op[n] = self.ops.get(next(iter(vs)))
                elif v is None:
                    return self.rep(st, 'throws', 'looking for a counterpart ends with an exception')
                else:
                    v = eng.rebind(st, v)
                    if v != NULL:
                        if v not in nodes:
                            return self.rep(st, 'counterpart', 'a counterpart is not an element of the documents')
                        eq[n] = nodes[v]
        asked = {}

        class Unknown(Exception):
            pass

        def known(k):
            if k[0] == 'key':
                ka, kb = ('a', k[1]), ('a', k[2])
                for f in (('seq', k[1], k[2]), ('seq', k[2], k[1]), ('seq', ka, kb), ('seq', kb, ka), ('seq', (ka,), (kb,)), ('seq', (kb,), (ka,))):
                    if f in st.facts:
                        return st.facts[f]
                return asked.get(k)
            if k[0] == 'long':
                return self.size[k[1]] == C(k[2], 64)
            return st.facts.get(k, asked.get(k))

        def attempt(more):
            asked.update(more)

            def pick(k):
                v = known(k)
                if v is None:
                    raise Unknown(k)
                return v
            try:
                w = self.verdict(a, b, eq, op, self.judge(st, pick))
            except Unknown as e:
                k = e.args[0]
                if len(more) > 6:
                    raise AnalysisBroken('C20: answers')
                out = None
                for v in (True, False):
                    asked.clear()
                    out = attempt(dict(more, **{})) if False else attempt({**more, k: v})
                    if out:
                        return out
                return None
            return w
        w = attempt({})
        if w:
            self.rep(st, 'pairs', w)

    # -- documents of any size
    def cells(self):
        """the type of the cells of the table can hold the length of both documents together"""
        eng, p = self.eng, self.p
        mx = {'unsigned char': 255, 'unsigned short': 65535, 'unsigned int': (1 << 32) - 1, 'unsigned long': (1 << 64) - 1, 'char': 127,
              'signed char': 127, 'short': 32767, 'int': (1 << 31) - 1, 'long': (1 << 63) - 1, 'unsigned long long': (1 << 64) - 1,
              'long long': (1 << 63) - 1}
        size = {}

        def sizes(eng, st, ins, fn, args):
            a = eng.rebind(st, args[0])
            k = ('many', a[1])
            if k not in st.facts:
                o = eng.opaque(64, 'n')
                st.facts[('rng', o)] = (0, (1 << 31) - 1)
                st.facts[k] = o
            return [(st, st.facts[k])]

        def table(eng, st, ins, fn, args):
            m = re.search(r'build<([^<>]*)>', fn.dname)
            if not m or m.group(1).strip() not in mx:
                raise AnalysisBroken('C20: cells of ' + fn.dname)
            if m:
                n, k = args[-2:]
                t = eng.mk('add', 64, n, k)
                self.n['tables'] += 1
                hi = [st.facts.get(('rng', x), (0, 1 << 64))[1] if x[0] == 'o' else 1 << 64 for x in (n, k)]
                if sum(hi) <= mx[m.group(1).strip()]:
                    raise Stop()
                for s, v in eng.split(st, eng.icmp_val(st, 'ugt', t, C(mx[m.group(1).strip()], 64), ('i', 64))):
                    if v:
                        self.rep(s, 'cells', 'the cells of the table (%s) cannot count the changes between two long containers' % m.group(1).strip())
            raise Stop()
        c = dict(eng.cuts)
        for q in ('std::list::size', 'JSonContainer::size'):
            eng.cuts[q] = sizes
        eng.cuts['std::distance'] = lambda eng, st, ins, fn, args: sizes(eng, st, ins, fn, [('p', models.load_it(eng, st, args[0])[0][1][1][0], 0)])
        eng.cuts['LevenshteinMatrice::build'] = table
        st = State()
        st.mon = ()
        a, b = (self.world.new(st, p.ARRAY, owner=NULL) for _ in (0, 1))
        eng.push(st, self.build, [('p', eng.new_obj(st, 'lazy', lazy='any'), 0), ('p', a, 0), ('p', b, 0)])
        eng.run([st])
        eng.cuts = c

    # -- texts
    def string(self, st, n):
        eng = self.eng
        o = eng.new_obj(st, 'lazy', lazy='any')
        ch = [eng.opaque(8, 'c') for _ in range(n)]
        models.put_s(eng, st, o, 0, tuple(('ch', c) for c in ch))
        return ('p', o, 0), ch

    def texts(self, n, m):
        """levenshtein is the smallest number of characters to add, remove or replace"""
        eng, p = self.eng, self.p
        f = [f for f in p.mod.find('levenshtein') if not f.declared]
        if len(f) != 1:
            raise AnalysisBroken('C20: levenshtein')
        cuts = dict(eng.cuts)
        same = set()

        def equal(eng, st, ins, fn, args):
            x = [eng.rebind(st, a)[1] for a in args[-2:]]
            if sorted(x, key=str) != sorted((A[1], B[1]), key=str):
                return None
            if n != m:
                return [(st, FALSE)]
            out = [(st, TRUE)]
            for i in range(n):
                nxt = []
                for s, v in out:
                    if v == FALSE:
                        nxt.append((s, v))
                        continue
                    nxt += [(s2, TRUE if r else FALSE) for s2, r in eng.split(s, eng.icmp_val(s, 'eq', a[i], b[i], ('i', 8)))]
                out = nxt
            return out
        eng.cuts['std::operator=='] = equal
        st = State()
        st.mon = ()
        A, a = self.string(st, n)
        B, b = self.string(st, m)
        old = set(st.mem)
        eng.push(st, f[0], [A, B])
        for r in eng.run([st]):
            s = r.state
            self.n['texts'] += 1
            if r.kind != 'ret':
                self.rep(s, 'throws', 'comparing two texts ends with an exception')
                continue
            if [k for k, o in s.mem.items() if o.kind == 'heap' and not o.freed and k not in old]:
                self.rep(s, 'leak', 'something allocated to compare two texts is never freed')
            todo = [(s, {})]
            while todo:
                s, eq = todo.pop()
                t = self.edit(n, m, eq)
                if isinstance(t, tuple):
                    for s2, v in eng.split(s, eng.icmp_val(s, 'eq', a[t[0]], b[t[1]], ('i', 8))):
                        todo.append((s2, {**eq, t: v}))
                elif eng.values_of(s, r.value) != {t}:
                    self.rep(s, 'texts', 'the number of changes between two texts is wrong')
        eng.cuts = cuts

    def edit(self, n, m, eq):
        """the distance, or a pair of characters that must be compared first"""
        t = list(range(m + 1))
        for i in range(n):
            x = [i + 1]
            for j in range(m):
                if (i, j) not in eq:
                    return i, j
                x.append(min(t[j + 1] + 1, x[j] + 1, t[j] + (not eq[i, j])))
            t = x
        return t[-1]

    def share(self):
        """levenshteinPercent is the share of the longer text that is not changed"""
        eng, p = self.eng, self.p
        f = [f for f in p.mod.find('levenshteinPercent') if not f.declared]
        if len(f) != 1:
            raise AnalysisBroken('C20: levenshteinPercent')
        cuts = dict(eng.cuts)
        del eng.cuts['levenshteinPercent']
        for n, m in itertools.product(range(7), repeat=2):
            for d in range(abs(n - m), max(n, m) + 1):
                eng.cuts['levenshtein'] = lambda eng, st, ins, fn, args: [(st, C(d, 64))]
                st = State()
                st.mon = ()
                A, a = self.string(st, n)
                B, b = self.string(st, m)
                eng.push(st, f[0], [A, B])
                for r in eng.run([st]):
                    self.n['shares'] += 1
                    want = 1 - d / max(n, m, 1)
                    v = eng.rebind(r.state, r.value) if r.kind == 'ret' else UNDEF
                    v = fnum(v)
                    if v is None or not abs(v - want) < 1e-5 or (d == 0) != (v == 1) or (d == max(n, m)) != (v == 0) and max(n, m):
                        self.rep(r.state, 'share', 'how much two texts have in common is wrong')
        eng.cuts = cuts

    # -- kinds of simple values
    def kinds(self):
        eng, p = self.eng, self.p
        f = [f for f in p.mod.find('AJSonPrimitive::sameType') if not f.declared]
        if len(f) != 1:
            raise AnalysisBroken('C20: sameType')
        kind = lambda t: 'number' if t.endswith(('Iie', 'IdE', 'IiE', 'IxE')) else t
        if len({kind(t) for t in p.PRIM}) != len(p.PRIM) - 2:
            raise AnalysisBroken('C20: the classes of simple values')
        for x, y in itertools.product(sorted(p.PRIM), repeat=2):
            st = State()
            st.mon = ()
            a, b = (('p', self.world.new(st, frozenset([t]), owner=NULL), 0) for t in (x, y))
            self.n['kinds'] += 1
            eng.push(st, f[0], [a, b])
            for r in eng.run([st]):
                if r.kind != 'ret' or {v for _, v in eng.split(r.state.copy(), r.value)} != {kind(x) == kind(y)}:
                    self.rep(r.state, 'kinds', 'simple values of %s' % ('the same kind are taken for different ones' if kind(x) == kind(y) else 'different kinds are taken for the same'))

    def jobs(self, tier):
        deep = tier == 'thorough'
        small = shapes.upto(3)
        out = [('cells',), ('kinds',), ('share',)]
        out += [('texts', n, m) for n in range(5 if deep else 4) for m in range(5 if deep else 4) if n + m < 8]

        def add(a, b, *more):
            # how many answers there are: names of members that may be equal, values that may be alike
            n = (1.6 if a[0] == b[0] == 'O' else 1) * len(a[1]) * len(b[1]) if a[0] in 'AO' and b[0] in 'AO' else 1
            if n < (13.5 if deep else 9.7):
                out.append(('compare', a, b) + more)
        for a, b in itertools.product(small, small):
            add(a, b)
        E = ('A', ())
        for a, b, big in (('P', (E,), (0,)), ('PP', ('P', E), (1,)), ('PP', (E, 'P'), (0,)), ('PP', (E, E), (0, 1)), ('PPP', ('P', E), (1,)),
                          ('P', ('P', E), (1,)), ('PP', (('O', ()), 'P'), (0,))):
            for k in 'AO':
                add((k, tuple(a)), (k, b), False, big if k == 'A' else ())
        P = lambda k, n: (k, ('P',) * n)
        for n, m in ((3, 3), (3, 2), (2, 3), (3, 1), (1, 3)) + (((4, 2), (2, 4), (4, 1), (1, 4), (4, 3)) if deep else ()):
            add(P('A', n), P('A', m))
            add(P('O', n), P('O', m))
            add(P('A', n), P('O', m))
        for n, m in ((2, 2), (2, 1), (1, 1)):
            out.append(('compare', P('A', n), P('A', m), True))
        out.append(('compare', 'P', 'P', True))
        big = [t for t in shapes.upto(4) if t not in small]
        for i, t in enumerate(big):
            for k in range(1, 13 if deep else 5):
                add(t, big[(i * 7 + k * k * 11) % len(big)])
            add(t, t)
        return out

    def work(self, job):
        self.eng.stats['steps'] = 0
        getattr(self, job[0])(*job[1:])


def check(tier):
    c = Diff(tier)
    fns, paths, v = parallel.run(c, c.jobs(tier))
    n = c.n
    if not v and (n['comparisons'] < 2000 or n['kinds'] < 25):
        raise AnalysisBroken('C20: only %r' % n)
    return dict(violations=v, coverage=dict(n, functions=sorted(fns), functions_analysed=len(fns), paths=paths),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['documents are trees as they are read (C02)', 'containers have fewer than 2^31 elements',
                             'how alike two texts are is decided elsewhere (levenshteinPercent)'])
