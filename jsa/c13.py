"""C13: the text typed for a search is understood as documented, and decides what matches.

Four parts are interpreted: the prompt (any keys), the decoding of \\uXXXX, the reading of a search text (all texts up to a length, with
symbolic characters, and all combinations of flags behind a text) together with the matching of any text of any kind of element by
the pattern that was read, and the comparison of two characters.  Finding a text in a text and regular expressions are events of the
library whose arguments are judged."""
from ui import *

FLAGS = b'iwfebnso'
p_key_backspace = 263       # ncurses.h
KINDS = {'b': 'bool', 's': 'string'}


class Patterns(UI):
    def __init__(self, tier):
        super().__init__('C13')
        self.n = dict(texts=0, matches=0, searches=0, decoded=0, prompts=0, characters=0)
        self.tier = tier
        eng = self.eng
        eng.mon = self
        eng.str_limit = lambda st: 64
        eng.unroll = lambda st: 40
        cuts = eng.cuts
        cuts['std::search'] = self.search
        cuts['std::transform'] = self.transform
        cuts['std::regex_search'] = self.regex_search
        cuts['std::basic_regex::basic_regex'] = self.regex
        cuts['std::basic_regex::~basic_regex'] = lambda eng, st, ins, fn, args: [(st, UNDEF)]
        self.functors = {}

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg))

    # -- the library
    def range(self, st, a, b):
        """segments of the text between two iterators, None if it is not a whole text"""
        a, b = self.eng.rebind(st, a), self.eng.rebind(st, b)
        if a[0] != 'sp' or b[0] != 'sp' or a[1:3] != b[1:3]:
            raise AnalysisBroken('C13: range of a search')
        segs = models.get_s(self.eng, st, a[1], a[2])
        n = models.seglen(self.eng, st, segs)
        e = b[3] if not isinstance(b[3], int) else C(b[3], 64)
        if a[3] != 0 or self.eng.rebind(st, e) != self.eng.rebind(st, n):
            return None
        return segs

    def search(self, eng, st, ins, fn, args):
        ps = models.params(fn)
        hay, pat = self.range(st, args[0], args[1]), self.range(st, args[2], args[3])
        if hay is None or pat is None:
            self.rep(st, 'range', 'only a part of a text is searched, or a part of the search text is searched for')
            raise Stop()
        fun = None
        if len(args) == 5:
            if args[4][0] != 'p' or ps[4] != 'SearchPattern' and not re.search(r'\{lambda|::\$_\d', ps[4]):
                raise AnalysisBroken('C13: how characters are compared in a search (%s)' % ps[4])
            fun = self.functor(st, args[4], ps[4])
        self.n['searches'] += 1
        s2 = st.copy()
        st.mon += (('search', hay, pat, fun, True),)
        s2.mon += (('search', hay, pat, fun, False),)
        b = args[0]
        e = args[1]
        n = e[3] if not isinstance(e[3], int) else C(e[3], 64)
        i = eng.opaque(64, 'found')
        v = ('sp', b[1], b[2], i)
        st.facts[('slt', i, n)] = True
        st.facts[('peq', v, e)] = False
        if n[0] == 'c':
            st.facts[('rng', i)] = (0, max(0, n[1] - 1))
        return [(st, v), (s2, e)]

    def functor(self, st, p, cls):
        """the comparison of characters: its function and the members it may look at"""
        o = st.mem[p[1]]
        c = {k: self.eng.rebind(st, v) for k, v in o.cells.items() if isinstance(k, int) and isinstance(v, tuple) and v[0] not in ('S', 'p')}
        key = (cls, tuple(sorted(c.items(), key=repr)))
        if key not in self.functors:
            self.functors[key] = len(self.functors)
        return self.functors[key]

    def transform(self, eng, st, ins, fn, args):
        if args[0][0] != 'sp' or args[2] != args[0] or args[3][0] != 'fp' or args[3][1] not in ('tolower', 'toupper'):
            return None
        segs = self.range(st, args[0], args[1])
        if segs is None:
            raise AnalysisBroken('C13: a part of a text is transformed')
        out = []
        for g in models.explode(segs):
            if g[0] == 'k':
                out.append(('k', g[1].lower() if args[3][1] == 'tolower' else g[1].upper()))
            elif g[0] == 'ch':
                out.append(('ch', eng.mk(args[3][1], 8, g[1])))
            else:
                out.append(('low', g))
        models.put_s(eng, st, args[0][1], args[0][2], tuple(out))
        return [(st, args[1])]

    def regex(self, eng, st, ins, fn, args):
        ps = models.params(fn)
        if not models.STR.match(ps[0]):
            raise AnalysisBroken('C13: regular expression from %s' % ps[0])
        (s, g), = models.segs_of(eng, st, args[1])
        opts = eng.rebind(st, args[2])
        s2 = s.copy()
        s.wobj(args[0][1]).cells['regex'] = ('R', g, opts)
        s.mon += (('regex', g, opts, True),)
        s2.mon += (('regex', g, opts, False),)
        x = eng.new_obj(s2, 'heap', cls=frozenset(['_ZTISt11regex_error']))
        return [(s, UNDEF), (s2, Throw('_ZTISt11regex_error', 'the regular expression is invalid', ('p', x, 0)))]

    def regex_search(self, eng, st, ins, fn, args):
        ps = models.params(fn)
        if not models.STR.match(ps[0]) or 'basic_regex' not in ps[1]:
            raise AnalysisBroken('C13: search of a regular expression')
        out = []
        for s, g in models.segs_of(eng, st, args[0]):
            for s1, q in eng.deref(s, args[1], 'is used as a regular expression'):
                r = s1.mem[q[1]].cells.get('regex') if q[0] == 'p' else None
                if r is None:
                    self.rep(s1, 'regex', 'a regular expression is used that was never made')
                    continue
                s2 = s1.copy()
                s1.mon += (('found', g, r, True),)
                s2.mon += (('found', g, r, False),)
                out += [(s1, TRUE), (s2, FALSE)]
        return out

    # -- what a text means
    def classes(self, st, v):
        """the byte values a character may have"""
        if v[0] == 'c':
            return frozenset([v[1]])
        vs = self.eng.values_of(st, v)
        if vs is None:
            raise AnalysisBroken('C13: a character')
        return frozenset(vs)

    def meaning(self, st, text):
        """[(state, pattern segments, flags, type)] of a text of symbolic characters"""
        eng = self.eng
        out = []

        def case(st, v, sets):
            """split by membership in one of the sets"""
            vs = self.classes(st, v)
            rest = vs
            for name, m in sets:
                if vs & m:
                    s = st.copy()
                    self.restrict(s, v, vs & m)
                    yield s, name
                rest -= m
            if rest:
                s = st.copy()
                self.restrict(s, v, rest)
                yield s, None

        B = lambda x: frozenset(x)

        def flags(st, i, pat, fl, ty):
            if i == len(text):
                out.append((st, pat, fl, ty))
                return
            for s, name in case(st, text[i], [(bytes([f]).decode(), B([f])) for f in FLAGS]):
                if name is None:
                    flags(s, i + 1, pat, fl, ty)
                elif name in 'iwfe':
                    flags(s, i + 1, pat, fl | {name}, ty)
                else:
                    flags(s, i + 1, pat, fl, name)

        def body(st, i, pat, lead):
            if i == len(text):
                out.append((st, pat, frozenset(), None))
                return
            sets = [('esc', B([92])), ('end', B([47]))] + ([('blank', B([32, 9]))] if lead else [])
            for s, name in case(st, text[i], sets):
                if name == 'blank':
                    body(s, i + 1, pat, True)
                elif name == 'end':
                    flags(s, i + 1, pat, frozenset(), None)
                elif name == 'esc' and i + 1 == len(text):
                    out.append((s, (pat, pat + (('k', b'\\'),)), frozenset(), None))      # a lone \ at the end: nothing is promised
                elif name == 'esc':
                    for s2, slash in case(s, text[i + 1], [('/', B([47]))]):
                        body(s2, i + 2, pat + ((('k', b'/'),) if slash else (('k', b'\\'), ('ch', text[i + 1]))), False)
                else:
                    body(s, i + 1, pat + (('ch', text[i]),), False)
        body(st, 0, (), True)
        return out

    def restrict(self, st, v, vs):
        if v[0] == 'y':
            st.dom[v[1]] = frozenset(vs)

    def lower(self, st, segs):
        out = []
        for g in models.explode(models.norm(self.eng, st, segs)):
            if g[0] == 'k':
                out.append(('k', g[1].lower()))
            else:
                v = self.classes(st, g[1])
                out.append(('ch', g[1]) if all(not 65 <= x <= 90 for x in v) else ('ch', self.eng.mk('tolower', 8, g[1])))
        return tuple(out)

    def same_text(self, st, a, b):
        """are two texts the same for all values of their characters?"""
        a, b = [list(models.explode(models.norm(self.eng, st, x))) for x in (a, b)]
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x == y:
                continue
            if 'a' in (x[0], y[0]) or 'low' in (x[0], y[0]):
                return False
            vx = x[1] if x[0] == 'ch' else C(x[1][0], 8)
            vy = y[1] if y[0] == 'ch' else C(y[1][0], 8)
            if not self.same_char(st, vx, vy):
                return False
        return True

    def same_char(self, st, x, y):
        eng = self.eng
        lv = ids(y, ids(x, {}))
        if len(lv) > 1 or any(v[0] != 'y' for v in lv.values()):
            return False
        if not lv:
            return eng.rebind(st, x) == eng.rebind(st, y)
        (i, v), = lv.items()
        for val in st.dom[i]:
            if self.byte(x, i, val) != self.byte(y, i, val):
                return False
        return True

    def byte(self, v, i, val):
        if v[0] == 'c':
            return v[1] & 255
        if v[0] == 'y':
            return val
        if v[0] == 'e' and v[1] in ('tolower', 'toupper'):
            b = self.byte(v[3], i, val)
            return ord(chr(b).lower()) if v[1] == 'tolower' and b < 128 else ord(chr(b).upper()) if b < 128 else b
        if v[0] == 'e' and v[1] in ('trunc', 'sext', 'zext'):
            return self.byte(v[3], i, val)
        raise AnalysisBroken('C13: a character %r' % (v,))

    # -- reading a text and matching
    def texts(self):
        eng, p = self.eng, self.p
        any_ = tuple(range(1, 256))
        ctor = [f for f in p.mod.find('SearchPattern::SearchPattern') if len(models.params(f)) == 1 and models.STR.match(models.params(f)[0])]
        ctor = [f for f in ctor if 'C1' in f.name or 'C2' in f.name][:1]
        if len(ctor) != 1:
            raise AnalysisBroken('C13: how a search text is read')
        other = tuple(c for c in any_ if c not in b' \t\\/')
        shapes = [[any_] * n for n in range(0, 5 if self.tier == 'quick' else 6)]
        letter = (*b'aZ',)
        shapes += [[other, (47,)] + [any_] * n for n in (2, 3)]
        for i, sh in enumerate(shapes):
            st = State()
            st.mon = ()
            text = [eng.sym(st, 8, dom, 'c') if len(dom) > 1 else C(dom[0], 8) for dom in sh]
            k = eng.new_obj(st, 'heap')
            models.put_s(eng, st, k, 0, tuple(('ch', c) for c in text))
            st.mon = (('text',) + tuple(text),)         # (states that differ in what was typed are not merged)
            o = eng.new_obj(st, 'heap', di='SearchPattern')
            eng.push(st, ctor[0], [('p', o, 0), ('p', k, 0)])
            for x in eng.run([st]):
                self.n['texts'] += 1
                if x.kind != 'ret':
                    self.rep(x.state, 'throws', 'reading a search text ends with an exception')
                    continue
                for s, pat, fl, ty in self.meaning(x.state, text):
                    self.judge(s, o, pat, fl, ty, i >= len(shapes) - 2)

    def judge(self, st, o, pat, fl, ty, full):
        """the pattern object o shall search for pat with the flags"""
        eng, p = self.eng, self.p
        pats = pat if pat and isinstance(pat[0], tuple) and (not pat[0] or isinstance(pat[0][0], tuple)) else (pat,)
        pats = [self.lower(st, x) if 'i' in fl and 'e' not in fl else x for x in pats]
        s = st.copy()
        eng.push(s, self.one('SearchPattern::isEmpty'), [('p', o, 0)])
        for x in eng.run([s]):
            v = eng.values_of(x.state, x.value) if x.kind == 'ret' else None
            if v is None or not any(v == {1 if not q else 0} for q in pats):
                self.rep(x.state, 'empty', 'a search text is taken for empty although it is not, or the other way round')
        if all(not q for q in pats):
            return
        s = st.copy()
        s.mon = tuple(m for m in st.mon if m[0] in ('regex', 'text'))
        n = eng.new_obj(s, 'heap')
        t = eng.atom('text')
        models.put_s(eng, s, n, 0, (t,))
        kinds = p.PRIM | p.ENTRY
        k = self.world.new(s, kinds if full else p.STRING, owner=NULL)
        eng.push(s, self.one('SearchPattern::match'), [('p', o, 0), ('p', n, 0), ('p', k, 0)])
        for x in eng.run([s]):
            self.n['matches'] += 1
            if x.kind != 'ret':
                self.rep(x.state, 'throws', 'comparing a text with the pattern ends with an exception')
                continue
            for s2, b in eng.split(x.state, x.value):
                self.matched(s2, b, k, t, pats, fl, ty)

    def one(self, q):
        f = [f for f in self.p.mod.find(q) if not f.declared]
        if len(f) != 1:
            raise AnalysisBroken('C13: %s %s' % (q, [(x.name, x.dname) for x in f]))
        return f[0]

    def kind(self, ty):
        p = self.p
        if ty == 'o':
            return p.ENTRY
        if ty == 's':
            return p.STRING
        names = {'b': ('bool',), 'n': ('int', 'long long', 'double')}[ty]
        r = frozenset(t for t in p.PRIM if re.search(r'<(%s)>' % '|'.join(names), demangle_ti(t)))
        if len(r) != len(names):
            raise AnalysisBroken('C13: kinds of values')
        return r

    def known(self, st, op, a, b):
        """True/False/None: a op b"""
        r = {x for _, x in self.eng.split(st.copy(), self.eng.mk('icmp ' + op, 1, a, b))}
        return r.pop() if len(r) == 1 else None

    def matched(self, st, b, k, t, pats, fl, ty):
        eng = self.eng
        if ty is not None:
            cls = st.mem[k].cls
            want = self.kind(ty)
            if not cls & want:
                if b:
                    self.rep(st, 'kind', 'an element of another kind than the one asked for matches')
                return
            if cls - want:
                return self.rep(st, 'kind', 'the kind of an element is not looked at although one was asked for')
        ev = [e for e in st.mon if e[0] in ('search', 'found')]
        made = [e for e in st.mon if e[0] == 'regex']
        if 'e' in fl:
            icase = self.icase(made, fl, st, pats)
            if not icase:
                return self.rep(st, 'regex', 'the regular expression is not made of the search text as it was typed, or its case matters when it must not')
            if not made[-1][3]:
                if b:
                    self.rep(st, 'regex', 'an invalid regular expression matches')
                return
            if len(ev) != 1 or ev[0][0] != 'found' or ev[0][1] != (t,) or ev[0][3] != b:
                self.rep(st, 'regex', 'the text is not searched for the regular expression')
            return
        lt = models.seglen(eng, st, (t,))
        got = []
        for pat in pats:
            pat = tuple(pat)
            lp = C(len(models.explode(models.norm(eng, st, pat))), 64)
            r = self.accept(st, b, ev, t, pat, lt, lp, fl)
            if r is None:
                return
            got.append(r)
        self.rep(st, *got[0])

    def accept(self, st, b, ev, t, pat, lt, lp, fl):
        same = self.known(st, 'eq', lt, lp)
        if 'f' in fl and same is False:
            return ('whole', 'a text that is longer or shorter matches as a whole') if b else None
        if not ev:
            if not b and self.known(st, 'ult', lt, lp):
                return None
            return 'search', 'a text is said to match or not to match without being searched'
        if 'f' in fl and same is not True:
            return 'whole', 'a part of a text matches although the whole has to'
        if len(ev) != 1 or ev[0][0] != 'search' or ev[0][4] != b:
            return 'search', 'whether a text matches is not what was found'
        hay, needle, fun = ev[0][1:4]
        self.fun = fun
        sp = (('k', b' '),)
        plain = hay == (t,) and self.same_text(st, needle, pat)
        word = self.same_text(st, hay, sp + (t,) + sp) and self.same_text(st, needle, sp + pat + sp)
        if 'w' in fl and not (word or plain and same is True):
            return 'word', 'a text is not searched for whole words'
        if 'w' not in fl and not plain:
            return 'search', 'the text is not searched for what was typed'
        if fun is None:
            return 'case', 'characters are compared as they are'
        if self.cased.setdefault(fun, 'i' in fl) != ('i' in fl):
            return 'case', 'it makes no difference whether case matters'
        return None

    def closure(self, cls):
        f = [f for q in self.p.mod.by_qual if q.startswith('SearchPattern::') for f in self.p.mod.find(q) if cls + '::operator()' in f.dname]
        if len(f) != 1:
            raise AnalysisBroken('C13: how characters are compared in a search (%s, %d functions)' % (cls, len(f)))
        return f[0]

    def icase(self, made, fl, st, pats):
        if not made or not any(self.same_text(st, made[-1][1], q) for q in pats):
            return False
        o = made[-1][2]
        if o[0] != 'c':
            raise AnalysisBroken('C13: options of a regular expression')
        return bool(o[1] & 1) == ('i' in fl) and o[1] & ~1 == 16

    # -- two characters
    def characters(self):
        eng = self.eng
        for (cls, key), fun in sorted(self.functors.items(), key=lambda x: x[1]):
            if fun not in self.cased:
                continue
            low = self.cased[fun]
            fn = self.one('SearchPattern::operator()') if cls == 'SearchPattern' else self.closure(cls)
            for a in range(1, 256):
                self.n['characters'] += 1
                st = State()
                st.mon = ()
                o = eng.new_obj(st, 'heap', di='SearchPattern')
                st.mem[o].cells.update(dict(key))
                b = eng.sym(st, 8, tuple(range(1, 256)), 'b')
                st.mon = (('text', b),)
                if cls != 'SearchPattern':
                    c = eng.new_obj(st, 'heap')
                    st.mem[c].cells[0] = ('p', o, 0)
                    o = c
                eng.push(st, fn, [('p', o, 0), C(a, 8), b])
                want = 32 if a == 9 else ord(chr(a).lower()) if low and a < 128 else a
                for x in eng.run([st]):
                    if x.kind != 'ret':
                        self.rep(x.state, 'throws', 'comparing two characters ends with an exception')
                        continue
                    for s, r in eng.split(x.state, x.value):
                        for v in self.classes(s, b):
                            if low and 65 <= v <= 90:
                                continue
                            if r != (v == want):
                                self.rep(s, 'character', 'two characters are taken for equal, or not, %s' % ('in any case' if low else 'in their case'))
                                return

    # -- \\uXXXX
    def decoding(self):
        eng, p = self.eng, self.p
        fns = [f for f in p.mod.find('StreamConsumer::extractUnicode') if not f.declared]

        def append(eng, st, ins, fn, args):
            a = eng.rebind(st, args[0])
            if a[0] != 'sp' or not isinstance(a[3], int):
                raise AnalysisBroken('C13: decoding of a character')
            g = models.explode(models.drop(eng, st, models.get_s(eng, st, a[1], a[2]), a[3]))
            if len(g) < 4:
                self.rep(st, 'decode', 'a character is decoded from less than four digits')
                raise Stop()
            g = tuple(g[:4])
            x = [m for m in st.mon if m[0] == 'uni' and m[1] == g]
            if x:
                raise AnalysisBroken('C13: decoded twice')
            s2 = st.copy()
            st.mon += (('uni', g, True, a[3]),)
            s2.mon += (('uni', g, False, a[3]),)
            e = eng.new_obj(s2, 'heap', cls=frozenset(['_ZTISt16invalid_argument']))
            return [(s, UNDEF) for s, _ in models.emit(eng, st, args[1], (('a', ('U',) + g),))] + \
                [(s2, Throw('_ZTISt16invalid_argument', 'no hexadecimal digits', ('p', e, 0)))]
        eng.cuts['StreamConsumer::appendUnicode'] = append
        any_ = tuple(range(1, 256))
        for fn in fns:
            for sh in [[any_] * n for n in range(0, 8 if self.tier == 'quick' else 9)] + [[(92,), (117,)] + [any_] * 6]:
                st = State()
                st.mon = ()
                text = [eng.sym(st, 8, dom, 'c') if len(dom) > 1 else C(dom[0], 8) for dom in sh]
                k = eng.new_obj(st, 'heap')
                models.put_s(eng, st, k, 0, tuple(('ch', c) for c in text))
                st.mon = (('text',) + tuple(text),)
                r = eng.new_obj(st, 'heap')
                src = ('p', k, 0) if models.STR.match(models.params(fn)[0]) else ('sp', k, 0, 0)
                eng.push(st, fn, [('p', r, 0), src])
                for x in eng.run([st]):
                    self.n['decoded'] += 1
                    if x.kind != 'ret':
                        self.rep(x.state, 'throws', 'decoding the characters of a search text ends with an exception')
                        continue
                    got = models.get_s(eng, x.state, r, 0)
                    for s, want in self.decoded(x.state, text):
                        if not self.same_text(s, got, want):
                            self.rep(s, 'decode', 'a search text is not what was typed, with the characters for \\uXXXX')
        del eng.cuts['StreamConsumer::appendUnicode']

    def decoded(self, st, text):
        out = []
        is_ = lambda s, v, c: {x == c for x in self.classes(s, v)}

        def go(st, i, acc):
            while i < len(text):
                a, b = is_(st, text[i], 92), i + 5 < len(text) and is_(st, text[i + 1], 117) or {False}
                if True in a and True in b:
                    if False in a | b:
                        raise AnalysisBroken('C13: what decides that a character is decoded')
                    u = [m for m in st.mon if m[0] == 'uni' and m[3] == i + 2]
                    if not u:
                        self.rep(st, 'decode', '\\uXXXX is not decoded in a search text')
                        return
                    if u[0][2]:
                        acc += (('a', ('U',) + u[0][1]),)
                        i += 6
                        continue
                acc += (('ch', text[i]),)
                i += 1
            out.append((st, acc))
        go(st, 0, ())
        return out

    # -- the text of an element
    def elements(self):
        eng, p = self.eng, self.p
        fn = self.one('JSonElement::match')

        def match(eng, st, ins, fn, args):
            (s, g), = models.segs_of(eng, st, args[1])
            s2 = s.copy()
            s.mon += (('match', args[0], g, eng.rebind(s, args[2]), True),)
            s2.mon += (('match', args[0], g, eng.rebind(s2, args[2]), False),)
            return [(s, TRUE), (s2, FALSE)]

        def text(eng, st, ins, fn, args):
            d = eng.deref(st, args[0])[0][1]
            models.put_s(eng, st, d[1], d[2], (('a', ('txt', args[1][1])),))
            return [(st, UNDEF)]
        quals = {q for q in p.mod.by_qual if q.endswith('::stringify')}
        for q in quals:
            eng.cuts[q] = text
        eng.cuts['SearchPattern::match'] = match
        for ti in sorted(p.PRIM | p.ENTRY):
            st = State()
            st.mon = ()
            k = self.world.new(st, [ti], owner=NULL)
            pat = ('p', eng.new_obj(st, 'heap', di='SearchPattern'), 0)
            eng.push(st, fn, [('p', k, 0), pat])
            for x in eng.run([st]):
                self.n['elements'] = self.n.get('elements', 0) + 1
                m = [e for e in x.state.mon if e[0] == 'match']
                if x.kind != 'ret':
                    self.rep(x.state, 'throws', 'comparing an element ends with an exception')
                elif len(m) != 1 or m[0][1] != pat or m[0][3] != ('p', k, 0) or eng.values_of(x.state, x.value) != {1 if m[0][4] else 0}:
                    self.rep(x.state, 'element', 'whether an element matches is not decided by its text and its kind')
                elif m[0][2] != (('a', ('txt', k)),):
                    self.rep(x.state, 'element', 'another text than that of the element is compared')
        for q in quals | {'SearchPattern::match'}:
            del eng.cuts[q]

    # -- the prompt
    def prompt(self):
        eng, p = self.eng, self.p
        fn = self.one('CurseOutput::inputSearch')
        cuts = eng.cuts
        BS, limit = p_key_backspace, 4 if self.tier == 'quick' else 5
        ascii_ = tuple(c for c in range(1, 127) if c not in (8, 10, 13, 27))

        def getch(eng, st, ins, fn, args):
            ghost, n, pend, win = st.mon[0]
            w = eng.rebind(st, args[0])
            if [m for m in st.mon[1:] if m[0] == 'line'][-1:] != [('line', True)]:
                self.rep(st, 'shown', 'a key is awaited while the search text typed so far is not shown')
            if win is None or self.win(st, win[0]) != self.win(st, w):
                self.rep(st, 'timeout', 'keys are not awaited as long as it takes to type them')
            mon = tuple(m for m in st.mon[1:] if m[0] != 'line')
            out = []

            def key(name, v, g, pend=0, fin=None):
                s = st.copy()
                if v is None:
                    v = eng.sym(s, 32, name, 'key')
                    g = ghost + (eng.mk('trunc', 8, v),)
                s.mon = ((g, n + 1, pend, win),) + mon + ((('end', fin),) if fin else ())
                out.append((s, v))
            if any(m[0] == 'end' for m in mon):
                self.rep(st, 'end', 'keys are read after the search text was confirmed or given up')
                raise Stop()
            if pend:
                key(tuple(range(0x80, 0xc0)), None, None, pend - 1)
                return out
            for c in (10, 13):
                key(None, C(c, 32), ghost, 0, 'enter')
            key(None, C(27, 32), ghost, 0, 'esc')
            if n >= limit:
                return out
            short = self.shorter(st, ghost)
            for c in (8, 127, BS):
                key(None, C(c, 32), short)
            for c in (258, 410, (1 << 32) - 1):
                key(None, C(c, 32), ghost)
            key(ascii_, None, None)
            key(tuple(range(0xc2, 0xe0)), None, None, 1)
            if n < 2:
                key(tuple(range(0xe0, 0xf0)), None, None, 2)
            return out

        def timeout(eng, st, ins, fn, args):
            v = eng.rebind(st, args[1])
            if v[0] != 'c':
                raise AnalysisBroken('C13: how long keys are awaited')
            g = st.mon[0]
            neg = v[1] >> 31 & 1
            st.mon = (g[:3] + ((eng.rebind(st, args[0]), bool(neg)),),) + st.mon[1:]
            return [(st, UNDEF)]

        def line(eng, st, ins, fn, args):
            if not models.STR.match(models.params(fn)[0]):
                st.mon += (('line', None),)
                return [(st, UNDEF)]
            (s, g), = models.segs_of(eng, st, args[1])
            s.mon += (('line', self.same_text(s, g, (('k', b'/'),) + tuple(('ch', c) for c in s.mon[0][0]))),)
            return [(s, UNDEF)]

        def make(eng, st, ins, fn, args):
            if len(args) != 2 or not models.STR.match(models.params(fn)[0]):
                raise AnalysisBroken('C13: how the pattern is made')
            (s, g), = models.segs_of(eng, st, args[1])
            s.mon += (('make', args[0][1], g),)
            return [(s, UNDEF)]

        def decode(eng, st, ins, fn, args):
            out = []
            src = models.cstr(eng, st, args[1]) if not models.STR.match(models.params(fn)[0]) else models.segs_of(eng, st, args[1])
            for s, g in src:
                d = eng.deref(s, args[0])[0][1]
                models.put_s(eng, s, d[1], d[2], (('a', ('dec',) + tuple(g)),))
                out.append((s, UNDEF))
            return out

        def ignoring(eng, st, ins, fn, args):
            for m in st.mon[1:]:
                if m[0] == 'raw':
                    return [(st, TRUE if m[1] else FALSE)]
            s2 = st.copy()
            st.mon += (('raw', True),)
            s2.mon += (('raw', False),)
            return [(st, TRUE), (s2, FALSE)]
        nop = lambda eng, st, ins, fn, args: [(st, C(0, 32))]
        for n, f in (('wgetch', getch), ('wtimeout', timeout), ('curs_set', nop), ('SearchPattern::SearchPattern', make),
                     ('StreamConsumer::extractUnicode', decode), ('Params::isIgnoringUnicode', ignoring)):
            cuts[n] = f
        for c, _ in self.views + [('CurseOutput', None)]:
            cuts[c + '::writeBottomLine'] = line
        for cls, ti in self.views:
            for null in (False, True):
                st = State()
                st.mon = (((), 0, 0, None),)
                this = self.obj(st, cls, ti)
                par = eng.new_obj(st, 'lazy', lazy='any', cls=frozenset(['_ZTI6Params']), di='Params')
                st.mem[this].cells[self.off('CurseOutput', 'params')] = ('p', par, 0)
                w = NULL if null else ('p', eng.new_obj(st, 'lazy', lazy='any'), 0)
                eng.push(st, fn, [('p', this, 0), w])
                for x in eng.run([st]):
                    self.n['prompts'] += 1
                    self.prompted(x, w)

    def win(self, st, w):
        self.eng.gobj(st, 'stdscr')
        return self.eng.rebind(st, self.eng.load(st, ('p', ('G', 'stdscr'), 0), PTR)[0][1]) if w == NULL else w

    def shorter(self, st, ghost):
        g = list(ghost)
        while g:
            c = g.pop()
            if not min(self.classes(st, c)) >= 0x80 or min(self.classes(st, c)) >= 0xc0:
                break
        return tuple(g)

    def prompted(self, x, w):
        eng, st = self.eng, x.state
        if x.kind != 'ret':
            return self.rep(st, 'throws', 'the prompt ends with an exception')
        ghost, n, pend, win = st.mon[0]
        end = [m[1] for m in st.mon[1:] if m[0] == 'end']
        made = [m for m in st.mon[1:] if m[0] == 'make']
        raw = [m[1] for m in st.mon[1:] if m[0] == 'raw']
        if not end:
            return self.rep(st, 'end', 'the prompt ends before the search text was confirmed or given up')
        if win is None or win[1]:
            self.rep(st, 'timeout', 'after the prompt signals are not noticed any more: keys are awaited without end')
        v = eng.rebind(st, x.value)
        if end[0] == 'esc':
            if v != NULL and v != C(0, 64):
                self.rep(st, 'esc', 'a search that was given up is carried out')
            return
        if len(made) != 1 or v != ('p', made[0][1], 0):
            return self.rep(st, 'text', 'the search text that was confirmed is not searched for')
        g = made[0][2]
        if raw and not raw[0]:
            if len(g) != 1 or g[0][0] != 'a' or g[0][1][:1] != ('dec',):
                return self.rep(st, 'text', 'the characters for \\uXXXX in the search text are not decoded')
            g = g[0][1][1:]
        elif not raw:
            raise AnalysisBroken('C13: whether characters are decoded')
        if not self.same_text(st, g, tuple(('ch', c) for c in ghost)):
            self.rep(st, 'text', 'another text is searched for than the one that was typed')

    def go(self):
        self.cased = {}
        self.texts()
        self.characters()
        self.decoding()
        self.elements()
        self.prompt()
        return self


def check(tier):
    c = Patterns(tier).go()
    v = list(c.eng.violations.values())
    n = c.n
    return dict(violations=v,
                coverage=dict(n, functions=sorted(c.eng.analysed), functions_analysed=len(c.eng.analysed), paths=c.eng.stats['paths']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['std::search and std::regex_search behave as documented', 'characters are compared in the C locale (ASCII)'])
