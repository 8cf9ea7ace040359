"""C12: texts take the number of lines that their characters fill.

The functions that give the length of the text of an element are interpreted for an element of every class with a text of any length S,
that may or may not be a text of the locale: conversions are nondeterministic (K characters, K at most S, or a failure), what is written to a
buffer is compared with the size of the buffer, and nothing as long as a text may be put on the stack.  The result is the number of characters
(of bytes for what is no text), also when it is asked for again.  The number of lines for a length is evaluated over a grid of lengths and
widths (constants are propagated through the function) and compared with the smallest number of lines that holds the text.  The functions that
write a text, a character, an element or a member with its value are interpreted for any arguments: the lines that they report, and by which
a member moves the cursor on, are those of the length, place and width given.  Small documents are drawn in both views: every text is
written with its own length."""
from ui import *
from c14 import Draw

W = 4          # bytes of a wide character


class Lengths(UI):
    def __init__(self):
        super().__init__('C12 lengths')
        eng = self.eng
        eng.mon = self
        self.n = dict(lengths=0, conversions=0, constructors=0)
        self.flen = self.off('JSonElement', '_strlen')
        for q in sorted(q for q in self.p.mod.by_qual if q.endswith('::stringify')):
            eng.cuts[q] = self.text
        m = eng.models
        for n in ('mbstowcs', 'mbsrtowcs', '__mbstowcs_chk'):
            m[n] = self.convert
        for n in ('wcslen', 'wcsnlen'):
            m[n] = self.count
        for n in ('mbtowc', 'mbrtowc'):
            m[n] = self.first

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, '%s: %s' % (self.what, msg), key=(rule, msg, self.what))

    def text(self, eng, st, ins, fn, args):
        if not fn.sret or eng.rebind(st, args[1]) != self.item:
            return None
        models.put_s(eng, st, args[0][1], args[0][2], (self.atom,))
        return [(st, UNDEF)]

    # what is known: st.mon = (None | True: a text | False: no text, buffers with a terminated text, memory on the stack)
    def env(self, st):
        """sample values of the lengths"""
        lens = [0] if self.empty else [1, 2, 3, 7, 64, 1000, 123457]
        for s in lens:
            for k in sorted({s, (s + 1) // 2, s // 3 + 1 if s else 0}):
                yield {self.S[1]: s, self.K[1]: k}

    def holds(self, st, f, *vs):
        """for all lengths, as far as the samples go"""
        vs = [self.eng.rebind(st, v) for v in vs]
        for e in self.env(st):
            try:
                x = [ev(self.eng, v, e) for v in vs]
            except KeyError:
                return False
            if None in x or not f(e[self.S[1]], e[self.K[1]], *x):
                return False
        return True

    def convert(self, eng, st, ins, fn, args):
        self.n['conversions'] += 1
        dst, src, n = eng.rebind(st, args[0]), eng.rebind(st, args[1]), eng.rebind(st, args[2])
        if fn.name == 'mbsrtowcs':
            src = eng.rebind(st, eng.load(st, src, PTR)[0][1])
        r = models.cstr(eng, st, src)
        if len(r) != 1 or tuple(r[0][1]) != (self.atom,):
            if tuple(r[0][1]) != () or not self.empty:
                self.rep(st, 'text', 'something else than the text is converted')
                raise Stop()
        null = dst == NULL or dst[0] == 'n'
        if not null:
            if dst[0] != 'p':
                raise AnalysisBroken('C12: buffer of a conversion')
            o = st.mem[dst[1]]
            size = o.size
            if size is None:
                raise AnalysisBroken('C12: size of a buffer')
            size = C(size, 64) if isinstance(size, int) else size
            off = dst[2] if isinstance(dst[2], int) else None
            if off is None:
                raise AnalysisBroken('C12: place in a buffer')
            if not self.holds(st, lambda S, K, z, m: min(m, K + 1) * W + off <= z, size, n):
                self.rep(st, 'overflow', 'the converted text may not fit into its buffer')
                raise Stop()
        out = []
        if st.mon[0] is not True and not self.empty:
            s = st.copy()
            s.mon = (False, s.mon[1])
            out.append((s, C((1 << 64) - 1, 64)))
        if st.mon[0] is not False:
            st.mon = (True, st.mon[1])
            k = C(0, 64) if self.empty else self.K
            if null:
                out.append((st, k))
            else:
                if self.holds(st, lambda S, K, m: m > K, n):
                    st.mon = (True, st.mon[1] | {dst[1]})
                    out.append((st, k))
                else:
                    full = self.holds(st, lambda S, K, m: m >= K, n)
                    out.append((st, k if full else eng.opaque(64, 'converted')))
        return out

    def count(self, eng, st, ins, fn, args):
        d = eng.rebind(st, args[0])
        if d[0] != 'p' or d[2] != 0 or d[1] not in st.mon[1]:
            self.rep(st, 'unterminated', 'the end of a text is looked for in a buffer that may not hold one')
            raise Stop()
        return [(st, C(0, 64) if self.empty else self.K)]

    def first(self, eng, st, ins, fn, args):
        self.rep(st, 'text', 'only a part of the text is converted')
        raise Stop()

    def go(self):
        p, eng = self.p, self.eng
        fs = [f for f in p.mod.find('JSonElement::lazystrlen') + p.mod.find('JSonElement::strlen') if not f.declared]
        if not fs:
            raise AnalysisBroken('C12: lengths of texts')
        for fn in fs:
            for t in sorted(p.PRIM | p.ENTRY | p.CONT):
                for empty in (False, True):
                    for stored in (False, True):
                        self.one(fn, t, empty, stored)
        for fn in p.mod.find('JSonElement::JSonElement'):
            if fn.declared or any('JSonElement const' in x or '&' in x for x in models.params(fn)):
                continue
            self.ctor(fn)
        return self

    def ctor(self, fn):
        eng = self.eng
        self.what = fn.qual
        st = State()
        st.mon = (None, frozenset())
        k = eng.new_obj(st, 'heap')
        eng.push(st, fn, [('p', k, 0)] + [eng.opaque(64, 'parent') for _ in models.params(fn)])
        eng.keep_mem = (k,)
        for x in eng.run([st]):
            self.n['constructors'] += 1
            if x.kind == 'ret' and eng.rebind(x.state, x.state.mem[k].cells.get(self.flen, UNDEF)) != C(0, 64):
                self.rep(x.state, 'length', 'a new element has a length')

    def one(self, fn, t, empty, stored):
        eng = self.eng
        self.what, self.empty = fn.qual, empty
        st = State()
        st.mon = (None, frozenset())
        k = self.world.new(st, [t])
        self.item = ('p', k, 0)
        self.S, self.K = eng.opaque(64, 'bytes'), eng.opaque(64, 'characters')
        self.atom = eng.atom('text')
        if empty:
            st.facts[('emp', self.atom)] = True
            st.facts[('len', self.atom)] = C(0, 64)
        else:
            st.facts[('emp', self.atom)] = False
            st.facts[('len', self.atom)] = self.S
            st.facts[('ne', self.S)] = frozenset([0, (1 << 64) - 1])
            st.facts[('ne', self.K)] = frozenset([0, (1 << 64) - 1])
        cells = st.mem[k].cells
        cells[self.flen] = C(0, 64)
        if stored and not empty:
            # a length that was computed before
            for valid in (True, False):
                s = st.copy()
                s.mon = (valid, frozenset())
                s.mem[k].cells[self.flen] = self.K if valid else self.S
                self.judge(self.run(s, fn, k), k)
            return
        for x in self.judge(self.run(st, fn, k), k):
            self.judge(self.run(x, fn, k), k)

    def run(self, st, fn, k):
        self.eng.keep_mem = (k,)
        self.eng.push(st, fn, [('p', k, 0)])
        return self.eng.run([st])

    def judge(self, ends, k):
        eng, out = self.eng, []
        for x in ends:
            self.n['lengths'] += 1
            s = x.state
            if x.kind != 'ret':
                self.rep(s, 'length', 'the length of a text cannot be computed')
                continue
            v, c = eng.rebind(s, x.value), eng.rebind(s, s.mem[k].cells[self.flen])
            if self.empty:
                ok = lambda v: v == C(0, 64)
            elif s.mon[0] is None:
                self.rep(s, 'length', 'the length of a text is given without looking at the text')
                continue
            else:
                ok = lambda v: self.holds(s, lambda S, K, n: n == (K if s.mon[0] else S), v)
            if not ok(v):
                self.rep(s, 'length', 'the length given is not the number of characters' if s.mon[0] is not False
                         else 'the length of what is no text is not its number of bytes')
            elif c != C(0, 64) and not ok(c):
                self.rep(s, 'length', 'the length kept is not the length of the text')
            else:
                out.append(s)
        return out

    # memory on the stack
    def on_alloca(self, st, size):
        if self.S[1] in ids(self.eng.rebind(st, size), {}) or self.K[1] in ids(self.eng.rebind(st, size), {}):
            self.rep(st, 'stack', 'the stack is to hold a buffer as long as a text')
            raise Stop()


class Lines(UI):
    def __init__(self, tier):
        super().__init__('C12 lines')
        self.tier = tier
        eng = self.eng
        eng.mon = self
        self.n = dict(values=0, writes=0)
        self.scr = Screen(eng, self)

    def on_print(self, *a):
        pass

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, '%s: %s' % (self.what, msg), key=(rule, msg, self.what))

    def grid(self):
        big = [(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1000003, 65536]
        for w in list(range(1, 13)) + [79, 80, 81, 255, 65535, (1 << 31) + 1]:
            ns = set(range(0, 26 if self.tier != 'thorough' else 120)) | {x * w + d for x in (1, 2, 3, 10, 1000) for d in (-1, 0, 1)} | set(big)
            for n in sorted(ns):
                if 0 <= n < 1 << 32:
                    yield n, w

    def numbers(self):
        p, eng = self.p, self.eng
        fs = [f for f in p.mod.find('CurseOutput::getNbLines') if not f.declared]
        if len(fs) != 1:
            raise AnalysisBroken('C12: getNbLines')
        fn = fs[0]
        self.what = fn.qual
        for n, w in self.grid():
            st = State()
            st.mon = None
            eng.stats['steps'] = 0
            args = [C(n, 64), C(w, 32)]
            if len(fn.params) != 2:
                raise AnalysisBroken('C12: parameters of getNbLines')
            eng.push(st, fn, args)
            for x in eng.run([st]):
                v = eng.rebind(x.state, x.value) if x.kind == 'ret' else None
                if v is None:
                    self.rep(x.state, 'lines', 'the number of lines cannot be computed')
                    return
                if v[0] != 'c':
                    raise AnalysisBroken('C12: number of lines of %d characters' % n)
                self.n['values'] += 1
                if v[1] != (n + w - 1) // w:
                    self.rep(x.state, 'lines', '%d characters fill %d lines of %d, not %d' % (n, (n + w - 1) // w, w, v[1]))
                    return

    # -- writing
    def nblines(self, eng, st, ins, fn, args):
        n, w = eng.rebind(st, args[-2]), eng.rebind(st, args[-1])
        r = eng.opaque(32, 'lines')
        st.mon = (st.mon[0] + ((n, w, r),),) + st.mon[1:]
        return [(st, r)]

    def go(self):
        self.numbers()
        self.eng.cuts['CurseOutput::getNbLines'] = self.nblines
        p, eng = self.p, self.eng
        for cls, ti in self.views:
            for fn in p.mod.find(cls + '::write'):
                ps = models.params(fn)
                if len(ps) >= 5 and not fn.declared:
                    self.one(cls, ti, fn, ps)
        for cls, ti in self.views:
            self.item(cls, ti)
            for fn in p.mod.find(cls + '::writeKey'):
                if not fn.declared:
                    self.key(cls, ti, fn)
        return self

    def start(self, cls, ti):
        eng = self.eng
        st = State()
        st.mon = ((), ())
        this = self.obj(st, cls, ti)
        scr = self.scr.start(st)
        c = st.mem[this].cells
        c[self.off(cls, 'colors')] = ('M', 'empty', ())
        top = eng.opaque(32, 'scrollTop')
        self.win = None
        if cls != 'CurseSimpleOutput':
            w = self.windows(st, this)
            c[self.off(cls, 'workingWin')] = C(1, 16)
            c[self.off(cls, 'nbInputs')] = C(2, 16)
            for k in w:
                wk = eng.new_obj(st, 'lazy', lazy='any')
                st.mem[k].cells[self.off('t_subWindow', 'innerWin')] = ('p', wk, 0)
                st.mem[k].cells[self.off('t_subWindow', 'scrollTop')] = top if k == w[1] else eng.opaque(32, 'scrollTop2')
            self.win = w[1]
        else:
            c[self.off(cls, 'scrollTop')] = top
        eng.keep_mem = (this, scr)
        return st, this, top

    def above(self, st, y, top):
        r = {b for _, b in self.eng.split(st.copy(), self.eng.icmp_val(st, 'ule', y, top, ('i', 32)))}
        return r.pop() if len(r) == 1 else None

    def one(self, cls, ti, fn, ps):
        eng = self.eng
        kind = 'char' if 'char' in ps else 'string'
        self.what = fn.qual + (' (character)' if kind == 'char' else ' (text)')
        for op in sorted(self.p.di.enum('eLevenshteinOperator').values()) if cls != 'CurseSimpleOutput' else [self.p.di.enum('eLevenshteinOperator')['equ']]:
            st, this, top = self.start(cls, ti)
            y, x, ln, wd = eng.opaque(32, 'y'), eng.opaque(32, 'x'), eng.opaque(64, 'len'), eng.opaque(32, 'width')
            fl = self.flags(st, C(0, 16), C(0, 8), C(op, 8))
            ky = eng.new_obj(st, 'heap')
            st.mem[ky].cells[0], st.mem[ky].cells[4] = y, x
            ks = eng.new_obj(st, 'heap')
            models.put_s(eng, st, ks, 0, (eng.atom('text'),))
            ar = [('p', this, 0), ('p', ky, 4), ('p', ky, 0)]
            ar += [eng.opaque(8, 'char')] if kind == 'char' else [('p', ks, 0), ln]
            ar += [wd, ('p', fl, 0)]
            if len(ar) - 1 != len(ps):
                raise AnalysisBroken('C12: parameters of ' + fn.dname)
            eng.keep_mem = eng.keep_mem + (ky, ks)
            eng.push(st, fn, ar)
            for e in eng.run([st]):
                s = e.state
                self.n['writes'] += 1
                if e.kind != 'ret':
                    self.rep(s, 'write', 'writing ends with an exception')
                    continue
                ab = self.above(s, y, top)
                if ab is None:
                    self.rep(s, 'write', 'lines are reported without regard of those scrolled away')
                    continue
                v = eng.rebind(s, e.value)
                if ab:
                    if v != C(1, 32):
                        self.rep(s, 'write', 'what is scrolled away does not take one line')
                    continue
                z = eng.mk('zext', 64, x)
                self.expect(s, v, eng.mk('add', 64, z, C(1, 64) if kind == 'char' else ln), wd)

    def expect(self, s, v, n, w):
        eng = self.eng
        c = [c for c in s.mon[0] if c[2] == v]
        if not c:
            return self.rep(s, 'write', 'the lines that a text takes are not those of its length')
        gn = c[0][0]
        if differs(eng, s, gn, n) and differs(eng, s, eng.mk('trunc', 32, gn), eng.mk('trunc', 32, n)):
            return self.rep(s, 'write', 'the lines that a text takes are those of another length')
        if differs(eng, s, c[0][1], w):
            return self.rep(s, 'write', 'the lines that a text takes are those of another width')

    # -- an element: its text with the length of its text
    def item(self, cls, ti):
        eng, p = self.eng, self.p
        fs = [f for f in p.mod.find('CurseOutput::write') if not f.declared and any('JSonElement' in x for x in models.params(f))]
        if len(fs) != 1:
            raise AnalysisBroken('C12: writing an element')
        fn = fs[0]
        self.what = fn.qual
        st, this, top = self.start(cls, ti)
        k = self.world.new(st, sorted(p.VALUE))
        it = ('p', k, 0)
        at, L, R = eng.atom('text'), eng.opaque(64, 'len'), eng.opaque(32, 'lines')
        y, x, wd = eng.opaque(32, 'y'), eng.opaque(32, 'x'), eng.opaque(32, 'width')
        got = []

        def text(eng, s, ins, f, args):
            if not f.sret or eng.rebind(s, args[1]) != it:
                raise AnalysisBroken('C12: text of another element')
            models.put_s(eng, s, args[0][1], args[0][2], (at,))
            return [(s, UNDEF)]

        def length(eng, s, ins, f, args):
            if eng.rebind(s, args[0]) != it:
                raise AnalysisBroken('C12: length of another element')
            return [(s, L)]

        def write(eng, s, ins, f, args):
            if not any(models.STR.match(t) for t in models.params(f)):
                return None
            seg = tuple(models.get_s(eng, s, args[3][1], args[3][2])) if args[3][0] == 'p' else None
            ld = lambda a: eng.rebind(s, eng.load(s, a, ('i', 32))[0][1])
            s.mon = (s.mon[0], s.mon[1] + ((ld(args[1]), ld(args[2]), seg, eng.rebind(s, args[4]), eng.rebind(s, args[5])),))
            return [(s, R)]
        cuts = {}
        for q in [q for q in p.mod.by_qual if q.endswith('::stringify')]:
            cuts[q] = text
        for q in ('JSonElement::lazystrlen', 'JSonElement::strlen'):
            cuts[q] = length
        cuts[cls + '::write'] = write
        eng.cuts.update(cuts)
        ky = eng.new_obj(st, 'heap')
        st.mem[ky].cells[0], st.mem[ky].cells[4] = y, x
        eng.keep_mem = eng.keep_mem + (ky, k)
        fl = self.flags(st, C(0, 16), C(0, 8), C(0, 8))
        eng.push(st, fn, [('p', this, 0), ('p', ky, 4), ('p', ky, 0), it, wd, ('p', fl, 0)])
        for e in eng.run([st]):
            s = e.state
            self.n['writes'] += 1
            if e.kind != 'ret' or eng.rebind(s, e.value) != R or len(s.mon[1]) != 1:
                self.rep(s, 'element', 'an element is not written once')
                continue
            gx, gy, seg, n, w = s.mon[1][0]
            if seg != (at,) or n != L:
                self.rep(s, 'element', 'an element is not written with its text and the length of its text')
            if w != wd or differs(eng, s, gx, x) or differs(eng, s, gy, y):
                self.rep(s, 'element', 'an element is not written at its place')
        for q in cuts:
            del eng.cuts[q]

    # -- a member: key, ": " and what follows
    def key(self, cls, ti, fn):
        eng, p = self.eng, self.p
        ps = models.params(fn)
        sizes = [i for i, t in enumerate(ps) if t in ('unsigned long', 'std::size_t', 'size_t')]
        strs = [i for i, t in enumerate(ps) if models.STR.match(t)]
        self.what = '%s (%d texts)' % (fn.qual, len(strs))
        st, this, top = self.start(cls, ti)
        y, x = eng.opaque(32, 'y'), eng.opaque(32, 'x')
        sw, sh = eng.opaque(32, 'screenWidth'), eng.opaque(32, 'screenHeight')
        c = st.mem[this].cells
        so = self.off(cls, 'screenSize')
        c[so], c[so + 4] = sw, sh
        cur = eng.new_obj(st, 'heap')
        st.mem[cur].cells[0], st.mem[cur].cells[4] = x, y
        own = None
        ar, lens, atoms = [('p', this, 0)], [], []
        for i, t in enumerate(ps):
            if i in strs:
                k = eng.new_obj(st, 'heap')
                a = eng.atom('text')
                ln = eng.opaque(64, 'bytes')
                st.facts[('len', a)] = ln
                models.put_s(eng, st, k, 0, (a,))
                ar.append(('p', k, 0))
                atoms.append((a, ln))
            elif i in sizes:
                v = eng.opaque(64, 'len')
                lens.append(v)
                ar.append(v)
            elif t == 'unsigned int':
                ar.append(eng.opaque(32, 'extra'))
            elif 'Cursor' in t or 'pair' in t:
                ar.append(('p', cur, 0))
                own = cur
            elif 'OutputFlag' in t:
                ar.append(('p', self.flags(st, C(0, 16), C(0, 8), C(p.di.enum('eLevenshteinOperator')['equ'], 8)), 0))
            elif 'subWindow' in t or 'SubWindow' in t:
                ar.append(('p', self.win, 0))
            else:
                raise AnalysisBroken('C12: parameter %s of %s' % (t, fn.dname))
        if own is None:
            if self.win is None:
                raise AnalysisBroken('C12: cursor of ' + fn.dname)
            wc = st.mem[self.win].cells
            o = self.off('t_subWindow', 'cursor')
            wc[o], wc[o + 4] = x, y
            cur, co = self.win, o
        else:
            co = 0
        # a text that comes without a length has its size
        total = eng.mk('zext', 64, x)
        for v in lens + [ln for _, ln in atoms[len(lens):]]:
            total = eng.mk('add', 64, total, v)
        total = eng.mk('add', 64, total, C(2, 64))
        width = sw if cls == 'CurseSimpleOutput' else eng.mk('sub', 32, sw, C(2, 32))

        def write(eng, s, ins, f, args):
            if ins.ty[0] != 'i':
                return [(s, UNDEF)]
            r = eng.opaque(32, 'written')
            if any(models.STR.match(t) for t in models.params(f)):
                s.mon = (s.mon[0], s.mon[1] + ((r, eng.rebind(s, args[4])),))
            return [(s, r)]
        eng.cuts[cls + '::write'] = write
        eng.keep_mem = eng.keep_mem + (cur,)
        one = not strs[1:] and len(lens) < 2
        if one and len(lens) != 1:
            raise AnalysisBroken('C12: parameters of ' + fn.dname)
        eng.push(st, fn, ar)
        for e in eng.run([st]):
            s = e.state
            self.n['writes'] += 1
            if e.kind != 'ret':
                self.rep(s, 'member', 'writing a member ends with an exception')
                continue
            ab = self.above(s, y, top)
            ny = eng.rebind(s, s.mem[cur].cells[co + 4])
            nx = eng.rebind(s, s.mem[cur].cells[co])
            if nx != x:
                self.rep(s, 'member', 'a member changes the column of the cursor')
            if ab is None:
                self.rep(s, 'member', 'the cursor moves on without regard of the lines scrolled away')
                continue
            if ab:
                if differs(eng, s, ny, eng.mk('add', 32, y, C(1, 32))):
                    self.rep(s, 'member', 'a member that is scrolled away does not take one line')
                continue
            if one:
                # a key alone: by the lines of the key
                if not any(n == lens[0] and not differs(eng, s, ny, eng.mk('add', 32, y, r)) for r, n in s.mon[1]):
                    self.rep(s, 'member', 'the cursor does not move on by the lines of the key')
                continue
            c = [c for c in s.mon[0] if not differs(eng, s, ny, eng.mk('add', 32, y, c[2]))]
            if not c:
                self.rep(s, 'member', 'the cursor does not move on by the lines of the member')
                continue
            self.expect(s, c[0][2], total, width)
        del eng.cuts[cls + '::write']


class Members(Draw):
    """drawing of small documents: a member is written with the lengths of its own name and value"""

    def __init__(self, tier):
        super().__init__(tier)
        self.n['pairs'] = 0
        self.lens = {}
        for q in ('JSonElement::lazystrlen', 'JSonElement::strlen'):
            self.eng.cuts[q] = self.length

    def rep(self, st, rule, msg):
        if rule == 'length':
            self.eng.report(st, rule, msg, key=(rule, msg))

    def length(self, eng, st, ins, fn, args):
        a = eng.rebind(st, args[0])
        if a[0] != 'p':
            raise AnalysisBroken('C12: length of an unknown element')
        return [(st, C(self.of(st, a[1]), 64))]

    def of(self, st, k):
        return 5 + self.lens.setdefault(k, len(self.lens))

    def on_call(self, eng, st, ins, fn, q, args):
        if q is None or not q.endswith(('::writeKey', '::write')):
            return None
        ps = models.params(fn)
        strs = [args[i + 1] for i, t in enumerate(ps) if models.STR.match(t)]
        lens = [args[i + 1] for i, t in enumerate(ps) if t in ('unsigned long', 'std::size_t', 'size_t')]
        ref = [args[i + 1] for i, t in enumerate(ps) if 'JSonElement' in t]
        if len(lens) < len(strs) and not q.endswith('::writeKey') or ref:
            return None
        if q.endswith('::write') and eng.rebind(st, lens[0]) == C(0, 64) if lens else False:
            return None      # the key of a member: what is reported is not used (Lines.key)
        ids_ = {}
        for k in st.mem:
            if self.world.is_node(st, k):
                for w in ('key', 'text'):
                    t = st.mem[k].cells.get('id:' + w)
                    if t is not None:
                        ids_[t[1]] = k
        for s, n in zip(strs, lens):
            n = eng.rebind(st, n)
            g = norm(eng, st, models.get_s(eng, st, s[1], s[2])) if s[0] == 'p' else None
            if g is None:
                raise AnalysisBroken('C12: length of a text')
            g = tuple(g)
            self.n['pairs'] += 1
            if len(g) == 1 and g[0][0] == 'a' and g[0][1] in ids_:
                ok = n[0] == 'c' and n[1] == self.of(st, ids_[g[0][1]])
            else:
                ok = n[0] == 'c' and all(x[0] in ('k', 'ch') for x in g) and n[1] == sum(len(x[1]) if x[0] == 'k' else 1 for x in g)
            if not ok:
                self.rep(st, 'length', '%s: a text is written with the length of another' % fn.qual)
        return None

    def go(self):
        for j in self.jobs('quick'):
            if self.size(j[1]) <= 3 and 60 in j[1:] and (j[0] == 'simple' or len(j) == 9 or j[3] is None):
                self.lens = {}
                self.work(j)
        return self


def check(tier):
    a = Lengths().go()
    b = Lines(tier).go()
    m = Members(tier).go()
    v = list(a.eng.violations.values()) + list(b.eng.violations.values()) + list(m.eng.violations.values())
    b.n['drawn'], b.n['pairs'] = m.n['drawn'], m.n['pairs']
    if not v and (a.n['lengths'] < 20 or not a.n['constructors'] or b.n['values'] < 200 or b.n['writes'] < 10 or b.n['pairs'] < 100):
        raise AnalysisBroken('C12: only %r %r' % (a.n, b.n))
    fa = a.eng.analysed | b.eng.analysed | m.eng.analysed
    return dict(violations=v, coverage=dict(**a.n, **b.n, functions=sorted(fa), functions_analysed=len(fa),
                                            paths=a.eng.stats['paths'] + b.eng.stats['paths']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['C library conversions as documented', 'sizes as expressions of the lengths are compared for sampled lengths'])
