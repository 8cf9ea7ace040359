"""C10: reported positions are those of the last byte read.

Three obligations.  (1) The line history is explored over all its reachable abstract states (ring indices and flags concrete, characters,
line number and, beyond the ring, the number of characters symbolic) against a ghost line: after every operation, line, column
and text are compared.  (2) The tokenizer is interpreted over a nondeterministic byte source with a monitor that relates bytes
consumed and history operations: they agree whenever the history is passed on and at the end of every token, for tokens of any
length.  (3) The constructors of all parse errors keep the history they are given, and their accessors return its data."""
from common import *
from nodes import NodeWorld
from stream import StreamWorld

NL, CR = 10, 13
OTHER = frozenset(range(256)) - {NL, CR}
FAR = 60


class Ghost:
    """the current line: number, number of characters, the last of them (labels), ended by a break, by a CR, undo information"""
    __slots__ = ('line', 'n', 'items', 'ended', 'cr', 'undo', 'far')

    def __init__(self, line=1, n=0, items=(), ended=False, cr=False, undo=None, far=False):
        self.line, self.n, self.items, self.ended, self.cr, self.undo, self.far = line, n, items, ended, cr, undo, far

    def put(self, c, v):
        """c in 'n' (line feed) 'r' (carriage return) 'o'"""
        g = Ghost(self.line, self.n, self.items, self.ended, False, None, self.far)
        if c == 'n' and self.ended and self.cr:
            return g
        undo = not g.ended
        if g.ended:
            g.line, g.n, g.items, g.ended, g.far = g.line + 1, 0, (), False, False
        if c == 'o':
            g.n, g.items = g.n + 1, (g.items + (v,))
            g.undo = 'char' if undo else None
        else:
            g.ended, g.cr = True, c == 'r'
            g.undo = 'break' if undo else None
        return g

    def pop(self):
        if self.undo == 'break':
            return Ghost(self.line, self.n, self.items, far=self.far)
        return Ghost(self.line, self.n - 1, self.items[:-1], far=self.far)


class History:
    def __init__(self, tier):
        self.p = p = prog()
        self.tier = tier
        eng = self.eng = Engine(p.mod, p.di, name='C10')
        eng.mon = None
        eng.str_limit = lambda st: 10000
        eng.unroll = lambda st: 400
        eng.MAX_UNROLL = 400
        f = lambda q, *ps: self.fn(q, ps)
        self.f_put = f('LinearHistory::put', 'char')
        self.f_batch = [x for x in p.mod.find('LinearHistory::put') if len(models.params(x)) == 2]
        self.f_pop = self.any(('LinearHistory::pop_back', 'WrappedBuffer::pop_back'))
        self.f_line = self.any(('LinearHistory::currentLine',))
        self.f_col = self.any(('LinearHistory::totalSize', 'WrappedBuffer::totalSize'))
        self.f_text = self.any(('LinearHistory::toString', 'WrappedBuffer::toString'))
        self.f_ctor = [x for x in p.mod.find('LinearHistory::LinearHistory') if not models.params(x)]
        self.f_copy = [x for x in p.mod.find('LinearHistory::LinearHistory') if len(models.params(x)) == 1]
        if not (self.f_ctor and self.f_put):
            raise AnalysisBroken('C10: line history not found')
        mem = p.di.members('LinearHistory')
        arrs = [(o, t) for n, (o, t) in mem.items() if '[' in t]
        self.size = None
        if len(arrs) == 1:
            import re
            m = re.search(r'\[(\d+)\]', arrs[0][1])
            self.off, self.size = arrs[0][0], int(m.group(1)) if m else None
        if self.size is None:
            b = p.di.members([k for k in p.di._byname if k.startswith('WrappedBuffer<char, ')][0])
            ent = sorted((o, t) for n, (o, t) in b.items())
            arr = [(o, t) for o, t in ent if '[' in t or 'array' in t] or [ent[1] if len(ent) > 1 else ent[0]]
            self.off = arr[0][0]
            nxt = min(o for o, t in ent if o > self.off)
            import re
            k = [x for x in p.di._byname if x.startswith('WrappedBuffer<char, ')][0]
            self.size = int(re.search(r', (\d+)>', k).group(1))
            if self.off + self.size > nxt:
                raise AnalysisBroken('C10: layout of the history buffer')
        self.lineoff = getter_off(p, 'LinearHistory::currentLine')
        self.coloff = getter_off(p, self.f_col.qual)
        self.n = dict(states=0, ops=0, observed=0, batches=0, copies=0)
        self.lab = {}

    def fn(self, q, ps):
        r = [x for x in self.p.mod.find(q) if [t for t in models.params(x)] == list(ps)]
        if not r:
            raise AnalysisBroken('C10: %s not found' % q)
        return r[0]

    def any(self, qs):
        for q in qs:
            r = self.p.mod.find(q)
            if r:
                return r[0]
        raise AnalysisBroken('C10: %s not found' % qs[0])

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg))

    # ---- states
    def label(self, i):
        if i not in self.lab:
            self.lab[i] = self.eng.opaque(8, 'c%d' % i)
        return self.lab[i]

    def canon(self, st, cells, g):
        """rename: characters by age, line, column beyond the ring"""
        eng = self.eng
        out = {}
        names = {v: len(g.items) - 1 - i for i, v in enumerate(g.items)}
        for o, v in cells.items():
            if not isinstance(o, int):
                continue
            if v[0] in ('e', 'y'):
                vs = eng.values_of(st, v)
                if vs is not None and len(vs) == 1:
                    v = C(min(vs), eng.width(v) if hasattr(eng, 'width') else v[2])
            if self.off <= o < self.off + self.size:
                out[o] = names.get(v, -1) if not (isinstance(v, tuple) and v[0] == 'c') else -1
            elif o == self.lineoff:
                out[o] = 'L'
            elif o == self.coloff and (g.far or g.n >= FAR):
                out[o] = 'N'
            else:
                if v[0] not in ('c', 'p', 'vt', 'u'):
                    raise AnalysisBroken('C10: member at offset %d of the history is not concrete (%r)' % (o, v))
                out[o] = v
        for i in range(self.size):
            out.setdefault(self.off + i, -1)
        return out

    def state(self, can, n, size):
        """a fresh abstract state"""
        st = State()
        st.mon = ()
        eng = self.eng
        k = eng.new_obj(st, 'heap', size=None)
        o = st.mem[k]
        for off, v in can.items():
            if v == 'L':
                v = self.L
            elif v == 'N':
                v = self.N
            elif isinstance(v, int):
                v = self.label(v)
            elif v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'G':
                eng.gobj(st, v[1][1])
            o.cells[off] = v
        st.facts[('rng', self.N)] = (FAR - 1, 1 << 31)
        st.facts[('rng', self.L)] = (1, 1 << 31)
        eng.keep_mem = (k,)
        return st, k

    def run1(self, st, fn, args):
        self.eng.push(st, fn, args)
        out = []
        for x in self.eng.run([st]):
            if x.kind == 'throw' and x.ti == '_ZTISt9bad_alloc':
                continue
            if x.kind != 'ret':
                self.rep(x.state, 'history', 'an operation of the line history ends with an exception')
                continue
            out.append((x.state, x.value))
        return out

    def observe(self, st, k, g, what):
        """compare the accessors with the ghost"""
        eng = self.eng
        self.n['observed'] += 1
        g = self.clean(st, g)
        st.trace = (st.trace, 'after %s' % what)
        eng.keep_mem = (k,)
        far = g.far
        for f, off, want, base, rule in ((self.f_line, self.lineoff, g.line, self.L, 'line'), (self.f_col, self.coloff, g.n, self.N, 'column')):
            for s, v in self.run1(st.copy(), f, [('p', k, 0)]):
                v = eng.rebind(s, v)
                if rule == 'line' or far:
                    b, d = eng.linear(v)
                    ok = b == base and sgn(d, 32) == want - (FAR if rule == 'column' else 0)
                else:
                    ok = v == C(want & 0xffffffff, 32)
                if not ok:
                    self.rep(s, rule, 'the %s is wrong after %s' % (rule, what))
        for s, v in self.sret(st.copy(), k):
            t = models.norm(eng, s, v)
            got = tuple(x[1] for x in models.explode(t))
            if any(x[0] != 'ch' for x in models.explode(t)):
                got = None
            want = g.items
            if got != want:
                # at most the oldest character may be missing after a character was handed back
                self.rep(s, 'text', 'the text of the line is wrong after %s' % what)

    def sret(self, st, k):
        r = self.eng.new_obj(st, 'heap')
        self.eng.keep_mem = (k, r)
        return [(s, models.get_s(self.eng, s, r, 0)) for s, _ in self.run1(st, self.f_text, [('p', r, 0), ('p', k, 0)])]

    def clean(self, st, g):
        """the ghost with at most as many characters as the ring holds"""
        g.items = g.items[-self.size:]
        return g

    def go(self):
        eng = self.eng
        self.L, self.N = eng.opaque(32, 'line'), eng.opaque(32, 'column')
        st = State()
        st.mon = ()
        k = eng.new_obj(st, 'heap')
        eng.keep_mem = (k,)
        seen, todo = {}, []
        for s, _ in self.run1(st, self.f_ctor[0], [('p', k, 0)]):
            for f, want, rule in ((self.f_line, 1, 'line'), (self.f_col, 0, 'column')):
                for s2, v in self.run1(s.copy(), f, [('p', k, 0)]):
                    if eng.rebind(s2, v) != C(want, 32):
                        self.rep(s2, rule, 'the %s does not start at %d' % (rule, want))
            self.add(seen, todo, s, k, Ghost(), 'construction')
        while todo and not eng.enough():
            can, g, lbl = todo.pop(0)
            self.n['states'] += 1
            self.step(seen, todo, can, g)
        # an error has a copy of the line history
        if len(self.f_copy) != 1:
            raise AnalysisBroken('C10: the line history is not copied by a constructor')
        for can, g in list(seen.values()):
            if eng.enough():
                break
            self.copy(can, g)
        # several characters at once
        if self.f_batch:
            al = list(seen.values())
            pick = al if self.tier == 'thorough' else [x for i, x in enumerate(al) if i % 23 == 0 or x[1].n in (0, 1) and i % 3 == 0 or x[1].n % self.size > self.size - 4
                                                    and i % 5 == 0]
            for can, g in pick:
                if eng.enough():
                    break
                self.batch(seen, can, g)
        return self

    def fresh(self, can, g):
        st, k = self.state(can, g.n, self.size)
        h = Ghost(0, g.n, tuple(self.label(i) for i in reversed(range(len(g.items)))), g.ended, g.cr, g.undo, g.far)
        return st, k, h

    def add(self, seen, todo, s, k, g, what):
        g = self.clean(s, g)
        cells = dict(s.mem[k].cells)
        try:
            can = self.canon(s, cells, g)
        except AnalysisBroken:
            if self.eng.violations:
                return
            raise
        far = g.far or g.n >= FAR
        n = FAR if far else g.n
        key = (tuple(sorted(can.items(), key=lambda x: x[0])), n, len(g.items), g.ended, g.cr, g.undo, far)
        # the accessors are compared whenever the line or the column of the object is symbolic in a new way
        lv = cells.get(self.lineoff)
        cv = cells.get(self.coloff)
        okl = lv is not None and self.eng.linear(lv) == (self.L, g.line & 0xffffffff) or lv == self.L and g.line == 0
        if g.far:
            b, d = (None, 0) if cv is None else self.eng.linear(cv)
            okc = b == self.N and sgn(d, 32) == g.n - FAR
        else:
            okc = cv == C(g.n & 0xffffffff, 32)
        if what == 'construction':
            okl = okc = True
        if not (okl and okc):
            self.rep(s, 'line' if not okl else 'column', 'the %s is wrong after %s' % ('line' if not okl else 'column', what))
            return
        if key in seen:
            return
        g2 = Ghost(0, n, tuple(range(len(g.items))), g.ended, g.cr, g.undo, far)
        seen[key] = (can, g2)
        if todo is not None:
            todo.append((can, g2, what))
        st, kk, h = self.fresh(can, g2)
        st.trace = s.trace
        self.observe(st, kk, h, what)

    KINDS = {'n': frozenset([NL]), 'r': frozenset([CR]), 'o': OTHER}

    def char(self, st, c):
        return self.eng.sym(st, 8, self.KINDS[c], 'c') if len(self.KINDS[c]) > 1 else C(min(self.KINDS[c]), 8)

    def step(self, seen, todo, can, g):
        eng = self.eng
        # one character
        for c in 'nro':
            st, k, h = self.fresh(can, g)
            v = self.char(st, c)
            box = eng.new_obj(st, 'heap')
            st.mem[box].cells[0] = v
            eng.keep_mem = (k, box)
            for s, _ in self.run1(st, self.f_put, [('p', k, 0), v]):
                self.n['ops'] += 1
                self.add(seen, todo, s, k, h.put(c, eng.rebind(s, s.mem[box].cells[0])), self.name(c))
        if g.undo:
            st, k, h = self.fresh(can, g)
            for s, _ in self.run1(st, self.f_pop, [('p', k, 0)]):
                self.n['ops'] += 1
                self.add(seen, todo, s, k, h.pop(), 'a character was handed back')

    def name(self, c):
        return {'n': 'a line feed', 'r': 'a carriage return', 'o': 'a character'}[c]

    def copy(self, can, g):
        eng = self.eng
        st, k, h = self.fresh(can, g)
        k2 = eng.new_obj(st, 'heap')
        eng.keep_mem = (k, k2)
        self.n['copies'] += 1
        for s, _ in self.run1(st, self.f_copy[0], [('p', k2, 0), ('p', k, 0)]):
            self.observe(s, k2, h, 'copying')

    BATCHES = ['', 'o', 'n', 'r', 'oo', 'on', 'no', 'rn', 'nr', 'or', 'ro', 'nn', 'rr', 'ooo', 'oooo', 'oono', 'orno', 'ooooo', 'oooooo']

    def batch(self, seen, can, g):
        eng = self.eng
        fn = self.f_batch[0]
        for w in self.BATCHES:
            st, k, h = self.fresh(can, g)
            self.n['batches'] += 1
            arr = eng.new_obj(st, 'heap')
            for i, c in enumerate(w):
                st.mem[arr].cells[i] = self.char(st, c)
            eng.keep_mem = (k, arr)
            for s, _ in self.run1(st, fn, [('p', k, 0), ('p', arr, 0), C(len(w), 32)]):
                h2 = h
                for i, c in enumerate(w):
                    h2 = h2.put(c, eng.rebind(s, s.mem[arr].cells[i]))
                self.add(seen, None, s, k, h2, 'several characters')


class FeedMon:
    """st.mon = ('F', bytes read but not in the history yet, bytes in the history that were handed back, last byte of the history)"""

    def __init__(self, c):
        self.c = c

    def on_char(self, eng, st, v):
        m = st.mon
        if m[2]:
            # a byte handed back is read again before the history forgot it
            st.mon = (m[0], m[1], m[2][1:], m[3])
        else:
            st.mon = (m[0], m[1] + (v,), m[2], m[3])
        if len(st.mon[1]) > 16:
            self.c.rep(st, 'fed', 'bytes are read that do not reach the line history')
            raise Stop()
        return [(st, v)]

    def on_unget(self, eng, st):
        m = st.mon
        if m[1]:
            st.mon = (m[0], m[1][:-1], m[2], m[3])
        else:
            st.mon = (m[0], m[1], m[2] + (0,), m[3])

    def on_eof(self, eng, st):
        return [st]

    def put(self, eng, st, v):
        m = st.mon
        if not m[1]:
            self.c.rep(st, 'fed', 'something is put into the line history that was not read')
            raise Stop()
        a, b = eng.rebind(st, m[1][0]), eng.rebind(st, v)
        if a != b and eng.values_of(st, eng.mk('icmp eq', 1, a, b)) != {1}:
            self.c.rep(st, 'fed', 'another byte than the one read is put into the line history')
            raise Stop()
        st.mon = (m[0], m[1][1:], m[2], 1)

    def pop(self, eng, st):
        m = st.mon
        if m[2]:
            st.mon = (m[0], m[1], m[2][:-1], None)
        elif m[3] is None:
            self.c.rep(st, 'fed', 'more bytes are taken out of the line history than were handed back')
            raise Stop()
        else:
            st.mon = (m[0], (C(0, 8),) + m[1], m[2], None)

    def level(self, eng, st, what):
        m = st.mon
        if m[1] or m[2]:
            self.c.rep(st, 'position', '%s does not have the position of the last byte read' % what)
            raise Stop()

    def on_call(self, eng, st, ins, fn, q, args):
        if not fn.is_repo():
            return None
        cl = q.rsplit('::', 1)[0] if '::' in q else ''
        h = ('p', self.c.sc, self.c.histoff)
        if cl in ('LinearHistory', 'WrappedBuffer'):
            me = args[1] if fn.sret and len(args) > 1 else args[0] if args else None
            name = q.rsplit('::', 1)[1]
            if me != h:
                if name.startswith('~') or name in ('LinearHistory', 'WrappedBuffer'):
                    return [(st, UNDEF)]
                raise AnalysisBroken('C10: %s of another history' % q)
            self.c.used.add(q)
            self.c.n['feeds'] += 1
            if name == 'put':
                if len(models.params(fn)) == 1:
                    self.put(eng, st, args[1])
                    return [(st, UNDEF)]
                cnt = eng.rebind(st, args[2])
                outs = [(st, cnt[1])] if cnt[0] == 'c' else None
                if outs is None:
                    vs = eng.values_of(st, cnt)
                    if vs is None or len(vs) > 20:
                        raise AnalysisBroken('C10: an unknown number of bytes is put into the history')
                    raise AnalysisBroken('C10: number of bytes %r' % (vs,))
                for s, n in outs:
                    for i in range(n):
                        r = eng.load(s, eng.padd(s, args[1], i), ('i', 8))
                        if len(r) != 1:
                            raise AnalysisBroken('C10: bytes put into the history')
                        s, v = r[0]
                        self.put(eng, s, v)
                return [(s, UNDEF)]
            if name == 'pop_back':
                self.pop(eng, st)
                return [(st, UNDEF)]
            if name in ('totalSize', 'size', 'currentLine'):
                return [(st, eng.opaque(32, name))]
            raise AnalysisBroken('C10: %s in the tokenizer' % q)
        if cl in self.c.ignored or q.rsplit('::', 1)[-1] in ('JsonException',):
            if any(a == h for a in args):
                self.c.n['positions'] += 1
                self.level(eng, st, 'an error or warning')
            if fn.sret:
                models.put_s(eng, st, args[0][1], args[0][2], (eng.atom('msg'),))
                return [(st, UNDEF)]
            return [(st, eng.fresh(st, ins.ty) if ins.ty != VOID else UNDEF)]
        return None


class Feed:
    def __init__(self):
        self.p = p = prog()
        self.histoff = p.di.off('StreamConsumer', 'history')
        self.paramsoff = p.di.off('StreamConsumer', 'params')
        self.streamoff = p.di.off('StreamConsumer', 'stream')
        self.warnoff = p.di.off('StreamConsumer', 'warnings')
        self.ignored = {'Warning'}
        for g in p.mod.globals:
            if g.startswith('_ZTI') and p.mod.derives(g, '_ZTISt9exception') is not None and p.mod.vtable_slots(g) \
                    and not g.startswith('_ZTISt'):
                self.ignored.add(demangle_ti(g))
        self.used = set()
        self.n = dict(feeds=0, positions=0, tokens=0)

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg, (self.eng.where(st) or ['?'])[0]))

    def decoder(self, eng, st, ins, fn, args):
        s2 = st.copy()
        r = models.emit(eng, st, args[1], (eng.atom('u8'),))
        return [(x, UNDEF) for x, _ in r] + [(s2, Throw('_ZTISt16invalid_argument', 'hex'))]

    def run(self):
        p = self.p
        eng = self.eng = Engine(p.mod, p.di, name='C10')
        eng.MAX_UNROLL = 2
        mon = eng.mon = FeedMon(self)
        eng.str_limit = lambda st: 0
        eng.unroll = lambda st: 1
        self.world = NodeWorld(p, eng)
        sw = StreamWorld(eng, mon)
        for q, w in (('std::stoi', 32), ('std::stol', 64), ('std::stoll', 64), ('std::stod', None)):
            def conv(e, st, ins, fn, args, w=w):
                s2, s3 = st.copy(), st.copy()
                return [(st, e.opaque(w, 'n') if w else ('fo', e.new_id('d'))), (s2, Throw('_ZTISt16invalid_argument', 'n')),
                        (s3, Throw('_ZTISt12out_of_range', 'n'))]
            eng.cuts[q] = eng.models[q] = conv
        for q, w in (('strtod', None), ('atof', None), ('strtol', 64), ('strtoll', 64), ('atoi', 32), ('atol', 64), ('atoll', 64)):
            def conv(e, st, ins, fn, args, w=w):
                return [(st, e.opaque(w, 'n') if w else ('fo', e.new_id('d')))]
            eng.cuts[q] = eng.models[q] = conv
        eng.cuts['StreamConsumer::appendUnicode'] = self.decoder
        tok = p.mod.one('StreamConsumer::consumeToken')
        if len(tok.params) != 3:
            raise AnalysisBroken('C10: signature of the tokenizer changed')
        st = State()
        self.sc = eng.new_obj(st, 'lazy', lazy='any', di='StreamConsumer')
        o = st.mem[self.sc]
        o.cls = frozenset(['_ZTI14StreamConsumer'])
        self.params = eng.new_obj(st, 'lazy', lazy='any', di='Params', cls=frozenset(['_ZTI6Params']))
        o.cells[self.paramsoff] = ('p', self.params, 0)
        o.cells[self.warnoff] = ('Q', 'lazy', eng.new_id('q'), None)
        self.stm = sw.new(st)
        o.cells[self.streamoff] = ('p', self.stm, 0)
        par = ('p', self.world.new(st, p.CONT), 0)
        buf = eng.new_obj(st, 'alloca')
        st.mem[buf].cells.update({0: ('vt', buf), 16: ('vt', buf), 8: ('SS', (eng.atom('old'),))})
        st.mon = ('F', (), (), None)
        eng.keep_mem = (self.stm, self.params, self.sc, buf)
        s2 = st.copy()
        s2.wobj(self.stm).cells['pend'] = (eng.sym(s2, 8, range(256), 'c'),)
        for s in (st, s2):
            eng.push(s, tok, [('p', self.sc, 0), par, ('p', buf, 0)])
        for x in eng.run([st, s2]):
            if x.kind == 'throw' and x.ti == '_ZTISt9bad_alloc':
                continue
            self.n['tokens'] += 1
            if x.kind == 'ret':
                try:
                    mon.level(eng, x.state, 'the end of a token')
                except Stop:
                    pass
        return self

    def others(self):
        """functions that read the input or change the history without being part of the tokenizer"""
        mod = self.p.mod
        reach, todo = set(), [self.p.mod.one('StreamConsumer::consumeToken')]
        while todo:
            f = todo.pop()
            if f.name in reach:
                continue
            reach.add(f.name)
            for i in ins_of(f):
                if i.op in ('call', 'invoke') and i.a[0][0] == 'g':
                    g = mod.func(i.a[0][1])
                    if g is not None and not g.declared and g.is_repo():
                        todo.append(g)
        bad = []
        for nm, (_, _, decl) in mod.funcs.items():
            f = None if decl else mod.func(nm)
            if f is None or not f.is_repo() or f.name in reach or not f.qual.startswith('StreamConsumer::'):
                continue
            for i in ins_of(f):
                if i.op in ('call', 'invoke') and i.a[0][0] == 'g':
                    g = mod.func(i.a[0][1])
                    if g is not None and (g.qual in ('std::istream::get', 'std::istream::read', 'std::istream::unget', 'std::istream::peek',
                                                     'std::istream::ignore', 'std::istream::putback') or
                                          g.qual in ('LinearHistory::put', 'LinearHistory::pop_back', 'WrappedBuffer::put',
                                                     'WrappedBuffer::pop_back', 'WrappedBuffer::reset')):
                        bad.append((f, i, g))
        return bad


def ins_of(f):
    f.parse()
    for b in f.blocks.values():
        yield from b.insts


class Keep:
    """parse errors keep the history they were made with"""

    def __init__(self):
        from driver import Driver

        class K(Driver):
            def done(self, st, v, how):
                pass
        self.d = K('C10', 0)
        self.n = 0

    def rep(self, st, msg):
        self.d.eng.report(st, 'kept', msg, key=('kept', msg))

    def go(self):
        d, eng = self.d, self.d.eng
        mod = d.p.mod
        eng.str_limit = lambda st: 200
        for ti in d.errors:
            cls = demangle_ti(ti)
            short = cls.rsplit('::', 1)[-1]
            for fn in mod.find('%s::%s' % (cls, short)):
                ps = models.params(fn)
                hs = [i for i, t in enumerate(ps) if 'LinearHistory' in t]
                if not hs:
                    continue
                st = State()
                st.mon = ()
                k = eng.new_obj(st, 'heap')
                hk = eng.new_obj(st, 'heap')
                h = ('S', (eng.atom('hist'),))
                st.mem[hk].cells[0] = h
                keep = [k, hk]
                args = [('p', k, 0)]
                for i, t in enumerate(ps):
                    if i in hs:
                        args.append(('p', hk, 0))
                    elif models.STR.match(t):
                        x = eng.new_obj(st, 'heap')
                        st.mem[x].cells[0] = ('S', (eng.atom('text'),))
                        keep.append(x)
                        args.append(('p', x, 0))
                    elif 'char' == t:
                        args.append(eng.sym(st, 8, range(256), 'c'))
                    elif '*' in t or '&' in t:
                        x = eng.new_obj(st, 'lazy', lazy='any')
                        keep.append(x)
                        args.append(('p', x, 0))
                    else:
                        args.append(eng.opaque(64, 'pos'))
                eng.keep_mem = tuple(keep)
                eng.push(st, fn, args)
                for x in eng.run([st]):
                    if x.kind == 'throw' and x.ti == '_ZTISt9bad_alloc':
                        continue
                    self.n += 1
                    if x.kind != 'ret':
                        self.rep(x.state, 'making a parse error ends with an exception')
                    elif x.state.mem[k].cells.get(d.histoff) != h:
                        self.rep(x.state, 'a %s does not keep the history it is made with' % cls)
        for q, what in (('currentLine', 'line'), ('currentCol', 'col'), ('getHistory', 'text')):
            fn = mod.find('JsonException::' + q)
            if not fn:
                raise AnalysisBroken('C10: JsonException::%s not found' % q)
            st = State()
            st.mon = ()
            x = d.exc(eng, st, '_ZTI13JsonException')
            h = st.mem[x].cells[d.histoff]
            r = eng.new_obj(st, 'heap')
            eng.keep_mem = (x, r)
            eng.push(st, fn[0], ([('p', r, 0)] if fn[0].sret else []) + [('p', x, 0)])
            for e in eng.run([st]):
                self.n += 1
                if e.kind != 'ret':
                    self.rep(e.state, 'asking a parse error for its position ends with an exception')
                    continue
                if what == 'text':
                    ok = models.norm(eng, e.state, models.get_s(eng, e.state, r, 0)) == h[1]
                else:
                    ok = eng.rebind(e.state, e.value) == e.state.facts.get(('hist', what, h[1]))
                if not ok:
                    self.rep(e.state, 'JsonException::%s is not that of its history' % q)
        return self


def check(tier):
    viol, an = [], set()
    k = Keep().go()
    viol += list(k.d.eng.violations.values())
    an |= set(k.d.eng.analysed)
    f = Feed()
    if not viol:
        f.run()
        viol += list(f.eng.violations.values())
        an |= set(f.eng.analysed)
        bad = f.others()
        if bad and not viol:
            raise AnalysisBroken('C10: %s calls %s outside the tokenizer' % (bad[0][0].qual, bad[0][2].qual))
    h = History(tier)
    if not viol:
        h.go()
        viol += list(h.eng.violations.values())
        an |= set(h.eng.analysed)
        if not viol and (h.n['states'] < 60 or f.n['positions'] < 8 or f.n['feeds'] < 8 or k.n < 8):
            raise AnalysisBroken('C10: only %r %r %d' % (h.n, f.n, k.n))
    return dict(violations=viol,
                coverage=dict(history_states=h.n['states'], history_operations=h.n['ops'], history_batches=h.n['batches'], history_copies=h.n['copies'],
                              observations=h.n['observed'], ring_size=h.size, positions_passed_on=f.n['positions'], history_feeds=f.n['feeds'],
                              token_ends=f.n['tokens'], errors_made=k.n, functions=sorted(an), functions_analysed=len(an),
                              steps=h.eng.stats['steps'] + k.d.eng.stats['steps'] + (f.eng.stats['steps'] if hasattr(f, 'eng') else 0)),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['std::istream and std::string behave as modelled'])
