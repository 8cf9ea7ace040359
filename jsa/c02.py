"""C02: the parser builds exactly the tree that the token sequence denotes, and rejects every other sequence."""
from common import *
from nodes import NodeWorld

TOK = ['{', '}', '[', ']', ':', ',']


class ParseMon:
    """st.mon = ('P', stack, errored, warned);  stack frames are tuples
       ('V',) | ('D', node) | ('obj', phase, cont, key, pend, dup) | ('arr', phase, cont, None, pend, None)
       pend: ('node', k) | ('cont', kind, k|None)"""

    def __init__(self, c):
        self.c = c

    # ---- grammar
    def top(self, st):
        return st.mon[1][-1]

    def settop(self, st, *fr):
        st.mon = ('P', st.mon[1][:-1] + tuple(fr)) + st.mon[2:]

    def err(self, st):
        st.mon = ('P', st.mon[1], True) + st.mon[3:]

    def token(self, eng, st, tok, node=None):
        """advance the grammar by one token"""
        if st.mon[2]:
            return
        f = self.top(st)
        if f[0] == 'V':
            self.value(st, tok, node)
            return
        if f[0] == 'D':
            # the value is complete: reading more is not part of it
            self.err(st)
            return
        kind, ph, cont, key, pend, dup = f
        if ph in ('Oa', 'Aa') and pend is not None:
            self.bad(eng, st, 'value-not-attached', 'the next token is read but the parsed value was not added to its %s'
                     % ('object' if kind == 'obj' else 'array'))
            return
        if kind == 'obj':
            if tok == '}' and ph in ('O0', 'Oa'):
                self.complete(st, ('cont', 'obj', cont))
            elif tok == 'str' and ph in ('O0', 'Ok'):
                self.settop(st, ('obj', 'Oc', cont, node, None, None))
            elif tok == ':' and ph == 'Oc':
                self.settop(st, ('obj', 'Ov', cont, key, None, dup))
            elif ph == 'Ov':
                self.value(st, tok, node)
            elif tok == ',' and ph == 'Oa':
                self.settop(st, ('obj', 'Ok', cont, None, None, None))
            else:
                self.err(st)
        else:
            if tok == ']' and ph in ('A0', 'Aa'):
                self.complete(st, ('cont', 'arr', cont))
            elif ph in ('A0', 'Av'):
                self.value(st, tok, node)
            elif tok == ',' and ph == 'Aa':
                self.settop(st, ('arr', 'Av', cont, None, None, None))
            else:
                self.err(st)

    def value(self, st, tok, node):
        if tok in ('str', 'prim'):
            self.deliver(st, ('node', node))
        elif tok in ('{', '['):
            f = self.top(st)
            new = ('obj', 'O0', None, None, None, None) if tok == '{' else ('arr', 'A0', None, None, None, None)
            if f[0] == 'V':
                self.settop(st, ('W',), new)
            else:
                self.settop(st, f, new)
        else:
            self.err(st)

    def complete(self, st, pend):
        st.mon = ('P', st.mon[1][:-1]) + st.mon[2:]
        if not st.mon[1]:
            st.mon = ('P', (('D', pend),)) + st.mon[2:]
        else:
            self.deliver(st, pend)

    def deliver(self, st, pend):
        f = self.top(st)
        if f[0] in ('V', 'W'):
            self.settop(st, ('D', pend))
        else:
            self.settop(st, (f[0], 'Oa' if f[0] == 'obj' else 'Aa', f[2], f[3], pend, f[5]))

    def bad(self, eng, st, rule, msg):
        eng.report(st, rule, msg)
        raise Stop

    # ---- attaching
    def kind_of(self, eng, st, k):
        cls = eng.class_of(st, k)
        if not cls:
            return None
        p = self.c.p
        if cls <= p.OBJECT:
            return 'obj'
        if cls <= p.ARRAY:
            return 'arr'
        return None

    def lst(self, eng, st, k):
        kd = self.kind_of(eng, st, k)
        return kd is not None

    def matches(self, eng, st, pend, k):
        """is heap node k the value described by pend?"""
        if pend[0] == 'node':
            return pend[1] == k
        if self.kind_of(eng, st, k) != pend[1]:
            return False
        if pend[2] is not None:
            return pend[2] == k
        q = st.mem[k].cells.get(self.c.listoff)
        return q is not None and q[0] == 'Q' and q[1] == 'fin' and not q[2]

    def attach(self, eng, st, k, src, how):
        """a pointer is added to the list of container k"""
        if st.mon is None or st.mon[2]:
            return
        r = eng.load(st, src, PTR) if src[0] == 'p' else []
        x = eng.rebind(st, r[0][1]) if r else UNDEF
        f = self.top(st)
        if f[0] not in ('obj', 'arr') or f[4] is None:
            self.bad(eng, st, 'attach-order', 'an element is added to a container although no parsed value is waiting for it')
            return
        kind, ph, cont, key, pend, dup = f
        if self.kind_of(eng, st, k) != kind:
            self.bad(eng, st, 'container-kind', 'a member of %s is stored in a container of another kind' % (
                'an object' if kind == 'obj' else 'an array'))
            return
        if cont is None:
            q = st.mem[k].cells.get(self.c.listoff)
            if not (q and q[0] == 'Q' and q[1] == 'fin' and not q[2]):
                self.bad(eng, st, 'attach-target', 'the value is stored in a container that is not the one being parsed')
                return
        elif cont != k:
            self.bad(eng, st, 'attach-target', 'the value is stored in a container that is not the one being parsed')
            return
        if x[0] != 'p' or not isinstance(x[2], int) or x[2] != 0:
            self.bad(eng, st, 'attach-null', 'something that is not a parsed node is stored in a container')
            return
        if kind == 'arr' and how != 'back':
            self.bad(eng, st, 'attach-order', 'an array element is not appended at the end')
            return
        if kind == 'obj' and how != 'back' and not (eng.class_of(st, k) <= self.c.SORTED):
            self.bad(eng, st, 'attach-order', 'a member of an object in input order is not appended at the end')
            return
        node = x[1]
        self.c.n['attach'] += 1
        if kind == 'arr':
            if not self.matches(eng, st, pend, node):
                self.bad(eng, st, 'attach-value', 'the element stored in the array is not the value that was parsed')
                return
            st.mon = st.mon[:4] + (st.mon[4] + ((node, k),),)
        else:
            if not (eng.class_of(st, node) or frozenset()) <= self.c.p.ENTRY:
                self.bad(eng, st, 'attach-value', 'the element stored in an object is not a key/value entry')
                return
            v = st.mem[node].cells.get(self.c.valoff)
            ks = models.get_s(eng, st, node, self.c.keyoff)
            want = ('a', self.c.world.tag(st, key, 'text'))
            if v is None or v[0] != 'p' or not self.matches(eng, st, pend, v[1]):
                self.bad(eng, st, 'attach-value', 'the value stored for the key is not the value that was parsed')
                return
            if tuple(ks) != (want,):
                self.bad(eng, st, 'attach-key', 'the value is stored under a key that is not the one that was parsed')
                return
            fresh = cont is None
            if dup == 'erased' and self.c.strict(st) is not False:
                self.bad(eng, st, 'strict-duplicate', 'a duplicate key is accepted without the strict option having been ruled out')
                return
            if not fresh and dup not in ('absent', 'erased'):
                self.bad(eng, st, 'duplicate-key', 'a member is added although the object already holds the same key'
                         if dup == 'found' else 'a member is added without checking whether its key is already present')
                return
            st.mon = st.mon[:4] + (st.mon[4] + ((node, k), (v[1], node)) + ((('warn',),) if dup == 'erased' and not fresh else ()),)
        self.settop(st, (kind, ph, k, key, None, None))

    def on_push(self, eng, st, ins, fn, ck, src):
        if ck[1] == self.c.listoff and self.lst(eng, st, ck[0]):
            self.attach(eng, st, ck[0], src, 'back' if fn.qual.endswith('back') else 'front')
        elif ck == (self.c.sc, self.c.warnoff):
            f = self.top(st) if st.mon[1] else ('D',)
            if not st.mon[2] and not (f[0] == 'obj' and f[5] in ('found', 'erased')):
                self.bad(eng, st, 'spurious-warning', 'a warning is recorded although nothing irregular was read')
                return
            st.mon = st.mon[:3] + (1,) + st.mon[4:]

    def on_insert(self, eng, st, ins, fn, ck, pos, src):
        if ck[1] == self.c.listoff and self.lst(eng, st, ck[0]) and src is not None:
            how = 'insert'
            it = models.load_it(eng, st, pos)
            if it and it[0][1][2] == 'end':
                how = 'back'
            self.attach(eng, st, ck[0], src, how)

    def on_erase(self, eng, st, ins, fn, ck, pos):
        if ck[1] == self.c.listoff and self.lst(eng, st, ck[0]) and not st.mon[2]:
            self.bad(eng, st, 'erase', 'an element is removed from a container outside the handling of a duplicate key')

    def on_clear(self, eng, st, ins, fn, ck):
        if ck[1] == self.c.listoff and self.lst(eng, st, ck[0]) and not st.mon[2]:
            self.bad(eng, st, 'erase', 'a container is cleared while it is being parsed')

    # parents are checked when control leaves the reader function or the next token is read
    def check_parents(self, eng, st):
        if st.mon[2]:
            return
        for it in st.mon[4]:
            if it == ('warn',):
                if not st.mon[3]:
                    self.bad(eng, st, 'no-warning', 'a duplicate key is accepted without recording a warning')
                    return
                continue
            node, owner = it
            o = st.mem.get(node)
            if o is None or o.freed:
                self.bad(eng, st, 'attached-freed', 'a node stored in the tree is destroyed')
                return
            pv = o.cells.get(self.c.paroff)
            pv = eng.rebind(st, pv) if pv is not None and pv[0] == 'o' else pv
            if pv is None or pv[0] != 'p' or pv[1] != owner:
                self.bad(eng, st, 'parent-link', 'the parent link of a stored node does not lead to its container')
                return
        st.mon = st.mon[:4] + ((),)

    # ---- recursion by contract
    def on_call(self, eng, st, ins, fn, q, args):
        if fn.declared or not fn.is_repo() or st.mon is None:
            return None
        if self.is_dtor(fn) and args and args[0][0] == 'p' and self.c.world.is_node(st, args[0][1]):
            return self.destroy(eng, st, fn, args)
        if not self.c.recursive(fn):
            return None
        onstack = any(f.fn is fn for f in st.frames)
        if not onstack and (not self.c.returns_ptr(fn) or (fn.name, self.phase(st)) in self.c.inline):
            return None
        return self.contract(eng, st, ins, fn, args, onstack)

    def phase(self, st):
        if st.mon[2]:
            return 'E'
        f = self.top(st)
        if f[0] == 'V':
            return 'V'
        if f[0] in ('obj', 'arr') and f[4] is None:
            if f[1] in ('Ov', 'Av'):
                return 'V'
            if f[1] in ('O0', 'A0') and f[2] is None:
                return f[1]
        return None

    def is_dtor(self, fn):
        return '::~' in fn.qual

    def destroy(self, eng, st, fn, args):
        k = args[0][1]
        if st.mem[k].freed:
            eng.report(st, 'double-free', 'a node is destroyed twice')
            return []
        if re.search(r'D0Ev$', fn.name):
            w = st.wobj(k)
            w.freed = True
        return [(st, UNDEF)]

    def contract(self, eng, st, ins, fn, args, onstack):
        out = []
        self.check_parents(eng, st)
        ph = self.phase(st)
        if ph == 'A0' and self.c.elem_reader(fn):
            ph = 'V'
        if ph is None or not self.c.shapes_ok(eng, st, args):
            if onstack:
                raise AnalysisBroken('C02: %s called again in grammar phase %r' % (fn.qual, self.top(st)[:2]))
            return None
        if onstack:
            self.c.forced.add((fn.name, ph))
        key = (fn.name, ph)
        self.c.spawn(eng, st, fn, ph, args)
        outc = self.c.outcomes.setdefault(key, {'throw'})
        self.c.deps.setdefault(key, set()).add(self.c.current)
        # throws
        s2 = st.copy()
        self.err(s2)
        s2.trace = (s2.trace, '%s rejects the input' % fn.qual)
        out.append((s2, Throw(self.c.exc, 'contract')))
        if 'null' in outc:
            s3 = st.copy()
            self.err(s3)
            s3.trace = (s3.trace, '%s returns no element' % fn.qual)
            out.append((s3, NULL))
        if ph != 'E' or 'node' in outc:
            cls = {'V': self.c.p.VALUE, 'O0': self.c.p.OBJECT, 'A0': self.c.p.ARRAY, 'E': self.c.p.VALUE}[ph]
            n = self.c.world.new(st, cls)
            pi = [a for a in args if a == NULL or (a[0] == 'p' and a[1] != self.c.sc)]
            st.wobj(n).cells[self.c.paroff] = eng.opaque(64, 'par') if 'nopar' in outc or len(pi) != 1 else pi[0]
            st.trace = (st.trace, '%s returns a %s' % (fn.qual, {'V': 'value', 'O0': 'object', 'A0': 'array'}.get(ph)))
            if ph == 'V':
                self.deliver(st, ('node', n))
            elif ph != 'E':
                self.complete(st, ('node', n))
            out.append((st, ('p', n, 0)))
        return out

    # ---- cut API
    def consume_token(self, eng, st, ins, fn, args):
        c = self.c
        par = args[1] if len(args) > 2 else NULL
        self.check_parents(eng, st)
        ss = None
        for a in reversed(args):
            if a[0] == 'p':
                r = models.ss_at(eng, st, a)
                if r and r[0][1] is not None:
                    ss = (r[0][1], r[0][2])
                    break
        if ss is None:
            raise AnalysisBroken('C02: token buffer argument of the tokenizer not recognised')
        out = []
        c.n['tokens'] += 1

        def tok(s, *a):
            try:
                self.token(eng, s, *a)
                return True
            except Stop:
                return False

        def fork(txt):
            s = st.copy()
            s.trace = (s.trace, 'token ' + txt)
            return s
        # strings
        s = fork('string')
        n = c.world.new(s, c.p.STRING)
        s.mem[n].cells[c.paroff] = par
        a = c.world.tag(s, n, 'text')
        s.wobj(ss[0]).cells[ss[1]] = ('SS', (('a', a),))
        if tok(s, 'str', n):
            out.append((s, ('p', n, 0)))
        # other primitives: the text left in the buffer is never a bracket, colon or comma
        s = fork('number/bool/null')
        n = c.world.new(s, c.p.PRIM - c.p.STRING)
        s.mem[n].cells[c.paroff] = par
        s.wobj(ss[0]).cells[ss[1]] = ('SS', (eng.atom('lit'),))
        if tok(s, 'prim', n):
            out.append((s, ('p', n, 0)))
        for t in TOK:
            s = fork("'%s'" % t)
            s.wobj(ss[0]).cells[ss[1]] = ('SS', (('k', t.encode()),))
            if tok(s, t):
                out.append((s, NULL))
        s = fork('end of input')
        s.wobj(ss[0]).cells[ss[1]] = ('SS', ())
        if tok(s, 'EOF'):
            out.append((s, NULL))
        s = fork('malformed')
        self.err(s)
        out.append((s, Throw(c.exc, 'malformed token')))
        return out

    def find(self, eng, st, ins, fn, args, kind):
        """find/contains/erase of JSonObject by contract (their bodies are checked separately)"""
        a = models.unsret(fn, args)
        obj, keyp = a[0], a[1]
        out = []
        for s, q in eng.deref(st, obj):
            if eng.check_live(s, q, 'lookup') is None:
                continue
            for s2, ks in models.str_like(eng, s, models.params(fn)[0], keyp):
                out += self.lookup(eng, s2, q[1], tuple(ks), kind, fn, args)
        return out

    def lookup(self, eng, s, k, ks, kind, fn, args):
        c = self.c
        q = models.get_q(eng, s, k, c.listoff)
        f = self.top(s)
        mine = (not s.mon[2]) and f[0] == 'obj' and f[3] is not None and \
            ks == (('a', c.world.tag(s, f[3], 'text')),) and (f[2] == k)
        fk = ('member', q, ks)
        if q[1] == 'fin' and not q[2]:
            res = [(s, False)]
        elif fk in s.facts:
            res = [(s, s.facts[fk])]
        else:
            s2 = s.copy()
            s.facts[fk] = True
            s2.facts[fk] = False
            s.trace = (s.trace, 'the key is already present')
            s2.trace = (s2.trace, 'the key is not present yet')
            res = [(s, True), (s2, False)]
        out = []
        for x, b in res:
            if mine:
                self.settop(x, f[:5] + (('found' if b else 'absent') if f[5] != 'erased' else 'erased',))
            if kind == 'erase':
                if b:
                    x.wobj(k).cells[c.listoff] = ('Q', 'lazy', eng.new_id('q'), None)
                    if mine:
                        self.settop(x, self.top(x)[:5] + ('erased',))
                        if f[5] is None:
                            x.mon = x.mon[:3] + (0,) + x.mon[4:]
                    elif not x.mon[2]:
                        eng.report(x, 'erase', 'a key other than the duplicate one is erased')
                        continue
                out.append((x, TRUE if b else FALSE))
            elif kind == 'contains':
                out.append((x, TRUE if b else FALSE))
            else:
                pos = 'end'
                if b:
                    pos = models.new_slot(eng, x, k, c.listoff, None)
                    x.wobj(pos).cells['end'] = FALSE
                    e = c.world.new(x, c.p.ENTRY)
                    x.wobj(e).cells['id:key'] = ks[0]
                    x.mem[pos].cells[0] = ('p', e, 0)
                out.append((x, models.setret(eng, x, fn, args, ('it', (k, c.listoff), pos))))
        return out


class Check:
    def __init__(self):
        self.p = p = prog()
        self.n = dict(tokens=0, attach=0, contexts=0)
        ent = sorted(p.ENTRY)[0]
        self.valoff = p.di.off(demangle_ti(ent), 'value')
        self.keyoff = p.di.off(demangle_ti(ent), 'key')
        self.paroff = p.di.off('JSonElement', 'parent')
        anyc = demangle_ti(sorted(p.ARRAY)[0])
        self.listoff = [o for n, (o, t) in p.di.members(anyc).items() if n.startswith('base:list<')][0]
        self.SORTED = frozenset(t for t in p.OBJECT if 'Sorted' in p.classes[t])
        self.warnoff = p.di.off('StreamConsumer', 'warnings')
        self.rootoff = p.di.off('StreamConsumer', 'root')
        self.paramsoff = p.di.off('StreamConsumer', 'params')
        self.sortoff = getter_off(p, 'Params::sortObjects')
        self.strictoff = getter_off(p, 'Params::isStrict')
        self.exc = '_ZTI19JsonFormatException'
        if p.mod.derives(self.exc, '_ZTISt9exception') is None:
            raise AnalysisBroken('JsonFormatException is not an exception class')
        if not self.SORTED:
            raise AnalysisBroken('sorted object class not found')
        self.outcomes, self.deps = {}, {}
        self._cal, self._rec = {}, {}
        self.inline, self.forced, self.viol = set(), set(), {}
        self.ctx = {}
        self.current = None
        self.queue = []
        self.sc = None

    def callees(self, fn):
        r = self._cal.get(fn.name)
        if r is None:
            r = set()
            fn.parse()
            for b in fn.blocks.values():
                for i in b.insts:
                    if i.op in ('call', 'invoke') and i.a[0][0] == 'g':
                        g = self.p.mod.func(i.a[0][1])
                        if g is not None and not g.declared and g.is_repo():
                            r.add(g.name)
            self._cal[fn.name] = r
        return r

    def recursive(self, fn):
        """the function can (transitively) call itself and reads tokens"""
        r = self._rec.get(fn.name)
        if r is None:
            seen, todo = set(), [fn.name]
            tok = False
            while todo:
                for g in self.callees(self.p.mod.func(todo.pop())):
                    if self.p.mod.func(g).qual == 'StreamConsumer::consumeToken':
                        tok = True
                        continue
                    if g not in seen:
                        seen.add(g)
                        todo.append(g)
            r = self._rec[fn.name] = fn.name in seen and tok
        return r

    def returns_ptr(self, fn):
        fn.parse()
        return fn.ret == PTR

    def elem_reader(self, fn):
        return False

    def shapes_ok(self, eng, st, args):
        return all(a == NULL or a == ('p', self.sc, 0) or (a[0] == 'p' and a[2] == 0 and self.isnode(eng, st, a[1]) and
                   eng.class_of(st, a[1]) <= self.p.CONT) for a in args) and len(args) <= 2

    def spawn(self, eng, st, fn, ph, args):
        key = (fn.name, ph)
        if key in self.ctx:
            return
        self.ctx[key] = (fn, ph, [('null' if a == NULL else 'this' if a == ('p', self.sc, 0) else 'node'
                                   if a[0] == 'p' and self.isnode(eng, st, a[1]) else 'other') for a in args])
        self.queue.append(key)

    def isnode(self, eng, st, k):
        c = eng.class_of(st, k)
        return bool(c) and c <= frozenset(self.p.classes)

    def base_state(self, eng):
        p = self.p
        st = State()
        eng.keep_mem = ()
        self.sc = eng.new_obj(st, 'lazy', lazy='any', di='StreamConsumer')
        o = st.mem[self.sc]
        o.cls = frozenset(['_ZTI14StreamConsumer'])
        par = eng.new_obj(st, 'lazy', lazy='any', di='Params', cls=frozenset(['_ZTI6Params']))
        o.cells[self.paramsoff] = ('p', par, 0)
        self.params = par
        o.cells[self.warnoff] = ('Q', 'lazy', eng.new_id('q'), None)
        return st

    def starts(self, eng, key):
        fn, ph, shapes = self.ctx[key]
        p = self.p
        st = self.base_state(eng)
        if ph == 'root':
            st.mem[self.sc].cells[self.rootoff] = NULL
            st.mon = ('P', (('V',),), False, 0, ())
            eng.push(st, fn, [('p', self.sc, 0)])
            return [st]
        args = []
        for i, sh in enumerate(shapes):
            if sh == 'this':
                args.append(('p', self.sc, 0))
            elif i < len(fn.params) and sh in ('null', 'node'):
                args.append('par')
            else:
                raise AnalysisBroken('C02: argument %d of %s not recognised' % (i, fn.qual))
        out = []
        self.par = {}
        for par in (NULL, 'c'):
            s = st.copy()
            v = NULL
            if par == 'c':
                k = self.world.new(s, p.CONT)
                v = ('p', k, 0)
            fr = {'V': ('V',), 'O0': ('obj', 'O0', None, None, None, None), 'A0': ('arr', 'A0', None, None, None, None),
                  'E': ('V',)}[ph]
            s.mon = ('P', (fr,), ph == 'E', 0, ())
            s.trace = (None, 'inside %s (%s)' % (fn.qual, {'V': 'a value is expected', 'O0': "after '{'", 'A0': "after '['",
                                                         'E': 'input already malformed'}[ph]))
            eng.push(s, fn, [v if a == 'par' else a for a in args])
            out.append(s)
        return out

    def slot_hook(self, st, s, ck, et):
        k = ck[0]
        o = st.mem.get(k)
        if o is None or ck[1] != self.listoff:
            return
        cls = self.eng.class_of(st, k)
        if not cls or not cls <= self.p.CONT:
            return
        kids = frozenset()
        if cls & self.p.OBJECT:
            kids |= self.p.ENTRY
        if cls - self.p.OBJECT:
            kids |= self.p.VALUE
        c = self.world.new(st, kids, owner=('p', k, 0))
        st.mem[s].cells[0] = ('p', c, 0)

    def run(self):
        p = self.p
        eng = self.eng = Engine(p.mod, p.di, name='C02')
        eng.MAX_FIN = 0
        eng.MAX_UNROLL = 2
        self.world = NodeWorld(p, eng)
        eng.slot_hook = self.slot_hook
        mon = eng.mon = ParseMon(self)
        eng.cuts['StreamConsumer::consumeToken'] = mon.consume_token
        for nm in ('find', 'contains', 'erase'):
            eng.cuts['JSonObject::' + nm] = (lambda k: lambda e, s, i, f, a: mon.find(e, s, i, f, a, k))(nm)
        eng.models = dict(eng.models)
        root = p.mod.one('StreamConsumer::read')
        p.mod.one('StreamConsumer::consumeToken')
        key = (root.name, 'root')
        self.ctx[key] = (root, 'root', None)
        self.queue.append(key)
        while self.queue:
            key = self.queue.pop(0)
            self.current = key
            self.n['contexts'] += 1
            eng.violations = {}
            eng.current_key = key
            if self.n['contexts'] > 60:
                raise AnalysisBroken('C02: contexts do not stabilise')
            for st in self.starts(eng, key):
                self.parv = next((a for a in st.frames[0].regs.values() if a == NULL or a[0] == 'p' and a[1] != self.sc), None)
                for x in eng.run([st]):
                    self.finish(eng, key, x)
            self.viol[key] = eng.violations
        return eng

    def not_contract(self, key):
        """the function does not read one whole value by itself: analyse it inside its callers instead"""
        if key[1] == 'root' or key in self.forced:
            return False
        if key not in self.inline:
            self.inline.add(key)
            for d in self.deps.get(key, ()):
                if d not in self.queue:
                    self.queue.append(d)
        return True

    def outcome(self, key, what):
        o = self.outcomes.setdefault(key, {'throw'})
        if what not in o:
            o.add(what)
            for d in self.deps.get(key, ()):
                if d not in self.queue:
                    self.queue.append(d)

    def finish(self, eng, key, x):
        st, mon = x.state, eng.mon
        fn, ph, _ = self.ctx[key]
        if x.kind == 'throw':
            if p_derives(self.p, x.ti, '_ZTI13JsonException') is None:
                if x.ti in ('_ZTISt9bad_alloc',):
                    return
                eng.report(st, 'exception-type', '%s leaves the reader although it does not describe a parse error' % x.ti)
                return
            if not st.mon[2] and not self.dup_throw(eng, st, x):
                eng.report(st, 'rejects-valid', 'a well-formed input is rejected', key=('rv', fn.qual, str(self.site(x)), self.tail(st)))
            return
        if x.kind != 'ret':
            eng.report(st, 'exit', 'the reader ends the program (%s)' % x.kind)
            return
        try:
            mon.check_parents(eng, st)
        except Stop:
            return
        if ph == 'root':
            v = st.mem[self.sc].cells.get(self.rootoff)
        else:
            v = x.value
        v = eng.rebind(st, v)
        if st.mon[3] is True:
            return
        if st.mon[2]:
            if v == NULL:
                self.outcome(key, 'null')
            elif ph == 'E':
                self.outcome(key, 'node')
            else:
                self.n['x'] = 1
                eng.report(st, 'accepts-invalid', 'a token sequence that is not a JSON value is accepted',
                           key=('ai', fn.qual, self.tail(st)))
            return
        f = mon.top(st)
        if len(st.mon[1]) != 1 or f[0] != 'D':
            if self.not_contract(key):
                return
            eng.report(st, 'incomplete', 'the reader returns before the value is complete', key=('inc', fn.qual, f[:2], self.tail(st)))
            return
        if v[0] != 'p' or v[2] != 0 or not mon.matches(eng, st, f[1], v[1]):
            if self.not_contract(key):
                return
            eng.report(st, 'result', 'the returned element is not the one that was parsed', key=('res', fn.qual, self.tail(st)))
            return
        if ph == 'root':
            pv = st.mem[v[1]].cells.get(self.paroff)
            if pv is None and self.world.is_node(st, v[1]):
                pass
            elif pv is None or pv != NULL:
                eng.report(st, 'parent-link', 'the root element has a parent')
        else:
            pv = st.mem[v[1]].cells.get(self.paroff)
            pv = eng.rebind(st, pv) if pv is not None else None
            if pv != self.parv:
                self.outcome(key, 'nopar')
        q = st.mem[v[1]].cells.get(self.listoff)
        so = self.sort_choice(st)
        cls = eng.class_of(st, v[1])
        if cls and cls <= self.p.OBJECT and q is not None and q[1] == 'lazy' and not self.world.is_node(st, v[1]):
            if so is None or (cls <= self.SORTED) != so:
                eng.report(st, 'order-option', 'the kind of object built (sorted / input order) does not follow the option')
        self.n['objects'] = self.n.get('objects', 0) + 1

    def sort_choice(self, st):
        o = self.sortoff
        v = st.mem[self.params].cells.get(o)
        if v is None:
            return None
        vs = self.eng.values_of(st, v)
        return bool(min(vs)) if vs and len(vs) == 1 else None

    def strict(self, st):
        o = self.strictoff
        v = st.mem[self.params].cells.get(o)
        vs = self.eng.values_of(st, v) if v is not None else None
        return bool(min(vs)) if vs and len(vs) == 1 else None

    def dup_throw(self, eng, st, x):
        f = eng.mon.top(st)
        return f[0] == 'obj' and f[5] == 'found' and self.strict(st) is True

    def site(self, x):
        return x.ti

    def tail(self, st):
        t, out = st.trace, []
        while t is not None and len(out) < 2:
            out.append(t[1])
            t = t[0]
        return '|'.join(reversed(out))


class LookupMon:
    """find / contains / erase of an object: exactly the entry with the given key"""

    def __init__(self, c):
        self.c = c
        self.findcut = None

    def keyfact(self, eng, st, slot):
        """is the key of the entry in this slot known (un)equal to the wanted key?"""
        n = st.mem[slot].cells.get(0)
        if n is None:
            return None
        k = st.mem[n[1]].cells.get('id:key')
        if k is None:
            return None
        a, b = (k,), (self.c.want,)
        ka, kb = (a, b) if repr_key(a) <= repr_key(b) else (b, a)
        r = st.facts.get(('seq', ka, kb))
        if r is None:
            la, lb = st.facts.get(('len', k)), st.facts.get(('len', self.c.want))
            if la is not None and lb is not None:
                la, lb = eng.rebind(st, la), eng.rebind(st, lb)
                x = eng.split(st.copy(), eng.icmp_val(st, 'eq', la, lb, ('i', 64)))
                if [b for _, b in x] == [False]:
                    return False
        return r

    def step(self, st, pos, nv, inc):
        if self.keyfact(self.c.eng, st, pos) is not False or not inc:
            self.c.eng.report(st, 'lookup', 'an entry is passed over without having compared its key')

    def on_erase(self, eng, st, ins, fn, ck, pos):
        it = models.load_it(eng, st, pos)[0][1]
        st.mon = ('E', st.mon[1] + 1, it[2])

    def on_call(self, eng, st, ins, fn, q, args):
        if '::~' in q and args and args[0][0] == 'p' and self.c.world.is_node(st, args[0][1]):
            st.wobj(args[0][1]).freed = True
            return [(st, UNDEF)]
        return None


def lookup_check(c):
    """the bodies of the lookup functions against their contract"""
    p = c.p
    out, n = [], 0
    for nm in ('find', 'contains', 'erase'):
        for fn in p.mod.find('JSonObject::' + nm):
            fn.parse()
            eng = Engine(p.mod, p.di, name='C02')
            eng.MAX_UNROLL = 2
            c.eng = eng
            c.world = NodeWorld(p, eng)
            eng.slot_hook = c.slot_hook
            mon = eng.mon = LookupMon(c)
            eng.step_hook = mon.step
            st = State()
            obj = c.world.new(st, p.OBJECT)
            key = eng.new_obj(st, 'alloca')
            c.want = eng.atom('key')
            st.mem[key].cells[0] = ('S', (c.want,))
            st.mon = ('E', 0, None)
            args = [('p', obj, 0), ('p', key, 0)]
            ret = None
            if fn.sret:
                ret = eng.new_obj(st, 'alloca')
                args.insert(0, ('p', ret, 0))
            eng.push(st, fn, args)
            for x in eng.run([st]):
                n += 1
                s = x.state
                if x.kind != 'ret':
                    eng.report(s, 'lookup', '%s does not return' % fn.qual)
                    continue
                v = s.mem[ret].cells.get(0) if ret is not None else eng.rebind(s, x.value)
                found = [k for k, o in s.mem.items() if o.kind == 'elem' and mon.keyfact(eng, s, k) is True]
                if v[0] == 'it':
                    pos = v[2]
                    end = pos == 'end' or models.end_known(eng, s, pos) is True
                    if not end and mon.keyfact(eng, s, pos) is not True or end and found:
                        eng.report(s, 'lookup', '%s returns an entry whose key is not the wanted one, or misses the entry'
                                   % fn.qual)
                elif v[0] == 'c':
                    if bool(v[1]) != bool(found):
                        eng.report(s, 'lookup', '%s answers %s although the key is %spresent' % (
                            fn.qual, bool(v[1]), '' if found else 'not '))
                    if nm == 'erase':
                        if s.mon[1] != (1 if found else 0) or found and s.mon[2] != found[0]:
                            eng.report(s, 'lookup', 'erase does not remove exactly the entry with the key')
                elif v[0] == 'p' or v == NULL:
                    pass
                else:
                    raise AnalysisBroken('C02: result of %s not recognised: %r' % (fn.qual, v))
            out += eng.violations.values()
    return out, n


def p_derives(p, ti, base):
    return p.mod.derives(ti, base)


def check(tier):
    c = Check()
    eng = c.run()
    an = set(eng.analysed)
    viol = {}
    for k, vs in c.viol.items():
        if k not in c.inline:
            viol.update(vs)
    viol = list(viol.values())
    lv, c.n['lookup'] = lookup_check(c)
    viol += lv
    if c.n['lookup'] < 6:
        raise AnalysisBroken('lookup functions: only %d paths' % c.n['lookup'])
    if c.n['attach'] < 3 or c.n['tokens'] < 10:
        raise AnalysisBroken('parser analysis reached only %r' % c.n)
    return dict(violations=viol,
                coverage=dict(contexts=c.n['contexts'], token_sites_evaluated=c.n['tokens'], attach_events=c.n['attach'], lookup_paths=c.n['lookup'],
                              functions=sorted(eng.analysed), functions_analysed=len(eng.analysed),
                              paths=eng.stats['paths'], abstract_states=eng.stats['states'], steps=eng.stats['steps']),
                explanation='Path-sensitive abstract interpretation of the recursive-descent parser in the LLVM IR of the '
                            'current tree. The lexer is cut by contract: each call yields, nondeterministically, any token '
                            'kind, end of input, or a lexical error; a pushdown grammar monitor advances on every token and '
                            'checks acceptance, rejection, attachment, keys, parents and duplicate handling. Recursive calls '
                            'are replaced by the contract that is proved in their own contexts.',
                assumptions=['std::list/string/stringstream behave as modelled in jsa/models.py',
                             'the lexer satisfies its contract (property C03)'])
