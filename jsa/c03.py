"""C03: the lexer reads every token exactly, byte by byte.

The tokenizer is interpreted over a nondeterministic byte source; a byte-level monitor follows what is consumed (bytes handed
back with unget are given back to the monitor too) and keeps a ghost text: the value the token must have.  The ghost text is
widened together with the program's own buffers (equal contents stay equal), so the comparison at the end holds for tokens of
any length."""
from common import *
from nodes import NodeWorld
from stream import StreamWorld

WS = frozenset(x for x in range(256) if x <= 32 or x >= 127)
DIG = frozenset(b'0123456789')
PUNCT = frozenset(b'{}[]:,')
LETTERS = frozenset(b'aelrsuAELRSU')
HEX = frozenset(b'0123456789abcdefABCDEF')
AFTER = WS | frozenset(b',]}:')        # what may follow a literal in a document
WORDS = {'t': 'true', 'f': 'false', 'n': 'null'}
KEEP = frozenset(b'bfrnt')
SELF = frozenset(b'\\"/')


class LexMon:
    """st.mon = ('L', phase, uncommitted byte or None, warnings due); ghost text in the object self.c.gh"""

    def __init__(self, c):
        self.c = c

    # ---- ghost
    def ghost(self, eng, st):
        return models.get_s(eng, st, self.c.gh, 0)

    def put(self, eng, st, *segs):
        g = st.mem[self.c.gh].cells[0][1]
        st.wobj(self.c.gh).cells[0] = ('S', models.norm(eng, st, g + segs))

    def part(self, eng, st, v, *classes):
        """split the state over classes of the byte v: [(state, class index)], the last one is 'anything else'"""
        if v[0] == 'c':
            for i, cl in enumerate(classes):
                if v[1] in cl:
                    return [(st, i)]
            return [(st, len(classes))]
        d = st.dom[v[1]]
        out = []
        rest = d
        for i, cl in enumerate(classes):
            x = rest & frozenset(cl)
            rest = rest - x
            if x:
                s = st.copy()
                s.dom[v[1]] = x
                out.append((s, i))
        if rest:
            s = st.copy()
            s.dom[v[1]] = rest
            out.append((s, len(classes)))
        return out

    # ---- events
    def on_char(self, eng, st, v):
        out = []
        for s in self.commit(eng, st):
            s.mon = s.mon[:2] + (v,) + s.mon[3:]
            if s.mon[1][0] in ('str', 'esc', 'hex'):
                out += [(x, v) for x in self.commit(eng, s)]
            else:
                out.append((s, v))
        return out

    def pre_widen(self, eng, st):
        v = st.mon[2]
        if st.mon[1] in (('err', 'word'), ('over', 'word')):
            # texts that can no longer become one of the words are all alike
            words = frozenset(w.encode() for w in WORDS.values())
            for k in list(st.mem):
                for off, x in list(st.mem[k].cells.items()):
                    if isinstance(x, tuple) and x and x[0] in ('S', 'SS') and x[1] and x[1][0][0] in ('k', 'ch') and \
                            models.no_prefix(eng, st, x[1], words):
                        a = eng.atom('junk')
                        st.facts[('nopre', a[1])] = words
                        st.wobj(k).cells[off] = (x[0], (a,)) + x[2:]
                    elif isinstance(x, tuple) and x and x[0] in ('S', 'SS') and len(x[1]) > 1 and x[1][0][0] == 'a' and \
                            ('nopre', x[1][0][1]) in st.facts:
                        st.wobj(k).cells[off] = (x[0], x[1][:1]) + x[2:]
        if v is not None and st.mon[1][0] == 'num':
            v = eng.resolve(st, v)
            d = st.dom[v[1]] if v[0] == 'y' else frozenset([v[1]])
            if d <= DIG | (frozenset() if st.mon[1][2] else frozenset(b'.')):
                return self.commit(eng, st)
        return None

    def limit(self, st):
        return 8 if self.word(st) or st.mon[1][0] == 'start' else 0

    def word(self, st):
        p = st.mon[1]
        return p[0] == 'word' or p[0] in ('err', 'over') and p[1] == 'word'

    def on_unget(self, eng, st):
        if st.mon[2] is None:
            raise AnalysisBroken('C03: a byte is handed back inside a token')
        st.mon = st.mon[:2] + (None,) + st.mon[3:]

    def on_eof(self, eng, st):
        return self.commit(eng, st)

    def commit(self, eng, st):
        """the byte read last is really consumed"""
        v = st.mon[2]
        if v is None:
            return [st]
        st.mon = st.mon[:2] + (None,) + st.mon[3:]
        v = eng.resolve(st, v)
        return self.advance(eng, st, v)

    def ph(self, st, *p):
        st.mon = (st.mon[0], p) + st.mon[2:]
        return st

    def advance(self, eng, st, v):
        p = st.mon[1]
        k = p[0]
        out = []
        if k in ('err', 'over', 'end'):
            return [self.ph(st, 'over', k)] if k == 'end' else [st]
        if k == 'start':
            for s, i in self.part(eng, st, v, WS, b'"', b'tT', b'fF', b'nN', DIG, b'.', b'-', PUNCT):
                if i == 0:
                    out.append(s)
                elif i == 1:
                    out.append(self.ph(s, 'str'))
                elif i in (2, 3, 4):
                    w = 'tfn'[i - 2]
                    for s2, j in self.part(eng, s, v, w.encode()):
                        out.append(self.ph(s2, 'word', w, 1, j == 1))
                elif i in (5, 6, 7):
                    self.put(eng, s, ('ch', v))
                    out.append(self.ph(s, 'num', i == 5, i == 6))
                elif i == 8:
                    for s2, j in self.part(eng, s, v, *[bytes([x]) for x in sorted(PUNCT)]):
                        out.append(self.ph(s2, 'end', 'punct', sorted(PUNCT)[j]))
                else:
                    out.append(self.ph(s, 'err', 'stray'))
            return out
        if k == 'word':
            w = WORDS[p[1]]
            n = p[2]
            if n == len(w):
                return [self.ph(st, 'over', 'word')]
            lo, up = w[n].encode(), w[n].upper().encode()
            for s, i in self.part(eng, st, v, lo, up):
                out.append(self.ph(s, 'word', p[1], n + 1, p[3] or i == 1) if i < 2 else self.ph(s, 'err', 'word'))
            return out
        if k == 'num':
            for s, i in self.part(eng, st, v, DIG, b'' if p[2] else b'.'):
                if i == 2:
                    out.append(self.ph(s, 'over', 'number'))
                    continue
                self.put(eng, s, ('ch', v))
                out.append(self.ph(s, 'num', p[1] or i == 0, p[2] or i == 1))
            return out
        if k == 'str':
            for s, i in self.part(eng, st, v, b'"', b'\\'):
                if i == 0:
                    out.append(self.ph(s, 'end', 'str'))
                elif i == 1:
                    out.append(self.ph(s, 'esc'))
                else:
                    self.put(eng, s, ('ch', v))
                    out.append(s)
            return out
        if k == 'esc':
            for s, i in self.part(eng, st, v, SELF, KEEP, b'u'):
                if i == 0:
                    self.put(eng, s, ('ch', v))
                    out.append(self.ph(s, 'str'))
                elif i == 1:
                    self.put(eng, s, ('k', b'\\'), ('ch', v))
                    out.append(self.ph(s, 'str'))
                elif i == 2:
                    for s2, b in self.c.flag(eng, s, self.c.uniign):
                        if b:
                            self.put(eng, s2, ('k', b'\\u'))
                            out.append(self.ph(s2, 'str'))
                        else:
                            out.append(self.ph(s2, 'hex', ()))
                else:
                    for s2, b in self.c.flag(eng, s, self.c.strictoff):
                        if b:
                            out.append(self.ph(s2, 'err', 'escape'))
                        else:
                            self.put(eng, s2, ('k', b'\\'), ('ch', v))
                            s2.mon = s2.mon[:3] + (min(s2.mon[3] + 1, 2),)
                            out.append(self.ph(s2, 'str'))
            return out
        if k == 'hex':
            for s, i in self.part(eng, st, v, HEX):
                if i:
                    out.append(self.ph(s, 'err', 'hex'))
                    continue
                q = p[1] + (v,)
                if len(q) < 4:
                    out.append(self.ph(s, 'hex', q))
                else:
                    for s2, t in self.c.utf8(eng, s, q):
                        self.put(eng, s2, *t)
                        out.append(self.ph(s2, 'str'))
            return out
        raise AnalysisBroken('C03: phase %r' % (p,))

    # ---- calls that are not part of the lexical contract
    def on_call(self, eng, st, ins, fn, q, args):
        if not fn.is_repo():
            return None
        cl = q.rsplit('::', 1)[0] if '::' in q else ''
        if cl in self.c.ignored:
            self.c.used.add(q)
            if fn.sret:
                return [(st, UNDEF)]
            return [(st, eng.fresh(st, ins.ty) if ins.ty != VOID else UNDEF)]
        return None

    def on_push(self, eng, st, ins, fn, ck, src):
        if ck == (self.c.sc, self.c.warnoff):
            st.mon = st.mon[:3] + (max(st.mon[3] - 1, -3),)


class HexMon:
    def on_call(self, eng, st, ins, fn, q, args):
        if fn.is_repo() and 'Exception::' in q:
            if fn.sret:
                models.put_s(eng, st, args[0][1], args[0][2], (eng.atom('msg'),))
                return [(st, UNDEF)]
        return None


class Check:
    def __init__(self):
        self.p = p = prog()
        self.warnoff = p.di.off('StreamConsumer', 'warnings')
        self.paramsoff = p.di.off('StreamConsumer', 'params')
        self.streamoff = p.di.off('StreamConsumer', 'stream')
        self.strictoff = getter_off(p, 'Params::isStrict')
        self.uniign = getter_off(p, 'Params::isIgnoringUnicode')
        self.paroff = p.di.off('JSonElement', 'parent')
        self.ignored = {'LinearHistory', 'WrappedBuffer', 'Warning'}
        for g in p.mod.globals:
            if g.startswith('_ZTI') and p.mod.derives(g, '_ZTISt9exception') is not None and p.mod.vtable_slots(g) \
                    and not g.startswith('_ZTISt'):
                self.ignored.add(demangle_ti(g))
        self.used = set()
        self.analysed = set()
        self.n = dict(results=0, throws=0)
        self.kinds = {}

    def flag(self, eng, st, off):
        """[(state, value)] of a boolean option"""
        v = st.mem[self.params].cells.get(off)
        if v is None:
            v = eng.sym(st, 8, (0, 1), 'opt')
            st.wobj(self.params).cells[off] = v
        return eng.split(st, eng.mk('icmp ne', 1, v, C(0, 8)))

    # ---- \uXXXX
    def utf8(self, eng, st, q):
        """[(state, segments)]: the text that the four hexadecimal digits stand for"""
        sur = st.facts.get(('surrogate', q))
        if sur is None:
            s2 = st.copy()
            st.facts[('surrogate', q)] = False
            s2.facts[('surrogate', q)] = True
            return self.utf8(eng, st, q) + self.utf8(eng, s2, q)
        if sur:
            return [(st, (('k', b'\\u'),) + tuple(('ch', x) for x in q))]
        return [(st, (('u8', q),))]

    def append_unicode(self, eng, st, ins, fn, args):
        """contract of the \\u decoder (its body is analysed in `decoder`)"""
        p = args[0]
        cur = [(st, ())]
        for i in range(4):
            nxt = []
            for s, q in cur:
                for s2, v in eng.load(s, eng.padd(s, p, i), ('i', 8)):
                    nxt.append((s2, q + (eng.rebind(s2, v) if v[0] in ('o', 'e') else v,)))
            cur = nxt
        out = []
        mon = eng.mon
        for s, q in cur:
            todo = [(s, 0)]
            while todo:
                x, i = todo.pop()
                if i == 4:
                    for y, t in self.utf8(eng, x, q):
                        out += [(z, UNDEF) for z, _ in models.emit(eng, y, args[1], t)]
                    continue
                if q[i][0] not in ('y', 'c'):
                    eng.report(x, 'unicode', 'the \\u decoder is given bytes that were not read from the input', key='ub')
                    raise Stop()
                for y, j in mon.part(eng, x, q[i], HEX):
                    if j:
                        out.append((y, Throw('_ZTISt16invalid_argument', 'hex')))
                    else:
                        todo.append((y, i + 1))
        return out

    def conv(self, kind, throws):
        def f(eng, st, ins, fn, args):
            ps = models.params(fn)
            out = []
            strs = models.str_like(eng, st, ps[0], args[0]) if ps and models.STR.match(ps[0]) else models.cstr(eng, st, args[0])
            for s, g in strs:
                g = tuple(models.norm(eng, s, g))
                w = {'int': 32, 'long': 64}.get(kind)
                v = ('o', eng.new_id(kind), w) if w else ('fo', eng.new_id(kind))
                key = ('conv', kind, g)
                if key in s.facts:
                    out.append((s, s.facts[key]))
                    continue
                exact = g == tuple(self.mon.ghost(eng, s))
                ph = s.mon[1]
                if throws:
                    if not (exact and ph[0] == 'num' and ph[1]):
                        s2 = s.copy()
                        s2.facts[('cfail', kind, g)] = 'nodigit'
                        out.append((s2, Throw('_ZTISt16invalid_argument', kind)))
                    s3 = s.copy()
                    s3.facts[('cfail', kind, g)] = 'range'
                    s3.trace = (s3.trace, 'the number does not fit')
                    out.append((s3, Throw('_ZTISt12out_of_range', kind)))
                s.facts[key] = v
                out.append((s, v))
            return out
        return f

    # ---- body of the \\u decoder
    def digit(self):
        """one hexadecimal digit, all 256 bytes"""
        p = self.p
        fns = [f for f in p.mod.find('hexbyte') if len(models.params(f)) == 1 and models.params(f)[0] == 'char']
        if not fns:
            return [], False
        eng = Engine(p.mod, p.di, name='C03')
        eng.mon = HexMon()
        st = State()
        y = eng.sym(st, 8, range(256), 'c')
        h = eng.new_obj(st, 'heap')
        st.mem[h].cells[0] = y
        eng.keep_mem = (h,)
        eng.push(st, fns[0], [y])
        got = set()
        for x in eng.run([st]):
            yv = eng.resolve(x.state, x.state.mem[h].cells[0])
            d = x.state.dom[yv[1]] if yv[0] == 'y' else frozenset([yv[1]])
            got |= d
            if x.kind == 'ret':
                rv = eng.rebind(x.state, x.value)
                for b in d:
                    r = rv[1] if rv[0] == 'c' else eng.subst_eval(rv, {yv[1]: b})
                    if b not in HEX or r is None or r & 255 != int(chr(b), 16):
                        eng.report(x.state, 'hex-digit', 'byte %r is taken as the hexadecimal digit %s' % (chr(b), r), key='hd')
            elif x.kind == 'throw' and x.ti == '_ZTISt16invalid_argument':
                if d & HEX:
                    eng.report(x.state, 'hex-digit', 'the hexadecimal digits %s are rejected' % bytes(sorted(d & HEX)), key='hr')
            else:
                eng.report(x.state, 'hex-digit', 'a byte that is no hexadecimal digit is not rejected as an invalid argument', key='hx')
        if got != set(range(256)):
            raise AnalysisBroken('C03: hexadecimal digits: %d bytes analysed' % len(got))
        self.analysed |= eng.analysed
        return list(eng.violations.values()), True

    def decoder(self):
        p = self.p
        out, cut = self.digit()
        fn = p.mod.one('StreamConsumer::appendUnicode')
        eng = Engine(p.mod, p.di, name='C03')
        eng.mon = HexMon()
        eng.str_limit = lambda st: 64
        eng.MAX_UNROLL = 12
        if cut:
            def hb(e, st, ins, f, a):
                if len(models.params(f)) != 1:
                    return None
                v = e.rebind(st, a[0]) if a[0][0] in ('e', 'o') else a[0]
                return [(st, e.mk('hexv', 8, v))]
            eng.cuts['hexbyte'] = hb
        eng.models['std::wstring_convert::wstring_convert'] = models.nop
        eng.models['std::wstring_convert::~wstring_convert'] = models.nop

        def to_bytes(e, st, ins, f, a):
            if 'codecvt_utf8<' not in f.dname or len(models.params(f)) != 1:
                raise AnalysisBroken('C03: unexpected conversion ' + f.dname)
            d = e.deref(st, a[0])[0][1]
            if models.params(f)[0] not in ('char32_t', 'wchar_t', 'char16_t'):
                raise AnalysisBroken('C03: unexpected conversion ' + f.dname)
            models.put_s(e, st, d[1], d[2], (('u8v', a[2]),))
            return [(st, UNDEF)]
        eng.models['std::wstring_convert::to_bytes'] = to_bytes
        n = 0
        hexs = b'0123456789abcdef'
        for hi in range(256):
            st = State()
            src = eng.new_obj(st, 'alloca', size=4)
            y = [eng.sym(st, 8, HEX, 'd') for _ in range(2)]
            w = st.mem[src].cells
            w[0], w[1], w[2], w[3] = C(hexs[hi >> 4], 8), C(hexs[hi & 15], 8), y[0], y[1]
            ss = eng.new_obj(st, 'alloca')
            st.mem[ss].cells.update({0: ('vt', ss), 16: ('vt', ss), 8: ('SS', ())})
            eng.keep_mem = (ss,)
            eng.push(st, fn, [('p', src, 0), ('p', ss, 0)])
            seen = set()
            for x in eng.run([st]):
                s = x.state
                if x.kind != 'ret':
                    eng.report(s, 'unicode', '\\u%02x.. makes the decoder fail (%s)' % (hi, x.ti or x.kind), key=('uf', x.ti))
                    continue
                g = models.norm(eng, s, s.mem[ss].cells[8][1])
                for a in s.dom[y[0][1]]:
                    for b in s.dom[y[1][1]]:
                        seen.add((a, b))
                        n += 1
                        v = hi * 256 + int(chr(a), 16) * 16 + int(chr(b), 16)
                        if 0xd800 <= v <= 0xdfff:
                            want = b'\\u' + bytes([hexs[hi >> 4], hexs[hi & 15], a, b])
                        else:
                            want = chr(v).encode()
                        env = {y[0][1]: a, y[1][1]: b}
                        got = self.eval_segs(eng, g, env)
                        if got != want:
                            eng.report(s, 'unicode', '\\u%04x is decoded as %r instead of %r' % (v, got, want), key='uv')
                            break
            if len(seen) != len(HEX) ** 2 and not eng.violations:
                raise AnalysisBroken('C03: the \\u decoder was analysed for %d of %d digit pairs' % (len(seen), len(HEX) ** 2))
        self.n['unicode'] = n
        self.analysed |= eng.analysed
        return out + list(eng.violations.values())

    def eval_segs(self, eng, g, env):
        r = b''
        for x in g:
            if x[0] == 'k':
                r += x[1]
            elif x[0] == 'ch':
                v = eng.subst_eval(x[1], env)
                if v is None:
                    return None
                r += bytes([v & 255])
            elif x[0] == 'u8v':
                v = eng.subst_eval(x[1], env) if x[1][0] != 'c' else x[1][1]
                if v is None or 0xd800 <= v <= 0xdfff:
                    return None
                r += chr(v).encode()
            else:
                return None
        return r

    # ---- main run
    def run(self):
        p = self.p
        eng = self.eng = Engine(p.mod, p.di, name='C03')
        eng.MAX_UNROLL = 2
        mon = self.mon = eng.mon = LexMon(self)
        eng.str_limit = mon.limit
        eng.unroll = lambda st: 8 if mon.word(st) or st.mon[1][0] in ('esc', 'hex') else 2
        self.world = NodeWorld(p, eng)
        sw = StreamWorld(eng, mon)
        for n, k, t in (('std::stoi', 'int', 1), ('std::stol', 'long', 1), ('std::stoll', 'long', 1), ('std::stod', 'double', 1),
                        ('atof', 'double', 0), ('strtod', 'double', 0), ('atoi', 'int', 0), ('atol', 'long', 0), ('atoll', 'long', 0)):
            eng.cuts[n] = eng.models[n] = self.conv(k, t)
        eng.cuts['StreamConsumer::appendUnicode'] = self.append_unicode
        tok = p.mod.one('StreamConsumer::consumeToken')
        st = State()
        self.sc = eng.new_obj(st, 'lazy', lazy='any', di='StreamConsumer')
        o = st.mem[self.sc]
        o.cls = frozenset(['_ZTI14StreamConsumer'])
        self.params = eng.new_obj(st, 'lazy', lazy='any', di='Params', cls=frozenset(['_ZTI6Params']))
        o.cells[self.paramsoff] = ('p', self.params, 0)
        o.cells[self.warnoff] = ('Q', 'lazy', eng.new_id('q'), None)
        self.stm = sw.new(st)
        o.cells[self.streamoff] = ('p', self.stm, 0)
        self.gh = eng.new_obj(st, 'heap')
        st.mem[self.gh].cells[0] = ('S', ())
        par = self.world.new(st, p.CONT)
        self.par = ('p', par, 0)
        buf = eng.new_obj(st, 'alloca')
        w = st.mem[buf]
        w.cells.update({0: ('vt', buf), 16: ('vt', buf), 8: ('SS', (eng.atom('old'),))})
        self.buf = buf
        # the second entry: a byte was handed back by the previous token
        st.mon = ('L', ('start',), None, 0)
        eng.keep_mem = (self.gh, self.stm, self.params, self.sc, buf)
        starts = [st]
        s2 = st.copy()
        v = eng.sym(s2, 8, range(256), 'c')
        s2.wobj(self.stm).cells['pend'] = (v,)
        starts.append(s2)
        for s in starts:
            eng.push(s, tok, self.args(tok))
        for x in eng.run(starts):
            self.finish(eng, x)
        return eng

    def args(self, tok):
        if len(tok.params) != 3:
            raise AnalysisBroken('C03: signature of the tokenizer changed')
        return [('p', self.sc, 0), self.par, ('p', self.buf, 0)]

    def finish(self, eng, x):
        for s in self.mon.commit(eng, x.state):
            self.final(eng, s, x)

    def next_byte(self, st):
        """what follows: frozenset of bytes, 'eof' or None (unknown)"""
        c = st.mem[self.stm].cells
        if c['pend']:
            v = c['pend'][0]
            return st.dom[v[1]] if v[0] == 'y' else frozenset([v[1]])
        if c['good'] != TRUE:
            return 'eof'
        return None

    def rep(self, eng, st, rule, msg):
        p = st.mon[1]
        eng.report(st, rule, msg, key=(rule, p[0], str(p[1:2]) if len(p) > 1 else '', (eng.where(st) or ['?'])[0]))

    def final(self, eng, st, x):
        p = st.mon[1]
        k = p[0]
        eof = st.mem[self.stm].cells['good'] != TRUE and not st.mem[self.stm].cells['pend']
        g = tuple(models.norm(eng, st, self.mon.ghost(eng, st)))
        if x.kind == 'throw':
            self.n['throws'] += 1
            if x.ti == '_ZTISt9bad_alloc':
                return
            if self.p.mod.derives(x.ti, '_ZTI13JsonException') is None:
                self.rep(eng, st, 'exception-type', '%s leaves the tokenizer: a malformed input is not reported as a parse error' % x.ti)
                return
            if k in ('err', 'over'):
                return
            if k == 'num' and (not p[1] or any(a[0] == 'cfail' and a[2] == g and b == 'range' for a, b in st.facts.items()
                                                if isinstance(a, tuple))):
                return
            if k == 'word':
                if p[3] and self.strict(st) is True:
                    return
                nb = self.next_byte(st)
                if p[2] == len(WORDS[p[1]]) and nb not in (None, 'eof') and not nb & AFTER:
                    return
                if p[2] < len(WORDS[p[1]]) and (eof or nb is not None and not nb & frozenset(
                        (WORDS[p[1]][p[2]] + WORDS[p[1]][p[2]].upper()).encode())):
                    return
                if p[2] == len(WORDS[p[1]]) and p[3] is False and eof:
                    pass
            if eof and k in ('str', 'esc', 'hex'):
                return
            self.rep(eng, st, 'rejects-valid', 'a well-formed token is rejected (%s)' % self.phname(p))
            return
        if x.kind != 'ret':
            self.rep(eng, st, 'exit', 'the tokenizer ends the program (%s)' % x.kind)
            return
        self.n['results'] += 1
        if st.mon[3] != 0 and not (eof and x.value == NULL):
            self.rep(eng, st, 'warnings', 'an irregular escape is accepted without a warning' if st.mon[3] > 0 and k != 'word' else
                     'a warning is recorded although the token is regular') if not (
                         k == 'word' and st.mon[3] == -1 and p[3]) else None
        v = eng.rebind(st, x.value)
        buf = st.mem[self.buf].cells.get(8)
        txt = tuple(models.norm(eng, st, buf[1]))
        if v == NULL:
            if k == 'end' and p[1] == 'punct':
                if txt != (('k', bytes([p[2]])),):
                    self.rep(eng, st, 'punctuation', 'the token %r is not passed on as it was read' % chr(p[2]))
                return
            if eof and k in ('start', 'str', 'esc', 'hex') or eof and k == 'word' and p[2] < len(WORDS[p[1]]) or \
                    eof and k == 'num' and False:
                if txt != ():
                    if len(txt) == 1 and txt[0][0] == 'k' and txt[0][1].decode('latin1') in '{}[]:,' or txt[0][0] == 'a':
                        self.rep(eng, st, 'eof-token', 'at the end of the input a token is passed on that was not read')
                return
            if eof and k == 'err' and p[1] == 'word':
                return
            if k == 'err' and p[1] in ('hex',) and eof:
                return
            self.rep(eng, st, 'token-lost', 'no token is returned after %s' % self.phname(p))
            return
        if v[0] != 'p' or v[2] != 0:
            self.rep(eng, st, 'result', 'the result is not an element')
            return
        cls = eng.class_of(st, v[1])
        nm = demangle_ti(sorted(cls)[0]) if cls and len(cls) == 1 else '?'
        o = st.mem[v[1]]
        if o.freed:
            self.rep(eng, st, 'result', 'the returned element is destroyed')
            return
        pv = o.cells.get(self.paroff)
        if pv is None or eng.rebind(st, pv) != self.par:
            self.rep(eng, st, 'parent-link', 'the parent of the element is not the given container')
            return
        mem = self.p.di.members(self.p.didesc(sorted(cls)[0])) if cls and cls <= self.p.PRIM else None
        if mem is None:
            self.rep(eng, st, 'result', 'the result is not a primitive')
            return
        val = o.cells.get(mem['value'][0])
        self.kinds[nm] = self.kinds.get(nm, 0) + 1
        if k == 'end' and p[1] == 'str':
            if not cls <= self.p.STRING:
                self.rep(eng, st, 'kind', 'a string literal is read as a %s' % nm)
                return
            t = tuple(models.norm(eng, st, models.get_s(eng, st, v[1], mem['value'][0])))
            if t != g:
                self.rep(eng, st, 'string-value', 'the value of a string is not the text of the literal: %s instead of %s' % (
                    self.show(t), self.show(g)))
            return
        if k == 'word':
            w = WORDS[p[1]]
            if p[2] != len(w):
                self.rep(eng, st, 'literal', 'an incomplete %r is accepted' % w)
                return
            if p[1] == 'n' and not nm.endswith('<Null>') or p[1] != 'n' and not nm.endswith('<bool>'):
                self.rep(eng, st, 'kind', '%s is read as a %s' % (w, nm))
                return
            if p[1] != 'n':
                vs = eng.values_of(st, val) if val is not None else None
                if vs != {1 if p[1] == 't' else 0}:
                    self.rep(eng, st, 'literal', '%s is read as another value' % w)
                    return
            nb = self.next_byte(st)
            if p[3]:
                if self.strict(st) is not False:
                    self.rep(eng, st, 'strict-literal', 'a literal in upper case is accepted in strict mode')
                    return
                if st.mon[3] != -1:
                    self.rep(eng, st, 'warnings', 'a literal in upper case is accepted without one warning')
            return
        if k == 'num':
            nb = self.next_byte(st)
            cont = DIG | (frozenset() if p[2] else frozenset(b'.'))
            if nb is None or nb != 'eof' and nb & cont:
                self.rep(eng, st, 'number-cut', 'a number ends although more of its digits follow')
                return
            if not p[1]:
                self.rep(eng, st, 'number', 'a number without digits is accepted')
                return
            want = {'double': 'double', 'int': 'int', 'long long': 'long', 'long': 'long'}
            t = nm[nm.index('<') + 1:-1] if '<' in nm else nm
            if t not in want or (t == 'double') != p[2]:
                self.rep(eng, st, 'kind', 'a number %s fraction is read as a %s' % ('with' if p[2] else 'without', nm))
                return
            f = st.facts.get(('conv', want[t], g))
            vv = val
            ok = f is not None and vv is not None and (eng.rebind(st, vv) if vv[0] in ('o', 'e', 'y') else vv) == \
                (eng.rebind(st, f) if f[0] in ('o', 'e') else f)
            if not ok:
                self.rep(eng, st, 'number-value', 'the value of a number is not the value of all its characters (%s)' % nm)
            return
        self.rep(eng, st, 'accepts-invalid', 'a %s is returned after %s' % (nm, self.phname(p)))

    def strict(self, st):
        v = st.mem[self.params].cells.get(self.strictoff)
        vs = self.eng.values_of(st, v) if v is not None else None
        return bool(min(vs)) if vs and len(vs) == 1 else None

    def phname(self, p):
        return {'start': 'blanks', 'str': 'an unfinished string', 'esc': 'an unfinished escape', 'hex': 'an unfinished \\u escape',
                'err': 'a malformed token (%s)' % (p[1] if len(p) > 1 else ''), 'over': 'consuming a byte beyond the token',
                'end': 'a complete token', 'num': 'a number', 'word': 'the letters of %s' % WORDS.get(p[1] if len(p) > 1 else '', '')
                }.get(p[0], str(p))

    def show(self, t):
        return ' '.join(repr(x[1])[:20] if x[0] == 'k' else '<%s>' % x[0] for x in t)[:120] or '(empty)'


def check(tier):
    c = Check()
    eng = c.run()
    viol = list(eng.violations.values()) + c.decoder()
    fns = sorted(eng.analysed | c.analysed)
    if not viol and (c.n['results'] < 10 or len(c.kinds) < 5):
        raise AnalysisBroken('lexer analysis reached only %r %r' % (c.n, c.kinds))
    return dict(violations=viol,
                coverage=dict(results=c.n['results'], throws=c.n['throws'], kinds=c.kinds, unicode_values=c.n['unicode'], functions=fns,
                              functions_analysed=len(fns), paths=eng.stats['paths'], abstract_states=eng.stats['states'],
                              steps=eng.stats['steps']),
                explanation='Abstract interpretation of the tokenizer over a nondeterministic byte source; a byte-level monitor of '
                            'the token grammar follows consumption (including bytes handed back) and a ghost text is widened '
                            'together with the buffers of the program, so that values are compared for tokens of any length. '
                            'The hexadecimal digit and code unit decoders are evaluated over their whole finite domains.',
                assumptions=['std::istream, stringstream, string, stoi/stol/atof and wstring_convert behave as modelled'])
