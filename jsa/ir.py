"""Parser for textual LLVM IR (LLVM 18, opaque pointers), lazily per function."""
import re, subprocess, os
from build import tool, AnalysisBroken, REPO

# ----------------------------------------------------------------------------------------
# types: represented as tuples
#   ('i',N) ('ptr',) ('void',) ('f','double') ('arr',n,T) ('st',name) ('lit',(T..),packed)
#   ('fn',ret,(args),vararg) ('metadata',) ('label',) ('token',)
PTR = ('ptr',)
VOID = ('void',)


class Lex:
    __slots__ = ('s', 'p', 'n')

    def __init__(self, s):
        self.s, self.p, self.n = s, 0, len(s)

    def ws(self):
        s, p, n = self.s, self.p, self.n
        while p < n and s[p] in ' \t':
            p += 1
        self.p = p

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.p)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.p):
            self.p += len(t)
            return True
        return False

    def expect(self, t):
        if not self.eat(t):
            raise AnalysisBroken('IR parse: expected %r at %r' % (t, self.s[self.p:self.p + 80]))

    def rx(self, r):
        self.ws()
        m = r.match(self.s, self.p)
        if m:
            self.p = m.end()
        return m

    def end(self):
        self.ws()
        return self.p >= self.n


R_INT = re.compile(r'i(\d+)\b')
R_WORD = re.compile(r'[A-Za-z_][\w.]*')
R_NUM = re.compile(r'-?\d+')
R_LOCAL = re.compile(r'%(?:"((?:[^"])*)"|([-\w.$]+))')
R_GLOBAL = re.compile(r'@(?:"((?:[^"])*)"|([-\w.$]+))')
R_FLOAT = re.compile(r'(0x[KMLHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[-+]?\d+)?)')
R_META = re.compile(r'!(\d+|\{|"|[A-Za-z])')


def parse_type(L):
    L.ws()
    s, p = L.s, L.p
    c = s[p]
    if c == 'i' and (m := R_INT.match(s, p)):
        L.p = m.end()
        t = ('i', int(m.group(1)))
    elif s.startswith('ptr', p):
        L.p = p + 3
        t = PTR
    elif c == 'v' and s.startswith('void', p):
        L.p = p + 4
        t = VOID
    elif c == '%':
        m = R_LOCAL.match(s, p)
        L.p = m.end()
        t = ('st', m.group(1) if m.group(1) is not None else m.group(2))
    elif c == '[':
        L.p = p + 1
        n = int(L.rx(R_NUM).group())
        L.expect('x')
        e = parse_type(L)
        L.expect(']')
        t = ('arr', n, e)
    elif c == '{':
        L.p = p + 1
        el = []
        if not L.eat('}'):
            while True:
                el.append(parse_type(L))
                if L.eat('}'):
                    break
                L.expect(',')
        t = ('lit', tuple(el), False)
    elif c == '<':
        L.p = p + 1
        if L.eat('{'):
            el = []
            if not L.eat('}'):
                while True:
                    el.append(parse_type(L))
                    if L.eat('}'):
                        break
                    L.expect(',')
            L.expect('>')
            t = ('lit', tuple(el), True)
        else:
            n = int(L.rx(R_NUM).group())
            L.expect('x')
            e = parse_type(L)
            L.expect('>')
            t = ('vec', n, e)
    else:
        m = L.rx(R_WORD)
        if not m:
            raise AnalysisBroken('IR type? ' + s[p:p + 60])
        w = m.group()
        if w in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
            t = ('f', w)
        elif w in ('metadata', 'label', 'token', 'opaque'):
            t = (w,)
        else:
            raise AnalysisBroken('IR type word? ' + w)
    while True:
        L.ws()
        if L.p < L.n and L.s[L.p] == '(':       # function type
            L.p += 1
            args, va = [], False
            if not L.eat(')'):
                while True:
                    if L.eat('...'):
                        va = True
                    else:
                        args.append(parse_type(L))
                    if L.eat(')'):
                        break
                    L.expect(',')
            t = ('fn', t, tuple(args), va)
        else:
            return t


# ---- values: ('c',int,width) ('l',name) ('g',name) ('null',) ('undef',) ('zero',)
#      ('ce',op,...) constant expr  ('agg',[..]) ('str',bytes) ('f',text) ('md',)
ATTR_WORDS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly',
              'readnone', 'writeonly', 'returned', 'nofree', 'immarg', 'writable', 'dead_on_unwind',
              'swiftself', 'allocptr', 'noinline', 'noext', 'nest', 'allocalign'}
ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'memory',
              'elementtype', 'range', 'captures', 'nofpclass', 'initializes', 'byref', 'inalloca'}


def skip_attrs(L, out=None):
    while True:
        L.ws()
        m = R_WORD.match(L.s, L.p)
        if not m:
            return
        w = m.group()
        if w in ATTR_WORDS:
            L.p = m.end()
            if out is not None:
                out.append(w)
        elif w == 'align':
            L.p = m.end()
            if not L.eat('('):
                L.rx(R_NUM)
            else:
                L.rx(R_NUM)
                L.expect(')')
        elif w in ATTR_PAREN:
            L.p = m.end()
            L.expect('(')
            d = 1
            st = L.p
            while d:
                ch = L.s[L.p]
                if ch == '"':
                    L.p = L.s.index('"', L.p + 1)
                elif ch == '(':
                    d += 1
                elif ch == ')':
                    d -= 1
                L.p += 1
            if out is not None:
                out.append((w, L.s[st:L.p - 1]))
        else:
            return


CAST_OPS = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp',
            'uitofp', 'fptrunc', 'fpext', 'addrspacecast'}
BIN_OPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or',
           'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'volatile', 'atomic', 'disjoint', 'nneg', 'tail', 'musttail', 'notail', 'samesign'}


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1:i + 2] == '\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('utf-8', 'surrogateescape')
            i += 1
    return bytes(out)


def parse_value(L, t):
    L.ws()
    s, p = L.s, L.p
    c = s[p]
    if c == '%':
        m = R_LOCAL.match(s, p)
        L.p = m.end()
        return ('l', m.group(1) if m.group(1) is not None else m.group(2))
    if c == '@':
        m = R_GLOBAL.match(s, p)
        L.p = m.end()
        return ('g', m.group(1) if m.group(1) is not None else m.group(2))
    if c == 'c' and s.startswith('c"', p):
        e = s.index('"', p + 2)
        L.p = e + 1
        return ('str', unescape(s[p + 2:e]))
    if c == '!':
        # metadata operand: skip balanced
        L.p = p
        skip_meta(L)
        return ('md', s[p:L.p])
    if t[0] == 'f':
        m = L.rx(R_FLOAT)
        if m:
            return ('f', m.group())
    m = R_NUM.match(s, p)
    if m:
        L.p = m.end()
        return ('c', int(m.group()), t[1] if t[0] == 'i' else 64)
    if c in '{[<':
        packed = s.startswith('<{', p)
        L.p = p + (2 if packed else 1)
        close = {'{': '}', '[': ']', '<': '>'}[c] if not packed else '}>'
        el = []
        if not L.eat(close):
            while True:
                et = parse_type(L)
                el.append((et, parse_value(L, et)))
                if L.eat(close):
                    break
                L.expect(',')
        return ('agg', el)
    m = R_WORD.match(s, p)
    w = m.group() if m else None
    if w in ('true', 'false'):
        L.p = m.end()
        return ('c', 1 if w == 'true' else 0, 1)
    if w == 'null':
        L.p = m.end()
        return ('null',)
    if w in ('undef', 'poison'):
        L.p = m.end()
        return ('undef',)
    if w == 'zeroinitializer':
        L.p = m.end()
        return ('zero',)
    if w == 'none':
        L.p = m.end()
        return ('zero',)
    if w == 'getelementptr':
        L.p = m.end()
        while True:
            L.ws()
            mm = R_WORD.match(L.s, L.p)
            if mm and mm.group() in ('inbounds', 'nuw', 'nusw'):
                L.p = mm.end()
            elif mm and mm.group() == 'inrange':
                L.p = L.s.index(')', L.p) + 1
            else:
                break
        L.expect('(')
        bt = parse_type(L)
        ops = []
        while L.eat(','):
            L.eat('inrange')
            tt = parse_type(L)
            ops.append((tt, parse_value(L, tt)))
        L.expect(')')
        return ('ce', 'gep', bt, ops)
    if w in CAST_OPS:
        L.p = m.end()
        L.expect('(')
        tt = parse_type(L)
        v = parse_value(L, tt)
        L.expect('to')
        to = parse_type(L)
        L.expect(')')
        return ('ce', w, tt, v, to)
    if w in BIN_OPS or w in ('icmp', 'select'):
        L.p = m.end()
        while True:
            L.ws()
            mm = R_WORD.match(L.s, L.p)
            if mm and (mm.group() in FLAGS or w == 'icmp'):
                L.p = mm.end()
            else:
                break
        L.expect('(')
        ops = []
        while True:
            tt = parse_type(L)
            ops.append((tt, parse_value(L, tt)))
            if L.eat(')'):
                break
            L.expect(',')
        return ('ce', w, ops)
    if w in ('dso_local_equivalent', 'no_cfi'):
        L.p = m.end()
        return parse_value(L, t)
    raise AnalysisBroken('IR value? ' + s[p:p + 80])


def skip_meta(L):
    s = L.s
    p = L.p
    assert s[p] == '!'
    p += 1
    if s[p] == '{':
        d = 0
        while True:
            if s[p] == '{':
                d += 1
            elif s[p] == '}':
                d -= 1
                if d == 0:
                    break
            p += 1
        L.p = p + 1
        return
    if s[p] == '"':
        L.p = s.index('"', p + 1) + 1
        return
    m = re.compile(r'[\w.]+').match(s, p)
    p = m.end()
    if p < len(s) and s[p] == '(':
        d = 0
        while True:
            if s[p] == '"':
                p = s.index('"', p + 1)
            elif s[p] == '(':
                d += 1
            elif s[p] == ')':
                d -= 1
                if d == 0:
                    break
            p += 1
        p += 1
    L.p = p


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'fn', 'bb', 'idx', 'text')

    def __init__(self, op, res, ty, a, dbg):
        self.op, self.res, self.ty, self.a, self.dbg = op, res, ty, a, dbg

    def __repr__(self):
        return '<%s %s %s>' % (self.res, self.op, self.a)


class Block:
    __slots__ = ('name', 'insts', 'phis', 'succs', 'preds')

    def __init__(self, name):
        self.name, self.insts, self.phis, self.succs, self.preds = name, [], [], [], []


class Func:
    def __init__(self, mod, name, header, lines, declared):
        self.mod, self.name, self.header, self.lines, self.declared = mod, name, header, lines, declared
        self._parsed = False
        self.dname = None
        m = re.search(r'!dbg !(\d+)', header)
        self.dbg = int(m.group(1)) if m else None
        self._parse_header()

    def _parse_header(self):
        h = self.header
        at = re.search(r'@(?:"[^"]*"|[-\w.$]+)\(', h)
        L = Lex(h)
        # return type sits right before the name; parse it backwards by scanning prefixes
        pre = h[:at.start()].strip()
        self.retattrs = pre
        self.ret = None
        for i in range(len(pre) + 1):
            if i and pre[i - 1] not in ' ':
                continue
            try:
                LL = Lex(pre[i:])
                t = parse_type(LL)
                if LL.end():
                    self.ret = t
                    break
            except (AnalysisBroken, IndexError, AttributeError, ValueError):
                pass
        L.p = at.end()
        self.params, self.vararg, self.pattrs = [], False, []
        if not L.eat(')'):
            n = 0
            while True:
                if L.eat('...'):
                    self.vararg = True
                else:
                    t = parse_type(L)
                    at_ = []
                    skip_attrs(L, at_)
                    m = L.rx(R_LOCAL)
                    nm = (m.group(1) if m.group(1) is not None else m.group(2)) if m else str(n)
                    self.params.append((nm, t))
                    self.pattrs.append(at_)
                    n += 1
                if L.eat(')'):
                    break
                L.expect(',')
        self.tail = h[L.p:]

    @property
    def sret(self):
        return bool(self.pattrs) and any(isinstance(a, tuple) and a[0] == 'sret' for x in self.pattrs
                                         for a in x)

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.lines
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            if not ln.startswith(' '):
                m = re.match(r'(?:"([^"]*)"|([-\w.$]+)):', ln)
                nm = m.group(1) if m.group(1) is not None else m.group(2)
                cur = Block(nm)
                self.blocks[nm] = cur
                self.order.append(nm)
                continue
            if cur is None:
                # implicit entry label: number = count of unnamed params
                nm = str(sum(1 for p, _ in self.params if p.isdigit()))
                cur = Block(nm)
                self.blocks[nm] = cur
                self.order.append(nm)
            # join continuation lines
            st = ln.strip()
            if st.startswith('switch ') or ' switch ' in st[:0]:
                while not st.rstrip().endswith(']') and '], !' not in st:
                    st += ' ' + lines[i].strip()
                    i += 1
            elif ' = landingpad ' in st or st.startswith('invoke ') or ' = invoke ' in st:
                while i < n and lines[i].startswith('          '):
                    st += ' ' + lines[i].strip()
                    i += 1
            ins = parse_inst(st)
            if ins is None:
                continue
            ins.fn = self
            ins.bb = cur.name
            ins.idx = len(cur.insts)
            if ins.op == 'phi':
                cur.phis.append(ins)
            cur.insts.append(ins)
        self.entry = self.order[0]
        for b in self.blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succs = [x for x in t.a[1:] if x]
            elif t.op == 'switch':
                b.succs = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == 'invoke':
                b.succs = [t.a[3], t.a[4]]
            for s in b.succs:
                self.blocks[s].preds.append(b.name)
        self._live = None
        return self

    # -- liveness of SSA registers at block entry
    def liveness(self):
        self.parse()
        if self._live is not None:
            return self._live
        use, deff, phiuse = {}, {}, {}
        for b in self.blocks.values():
            u, d = set(), set()
            for ins in b.insts:
                if ins.op == 'phi':
                    d.add(ins.res)
                    for v, lab in ins.a:
                        if v[0] == 'l':
                            phiuse.setdefault(lab, set()).add((b.name, v[1]))
                        elif v[0] == 'ce':
                            pass
                    continue
                for v in locals_of(ins):
                    if v not in d:
                        u.add(v)
                if ins.res is not None:
                    d.add(ins.res)
            use[b.name], deff[b.name] = u, d
        live = {b: set(use[b]) for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for bn in reversed(self.order):
                out = set()
                for s in self.blocks[bn].succs:
                    out |= live[s]
                out |= {v for (_, v) in phiuse.get(bn, ())}
                nl = use[bn] | (out - deff[bn])
                if nl != live[bn]:
                    live[bn] = nl
                    ch = True
        self._live = live
        self._phiuse = phiuse
        return live

    def counter(self, head):
        """(phi register, other operand, type) if the exit test of the loop head compares one of its phis"""
        c = getattr(self, '_counters', None)
        if c is None:
            c = self._counters = {}
        if head not in c:
            c[head] = None
            b = self.blocks[head]
            t = b.insts[-1]
            if t.op == 'br' and t.a[0] is not None and t.a[0][0] == 'l':
                defs = {i.res: i for i in b.insts}
                phis = {p.res for p in b.phis}
                i = defs.get(t.a[0][1])

                def root(v):
                    while v[0] == 'l' and v[1] not in phis and v[1] in defs and defs[v[1]].op in ('zext', 'sext', 'trunc'):
                        v = defs[v[1]].a[0]
                    return v
                if i is not None and i.op == 'icmp':
                    x, y = i.a[1:]
                    for p, o in ((x, y), (y, x)):
                        p = root(p)
                        if p[0] == 'l' and p[1] in phis:
                            c[head] = (p[1], o, i)
                            break
        return c[head]

    def backedge_targets(self):
        """Blocks that are targets of a back edge (DFS)."""
        self.parse()
        if getattr(self, '_heads', None) is not None:
            return self._heads
        heads = set()
        state = {}
        stack = [(self.entry, iter(self.blocks[self.entry].succs))]
        state[self.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s) == 1:
                    heads.add(s)
                elif s not in state:
                    state[s] = 1
                    stack.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                state[b] = 2
                stack.pop()
        self._heads = heads
        return heads

    def file(self):
        return self.mod.subprogram_file(self.dbg)

    def line(self):
        md = self.mod.md(self.dbg) if self.dbg is not None else ''
        m = re.search(r'\bline: (\d+)', md)
        return int(m.group(1)) if m else 0

    def is_repo(self):
        r = self.__dict__.get('_repo')
        if r is None:
            f = self.file()
            r = self._repo = bool(f) and f.startswith(REPO + '/')
        return r


def _vals(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
            out.append(x[1])
            return
        if x and x[0] in ('str', 'md', 'c', 'g', 'f'):
            return
        for y in x:
            if isinstance(y, (tuple, list)):
                _vals(y, out)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (tuple, list)):
                _vals(y, out)


def locals_of(ins):
    out = []
    if ins.op == 'phi':
        for v, _ in ins.a:
            _vals(v, out)
    else:
        _vals(ins.a, out)
    return out


R_DBG = re.compile(r', !dbg !(\d+)')
R_RES = re.compile(r'%(?:"([^"]*)"|([-\w.$]+)) = ')


def parse_label(L):
    L.expect('label')
    m = L.rx(R_LOCAL)
    return m.group(1) if m.group(1) is not None else m.group(2)


def parse_args(L):
    args = []
    L.expect('(')
    if L.eat(')'):
        return args
    while True:
        t = parse_type(L)
        if t == ('metadata',):
            L.ws()
            if L.s[L.p] != '!':
                # metadata ptr %x  / metadata i32 0
                tt = parse_type(L)
                v = parse_value(L, tt)
                args.append((t, ('md', None)))
            else:
                args.append((t, parse_value(L, t)))
        else:
            skip_attrs(L)
            args.append((t, parse_value(L, t)))
        if L.eat(')'):
            return args
        L.expect(',')


def parse_inst(st):
    dbg = None
    m = R_DBG.search(st)
    if m:
        dbg = int(m.group(1))
    text = st
    res = None
    m = R_RES.match(st)
    p = 0
    if m:
        res = m.group(1) if m.group(1) is not None else m.group(2)
        p = m.end()
    L = Lex(st)
    L.p = p
    op = L.rx(R_WORD).group()
    while op in ('tail', 'musttail', 'notail'):
        op = L.rx(R_WORD).group()
    ins = Inst(op, res, None, None, dbg)
    ins.text = text
    if op == 'call' or op == 'invoke':
        # calling conv / ret attrs / fast flags
        while True:
            L.ws()
            mm = R_WORD.match(L.s, L.p)
            if mm and (mm.group() in FLAGS or mm.group() in ('fastcc', 'ccc', 'coldcc')):
                L.p = mm.end()
            else:
                q = L.p
                skip_attrs(L)
                if L.p == q:
                    break
        t = parse_type(L)
        rt = t[1] if t[0] == 'fn' else t
        if L.peek('asm'):
            return Inst('asm', res, rt, (), dbg)
        callee = parse_value(L, PTR)
        if callee[0] == 'g' and callee[1].startswith('llvm.dbg.'):
            return None
        args = parse_args(L)
        ins.ty = rt
        if op == 'call':
            ins.a = (callee, args)
        else:
            # skip function attrs (#N)
            L.rx(re.compile(r'(?:#\d+\s*)*'))
            L.expect('to')
            n = parse_label(L)
            L.expect('unwind')
            u = parse_label(L)
            ins.a = (callee, args, None, n, u)
        return ins
    if op == 'br':
        if L.peek('label'):
            ins.a = (None, parse_label(L), None)
        else:
            parse_type(L)
            c = parse_value(L, ('i', 1))
            L.expect(',')
            t = parse_label(L)
            L.expect(',')
            ins.a = (c, t, parse_label(L))
        return ins
    if op == 'switch':
        t = parse_type(L)
        v = parse_value(L, t)
        L.expect(',')
        d = parse_label(L)
        L.expect('[')
        cases = []
        while not L.eat(']'):
            tt = parse_type(L)
            cv = parse_value(L, tt)
            L.expect(',')
            cases.append((cv[1], parse_label(L)))
        ins.ty = t
        ins.a = (v, d, cases)
        return ins
    if op == 'ret':
        t = parse_type(L)
        ins.ty = t
        ins.a = (None if t == VOID else parse_value(L, t),)
        return ins
    if op == 'resume':
        t = parse_type(L)
        ins.a = (parse_value(L, t),)
        return ins
    if op == 'unreachable':
        ins.a = ()
        return ins
    if op == 'alloca':
        t = parse_type(L)
        cnt = ('c', 1, 64)
        if L.eat(','):
            if not L.peek('align') and not L.peek('!'):
                tt = parse_type(L)
                cnt = parse_value(L, tt)
        ins.ty = t
        ins.a = (t, cnt)
        return ins
    if op == 'load':
        while L.eat('atomic') or L.eat('volatile'):
            pass
        t = parse_type(L)
        L.expect(',')
        parse_type(L)
        ins.ty = t
        ins.a = (parse_value(L, PTR),)
        return ins
    if op == 'store':
        while L.eat('atomic') or L.eat('volatile'):
            pass
        t = parse_type(L)
        v = parse_value(L, t)
        L.expect(',')
        parse_type(L)
        ins.ty = t
        ins.a = (v, parse_value(L, PTR))
        return ins
    if op == 'getelementptr':
        while L.eat('inbounds') or L.eat('nuw') or L.eat('nusw'):
            pass
        bt = parse_type(L)
        ops = []
        while L.eat(','):
            if L.peek('!'):
                break
            tt = parse_type(L)
            ops.append((tt, parse_value(L, tt)))
        ins.ty = bt
        ins.a = (bt, ops)
        return ins
    if op == 'phi':
        while True:
            L.ws()
            mm = R_WORD.match(L.s, L.p)
            if mm and mm.group() in FLAGS:
                L.p = mm.end()
            else:
                break
        t = parse_type(L)
        inc = []
        while True:
            L.expect('[')
            v = parse_value(L, t)
            L.expect(',')
            mm = L.rx(R_LOCAL)
            L.expect(']')
            inc.append((v, mm.group(1) if mm.group(1) is not None else mm.group(2)))
            if not L.eat(','):
                break
            if L.peek('!'):
                break
        ins.ty = t
        ins.a = inc
        return ins
    if op in ('icmp', 'fcmp'):
        while True:
            pred = L.rx(R_WORD).group()
            if pred not in FLAGS:
                break
        t = parse_type(L)
        a = parse_value(L, t)
        L.expect(',')
        b = parse_value(L, t)
        ins.ty = t
        ins.a = (pred, a, b)
        return ins
    if op in BIN_OPS:
        while True:
            L.ws()
            mm = R_WORD.match(L.s, L.p)
            if mm and mm.group() in FLAGS:
                L.p = mm.end()
            else:
                break
        t = parse_type(L)
        a = parse_value(L, t)
        L.expect(',')
        b = parse_value(L, t)
        ins.ty = t
        ins.a = (a, b)
        return ins
    if op in CAST_OPS:
        while True:
            L.ws()
            mm = R_WORD.match(L.s, L.p)
            if mm and mm.group() in FLAGS:
                L.p = mm.end()
            else:
                break
        t = parse_type(L)
        v = parse_value(L, t)
        L.expect('to')
        to = parse_type(L)
        ins.ty = to
        ins.a = (v, t, to)
        return ins
    if op == 'select':
        L.ws()
        t1 = parse_type(L)
        c = parse_value(L, t1)
        L.expect(',')
        t2 = parse_type(L)
        a = parse_value(L, t2)
        L.expect(',')
        t3 = parse_type(L)
        b = parse_value(L, t3)
        ins.ty = t2
        ins.a = (c, a, b)
        return ins
    if op == 'extractvalue':
        t = parse_type(L)
        v = parse_value(L, t)
        idx = []
        while L.eat(','):
            mm = L.rx(R_NUM)
            if not mm:
                break
            idx.append(int(mm.group()))
        ins.ty = t
        ins.a = (v, idx)
        return ins
    if op == 'insertvalue':
        t = parse_type(L)
        v = parse_value(L, t)
        L.expect(',')
        tt = parse_type(L)
        e = parse_value(L, tt)
        idx = []
        while L.eat(','):
            mm = L.rx(R_NUM)
            if not mm:
                break
            idx.append(int(mm.group()))
        ins.ty = t
        ins.a = (v, e, idx)
        return ins
    if op == 'landingpad':
        t = parse_type(L)
        cl = []
        while True:
            if L.eat('cleanup'):
                cl.append(('cleanup',))
            elif L.eat('catch'):
                tt = parse_type(L)
                cl.append(('catch', parse_value(L, tt)))
            elif L.eat('filter'):
                tt = parse_type(L)
                cl.append(('filter', parse_value(L, tt)))
            else:
                break
        ins.ty = t
        ins.a = (cl,)
        return ins
    if op in ('fneg', 'freeze'):
        t = parse_type(L)
        ins.ty = t
        ins.a = (parse_value(L, t),)
        return ins
    if op in ('atomicrmw', 'cmpxchg', 'fence', 'va_arg', 'extractelement', 'insertelement', 'shufflevector'):
        ins.a = ()
        return ins
    raise AnalysisBroken('IR instruction? ' + st[:160])


class Module:
    def __init__(self, path):
        self.path = path
        txt = open(path, encoding='utf-8', errors='surrogateescape').read()
        lines = txt.split('\n')
        self.funcs, self.globals, self.types, self._md = {}, {}, {}, {}
        i, n = 0, len(lines)
        rname = re.compile(r'@(?:"([^"]*)"|([-\w.$]+))\(')
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1
                continue
            c = ln[0]
            if c == '!':
                e = ln.find(' = ')
                k = ln[1:e]
                self._md[int(k) if k.isdigit() else k] = ln[e + 3:]
                i += 1
            elif c == 'd' and ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = rname.search(ln)
                nm = m.group(1) if m.group(1) is not None else m.group(2)
                self.funcs[nm] = (ln[7:], lines[i + 1:j], False)
                i = j + 1
            elif c == 'd' and ln.startswith('declare '):
                ln2 = re.sub(r'^declare (?:!\w+ !\d+ )*', '', ln)
                m = rname.search(ln2)
                nm = m.group(1) if m.group(1) is not None else m.group(2)
                self.funcs[nm] = (ln2, [], True)
                i += 1
            elif c == '%':
                e = ln.index(' = type ')
                nm = ln[1:e].strip('"')
                self.types[nm] = ln[e + 8:]
                i += 1
            elif c == '@':
                m = R_GLOBAL.match(ln)
                nm = m.group(1) if m.group(1) is not None else m.group(2)
                self.globals[nm] = ln[m.end() + 3:]
                i += 1
            else:
                i += 1
        self.pure_groups = {m.group(1) for m in re.finditer(r'^attributes (#\d+) = \{([^\n]*)\}', txt, re.M)
                            if re.search(r'memory\((none|read|argmem: read)\)', m.group(2))}
        self._F, self._T, self._G, self._sz, self._lay = {}, {}, {}, {}, {}
        self._demangle()
        self._dbgcache = {}
        self._filecache = {}
        self._dyn = None

    def _demangle(self):
        names = list(self.funcs) + [g for g in self.globals if g.startswith('_Z')]
        r = subprocess.run([tool('llvm-cxxfilt')], input='\n'.join(names), capture_output=True, text=True)
        dn = r.stdout.split('\n')
        self.dn = dict(zip(names, dn))
        self.by_qual = {}
        for nm in self.funcs:
            self.by_qual.setdefault(qualname(self.dn[nm]), []).append(nm)

    def func(self, name):
        f = self._F.get(name)
        if f is None:
            if name not in self.funcs:
                if name in self.globals:
                    g = self.global_init(name)
                    if g[1] and g[1][0] == 'aliasof' and g[1][1][0] == 'g':
                        return self.func(g[1][1][1])
                return None
            f = Func(self, name, *self.funcs[name])
            f.dname = self.dn[name]
            f.qual = qualname(f.dname)
            self._F[name] = f
        return f

    def find(self, qual, nargs=None, sig=None):
        """Defined functions with this template-stripped qualified name."""
        out = []
        for nm in self.by_qual.get(qual, ()):
            f = self.func(nm)
            if f.declared:
                continue
            if sig is not None and not re.search(sig, f.dname):
                continue
            out.append(f)
        # C1/C2, D1/D2 duplicates: keep first
        return out

    def one(self, qual, sig=None):
        fs = self.find(qual, sig=sig)
        if not fs:
            raise AnalysisBroken('anchor function %s%s not found' % (qual, ' ~' + sig if sig else ''))
        return fs[0]

    def md(self, k):
        return self._md.get(k, '')

    def subprogram_file(self, k):
        if k is None:
            return None
        if k in self._filecache:
            return self._filecache[k]
        md = self.md(k)
        m = re.search(r'\bfile: !(\d+)', md)
        f = None
        if m:
            fm = self.md(int(m.group(1)))
            a = re.search(r'filename: "([^"]*)"', fm)
            d = re.search(r'directory: "([^"]*)"', fm)
            if a:
                f = a.group(1)
                if not f.startswith('/') and d:
                    f = os.path.join(d.group(1), f)
                f = os.path.normpath(f)
        self._filecache[k] = f
        return f

    def loc(self, ins):
        """file:line of an instruction."""
        if ins.dbg is None:
            return '%s:?' % (ins.fn.file() or ins.fn.dname)
        k = ins.dbg
        if k in self._dbgcache:
            return self._dbgcache[k]
        md = self.md(k)
        m = re.search(r'line: (\d+)', md)
        s = re.search(r'scope: !(\d+)', md)
        line = m.group(1) if m else '0'
        f = None
        seen = 0
        sc = int(s.group(1)) if s else None
        while sc is not None and f is None and seen < 40:
            seen += 1
            f = self.subprogram_file(sc)
            if f is None:
                mm = re.search(r'scope: !(\d+)', self.md(sc))
                sc = int(mm.group(1)) if mm else None
        r = '%s:%s' % ((f or '?').replace(REPO + '/', ''), line)
        self._dbgcache[k] = r
        return r

    # -- types
    def struct(self, name):
        t = self._T.get(name)
        if t is None:
            if name not in self.types:
                raise AnalysisBroken('type %' + name)
            body = self.types[name]
            t = ('lit', (), False) if body == 'opaque' else parse_type(Lex(body))
            self._T[name] = t
        return t

    def size_align(self, t):
        r = self._sz.get(t)
        if r:
            return r
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            r = ((b + a - 1) // a * a, a)
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'f':
            r = {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16)}[t[1]]
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k in ('st', 'lit'):
            offs, size, al = self.layout(t)
            r = (size, al)
        else:
            raise AnalysisBroken('size of %r' % (t,))
        self._sz[t] = r
        return r

    def sizeof(self, t):
        return self.size_align(t)[0]

    def layout(self, t):
        r = self._lay.get(t)
        if r:
            return r
        lit = self.struct(t[1]) if t[0] == 'st' else t
        offs, o, al = [], 0, 1
        for e in lit[1]:
            s, a = self.size_align(e)
            if lit[2]:
                a = 1
            o = (o + a - 1) // a * a
            offs.append(o)
            o += s
            al = max(al, a)
        size = (o + al - 1) // al * al
        r = (offs, size, al)
        self._lay[t] = r
        return r

    def elems(self, t):
        return (self.struct(t[1]) if t[0] == 'st' else t)[1]

    # -- globals
    def global_init(self, name):
        """(type, value|None, is_const)"""
        g = self._G.get(name)
        if g is None:
            if name not in self.globals:
                return None
            body = self.globals[name]
            m = re.match(r'(?:(?:private|internal|external|linkonce|linkonce_odr|weak|weak_odr|common|'
                         r'available_externally|appending|extern_weak|dso_local|hidden|protected|default|'
                         r'unnamed_addr|local_unnamed_addr|thread_local(?:\([^)]*\))?|externally_initialized)\s+)*'
                         r'(constant|global|alias|ifunc)\s+', body)
            if not m:
                raise AnalysisBroken('global ' + name + ' ' + body[:100])
            if m.group(1) == 'alias':
                L = Lex(body[m.end():])
                t = parse_type(L)
                L.expect(',')
                parse_type(L)
                g = (t, ('aliasof', parse_value(L, PTR)), True)
            else:
                L = Lex(body[m.end():])
                t = parse_type(L)
                ext = bool(re.match(r'.*\b(external|extern_weak)\b', body[:m.start(1)]))
                v = None
                if not ext:
                    v = parse_value(L, t)
                g = (t, v, m.group(1) == 'constant')
            self._G[name] = g
        return g

    def is_const_global(self, name):
        """declared const (std::string and the like are still initialised at run time)"""
        m = re.search(r'!dbg !(\d+)', self.globals.get(name, ''))
        if not m:
            return False
        m = re.search(r'var: !(\d+)', self.md(int(m.group(1))))
        m = m and re.search(r'\btype: !(\d+)', self.md(int(m.group(1))))
        k = m and int(m.group(1))
        while k:
            s = self.md(k)
            if 'DW_TAG_const_type' in s:
                return True
            m = re.search(r'baseType: !(\d+)', s) if re.search(r'DW_TAG_(typedef|array_type)', s) else None
            k = m and int(m.group(1))
        return False

    def dyn_init(self, name):
        """the functions that initialise the global at start-up"""
        if self._dyn is None:
            self._dyn = {}
            for nm, (h, lines, d) in self.funcs.items():
                if not d and nm.startswith('__cxx_global_var_init'):
                    for g in set(re.findall(r'@("[^"]*"|[-\w.$]+)', '\n'.join(lines))):
                        self._dyn.setdefault(g.strip('"'), []).append(self.func(nm))
        return self._dyn.get(name, [])

    def repo_functions(self):
        for nm, (h, l, d) in self.funcs.items():
            if d:
                continue
            f = self.func(nm)
            if f.is_repo():
                yield f

    # --- RTTI
    def typeinfo_bases(self, ti):
        """direct bases [(typeinfo name, offset)] of a _ZTI global"""
        g = self.global_init(ti)
        if not g or g[1] is None:
            return None
        el = g[1][1]
        out = []
        kind = _gname(el[0][1])
        if '__si_class_type_info' in kind:
            out.append((_gname(el[2][1]), 0))
        elif '__vmi_class_type_info' in kind:
            n = el[3][1][1]
            for k in range(n):
                b = _gname(el[4 + 2 * k][1])
                off = el[5 + 2 * k][1][1] >> 8
                out.append((b, off))
        return out

    def derives(self, ti, base):
        """offset of public base in ti, or None"""
        if ti == base:
            return 0
        for b, off in (self.typeinfo_bases(ti) or STD_BASES.get(ti, [])):
            r = self.derives(b, base)
            if r is not None:
                return off + r
        return None

    def vtable_slots(self, ti):
        """address-point slots of the primary vtable of class with typeinfo ti"""
        g = self.global_init('_ZTV' + ti[4:])
        if not g or g[1] is None:
            return None
        groups = []
        top = g[1][1]
        for et, ev in top:
            arr = ev[1] if ev[0] == 'agg' else []
            groups.append(arr)
        return groups


STD_BASES = {
    '_ZTISt13runtime_error': [('_ZTISt9exception', 0)],
    '_ZTISt11logic_error': [('_ZTISt9exception', 0)],
    '_ZTISt11range_error': [('_ZTISt13runtime_error', 0)],
    '_ZTISt12out_of_range': [('_ZTISt11logic_error', 0)],
    '_ZTISt16invalid_argument': [('_ZTISt11logic_error', 0)],
    '_ZTISt12length_error': [('_ZTISt11logic_error', 0)],
    '_ZTISt12domain_error': [('_ZTISt11logic_error', 0)],
    '_ZTISt14overflow_error': [('_ZTISt13runtime_error', 0)],
    '_ZTISt11regex_error': [('_ZTISt13runtime_error', 0)],
    '_ZTISt9bad_alloc': [('_ZTISt9exception', 0)],
    '_ZTISt8bad_cast': [('_ZTISt9exception', 0)],
    '_ZTISt10bad_typeid': [('_ZTISt9exception', 0)],
    '_ZTISt9exception': [],
    '_ZTINSt8ios_base7failureB5cxx11E': [('_ZTISt12system_error', 0)],
    '_ZTISt12system_error': [('_ZTISt13runtime_error', 0)],
}


def _gname(v):
    while v[0] == 'ce':
        if v[1] == 'gep':
            v = v[3][0][1]
        else:
            v = v[3]
    return v[1] if v[0] == 'g' else ''


def strip_templates(s):
    """remove <...> groups, keep operator< / operator<< / operator-> etc."""
    out = []
    i, d = 0, 0
    n = len(s)
    while i < n:
        if d == 0 and s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            j = i + 8
            k = j
            while k < n and s[k] in '<>=-!+*/&|^~%[](),' :
                if s[k] == '(' and s[j:k] != '' and s[k - 1] != '(':
                    break
                if s[k] == '(' and s[j:k] == '' and not s.startswith('()', k):
                    break
                # template args after operator: e.g. operator<< <std::...>
                if s[k] == '<' and s[j:k] in ('<<', '==', '!=', '>>', '<', '+') and False:
                    break
                k += 1
                if s[j:k] in ('()', '[]', '<<', '>>', '==', '!=', '->', '++', '--', '&&', '||', '+=',
                              '-=', '*=', '/=', '|=', '&=', '^='):
                    break
                if s[j:k] in ('<', '>', '=', '-', '+', '*', '!', '&', '|') and (k >= n or s[k] not in '<>=-+&|' or
                                                                           (s[k] == '<' and s[j:k] not in ('<',))):
                    break
            out.append(s[i:k])
            i = k
            continue
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and d > 0 and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


_qc = {}


def _local(s):
    d = 0
    for m in re.finditer(r'[()]|::(\$_\d+|\{lambda#\d+\})(?=::)', s):
        if m.group(1):
            if d == 0:
                return m.start(), m.end()
        else:
            d += 1 if m.group() == '(' else -1
    return None


def qualname(dn):
    """'a::b<T>::f[abi:cxx11](int) const' -> 'a::b::f' (templates, params, return type removed)."""
    r = _qc.get(dn)
    if r is not None:
        return r
    s = dn.replace('[abi:cxx11]', '').replace('(anonymous namespace)', '{anon}')
    s = s.replace('std::__cxx11::', 'std::')
    s = re.sub(r'\{lambda\([^{}]*\)#(\d+)\}', r'{lambda#\1}', s)
    s = strip_templates(s)
    m = _local(s)   # something of a function: f(int) const::$_0::operator()(char) const
    if m:
        r = qualname(s[:m[0]]) + s[m[0]:m[1]] + qualname('x' + s[m[1]:])[1:]
        _qc[dn] = r
        return r
    # cut parameter list: first '(' not part of operator()
    i = 0
    while True:
        j = s.find('(', i)
        if j < 0:
            break
        if s[:j].endswith('operator') and s.startswith('()', j):
            i = j + 2
            continue
        s = s[:j]
        break
    s = s.strip()
    # drop return type (templates print it): last space outside 'operator '
    m = re.search(r'\boperator\b', s)
    head, tail = (s[:m.start()], s[m.start():]) if m else (s, '')
    if ' ' in head:
        head = head[head.rfind(' ') + 1:]
    s = (head + tail).strip()
    _qc[dn] = s
    return s
