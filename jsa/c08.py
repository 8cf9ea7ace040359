"""C08: the command line is interpreted as documented.

Params::read is interpreted over an unbounded nondeterministic list of arguments: whenever the program looks at the next argument
the state forks over the documented words and over the families of other texts.  A ghost interpreter follows; its flags, the
inputs opened and the words of the diff command are compared after every argument and at the end."""
from common import *

FLAGS = ('isStrict', 'isIgnoringUnicode', 'colorEnabled', 'isDiff', 'compressed', 'sortObjects')
SET = {'-W': (0, 0), '--ascii': (1, 1), '--color': (2, 1), '--color=always': (2, 1), '--color=never': (2, 0), '--diff': (3, 1),
       '--compress': (4, 1), '--keep-order': (5, 0)}
WORDS = sorted(SET) + ['--', '--help', '-h', '--version', '-v', '--diff-cmd', ';', '{}', '']


class Mon:
    """st.mon = ('P', mode, flags, has diff command, first word of the text, argument or None, events)"""

    def __init__(self, c):
        self.c = c

    def ev(self, st, *e):
        st.mon = st.mon[:6] + (st.mon[6] + (e,),)

    def on_push(self, eng, st, ins, fn, ck, src):
        if st.mon[1] == 'ctor':
            return
        d = st.mem[self.c.par].cells.get(self.c.cmdoff)
        if d is not None and d[0] == 'p' and ck == (d[1], d[2] + self.c.argvoff):
            r = models.segs_of(eng, st, src)
            self.ev(st, 'word', r[0][1], fn.qual.rsplit('::', 1)[1])

    def on_clear(self, eng, st, ins, fn, ck):
        if st.mon[1] != 'ctor' and ck[0] == self.c.par:
            self.ev(st, 'clear')
    on_erase_ = None


class Check:
    def __init__(self):
        self.p = p = prog()
        m = p.di.members('Params')
        self.off = [getter_off(p, 'Params::' + g) for g in FLAGS]
        self.cmdoff = getter_off(p, 'Params::getExternalDiff')
        self.argvoff = p.di.off('DiffCmd', 'argv')
        self.inoff = p.di.off('Params', 'inputs')
        lists = [o for n, (o, t) in m.items() if t.startswith('list<std::')]
        if len(lists) != 1:
            raise AnalysisBroken('C08: the list of arguments was not found')
        self.lstoff = lists[0]
        self.args_seen = set()
        self.n = dict(arguments=0, results=0, errors=0)

    # ---- nondeterministic arguments
    def choices(self, eng, st):
        """[(state, argument, text)]"""
        out = []
        for w in WORDS:
            out.append((st.copy(), w, (('k', w.encode()),) if w else ()))
        s = st.copy()
        a = eng.atom('mode')
        s.facts[('seq-no', a)] = frozenset([b'always', b'never'])
        out.append((s, '--color=*', (('k', b'--color='), a)))
        s = st.copy()
        a = eng.atom('opt')
        s.facts[('seq-no', a)] = frozenset(w[1:].encode() for w in WORDS if w.startswith('-'))
        s.facts[('nothead', a)] = frozenset([b'-color='])
        out.append((s, '-*', (('k', b'-'), a)))
        s = st.copy()
        a = eng.atom('file')
        s.facts[('seq-no', a)] = frozenset([b';', b'{}'])
        s.facts[('nothead', a)] = frozenset([b'-'])
        s.facts[('emp', a)] = False
        out.append((s, 'FILE', (a,)))
        return out

    def deref(self, eng, st, ins, fn, args):
        a = models.unsret(fn, args)
        if models.is_str_it(a[0], st):
            return None
        out = []
        for s, it in models.load_it(eng, st, a[0]):
            if it[1] != (self.par, self.lstoff) or not isinstance(it[2], Id):
                out += models.slot_ptr(eng, s, it, fn)
                continue
            for s2, p in models.slot_ptr(eng, s, it, fn):
                if s2.mem[p[1]].cells.get(0) is not None:
                    out.append((s2, p))
                    continue
                self.settle(eng, s2)
                for s3, w, t in self.choices(eng, s2):
                    s3.wobj(p[1]).cells[0] = ('S', t)
                    self.n['arguments'] += 1
                    self.args_seen.add(w)
                    s3.trace = (s3.trace, 'argument %s' % (w or "''"))
                    s3.mon = s3.mon[:5] + ((w, t), ())
                    out.append((s3, p))
        return out

    # ---- ghost interpreter
    def expect(self, mode, w):
        """(kind, new mode) of an argument"""
        if mode == 'text':
            return 'text', mode
        if mode == 'cmd':
            return ('endcmd', 'opts') if w == ';' else ('word', mode)
        if w in SET:
            return 'flag', mode
        if w == '--':
            return 'dashes', 'text'
        if w in ('--help', '-h'):
            return 'help', 'stop'
        if w in ('--version', '-v'):
            return 'version', 'stop'
        if w == '--diff-cmd':
            return 'cmd', 'cmd'
        if w.startswith('-'):
            return 'bad', 'stop'
        return 'file', mode

    def settle(self, eng, st, how='next', x=None):
        """the program is done with the current argument: compare, and advance the ghost"""
        P, mode, flags, hascmd, first, cur, evs = st.mon
        kind = None
        rep = lambda rule, msg: eng.report(st, rule, msg, key=(rule, msg))
        if cur is not None:
            w, t = cur
            name = "'%s'" % w
            kind, nm = self.expect(mode, w)
            evk = [e[0] for e in evs]
            want_stop = kind in ('help', 'version', 'bad') or kind == 'cmd' and hascmd
            if kind == 'flag':
                i, v = SET[w]
                flags = ((i, C(v, 8)),)
            if kind == 'help' and evk != ['usage']:
                rep('help', 'the usage is not printed for %s' % name)
            if kind == 'version' and evk != ['version']:
                rep('version', 'the version is not printed for %s' % name)
            if kind in ('help', 'version') and not (how == 'ret' and x is False):
                rep('stop', 'the program goes on after %s' % name)
            if kind == 'bad' and how != 'throw':
                rep('accepts-unknown', 'the argument %s is accepted' % name)
            if kind == 'cmd' and hascmd and how != 'throw':
                rep('double-cmd', 'a second --diff-cmd is accepted')
            if kind == 'cmd':
                hascmd = True
            if kind == 'word':
                if [e for e in evs if e[0] == 'word'] != [('word', tuple(models.norm(eng, st, t)), 'push_back')] and \
                        [(e[0], tuple(models.norm(eng, st, e[1]))) for e in evs if e[0] == 'word'] != \
                        [('word', tuple(models.norm(eng, st, t)))]:
                    rep('diff-command', 'a word of the diff command is not kept as it is')
            elif 'word' in evk:
                rep('diff-command', '%s becomes a word of the diff command' % name)
            if kind == 'file':
                self.file(eng, st, cur, evs, how, rep)
            elif 'open' in evk:
                rep('opens', 'the argument %s is opened as a file' % name)
            idx = [e for e in evs if e[0] == 'index']
            if kind == 'dashes':
                ok = len(idx) == 1 and self.stored(eng, st, idx[0]) is not None
                if ok:
                    v = self.stored(eng, st, idx[0])
                    o = st.mem.get(v[1])
                    ss = o.cells.get(8) if o else None
                    if not ss or ss[0] != 'SS' or o.freed:
                        ok = False
                    else:
                        st.wobj(self.gh).cells['ss'] = v
                if not ok:
                    rep('text', "no text input is created for '--'")
                st.wobj(self.gh).cells[0] = ('S', ())
                first = True
            elif idx and kind != 'file':
                rep('inputs', 'the argument %s changes the inputs' % name)
            if kind == 'text':
                g = st.mem[self.gh].cells[0][1]
                st.wobj(self.gh).cells[0] = ('S', models.norm(eng, st, g + (() if first else (('k', b' '),)) + tuple(t)))
                first = False
            if kind not in ('help', 'version') and 'usage' in evk + ['x'] and how == 'next':
                rep('stop', 'the usage is printed for %s' % name)
            if how == 'throw' and not want_stop and kind != 'file':
                rep('rejects', 'the argument %s is rejected' % name)
            if nm == 'stop' or kind == 'cmd' and st.mon[3]:
                if how == 'next' or how == 'ret' and x is True:
                    pass
            mode = nm
        # the state after the argument
        b = g = None
        if how != 'throw' and mode != 'stop':
            if mode == 'text' and 'ss' in st.mem[self.gh].cells:
                v = st.mem[self.gh].cells['ss']
                o = st.mem.get(v[1])
                g = models.norm(eng, st, st.mem[self.gh].cells[0][1])
                b = models.norm(eng, st, o.cells[8][1]) if o and not o.freed and 8 in o.cells else None
                if b != g:
                    rep('text', "the text after '--' is not the arguments separated by one blank")
            self.compare(eng, st, flags, hascmd, rep, cur)
            if how == 'next':
                flags = self.forget(eng, st, flags)
                if mode == 'text' and not first and b is not None and b == g:
                    a = eng.atom('text')
                    st.wobj(v[1]).cells[8] = ('SS', (a,)) + o.cells[8][2:]
                    st.wobj(self.gh).cells[0] = ('S', (a,))
        st.mon = (P, mode, flags, hascmd, first, None, ())
        return kind

    def forget(self, eng, st, flags):
        """generalise over the history: flags that are right may have any value from now on"""
        o = st.wobj(self.par)
        g = st.wobj(self.gh)
        for i, off in enumerate(self.off):
            w = eng.width(o.cells[off]) if o.cells.get(off, UNDEF) != UNDEF else None
            if w:
                o.cells[off] = g.cells[64 + 8 * i] = eng.sym(st, w, (0, 1), 'flag')
        v = o.cells.get(self.cmdoff)
        if v is not None and v[0] == 'p' and v[1] in st.mem:
            st.wobj(v[1]).cells[v[2] + self.argvoff] = ('Q', 'lazy', eng.new_id('q'), None)
        return ()

    def flag(self, eng, st, flags, i):
        return eng.rebind(st, dict(flags)[i] if i in dict(flags) else st.mem[self.gh].cells[64 + 8 * i])

    def stored(self, eng, st, e):
        v = st.mem[e[2]].cells.get(0) if e[2] in st.mem else None
        if v is None:
            return None
        v = eng.rebind(st, v) if v[0] in ('o', 'e') else v
        return v if v[0] == 'p' and isinstance(v[1], Id) else None

    def file(self, eng, st, cur, evs, how, rep):
        t = tuple(models.norm(eng, st, cur[1]))
        op = [e for e in evs if e[0] == 'open']
        tried = [e for e in evs if e[0] == 'isopen']
        has = [e for e in evs if e[0] == 'contains' and tuple(models.norm(eng, st, e[1])) == t]
        idx = [e for e in evs if e[0] == 'index']
        bad = any(not e[2] for e in tried)
        dup = any(e[2] for e in has)
        if how == 'throw':
            if not bad and not dup:
                rep('rejects', 'a readable file that was not given before is rejected')
            return
        if bad:
            rep('unreadable', 'a file that cannot be opened is accepted')
        elif dup:
            rep('duplicate', 'a file that was already given is accepted')
        elif not has:
            rep('duplicate', 'it is not checked whether the file was already given')
        elif not tried:
            rep('unreadable', 'it is not checked whether the file could be opened')
        else:
            v = self.stored(eng, st, idx[0]) if len(idx) == 1 else None
            ok = v is not None and tuple(models.norm(eng, st, idx[0][1])) == t and any(
                e[1] == v[1] and tuple(models.norm(eng, st, e[2])) == t for e in op) and not st.mem[v[1]].freed
            if not ok:
                rep('inputs', 'a file is not added to the inputs under its own name and with its own stream')

    def compare(self, eng, st, flags, hascmd, rep, cur):
        o = st.mem[self.par]
        for i, off in enumerate(self.off):
            v = o.cells.get(off)
            v = None if v is None or v == UNDEF else eng.rebind(st, v)
            e = self.flag(eng, st, flags, i)
            if v is None or v != e and eng.values_of(st, eng.mk('icmp eq', 1, v, e)) != {1}:
                vs = eng.values_of(st, v) if v else None
                rep('flag', 'Params::%s is %s%s after %s' % (
                    FLAGS[i], '/'.join(map(str, sorted(vs))) if vs else 'unknown',
                    ' instead of %d' % e[1] if e[0] == 'c' else '', "'%s'" % cur[0] if cur else 'no argument'))
        v = o.cells.get(self.cmdoff)
        v = eng.rebind(st, v) if v is not None and v[0] in ('o', 'e') else v
        if hascmd != (v is not None and v[0] == 'p'):
            rep('diff-command', 'a diff command exists although none was given' if not hascmd else 'no diff command is created')

    # ---- models
    def ifs(self, eng, st, ins, fn, args):
        ps = models.params(fn)
        out = []
        for s, q in eng.deref(st, args[0]):
            o = s.wobj(q[1])
            o.cls = frozenset(['_ZTISt14basic_ifstreamIcSt11char_traitsIcEE'])
            o.cells[q[2]] = ('vt', q[1])
            if not ps:
                self.mon.ev(s, 'open', q[1], ())
                out.append((s, UNDEF))
                continue
            for s2, g in (models.str_like(eng, s, ps[0], args[1])):
                self.mon.ev(s2, 'open', q[1], tuple(g))
                out.append((s2, UNDEF))
        return out

    def ifopen(self, eng, st, ins, fn, args):
        ps = models.params(fn)
        out = []
        for s, q in eng.deref(st, args[0]):
            for s2, g in (models.str_like(eng, s, ps[0], args[1])):
                s2.mon = s2.mon[:6] + (tuple(e for e in s2.mon[6] if e[:2] != ('open', q[1])),)
                self.mon.ev(s2, 'open', q[1], tuple(g))
                out.append((s2, UNDEF))
        return out

    def isopen(self, pos):
        def f(eng, st, ins, fn, args):
            out = []
            for s, q in eng.deref(st, args[0]):
                if q[0] not in ('p', 'vt'):
                    return None
                k = q[1]
                if not any(e[0] == 'open' for e in s.mon[6]):
                    return None
                prev = [e for e in s.mon[6] if e[0] == 'isopen']
                if prev:
                    out.append((s, C(int(prev[-1][2] == pos), 1)))
                    continue
                s2 = s.copy()
                self.mon.ev(s, 'isopen', k, True)
                self.mon.ev(s2, 'isopen', k, False)
                s2.trace = (s2.trace, 'the file cannot be opened')
                out += [(s, C(int(pos), 1)), (s2, C(int(not pos), 1))]
            return out
        return f

    def contains(self, eng, st, ins, fn, args):
        out = []
        for s, q in eng.deref(st, args[0]):
            if q != ('p', self.par, self.inoff):
                return None
            for s2, g in models.segs_of(eng, s, args[1]):
                s3 = s2.copy()
                self.mon.ev(s2, 'contains', tuple(g), True)
                self.mon.ev(s3, 'contains', tuple(g), False)
                out += [(s2, TRUE), (s3, FALSE)]
        return out

    def index(self, eng, st, ins, fn, args):
        out = []
        for s, q in eng.deref(st, args[0]):
            if q != ('p', self.par, self.inoff):
                return None
            for s2, g in models.segs_of(eng, s, args[1]):
                k = eng.new_obj(s2, 'elem', size=8)
                s2.mem[k].cells[0] = NULL
                self.mon.ev(s2, 'index', tuple(g), k)
                s2.wobj(self.par).cells[self.inoff] = ('Q', 'lazy', eng.new_id('q'), None)
                f = models.first_slot(eng, s2, self.par, self.inoff, fn)
                s2.mem[f].cells['end'] = FALSE
                out.append((s2, ('p', k, 0)))
        return out

    def said(self, what):
        def f(eng, st, ins, fn, args):
            self.mon.ev(st, what)
            return [(st, UNDEF)]
        return f

    # ---- main run
    def run(self):
        p = self.p
        eng = self.eng = Engine(p.mod, p.di, name='C08')
        self.mon = eng.mon = Mon(self)
        eng.MAX_UNROLL = 1
        eng.str_limit = lambda st: 60
        for q in ('std::_List_iterator', 'std::_List_const_iterator'):
            eng.cuts[q + '::operator*'] = eng.cuts[q + '::operator->'] = self.deref
        eng.cuts['std::basic_ifstream::basic_ifstream'] = self.ifs
        eng.cuts['std::basic_ifstream::open'] = self.ifopen
        for q, pos in (('std::basic_ifstream::is_open', True), ('std::basic_ios::good', True), ('std::basic_ios::operator bool', True),
                       ('std::basic_ios::fail', False), ('std::basic_ios::operator!', False)):
            eng.cuts[q] = self.isopen(pos)
        eng.cuts['fifoMap::contains'] = self.contains
        eng.cuts['fifoMap::operator[]'] = self.index
        eng.cuts['Params::usage'] = self.said('usage')
        eng.cuts['Params::version'] = self.said('version')
        rd = p.mod.one('Params::read')
        st = self.construct(eng)
        o = st.wobj(self.par)
        o.cells[self.lstoff] = ('Q', 'lazy', eng.new_id('q'), None)
        self.gh = eng.new_obj(st, 'heap')
        st.mem[self.gh].cells[0] = ('S', ())
        eng.keep_mem = (self.gh, self.par)
        st.mon = ('P', 'opts', tuple(enumerate(C(x, 8) for x in (1, 0, 1, 0, 0, 1))), False, True, None, ())
        eng.push(st, rd, [('p', self.par, 0)])
        for x in eng.run([st]):
            self.final(eng, x)
        return eng

    def construct(self, eng):
        """the object as its constructor leaves it; the arguments must be kept in order"""
        p = self.p
        ctor = p.mod.one('Params::Params')
        keep = None
        eng.unroll = lambda st: 8
        for n in (0, 1, 4):
            st = State()
            st.mon = ('P', 'ctor', (), False, True, None, ())
            av = eng.new_obj(st, 'alloca', size=8 * (n + 2))
            at = [eng.atom('arg') for _ in range(n + 1)]
            for i in range(n + 1):
                c = eng.new_obj(st, 'heap')
                st.mem[c].cells[0] = ('S', (at[i],))
                st.mem[av].cells[8 * i] = ('sp', c, 0, 0)
            st.mem[av].cells[8 * (n + 1)] = NULL
            k = eng.new_obj(st, 'heap')
            eng.keep_mem = (k, av)
            eng.push(st, ctor, [('p', k, 0), ('p', av, 0)])
            xs = [x for x in eng.run([st]) if x.kind == 'ret']
            if not xs:
                raise AnalysisBroken('C08: the constructor of Params does not return')
            for x in xs:
                s = x.state
                v = s.mem[k].cells.get(self.lstoff)
                if v is None or v[:2] != ('Q', 'fin'):
                    raise AnalysisBroken('C08: the constructor of Params does not build a list')
                got = [tuple(models.norm(eng, s, models.get_s(eng, s, q, 0))) for q in v[2]]
                if got != [(a,) for a in at[1:]]:
                    eng.report(s, 'arguments', 'the arguments of the program are not kept one by one and in order', key='args')
                self.par = k
                keep = s
        eng.unroll = None
        keep.frames = []
        return keep

    def final(self, eng, x):
        st = x.state
        rep = lambda rule, msg: eng.report(st, rule, msg, key=(rule, msg))
        if x.kind == 'throw':
            if x.ti == '_ZTISt9bad_alloc':
                return
            self.n['errors'] += 1
            if st.mon[5] is None:
                rep('rejects', 'the command line is rejected although no argument is wrong')
            if self.p.mod.derives(x.ti, '_ZTISt13runtime_error') is None and x.ti != '_ZTISt13runtime_error':
                rep('error', 'a wrong command line is reported as %s' % x.ti)
            self.settle(eng, st, 'throw')
            return
        if x.kind != 'ret':
            rep('exit', 'the interpretation of the command line ends the program')
            return
        self.n['results'] += 1
        v = eng.rebind(st, x.value) if x.value[0] != 'c' else x.value
        for s, b in eng.split(st, eng.mk('icmp ne', 1, v, C(0, 1)) if v[0] != 'c' else v):
            last = s.mon[5] is None
            kind = self.settle(eng, s, 'ret', b)
            if kind in ('help', 'version', 'bad'):
                continue
            if kind == 'cmd' and s.mon[3] is True and False:
                continue
            # all arguments must have been looked at
            for s2, d in eng.split(s, eng.mk('icmp ne', 1, s.mem[self.par].cells[self.off[3]], C(0, 8))):
                self.last(eng, s2, b, d, rep)

    def last(self, eng, st, b, diff, rep):
        n = self.size(eng, st)
        if not self.ended(eng, st):
            rep('arguments', 'the arguments after some argument are ignored')
        inr = None
        if diff:
            outs = []
            for s, lo in eng.split(st.copy(), eng.mk('icmp ult', 1, n, C(2, 64))):
                if lo:
                    outs.append(False)
                    continue
                for s2, hi in eng.split(s, eng.mk('icmp ugt', 1, n, C(3, 64))):
                    outs.append(not hi)
            inr = set(outs)
        if b and inr is not None and inr != {True}:
            rep('diff-inputs', 'a diff of less than two or more than three files is accepted')
        if not b and (inr is None or inr != {False}):
            rep('rejects', 'a correct command line is rejected' if inr is None else 'a diff of two or three files is rejected')

    def size(self, eng, st):
        v = st.mem[self.par].cells.get(self.inoff)
        if v[1] == 'fin':
            return C(len(v[2]), 64)
        key = ('csize', v[2])
        if key in st.facts:
            return eng.rebind(st, st.facts[key])
        return eng.opaque(64, 'n')

    def ended(self, eng, st):
        v = st.mem[self.par].cells.get(self.lstoff)
        if v is None or v[0] != 'Q' or v[1] == 'fin':
            return True
        return any(o.cells.get('end') == TRUE for o in st.mem.values() if o.kind == 'elem')


    # ---- the ordered map of inputs
    def new_map(self, eng, n):
        st = State()
        st.mon = ('P', 'ctor', (), False, True, None, ())
        m = eng.new_obj(st, 'heap')
        keys, vals, sl = [], [], []
        for i in range(n):
            a = eng.atom('key')
            e = eng.new_obj(st, 'elem')
            v = eng.new_obj(st, 'heap')
            st.mem[e].cells[0] = ('S', (a,))
            st.mem[e].cells[32] = ('p', v, 0)
            keys.append((a,))
            vals.append(('p', v, 0))
            sl.append(e)
            st.facts[('emp', a)] = False
        st.mem[m].cells[0] = ('Q', 'fin', tuple(sl))
        return st, m, keys, vals, sl

    def entries(self, eng, st, k, off=0):
        v = st.mem[k].cells.get(off)
        if v is None or v[:2] != ('Q', 'fin'):
            return None
        return [(tuple(models.norm(eng, st, models.get_s(eng, st, q, 0))), eng.rebind(st, st.mem[q].cells.get(32, UNDEF)), q)
                for q in v[2]]

    def equal(self, eng, st, a, b):
        r = {x for s, x in models.s_eq(eng, st.copy(), a, b)}
        return r.pop() if len(r) == 1 else None

    def maps(self, upto):
        p = self.p
        eng = self.meng = Engine(p.mod, p.di, name='C08 inputs')
        eng.mon = Mon(self)
        eng.unroll = lambda st: upto + 4
        eng.MAX_FIN = upto + 4
        n_ob = 0
        for n in range(upto + 1):
            for q in ('contains', 'operator[]'):
                if not p.mod.find('fifoMap::' + q):
                    continue          # not used
                st, m, keys, vals, sl = self.new_map(eng, n)
                k = eng.new_obj(st, 'heap')
                a = eng.atom('sought')
                st.mem[k].cells[0] = ('S', (a,))
                eng.keep_mem = (m, k) + tuple(sl) + tuple(v[1] for v in vals)
                eng.push(st, p.mod.one('fifoMap::' + q), [('p', m, 0), ('p', k, 0)])
                for x in eng.run([st]):
                    n_ob += 1
                    self.map_done(eng, x, q, m, keys, vals, sl, a)
            n_ob += self.given(eng, n)
        return n_ob

    def map_done(self, eng, x, q, m, keys, vals, sl, a):
        s = x.state
        rep = lambda msg: eng.report(s, 'inputs', msg, key=(q, msg))
        if x.kind == 'throw' and x.ti == '_ZTISt9bad_alloc':
            return
        if x.kind != 'ret':
            rep('fifoMap::%s does not return' % q)
            return
        first, open_ = None, False
        for i, kk in enumerate(keys):
            e = self.equal(eng, s, kk, (a,))
            if e is None:
                open_ = True
            elif e:
                first = i
                break
        if q == 'contains':
            for s2, b in eng.split(s, x.value):
                if b != (first is not None) or open_ and not b:
                    rep('fifoMap::contains %s' % ('finds a key that is not there' if b else 'misses a key'))
            return
        ents = self.entries(eng, s, m)
        old = [(kk, v) for kk, v in zip(keys, vals)]
        if ents is None:
            rep('fifoMap::operator[] loses the entries')
            return
        sl2 = [e[2] for e in ents]
        v = x.value
        if first is not None and not open_:
            if [(tuple(models.norm(eng, s, kk)), v2) for kk, v2 in old] != [e[:2] for e in ents] or v[:2] != ('p', sl2[first]) or v[2] != 32:
                rep('fifoMap::operator[] does not give the entry of a known key')
            return
        ok = not open_ and len(ents) == len(old) + 1 and all(
            e[0] == tuple(models.norm(eng, s, o[0])) and e[1] == o[1] for e, o in zip(ents, old)) \
            and ents[-1][0] == tuple(models.norm(eng, s, (a,))) and v == ('p', sl2[-1], 32)
        if not ok:
            rep('fifoMap::operator[] does not append a new key after the others')

    def given(self, eng, n):
        """Params::getInputs"""
        p = self.p
        st, m, keys, vals, sl = self.new_map(eng, n)
        par = eng.new_obj(st, 'heap', lazy='any')
        st.mem[par].cells[self.inoff] = ('Q', 'fin', tuple(sl))
        ret = eng.new_obj(st, 'heap')
        eng.keep_mem = (par, ret) + tuple(sl) + tuple(v[1] for v in vals)
        fn = p.mod.one('Params::getInputs')
        eng.push(st, fn, [('p', ret, 0), ('p', par, 0)])
        k = 0
        for x in eng.run([st]):
            if x.kind == 'throw' and x.ti == '_ZTISt9bad_alloc':
                continue
            k += 1
            s = x.state
            ents = self.entries(eng, s, ret) if x.kind == 'ret' else None
            got = [e[:2] for e in ents] if ents is not None else None
            if n:
                if got != [(tuple(kk), v) for kk, v in zip(keys, vals)]:
                    eng.report(s, 'inputs', 'Params::getInputs does not give the inputs in the order of the command line', key='given')
            else:
                cin = got and len(got) == 1 and got[0][1]
                nm = cin and cin[0] == 'p' and str(cin[1])
                if not nm or '_ZSt3cin' not in nm:
                    eng.report(s, 'inputs', 'without any input the standard input is not used', key='stdin')
        return k


def check(tier):
    c = Check()
    eng = c.run()
    n_maps = c.maps(4 if tier == 'thorough' else 3)
    viol = list(eng.violations.values()) + list(c.meng.violations.values())
    if not viol and (len(c.args_seen) != len(WORDS) + 3 or c.n['results'] < 5 or c.n['errors'] < 4):
        raise AnalysisBroken('C08: the analysis reached only %r %d' % (c.n, len(c.args_seen)))
    return dict(violations=viol,
                coverage=dict(argument_classes=len(c.args_seen), argument_events=c.n['arguments'], results=c.n['results'],
                              errors=c.n['errors'], map_results=n_maps, functions=sorted(eng.analysed), functions_analysed=len(eng.analysed),
                              paths=eng.stats['paths'], abstract_states=eng.stats['states'], steps=eng.stats['steps']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['std containers, strings and streams behave as modelled', 'the ordered map of inputs (fifoMap) is decided for up to 3 (thorough: 4) entries with arbitrary keys'])
