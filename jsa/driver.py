"""The program's main function under a nondeterministic environment: inputs, readers, displays and system calls are events."""
from common import *

CLASSES = ('CurseSimpleOutput', 'CurseSplitOutput')
GETTERS = ('isIgnoringUnicode', 'isStrict', 'colorEnabled', 'isDiff', 'sortObjects', 'compressed')


class Mon:
    """st.mon = (events...)"""

    def __init__(self, d):
        self.d = d

    def on_output(self, eng, st, q, segs):
        k = q[1] if q[0] == 'p' else None
        n = str(k)
        if '_ZSt4cerr' in n or '_ZSt4clog' in n:
            self.d.err(st, segs)
        elif '_ZSt4cout' in n:
            self.d.ev(st, 'stdout')
        else:
            r = self.d.on_other_output(eng, st, k, segs)
            if r is not None:
                return r
        return None

    def on_string_n(self, eng, st, ins, n):
        """a text of n equal characters: too long a text cannot be built"""
        n = eng.rebind(st, n)
        if n[0] == 'c':
            return [(st, Throw('_ZTISt12length_error', 'string') if n[1] >> 62 else UNDEF)]
        base, k = eng.linear(n)
        k = sgn(k, 64)
        if k >= 0:
            return None
        out = []
        for s, lo in eng.split(st, eng.mk('icmp ult', 1, base, C(-k, 64))):
            if lo:
                s.trace = (s.trace, 'the text is shorter than %d' % -k)
            out.append((s, Throw('_ZTISt12length_error', 'string') if lo else UNDEF))
        return out


class Driver:
    """one run of main with a fixed number of inputs"""

    def __init__(self, name, nin, warns=(0, 1, 2), mode=('plain', 'tty', 'diff')):
        self.p = p = prog()
        self.nin, self.warns, self.modes = nin, warns, mode
        d = p.di
        jm = d.members('JsonException')
        self.whatoff = [o for n, (o, t) in jm.items() if t.startswith('basic_string') or t == 'string' or 'basic_string' in t][0]
        self.histoff = [o for n, (o, t) in jm.items() if t == 'LinearHistory'][0]
        wm = d.members('Warning')
        self.wexc = [o for n, (o, t) in wm.items() if t == 'JsonException'][0]
        self.errors = sorted(t for t in p.mod.globals if t.startswith('_ZTI') and not t.startswith('_ZTIS')
                             and p.mod.derives(t, '_ZTI13JsonException') is not None)
        eng = self.eng = Engine(p.mod, p.di, name=name)
        eng.mon = Mon(self)
        eng.MAX_FIN = 8
        eng.unroll = lambda st: 6
        eng.str_limit = lambda st: 10000
        c = eng.cuts
        c['Params::Params'] = self.p_ctor
        c['Params::~Params'] = self.p_dtor
        c['Params::read'] = self.p_read
        c['Params::usage'] = self.simple('usage')
        c['Params::version'] = self.simple('version')
        c['Params::getInputs'] = self.p_inputs
        c['Params::getProgName'] = self.p_prog
        c['Params::getExternalDiff'] = self.p_ext
        for g in GETTERS:
            c['Params::' + g] = self.p_flag(g)
        c['StreamConsumer::StreamConsumer'] = self.sc_ctor
        c['StreamConsumer::~StreamConsumer'] = self.sc_dtor
        c['StreamConsumer::withConfig'] = self.sc_config
        c['StreamConsumer::read'] = self.sc_read
        c['StreamConsumer::getRoot'] = self.sc_root
        c['StreamConsumer::getMessages'] = self.sc_messages
        c['SimpleOutput::display'] = self.display
        for k in CLASSES:
            c['%s::%s' % (k, k)] = self.out_ctor(k)
            c['%s::~%s' % (k, k)] = self.out_dtor
            c['%s::run' % k] = self.out_run(k)
        c['Warning::getType'] = self.w_type
        for b in ('LinearHistory', 'WrappedBuffer'):
            c[b + '::' + b] = self.hist_copy
            c['%s::~%s' % (b, b)] = lambda e, st, i, f, a: [(st, UNDEF)]
            c[b + '::currentLine'] = self.hist('line')
            c[b + '::totalSize'] = self.hist('col')
            c[b + '::size'] = self.hist('size')
            c[b + '::toString'] = self.hist_text
            c[b + '::operator='] = self.hist_copy
        c['setlocale'] = self.simple('setlocale', NULL)
        c['isatty'] = self.isatty
        c['fileno'] = self.fileno
        c['exit'] = c['_exit'] = c['_Exit'] = self.exit
        c['JSonElement::~JSonElement'] = self.free_root

    # ---- events
    def ev(self, st, *e):
        st.mon = st.mon + (e,)

    def err(self, st, segs):
        g = st.mem[self.gh].cells[0][1]
        st.wobj(self.gh).cells[0] = ('S', models.norm(self.eng, st, tuple(g) + tuple(segs)))

    def on_other_output(self, eng, st, k, segs):
        return None

    def rep(self, st, rule, msg):
        return self.eng.report(st, rule, msg, key=(rule, msg))

    def simple(self, name, v=UNDEF):
        def f(eng, st, ins, fn, args):
            self.ev(st, name)
            return [(st, v)]
        return f

    # ---- parameters
    def p_ctor(self, eng, st, ins, fn, args):
        o = st.wobj(args[0][1])
        o.cls = frozenset(['_ZTI6Params'])
        o.cells[0] = ('vt', args[0][1])
        self.ev(st, 'params', args[0][1])
        return [(st, UNDEF)]

    def par(self, st):
        for e in st.mon:
            if e[0] == 'params':
                return e[1]

    def live_params(self, st, p, what):
        if p[0] != 'p' or p[1] != self.par(st):
            raise AnalysisBroken('%s: %s of unknown parameters' % (self.eng.name, what))
        if ('params-dead',) in st.mon:
            self.rep(st, 'params', 'the parameters are used after they were released')

    def p_dtor(self, eng, st, ins, fn, args):
        if args[0][0] == 'p' and args[0][1] == self.par(st) and fn.name.endswith(('D0Ev', 'D2Ev', 'D1Ev')):
            if ('params-dead',) in st.mon:
                self.rep(st, 'params', 'the parameters are released twice')
            self.ev(st, 'params-dead')
        return [(st, UNDEF)]

    def p_read(self, eng, st, ins, fn, args):
        self.live_params(st, args[0], 'interpretation')
        s2, s3 = st.copy(), st.copy()
        self.ev(st, 'parsed', True)
        self.ev(s2, 'parsed', False)
        s2.trace = (s2.trace, 'the command line asks for nothing to be read')
        self.ev(s3, 'parsed', None)
        s3.trace = (s3.trace, 'the command line is wrong')
        return [(st, TRUE), (s2, FALSE), (s3, Throw('_ZTISt13runtime_error', 'options'))]

    def p_flag(self, g):
        def f(eng, st, ins, fn, args):
            self.live_params(st, args[0], g)
            return [(st, eng.rebind(st, self.flags[g]))]
        return f

    def flag(self, st, g):
        v = self.eng.rebind(st, self.flags[g])
        vs = self.eng.values_of(st, v)
        return vs.pop() if len(vs) == 1 else None

    def p_prog(self, eng, st, ins, fn, args):
        self.live_params(st, args[0], 'name')
        return [(st, ('p', self.progcell, 0))]

    def p_ext(self, eng, st, ins, fn, args):
        self.live_params(st, args[0], 'external diff')
        return [(st, self.ext)]

    def p_inputs(self, eng, st, ins, fn, args):
        self.live_params(st, args[1], 'inputs')
        sl = []
        for i in range(self.nin):
            e = eng.new_obj(st, 'elem')
            st.mem[e].cells[0] = ('S', (self.names[i],))
            st.mem[e].cells[32] = ('p', self.streams[i], 0)
            sl.append(e)
        for s, q in eng.deref(st, args[0]):
            s.wobj(q[1]).cells[q[2]] = ('Q', 'fin', tuple(sl))
        return [(st, UNDEF)]

    def isatty(self, eng, st, ins, fn, args):
        if args[0] != C(1, 32):
            self.rep(st, 'mode', 'it is not the standard output that is asked for being a terminal')
        v = eng.rebind(st, self.tty)
        return [(st, v)]

    def fileno(self, eng, st, ins, fn, args):
        p = args[0]
        return [(st, C(p[2], 32) if p[0] == 'p' and p[2] in (0, 1, 2) else eng.opaque(32, 'fd'))]

    # ---- readers
    def sc_of(self, st, p, what):
        """number of the reader"""
        if p[0] == 'p':
            for e in reversed(st.mon):
                if e[0] == 'reader' and e[1] == p[1]:
                    if ('freed', p[1]) in st.mon:
                        self.rep(st, 'released', 'the document is used after it was released (%s)' % what)
                    return e[2]
        raise AnalysisBroken('%s: %s of an unknown reader' % (self.eng.name, what))

    def sc_ctor(self, eng, st, ins, fn, args):
        out = []
        for s, q in eng.deref(st, args[1]):
            i = self.streams.index(q[1]) if q[0] == 'p' and q[1] in self.streams else None
            if i is None:
                raise AnalysisBroken('%s: a reader of an unknown stream' % eng.name)
            s.wobj(args[0][1]).cls = frozenset(['_ZTI14StreamConsumer'])
            s.wobj(args[0][1]).cells[0] = ('vt', args[0][1])
            self.ev(s, 'reader', args[0][1], i)
            out.append((s, UNDEF))
        return out

    def sc_dtor(self, eng, st, ins, fn, args):
        k = args[0][1]
        self.sc_of(st, args[0], 'release')
        self.ev(st, 'freed', k)
        return [(st, UNDEF)]

    def sc_config(self, eng, st, ins, fn, args):
        i = self.sc_of(st, args[0], 'configuration')
        if args[1][0] == 'p' and args[1][1] == self.par(st):
            self.ev(st, 'config', args[0][1])
        return [(st, args[0])]

    def exc(self, eng, st, ti):
        k = eng.new_obj(st, 'exc', cls=frozenset([ti]))
        st.mem[k].lazy = 'any'
        self.fill_exc(eng, st, k, 0)
        return k

    def fill_exc(self, eng, st, k, off):
        h, w = eng.atom('hist'), eng.atom('what')
        o = st.wobj(k)
        o.cells[off + self.whatoff] = ('S', (w,))
        o.cells[off + self.histoff] = ('S', (h,))
        if off == 0:
            o.cells[0] = ('vt', k)
        return h, w

    def sc_read(self, eng, st, ins, fn, args):
        i = self.sc_of(st, args[0], 'reading')
        k = args[0][1]
        if ('config', k) not in st.mon:
            self.rep(st, 'config', 'an input is read without the options of the command line')
        if any(e[0] == 'read' and e[1] == k for e in st.mon):
            self.rep(st, 'twice', 'an input is read twice')
        out = []

        def fork(res, txt):
            s = st.copy()
            s.trace = (s.trace, 'input %d: %s' % (i + 1, txt))
            self.ev(s, 'read', k, i, res)
            return s
        for n in self.warns:
            s = fork(('ok', n), 'read with %d warnings' % n if n else 'read')
            r = eng.new_obj(s, 'lazy', lazy='any')
            ls = eng.new_obj(s, 'heap')
            sl = []
            for j in range(n):
                w = eng.new_obj(s, 'elem', lazy='any')
                h, t = self.fill_exc(eng, s, w, self.wexc)
                ty = eng.atom('type')
                wm = self.p.di.members('Warning')
                strs = sorted(o for nm, (o, x) in wm.items() if ('basic_string' in x or x == 'string') and not nm.startswith('base'))
                strs = [o for o in strs if not self.wexc <= o < self.wexc + self.whatoff + 32]
                for o in strs:
                    s.mem[w].cells[o] = ('S', ())
                s.mem[w].cells[self.typeoff()] = ('S', (ty,))
                sl.append(w)
                self.ev(s, 'warning', i, h, t, ty)
            s.mem[ls].cells[0] = ('Q', 'fin', tuple(sl))
            self.ev(s, 'doc', k, r, ls)
            out.append((s, args[0]))
        s = fork(('empty',), 'nothing in it')
        self.ev(s, 'doc', k, None, None)
        out.append((s, args[0]))
        s = fork(('eof',), 'ends prematurely')
        out.append((s, Throw('_ZTI12EofException', 'eof')))
        for ti in self.errors:
            s = fork(('error', ti), demangle_ti(ti))
            x = self.exc(eng, s, ti)
            o = s.mem[x]
            self.ev(s, 'failure', i, o.cells[self.histoff][1][0], o.cells[self.whatoff][1][0], ti)
            out.append((s, Throw(ti, 'malformed', x)))
        return out

    def typeoff(self):
        t = getattr(self, '_typeoff', None)
        if t is None:
            e2 = Engine(self.p.mod, self.p.di, name='Warning::getType')
            st = State()
            k = e2.new_obj(st, 'lazy', lazy='any')
            fn = [f for f in self.p.mod.find('Warning::getType') if not models.params(f)]
            e2.push(st, fn[0], [('p', k, 0)])
            offs = set()
            for x in e2.run([st]):
                if x.kind == 'ret' and x.value[0] == 'p' and x.value[1] == k:
                    offs.add(x.value[2])
            if len(offs) != 1:
                raise AnalysisBroken('Warning::getType returns no member')
            t = self._typeoff = offs.pop()
        return t

    def doc(self, st, k):
        for e in reversed(st.mon):
            if e[0] == 'doc' and e[1] == k:
                return e
        raise AnalysisBroken('%s: the document of a reader is asked for before it was read' % self.eng.name)

    def sc_root(self, eng, st, ins, fn, args):
        self.sc_of(st, args[0], 'root')
        r = self.doc(st, args[0][1])[2]
        return [(st, NULL if r is None else ('p', r, 0))]

    def sc_messages(self, eng, st, ins, fn, args):
        self.sc_of(st, args[0], 'warnings')
        ls = self.doc(st, args[0][1])[3]
        if ls is None:
            ls = eng.new_obj(st, 'heap')
            st.mem[ls].cells[0] = ('Q', 'fin', ())
        return [(st, ('p', ls, 0))]

    def root(self, st, p, what):
        """number of the input whose document p is"""
        if p[0] == 'p':
            for e in st.mon:
                if e[0] == 'doc' and e[2] is not None and e[2] == p[1]:
                    if ('freed', e[1]) in st.mon:
                        self.rep(st, 'released', 'a document is displayed after it was released')
                    for r in st.mon:
                        if r[0] == 'reader' and r[1] == e[1]:
                            return r[2]
        self.rep(st, 'document', '%s of something that is not the document of an input' % what)
        return None

    def free_root(self, eng, st, ins, fn, args):
        raise AnalysisBroken('%s: a document is released on its own' % eng.name)

    # ---- displays
    def display(self, eng, st, ins, fn, args):
        i = self.root(st, args[1], 'display')
        if not (args[2][0] == 'p' and args[2][1] == self.par(st)):
            self.rep(st, 'config', 'a document is displayed without the options of the command line')
        o = args[0][1] if args[0][0] == 'p' else None
        self.ev(st, 'display', i, 'stdout' if '_ZSt4cout' in str(o) else 'stderr' if '_ZSt4cerr' in str(o) else o)
        return [(st, UNDEF)]

    def out_ctor(self, kind):
        def f(eng, st, ins, fn, args):
            s = st.wobj(args[0][1])
            s.cls = frozenset(['_ZTI%d%s' % (len(kind), kind)])
            s.cells[args[0][2]] = ('vt', args[0][1])
            if not (args[1][0] == 'p' and args[1][1] == self.par(st)):
                self.rep(st, 'config', 'the display is created without the options of the command line')
            self.ev(st, 'terminal', args[0][1], kind)
            return [(st, UNDEF)]
        return f

    def out_dtor(self, eng, st, ins, fn, args):
        k = args[0][1]
        if not any(e[0] == 'terminal' and e[1] == k for e in st.mon):
            raise AnalysisBroken('%s: release of an unknown display' % eng.name)
        if k not in self.open_terminals(st):
            self.rep(st, 'terminal', 'the display is released twice')
        self.ev(st, 'terminal-end', k)
        return [(st, UNDEF)]

    def open_terminals(self, st):
        out = []        # (a local display may take the place of an earlier one)
        for e in st.mon:
            if e[0] == 'terminal':
                out.append(e[1])
            elif e[0] == 'terminal-end' and e[1] in out:
                out.remove(e[1])
        return out

    def out_run(self, kind):
        def f(eng, st, ins, fn, args):
            if args[0][1] not in self.open_terminals(st):
                self.rep(st, 'terminal', 'a display is used after it was released')
            if kind == 'CurseSimpleOutput':
                i = self.root(st, args[1], 'display')
                nm = models.segs_of(eng, st, args[2])[0][1]
                self.ev(st, 'run', (i,), (tuple(nm),), kind)
            else:
                ln, lr = [], []
                for a, l in ((args[1], ln), (args[2], lr)):
                    v = models.get_q(eng, st, a[1], a[2])
                    if v[:2] != ('Q', 'fin'):
                        raise AnalysisBroken('%s: arguments of the diff display' % eng.name)
                    l += v[2]
                nm = tuple(tuple(models.norm(eng, st, models.get_s(eng, st, q, 0))) for q in ln)
                rt = tuple(self.root(st, eng.rebind(st, st.mem[q].cells[0]), 'display') for q in lr)
                self.ev(st, 'run', rt, nm, kind)
            v = eng.fresh(st, ins.ty) if ins.ty != VOID else UNDEF
            return [(st, v)]
        return f

    # ---- texts of errors
    def w_type(self, eng, st, ins, fn, args):
        if models.params(fn):
            out = []
            for s, q in eng.deref(st, args[1] if fn.sret else args[0]):
                cl = s.mem[q[1]].cls
                if cl is None or len(cl) != 1:
                    return None
                ti = list(cl)[0]
                for s2, d in eng.deref(s, args[0]):
                    models.put_s(eng, s2, d[1], d[2], (('k', b'<' + ti.encode() + b'>'),))
                    out.append((s2, UNDEF))
            return out
        return None

    def hcell(self, eng, st, p):
        for s, q in eng.deref(st, p):
            v = s.mem[q[1]].cells.get(q[2]) if q[0] == 'p' else None
            if v is None or v[0] != 'S':
                raise AnalysisBroken('%s: a history of unknown origin' % eng.name)
            return q, v

    def hist_copy(self, eng, st, ins, fn, args):
        if len(args) < 2:
            for s, d in eng.deref(st, args[0]):
                s.wobj(d[1]).cells[d[2]] = ('S', (eng.atom('hist'),))
            return [(st, args[0])]
        q, v = self.hcell(eng, st, args[1])
        for s, d in eng.deref(st, args[0]):
            s.wobj(d[1]).cells[d[2]] = v
        return [(st, args[0])]

    def hist(self, what):
        def f(eng, st, ins, fn, args):
            q, v = self.hcell(eng, st, args[0])
            key = ('hist', what, v[1])
            if key not in st.facts:
                st.facts[key] = eng.opaque(32, what)
            return [(st, st.facts[key])]
        return f

    def hist_text(self, eng, st, ins, fn, args):
        q, v = self.hcell(eng, st, args[1])
        for s, d in eng.deref(st, args[0]):
            models.put_s(eng, s, d[1], d[2], v[1])
        return [(st, UNDEF)]

    def exit(self, eng, st, ins, fn, args):
        return self.ended(eng, st, args[0])

    def ended(self, eng, st, v):
        self.done(st, v, 'exit')
        return []

    # ---- run
    def start(self, ext=False):
        eng = self.eng
        st = State()
        st.mon = ()
        self.gh = eng.new_obj(st, 'heap')
        st.mem[self.gh].cells[0] = ('S', ())
        self.progcell = eng.new_obj(st, 'heap')
        self.prog = eng.atom('prog')
        st.mem[self.progcell].cells[0] = ('S', (self.prog,))
        self.names = [eng.atom('file') for _ in range(self.nin)]
        self.streams = []
        for i in range(self.nin):
            k = eng.new_obj(st, 'lazy', lazy='any')
            st.mem[k].cells[0] = ('vt', k)
            self.streams.append(k)
        self.flags = {g: eng.sym(st, 1, (0, 1), g) for g in GETTERS}
        self.tty = eng.sym(st, 32, (0, 1), 'tty')
        for i, v in enumerate(list(self.flags.values()) + [self.tty]):
            st.mem[self.gh].cells[8 * i + 8] = v       # what was asked for stays known
        self.ext = NULL
        if ext:
            self.extobj = eng.new_obj(st, 'lazy', lazy='any')
            self.ext = ('p', self.extobj, 0)
        for i, n in enumerate(('stdin', 'stdout', 'stderr')):
            if n in self.p.mod.globals:
                eng.gobj(st, n)
                st.wobj(('G', n)).cells[0] = ('p', eng.new_obj(st, 'heap'), i)
        av = eng.new_obj(st, 'alloca', size=16)
        a0 = eng.new_obj(st, 'heap')
        st.mem[a0].cells[0] = ('S', (self.prog,))
        st.mem[av].cells[0] = ('sp', a0, 0, 0)
        st.mem[av].cells[8] = NULL
        eng.keep_mem = tuple([self.gh, self.progcell, av, a0] + self.streams + ([self.extobj] if ext else []))
        m = [f for f in self.p.mod.find('main')]
        if not m:
            raise AnalysisBroken('%s: main not found' % eng.name)
        eng.push(st, m[0], [C(2, 32), ('p', av, 0)])
        return st

    def go(self, ext=False):
        n = 0
        for x in self.eng.run([self.start(ext)]):
            n += 1
            if x.kind == 'throw':
                if x.ti == '_ZTISt9bad_alloc':
                    continue
                self.rep(x.state, 'exception', 'the exception %s ends the program' % demangle_ti(x.ti))
            elif x.kind != 'ret':
                self.rep(x.state, 'exception', 'the program is terminated')
            else:
                self.done(x.state, x.value, 'return')
        return n
