"""C07: an external diff gets every document in a file of its own and leaves nothing behind.

main is interpreted with everything it calls in main.cpp for one to three inputs (thorough: four), with an external command
given, under a nondeterministic environment: every input can be read with any number of warnings, be empty, end prematurely or
be malformed, a temporary file can be refused, the process can fail to fork, the command can fail to start, end by itself or be
killed.  Files, processes and readers are events; parent and child are judged at the end of every path.  The words of the
command are decided separately for DiffCmd::computeArgv."""
from driver import *


class X(Driver):
    def __init__(self, n, warns):
        super().__init__('C07', n, warns)
        self.n = dict(parents=0, children=0, files=0)
        c = self.eng.cuts
        c['DiffCmd::computeArgv'] = self.argv
        c['DiffCmd::hashString'] = self.hash
        c['DiffCmd::~DiffCmd'] = lambda e, st, i, f, a: [(st, UNDEF)]
        c['mkstemp'] = self.mkstemp
        c['mkstemps'] = self.mkstemp
        c['mkostemp'] = self.mkstemp
        c['close'] = lambda e, st, i, f, a: [(st, C(0, 32))]
        c['unlink'] = c['remove'] = self.unlink
        c['fork'] = c['vfork'] = self.fork
        c['execvp'] = self.exec
        c['execv'] = self.execv
        c['waitpid'] = self.waitpid
        c['wait'] = self.wait
        c['__errno_location'] = self.errno
        c['strerror'] = self.strerror
        o = 'std::basic_ofstream::'
        c[o + 'basic_ofstream'] = self.of_ctor
        c[o + 'open'] = self.of_open
        c[o + 'is_open'] = self.of_ok(True)
        c[o + 'close'] = c[o + '~basic_ofstream'] = self.of_close
        for q, pos in (('good', True), ('operator bool', True), ('operator!', False), ('fail', False), ('bad', False)):
            c['std::basic_ios::' + q] = self.of_ok(pos)

    # ---- files
    def hash(self, eng, st, ins, fn, args):
        return [(st, eng.opaque(64, 'hash'))]

    def mkstemp(self, eng, st, ins, fn, args):
        if args[0][0] != 'sp' or args[0][3] != 0:
            raise AnalysisBroken('C07: %s of something that is not a text' % fn.qual)
        out = []
        suffix = 0
        if fn.qual == 'mkstemps':
            if args[1][0] != 'c':
                raise AnalysisBroken('C07: mkstemps with a suffix of unknown length')
            suffix = sgn(args[1][1], 32)
        for s, g in models.cstr(eng, st, args[0]):
            tail = g[-1][1] if g and g[-1][0] == 'k' else b''
            if not tail[:len(tail) - suffix].endswith(b'XXXXXX'):
                self.rep(s, 'own-file', 'the name of a temporary file is not made unique')
                continue
            s2 = s.copy()
            s2.trace = (s2.trace, 'no temporary file can be created')
            self.ev(s2, 'nofile')
            out.append((s2, C(-1 & 0xffffffff, 32)))
            t = eng.atom('tmp')
            g2 = g[:-1] + (('k', tail[:len(tail) - suffix - 6]), t, ('k', tail[len(tail) - suffix:]))
            g2 = models.norm(eng, s, tuple(x for x in g2 if x != ('k', b'')))
            models.put_s(eng, s, args[0][1], args[0][2], g2)
            self.ev(s, 'created', g2)
            out.append((s, C(3, 32)))
        return out

    def unlink(self, eng, st, ins, fn, args):
        out = []
        for s, g in models.cstr(eng, st, args[0]):
            g = models.norm(eng, s, g)
            if ('child',) in s.mon:
                self.rep(s, 'child', 'the child process goes on after the command could not be started')
                continue
            if ('created', g) in s.mon:
                if ('unlink', g) in s.mon:
                    self.rep(s, 'removed', 'a temporary file is removed twice')
                if any(e[0] == 'fork' for e in s.mon) and ('reaped',) not in s.mon:
                    self.rep(s, 'wait', 'a temporary file is removed before the command has ended')
                self.ev(s, 'unlink', g)
            elif g and not any(e[0] == 'nofile' for e in s.mon):
                self.rep(s, 'removed', 'a file is removed that the program did not create')
            out.append((s, C(0, 32)))
        return out

    def of_key(self, eng, st, p):
        return [(s, q[1]) for s, q in eng.deref(st, p) if q[0] in ('p', 'vt')]

    def of_ctor(self, eng, st, ins, fn, args):
        ps = models.params(fn)
        out = []
        for s, q in eng.deref(st, args[0]):
            o = s.wobj(q[1])
            o.cls = frozenset(['_ZTISt14basic_ofstreamIcSt11char_traitsIcEE'])
            o.cells[q[2]] = ('vt', q[1])
            if not ps:
                out.append((s, UNDEF))
            elif 'ofstream' in ps[0]:
                for s2, q2 in eng.deref(s, args[1]):
                    e = self.of_state(s2, q2[1])
                    if e is not None:
                        self.ev(s2, e[0], q[1], e[2])
                        self.ev(s2, 'closed', q2[1], ())
                    out.append((s2, UNDEF))
            else:
                out += self.open(eng, s, q[1], ps[0], args[1])
        return out

    def of_open(self, eng, st, ins, fn, args):
        out = []
        for s, k in self.of_key(eng, st, args[0]):
            out += self.open(eng, s, k, models.params(fn)[0], args[1])
        return out

    def open(self, eng, st, k, t, a):
        out = []
        for s, g in models.str_like(eng, st, t, a):
            g = models.norm(eng, s, g)
            if ('created', g) not in s.mon:
                self.rep(s, 'own-file', 'a document is written to a file that may already exist or belong to another input')
                continue
            s2 = s.copy()
            s2.trace = (s2.trace, 'the temporary file cannot be opened')
            self.ev(s2, 'nofile')
            self.ev(s, 'open', k, g)
            out += [(s, UNDEF), (s2, UNDEF)]
        return out

    def of_state(self, st, k):
        for e in reversed(st.mon):
            if e[0] in ('open', 'closed') and e[1] == k:
                return e
        return None

    def of_ok(self, pos):
        def f(eng, st, ins, fn, args):
            out = []
            for s, k in self.of_key(eng, st, args[0]):
                e = self.of_state(s, k)
                ok = e is not None and e[0] == 'open'
                if fn.qual.startswith('std::basic_ios') and e is None and not any(x[0] in ('created', 'nofile') for x in s.mon):
                    return None
                out.append((s, C(int(ok == pos), 1)))
            return out
        return f

    def of_close(self, eng, st, ins, fn, args):
        out = []
        for s, k in self.of_key(eng, st, args[0]):
            e = self.of_state(s, k)
            if e is not None and e[0] == 'open':
                self.ev(s, 'closed', k, e[2])
            out.append((s, UNDEF))
        return out

    def display(self, eng, st, ins, fn, args):
        i = self.root(st, args[1], 'display')
        if not (args[2][0] == 'p' and args[2][1] == self.par(st)):
            self.rep(st, 'config', 'a document is written without the options of the command line')
        out = []
        for s, k in self.of_key(eng, st, args[0]):
            e = self.of_state(s, k)
            if e is None or e[0] != 'open':
                self.rep(s, 'document', 'a document is written to something that is not an open temporary file')
                continue
            if any(x[0] == 'display' and x[2] == e[2] for x in s.mon):
                self.rep(s, 'own-file', 'two documents are written to the same file')
                continue
            self.ev(s, 'display', i, e[2])
            out.append((s, UNDEF))
        return out

    def on_other_output(self, eng, st, k, segs):
        e = self.of_state(st, k)
        if e is not None and any(models.norm(eng, st, segs)):
            self.rep(st, 'document', 'something else than the document is written to a temporary file')
        return None

    # ---- the command
    def argv(self, eng, st, ins, fn, args):
        if args[0][0] != 'p' or args[0][1] != self.extobj:
            raise AnalysisBroken('C07: words of an unknown command')
        v = models.get_q(eng, st, args[1][1], args[1][2])
        if v[:2] != ('Q', 'fin'):
            raise AnalysisBroken('C07: files of the command')
        names = tuple(models.norm(eng, st, models.get_s(eng, st, q, 0)) for q in v[2])
        for e in st.mon:
            if e[0] == 'argv':          # the words are computed once
                return [(st, ('p', e[1], 0))]
        k = eng.new_obj(st, 'heap')
        w = eng.new_obj(st, 'heap')
        st.mem[w].cells[0] = ('S', (eng.atom('word'),))
        st.mem[k].cells[0] = ('sp', w, 0, 0)
        self.ev(st, 'argv', k, names)
        return [(st, ('p', k, 0))]

    def fork(self, eng, st, ins, fn, args):
        if any(e[0] == 'fork' for e in st.mon):
            self.rep(st, 'once', 'the command is started twice')
            return []
        for e in st.mon:
            if e[0] == 'open' and self.of_state(st, e[1])[0] == 'open':
                self.rep(st, 'document', 'the command is started before a document is completely written')
        s2, s3 = st.copy(), st.copy()
        self.ev(st, 'fork')
        s2.trace = (s2.trace, 'in the child process')
        self.ev(s2, 'fork')
        self.ev(s2, 'child')
        s3.trace = (s3.trace, 'no process can be created')
        self.ev(s3, 'nofork')
        return [(st, C(4711, 32)), (s2, C(0, 32)), (s3, C(-1 & 0xffffffff, 32))]

    def exec(self, eng, st, ins, fn, args):
        if ('child',) not in st.mon:
            self.rep(st, 'child', 'the program replaces itself by the command')
            return []
        a = [e for e in st.mon if e[0] == 'argv']
        if any(e[0] == 'exec' for e in st.mon):
            self.rep(st, 'once', 'the command is started twice')
            return []
        ok = a and args[1] == ('p', a[0][1], 0) and args[0] == st.mem[a[0][1]].cells[0]
        if not ok:
            self.rep(st, 'words', 'the process does not execute the words of the command')
        self.ev(st, 'exec')
        st.trace = (st.trace, 'the command cannot be started')
        return [(st, C(-1 & 0xffffffff, 32))]

    def execv(self, eng, st, ins, fn, args):
        self.rep(st, 'words', 'the command is not searched for')
        return []

    def errno(self, eng, st, ins, fn, args):
        k = eng.new_obj(st, 'heap')
        st.mem[k].cells[0] = eng.opaque(32, 'errno')
        return [(st, ('p', k, 0))]

    def strerror(self, eng, st, ins, fn, args):
        k = eng.new_obj(st, 'heap')
        st.mem[k].cells[0] = ('S', (eng.atom('strerror'),))
        return [(st, ('sp', k, 0, 0))]

    def wait(self, eng, st, ins, fn, args):
        return self.waitpid(eng, st, ins, fn, [C(-1 & 0xffffffff, 32), args[0], C(0, 32)])

    def waitpid(self, eng, st, ins, fn, args):
        if args[0][0] != 'c' or args[2][0] != 'c':
            raise AnalysisBroken('C07: waitpid with unknown arguments')
        if ('fork',) not in st.mon or ('child',) in st.mon:
            self.rep(st, 'wait', 'there is no command to wait for')
            return []
        if sgn(args[0][1], 32) not in (4711, -1):
            self.rep(st, 'wait', 'it is not the command that is waited for')
            return []
        if ('reaped',) in st.mon:
            if ('nochild',) in st.mon:
                self.rep(st, 'wait', 'the program waits forever for a command that has ended')
                return []
            self.ev(st, 'nochild')
            return [(st, C(-1 & 0xffffffff, 32))]
        out = []
        o = args[2][1]
        for vals, txt in (((0, 0x100), 'ends by itself'), ((9, 0x8b), 'is killed')) + ((((0x137f,), 'is stopped'),) if o & 2 else ()):
            s = st.copy()
            s.trace = (s.trace, 'the command ' + txt)
            if txt != 'is stopped':
                self.ev(s, 'reaped')
            elif ('stopped',) in s.mon:
                continue
            else:
                self.ev(s, 'stopped')
            v = eng.sym(s, 32, vals, 'status') if len(vals) > 1 else C(vals[0], 32)
            if args[1] != NULL:
                for s2, q in eng.deref(s, args[1]):
                    s2.wobj(q[1]).cells[q[2]] = v
                    out.append((s2, C(4711, 32)))
            else:
                out.append((s, C(4711, 32)))
        if o & 1 and ('polled',) not in st.mon:
            s = st.copy()
            self.ev(s, 'polled')
            s.trace = (s.trace, 'the command has not ended yet')
            out.append((s, C(0, 32)))
        return out

    # ---- ends
    def done(self, st, v, how):
        if ('child',) in st.mon:
            self.n['children'] += 1
            self.child(st, v, how)
        else:
            self.n['parents'] += 1
            self.judge(st, v)

    def child(self, st, v, how):
        ev = st.mon
        if not any(e[0] == 'exec' for e in ev):
            self.rep(st, 'child', 'the child process ends without trying to start the command')
        bad = [e for e in ev[ev.index(('child',)):] if e[0] in ('wait', 'reaped', 'params-dead', 'freed', 'reader', 'display')]
        if how != 'exit' or bad:
            self.rep(st, 'child', 'the child process goes on after the command could not be started')
        elif v[0] == 'c' and v[1] & 255 == 0:
            self.rep(st, 'child', 'the child process succeeds although the command could not be started')

    def judge(self, st, v):
        ev = st.mon
        rep = lambda r, m: self.rep(st, r, m)
        parsed = [e[1] for e in ev if e[0] == 'parsed']
        if parsed != [True]:
            return
        created = [e[1] for e in ev if e[0] == 'created']
        self.n['files'] += len(created)
        if any(('unlink', g) not in ev for g in created):
            rep('removed', 'a temporary file is left behind')
        readers = [e for e in ev if e[0] == 'reader']
        seq = [e[2] for e in readers]
        if seq != list(range(len(seq))):
            rep('order', 'the inputs are not read one by one in the order of the command line')
            return
        for e in readers:
            if ('freed', e[1]) not in ev:
                rep('released', 'a document is never released')
            elif ev.count(('freed', e[1])) > 1:
                rep('released', 'a document is released twice')
        if [e for e in ev if e[0] in ('run', 'terminal', 'stdout')]:
            rep('document', 'a document is displayed although an external command was given')
        res = {e[2]: e[3] for e in ev if e[0] == 'read'}
        bad = None
        for i in range(len(seq)):
            if i not in res:
                rep('order', 'an input is not read')
                return
            if res[i][0] != 'ok' and bad is None:
                bad = i
        if bad is not None and len(seq) > bad + 1:
            rep('order', 'another input is read after a malformed one')
        nofile = ('nofile',) in ev
        text = self.text(st, st.mem[self.gh].cells[0][1])
        started = any(e[0] in ('fork', 'nofork') for e in ev)
        disp = [e[1:] for e in ev if e[0] == 'display']
        if bad is not None or nofile:
            if started:
                rep('complete', 'the command is started although %s' % ('an input is malformed' if bad is not None else 'a temporary file is missing'))
            if nofile and self.names[len(seq) - 1] not in text:
                rep('error-message', 'a missing temporary file is not reported')
        else:
            if len(seq) != self.nin:
                rep('order', 'not all inputs are read')
            elif not started:
                rep('complete', 'the command is not started')
            elif [d[0] for d in disp] != list(range(self.nin)):
                rep('document', 'not every document is written once, in order')
            else:
                a = [e for e in ev if e[0] == 'argv']
                if not a or a[0][2] != tuple(d[1] for d in disp):
                    rep('words', 'the command does not get the files of all inputs in order')
            if ('fork',) in ev and ('reaped',) not in ev:
                rep('wait', 'the program does not wait for the command to end')
        if nofile:
            return
        self.report_ok(st, text, bad, res)

    def report_ok(self, st, text, bad, res):
        import c22
        self._m = getattr(self, '_m', None) or c22.D
        good = list(range(bad if bad is not None else self.nin))
        self._m.messages(self, st, text, bad, good, res, 'diff')

    def text(self, st, segs):
        import c22
        return c22.D.text(self, st, segs)

    def one(self, *a):
        import c22
        return c22.D.one(self, *a)

    def match(self, *a):
        import c22
        return c22.D.match(self, *a)

    def same(self, *a):
        import c22
        return c22.D.same(self, *a)


class Words:
    """DiffCmd::computeArgv"""

    def __init__(self):
        self.p = prog()
        self.eng = Engine(self.p.mod, self.p.di, name='C07 words')
        self.eng.MAX_FIN = 12
        self.eng.unroll = lambda st: 12
        self.eng.mon = None
        m = self.p.di.members('DiffCmd')
        self.qoff = [o for n, (o, t) in m.items() if 'deque' in t or 'list' in t or 'vector' in t]
        self.poff = [o for n, (o, t) in m.items() if '*' in t]
        if len(self.qoff) != 1 or len(self.poff) != 1:
            raise AnalysisBroken('DiffCmd: %r' % m)
        self.qoff, self.poff = self.qoff[0], self.poff[0]

    def q(self, st, segs):
        sl = []
        for g in segs:
            e = self.eng.new_obj(st, 'elem')
            st.mem[e].cells[0] = ('S', g)
            sl.append(e)
        return ('Q', 'fin', tuple(sl))

    def go(self, nw, nf):
        import itertools
        eng, n = self.eng, 0
        fn = self.p.mod.one('DiffCmd::computeArgv')
        dtor = self.p.mod.one('DiffCmd::~DiffCmd')
        texts = [(('k', b'{}'),), (('k', b'{'),), (('k', b'{}}'),), (), None]
        for k in range(1, nw + 1):
            for ws in itertools.product(range(len(texts) if k < 3 else 1), repeat=k) if k < 3 else \
                    itertools.product((0, 4), repeat=k):
                for f in range(1, nf + 1):
                    st = State()
                    st.mon = ()
                    words = [texts[w] if texts[w] is not None else (eng.atom('word'),) for w in ws]
                    files = [(eng.atom('file'),) for _ in range(f)]
                    o, q = eng.new_obj(st, 'heap'), eng.new_obj(st, 'heap')
                    st.mem[o].cells[self.qoff] = self.q(st, words)
                    st.mem[o].cells[self.poff] = NULL
                    st.mem[q].cells[0] = self.q(st, files)
                    eng.keep_mem = (o, q)
                    eng.push(st, fn, [('p', o, 0), ('p', q, 0)])
                    for e in eng.run([st]):
                        if e.kind == 'throw' and e.ti == '_ZTISt9bad_alloc':
                            continue
                        n += 1
                        if e.kind != 'ret':
                            self.rep(e.state, 'computing the words of the command ends with an exception')
                            continue
                        if self.judge(e.state, e.value, words, files):
                            self.release(e.state, dtor, o)
                # a command that was never asked for its words
                st = State()
                st.mon = ()
                o = eng.new_obj(st, 'heap')
                eng.keep_mem = (o,)
                ctor = [f for f in self.p.mod.find('DiffCmd::DiffCmd') if not models.params(f)][0]
                eng.push(st, ctor, [('p', o, 0)])
                for e in eng.run([st]):
                    if e.kind == 'ret':
                        self.release(e.state, dtor, o)
        return n

    def release(self, st, dtor, o):
        eng = self.eng
        mine = [k for k, x in st.mem.items() if x.kind == 'heap' and not x.freed and ('malloc' in x.cells or x.size is not None)]
        eng.keep_mem = tuple([o] + mine)
        eng.push(st, dtor, [('p', o, 0)])
        for e in eng.run([st]):
            if e.kind != 'ret':
                self.rep(e.state, 'releasing the words of the command ends with an exception')
            elif any(k in e.state.mem and not e.state.mem[k].freed for k in mine):
                self.rep(e.state, 'the words of the command are never released')

    def rep(self, st, m):
        self.eng.report(st, 'words', m, key=('words', m))

    def judge(self, st, v, words, files):
        eng = self.eng
        want = []
        for g in words:
            g = models.norm(eng, st, g)
            if g == (('k', b'{}'),):
                want += [models.norm(eng, st, f) for f in files]
            else:
                want.append(g)
        if v[0] != 'p' or v[2] != 0 or v[1] not in st.mem or st.mem[v[1]].freed:
            self.rep(st, 'the words of the command are not an array')
            return
        o = st.mem[v[1]]
        got = []
        size = o.size if isinstance(o.size, int) else None
        if size is not None and any(isinstance(c, int) and c + 8 > size for c in o.cells):
            self.rep(st, 'the words of the command do not fit into their array')
            return
        for i in range(len(want) + 1):
            c = o.cells.get(8 * i)
            if c is None:
                self.rep(st, 'the words of the command are not followed by a null pointer')
                return
            if c == NULL:
                break
            r = models.cstr(eng, st, c)
            if not r:
                return
            got.append(models.norm(eng, st, r[0][1]))
        if got != want:
            self.rep(st, 'the words of the command are not its arguments with {} replaced by the files in order')
        elif o.cells.get(8 * len(want)) != NULL:
            self.rep(st, 'the words of the command are not followed by a null pointer')
        else:
            return True


def check(tier):
    viol, an, tot = [], set(), dict(parents=0, children=0, files=0)
    stats = dict(paths=0, states=0, steps=0)
    w = Words()
    nw = w.go(3 if tier == 'quick' else 4, 2 if tier == 'quick' else 3)
    viol += list(w.eng.violations.values())
    an |= set(w.eng.analysed)
    for nin, warns in () if viol else ((1, (0, 1, 2)), (2, (0, 1)), (3, (0, 1))) + (((4, (0,)),) if tier == 'thorough' else ()):
        d = X(nin, warns)
        d.go(ext=True)
        viol += [v for v in d.eng.violations.values() if v['message'] not in {x['message'] for x in viol}]
        an |= set(d.eng.analysed)
        for k in tot:
            tot[k] += d.n[k]
        for k in stats:
            stats[k] += d.eng.stats[k]
        if viol:
            break
    if not viol and (nw < 50 or tot['parents'] < 50 or tot['children'] < 3 or tot['files'] < 20):
        raise AnalysisBroken('C07: only %r' % tot)
    return dict(violations=viol,
                coverage=dict(words_results=nw, ends_of_program=tot['parents'], ends_of_child=tot['children'],
                              temporary_files=tot['files'], functions=sorted(an), functions_analysed=len(an), paths=stats['paths'],
                              abstract_states=stats['states'], steps=stats['steps']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['mkstemp creates a file that did not exist before under a name given to nobody else',
                             'no signal handler is installed, so that waitpid is not interrupted'])
