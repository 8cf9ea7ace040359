"""C21: the terminal is set up before it is used, and given back.

Both views are interpreted from their construction to their destruction (made; made, run, resized; run without success) under a
nondeterministic environment: the standard streams are terminals or not, the terminal can be opened or not, the terminal library
can be started or not, colours are wanted or not.  The calls of the terminal library and of the streams are events of a typestate
automaton: the terminal (not opened, started, ended, deleted), every window (made, deleted) and every stream (opened, closed).  main
is interpreted with the views as events that may fail."""
from driver import *
from ui import *

CURSES = ('wattr_on', 'wattr_off', 'wattrset', 'wattron', 'wattroff', 'attron', 'attroff', 'attrset', 'wattr_set', 'wmove', 'move', 'printw',
          'wprintw', 'mvprintw', 'mvwprintw', 'waddnstr', 'addnstr', 'mvaddnstr', 'mvwaddnstr', 'waddstr', 'addstr', 'mvaddstr', 'mvwaddstr',
          'waddch', 'addch', 'mvaddch', 'mvwaddch', 'wrefresh', 'refresh', 'clear', 'wclear', 'erase', 'werase', 'box', 'wborder', 'border',
          'keypad', 'curs_set', 'wtimeout', 'timeout', 'cbreak', 'nocbreak', 'raw', 'noraw', 'echo', 'noecho', 'nodelay', 'notimeout',
          'halfdelay', 'touchwin', 'wnoutrefresh', 'doupdate', 'flushinp', 'start_color', 'init_pair', 'use_default_colors', 'mvwin', 'wresize',
          'getmaxx', 'getmaxy', 'getbegx', 'getbegy', 'nonl', 'nl', 'intrflush', 'meta', 'leaveok', 'scrollok', 'idlok', 'clearok', 'wbkgd',
          'bkgd', 'assume_default_colors', 'set_escdelay', 'redrawwin', 'wclrtoeol', 'clrtoeol', 'wclrtobot', 'clrtobot', 'wredrawln', 'getcurx',
          'getcury', 'has_colors', 'beep', 'flash', 'redrawwin', 'wsyncup', 'syncok', 'wtouchln', 'def_prog_mode', 'reset_prog_mode',
          'wgetch', 'getch')
WINDOWED = {'keypad', 'box', 'mvwin', 'nodelay', 'notimeout', 'touchwin', 'getmaxx', 'getmaxy', 'getbegx', 'getbegy', 'getcurx', 'getcury',
            'mvwprintw', 'mvwaddnstr', 'mvwaddstr', 'mvwaddch', 'intrflush', 'meta', 'leaveok', 'scrollok', 'idlok', 'clearok', 'redrawwin', 'syncok'}
PAIRS = ('TYPE_NUMBER', 'TYPE_BOOL', 'TYPE_NULL', 'TYPE_STRING', 'TYPE_OBJKEY', 'SPECIAL_SEARCH', 'SPECIAL_ERROR', 'SPECIAL_ACTIVEINPUTNAME',
         'SPECIAL_INPUTNAME', 'DIFF_ADD', 'DIFF_MOD', 'DIFF_REM')
TYPES = ('TYPE_NUMBER', 'TYPE_BOOL', 'TYPE_NULL', 'TYPE_STRING', 'TYPE_OBJKEY')
APART = (('DIFF_ADD', 'DIFF_MOD', 'DIFF_REM'), ('SPECIAL_ACTIVEINPUTNAME', 'SPECIAL_INPUTNAME'), ('SPECIAL_ERROR', 'TYPE_NUMBER'),
         ('SPECIAL_SEARCH', 'TYPE_NUMBER'))


class Life(UI):
    def __init__(self, tier):
        super().__init__('C21')
        self.thorough = tier == 'thorough'
        self.n = dict(made=0, failed=0, runs=0, resized=0, ended=0, calls=0, windows=0)
        eng, p = self.eng, self.p
        eng.mon = self
        m = eng.models
        for n in CURSES:
            m[n] = self.curse
        for n in ('newterm', 'newwin', 'delwin', 'endwin', 'delscreen', 'fopen', 'fclose', 'fileno', 'isatty', 'ioctl', 'signal'):
            m[n] = getattr(self, n)
        m['setbuf'] = m['setvbuf'] = m['setlinebuf'] = m['fflush'] = self.stream
        m['resize_term'] = m['resizeterm'] = self.resize_term
        m['isendwin'] = lambda eng, st, ins, fn, args: [(st, C(int(self.state(st) == 'ended'), 8))]
        for n in ('getpid', 'kill'):
            m[n] = lambda eng, st, ins, fn, args: [(st, eng.opaque(32, 'n'))]
        eng.cuts['Params::colorEnabled'] = self.colour
        eng.cuts['CurseOutput::loop'] = lambda eng, st, ins, fn, args: self.ev(st, ('loop', eng.rebind(st, args[1])), UNDEF)
        for cls in ['CurseOutput'] + [c for c, _ in self.views]:
            eng.cuts[cls + '::redraw'] = lambda eng, st, ins, fn, args: self.ev(st, ('redraw',), TRUE) if len(args) == 1 else None
            eng.cuts[cls + '::setSelection'] = lambda eng, st, ins, fn, args: [(st, UNDEF)]
            eng.cuts[cls + '::computeDiff'] = self.diff
        eng.cuts['LevenshteinMatrice_base::Builder::build'] = lambda eng, st, ins, fn, args: [(st, NULL)]

    def on_uninit(self, eng, st, ins, p):
        if p[0] == 'p' and p[1] == self.view:
            self.rep(st, 'uninitialised', 'a member of a view is used that was never initialised')

    # -- events
    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg))

    def ev(self, st, e, v):
        st.mon += (e,)
        return [(st, v)]

    def count(self, st):
        self.n['calls'] += 1

    def state(self, st):
        s = 'none'
        for e in st.mon:
            if e[0] == 'screen':
                s = 'on' if e[1] is not None else 'failed'
            elif e[0] == 'endwin':
                s = 'ended'
            elif e[0] == 'delscreen':
                s = 'deleted'
        return s

    def live(self, st, what):
        s = self.state(st)
        if s == 'on':
            return True
        self.rep(st, 'terminal-' + s, '%s %s' % (what, {
            'none': 'before the terminal is opened', 'failed': 'although the terminal could not be opened',
            'ended': 'after the terminal was given back', 'deleted': 'after the terminal was given back'}[s]))
        raise Stop()

    def window(self, st, w, what):
        """a window made by the program; None for the standard one"""
        eng = self.eng
        w = eng.rebind(st, w)
        for e in reversed(st.mon):
            if e[0] == 'delwin' and e[1] == w:
                self.rep(st, 'window-deleted', '%s of a window that was deleted' % what)
                raise Stop()
            if e[0] == 'win' and e[1] == w:
                return w
        eng.gobj(st, 'stdscr')
        s = eng.rebind(st, eng.load(st, ('p', ('G', 'stdscr'), 0), PTR)[0][1])
        if w == s:
            return None
        if w != NULL or True:
            self.rep(st, 'window-unknown', '%s of something that is not a window' % what)
            raise Stop()

    def curse(self, eng, st, ins, fn, args):
        self.n['calls'] += 1
        n = fn.name
        self.live(st, n)
        w = None
        if n in WINDOWED or n.startswith('w'):
            w = self.window(st, args[0], n)
        if n in ('getmaxx', 'getmaxy', 'getbegx', 'getbegy'):
            if w is not None:
                return [(st, eng.opaque(32, 'n'))]
            sz = [e for e in st.mon if e[0] == 'size'][-1]
            return [(st, sz[1 + ('getmaxx', 'getmaxy', 'getbegx', 'getbegy').index(n)])]
        if n in ('getch', 'wgetch'):
            return [(st, eng.opaque(32, 'key'))]
        v = C(0, 32) if ins.ty[0] == 'i' and ins.ty != ('i', 8) and ins.ty != ('i', 1) else eng.fresh(st, ins.ty) if ins.ty != VOID else UNDEF
        if n in ('wresize', 'mvwin'):
            st.mon += ((n, w) + tuple(eng.rebind(st, a) for a in args[1:]),)
        elif n in ('keypad', 'nodelay', 'cbreak', 'nocbreak', 'raw', 'noraw', 'echo', 'noecho', 'wtimeout', 'timeout', 'halfdelay', 'start_color',
                   'init_pair', 'curs_set'):
            st.mon += ((n,) + ((w,) if n in ('keypad', 'nodelay', 'wtimeout') else ()) +
                       tuple(eng.rebind(st, a) for a in args[1 if n in ('keypad', 'nodelay', 'wtimeout') else 0:]),)
        return [(st, v)]

    def file(self, st, v, what):
        """a stream: 0 or 1 for the standard ones, or one that was opened"""
        eng = self.eng
        v = eng.rebind(st, v)
        for i, g in ((0, 'stdin'), (1, 'stdout'), (2, 'stderr')):
            if g in eng.mod.globals:
                eng.gobj(st, g)
                if eng.rebind(st, eng.load(st, ('p', ('G', g), 0), PTR)[0][1]) == v:
                    return i
        for e in reversed(st.mon):
            if e[0] == 'fclose' and e[1] == v:
                self.rep(st, 'stream-closed', '%s of a stream that was closed' % what)
                raise Stop()
            if e[0] == 'fopen' and e[1] is not None and e[1] == v:
                return v
        self.rep(st, 'stream', '%s of a stream that is not open' % what)
        raise Stop()

    def stream(self, eng, st, ins, fn, args):
        self.file(st, args[0], fn.name)
        return [(st, C(0, 32) if ins.ty != VOID else UNDEF)]

    def fopen(self, eng, st, ins, fn, args):
        a = [cstr(eng, st, x)[0][1] for x in args[:2]]
        mode = b''.join(g[1] for g in a[1] if g[0] == 'k')
        if a[0] != (('k', b'/dev/tty'),) or b'+' not in mode:
            self.rep(st, 'open', 'something else than the controlling terminal, for reading and writing, is opened')
            raise Stop()
        s2 = st.copy()
        p = ('p', eng.new_obj(st, 'heap'), 0)
        st.mon += (('fopen', p),)
        s2.mon += (('fopen', None),)
        s2.trace = (s2.trace, 'there is no controlling terminal')
        return [(st, p), (s2, NULL)]

    def fclose(self, eng, st, ins, fn, args):
        f = self.file(st, args[0], 'fclose')
        if f in (0, 1, 2):
            self.rep(st, 'stream-standard', 'a standard stream is closed')
            raise Stop()
        if self.state(st) == 'on':
            self.rep(st, 'stream-order', 'the stream of the terminal is closed before the terminal is given back')
            raise Stop()
        return self.ev(st, ('fclose', f), C(0, 32))

    def fileno(self, eng, st, ins, fn, args):
        f = self.file(st, args[0], 'fileno')
        return [(st, C(f if f in (0, 1, 2) else 7, 32))]

    def isatty(self, eng, st, ins, fn, args):
        v = eng.rebind(st, args[0])
        if v[0] != 'c':
            raise AnalysisBroken('C21: isatty of an unknown descriptor')
        if v[1] == 7:
            return [(st, C(1, 32))]
        for e in st.mon:
            if e[:2] == ('tty', v[1]):
                return [(st, C(int(e[2]), 32))]
        s2 = st.copy()
        st.mon += (('tty', v[1], True),)
        s2.mon += (('tty', v[1], False),)
        s2.trace = (s2.trace, 'descriptor %d is not a terminal' % v[1])
        return [(st, C(1, 32)), (s2, C(0, 32))]

    def newterm(self, eng, st, ins, fn, args):
        if self.state(st) not in ('none',):
            self.rep(st, 'opened-twice', 'the terminal is opened a second time')
            raise Stop()
        for what, i in (('written to', 1), ('read from', 2)):
            f = self.file(st, args[i], 'newterm')
            if f in (0, 1, 2) and ('tty', f, True) not in st.mon:
                self.rep(st, 'streams', 'the screen is %s a stream that is not known to be a terminal' % what)
                raise Stop()
        s2 = st.copy()
        p = ('p', eng.new_obj(st, 'heap'), 0)
        st.mon += (('screen', p),)
        self.resized(st)
        s2.mon += (('screen', None),)
        s2.trace = (s2.trace, 'the terminal is of an unknown type')
        return [(st, p), (s2, NULL)]

    def resized(self, st):
        st.mon += (('size',) + tuple(self.eng.opaque(32, n) for n in ('maxx', 'maxy', 'begx', 'begy')),)

    def newwin(self, eng, st, ins, fn, args):
        self.live(st, 'newwin')
        self.n['windows'] += 1
        p = ('p', eng.new_obj(st, 'heap'), 0)
        return self.ev(st, ('win', p) + tuple(eng.rebind(st, a) for a in args), p)

    def delwin(self, eng, st, ins, fn, args):
        if eng.rebind(st, args[0]) == NULL:
            return [(st, C(-1, 32))]
        if self.state(st) == 'deleted':
            self.rep(st, 'window-late', 'a window is deleted after its screen')
            raise Stop()
        w = self.window(st, args[0], 'delwin')
        return self.ev(st, ('delwin', w), C(0, 32))

    def endwin(self, eng, st, ins, fn, args):
        if self.state(st) in ('on', 'ended'):
            st.mon += (('endwin',),)
        return [(st, C(0, 32))]

    def delscreen(self, eng, st, ins, fn, args):
        v = eng.rebind(st, args[0])
        if v == NULL:
            return [(st, UNDEF)]
        if ('screen', v) not in st.mon or ('delscreen',) in st.mon:
            self.rep(st, 'screen', 'something is released that is not the screen' if ('screen', v) not in st.mon else
                     'the screen is released twice')
            raise Stop()
        if self.state(st) == 'on':
            self.rep(st, 'given-back', 'the screen is released although the terminal was not given back')
            raise Stop()
        return self.ev(st, ('delscreen',), UNDEF)

    def ioctl(self, eng, st, ins, fn, args):
        v = eng.rebind(st, args[0])
        s2 = st.copy()
        for s, q in eng.deref(st, args[2]):
            o = s.wobj(q[1])
            for i in range(0, 8, 2):
                o.cells[q[2] + i] = eng.opaque(16, 'winsize')
            s.mon += (('winsize', o.cells[q[2]], o.cells[q[2] + 2]),)
        return [(st, C(0, 32)), (s2, C(-1, 32))]

    def resize_term(self, eng, st, ins, fn, args):
        if self.state(st) == 'on':
            ws = [e for e in st.mon if e[0] == 'winsize']
            if not ws or any(differs(eng, st, eng.rebind(st, a), eng.mk('zext', 32, b)) for a, b in zip(args, ws[-1][1:])):
                self.rep(st, 'resize', 'the terminal library is told another size than the one of the terminal')
                raise Stop()
            self.resized(st)
        return [(st, C(0, 32))]

    def signal(self, eng, st, ins, fn, args):
        st.mon += (('signal', eng.rebind(st, args[0]), eng.rebind(st, args[1])),)
        return [(st, NULL)]

    def colour(self, eng, st, ins, fn, args):
        for e in st.mon:
            if e[0] == 'colour':
                return [(st, TRUE if e[1] else FALSE)]
        s2 = st.copy()
        st.mon += (('colour', True),)
        s2.mon += (('colour', False),)
        return [(st, TRUE), (s2, FALSE)]

    def diff(self, eng, st, ins, fn, args):
        s2 = st.copy()
        s2.mon += (('failed',),)
        s2.trace = (s2.trace, 'the comparison fails')
        st.mon += (('compared',),)
        return [(st, UNDEF), (s2, Throw('_ZTISt13runtime_error', 'comparison'))]

    # -- the life of a view
    def go(self):
        for cls, ti in self.views:
            for x in self.made(cls, ti):
                s, k = x
                for n in ((None,) if cls == 'CurseSimpleOutput' else (1, 2, 3) if not self.thorough else (1, 2, 3, 4)):
                    self.lived(cls, s.copy(), k, n)
                self.ended(cls, s, k, 'unused')
        return self

    def made(self, cls, ti):
        eng, p = self.eng, self.p
        st = State()
        st.mon = ()
        k = eng.new_obj(st, 'heap', cls=frozenset([ti]), di=cls)       # nothing is initialised yet
        self.view = k
        this = ('p', k, 0)
        par = eng.new_obj(st, 'lazy', lazy='any', cls=frozenset(['_ZTI6Params']), di='Params')
        ctor = [f for f in p.mod.find(cls + '::' + cls) if len(models.params(f)) == 1 and 'Params' in models.params(f)[0]]
        if not ctor:
            raise AnalysisBroken('C21: constructor of ' + cls)
        eng.keep_mem = (k,)
        eng.push(st, ctor[0], [this, ('p', par, 0)])
        out = []
        for x in eng.run([st]):
            s = x.state
            if x.kind != 'ret':
                self.n['failed'] += 1
                if x.ti == '_ZTISt9bad_alloc':
                    continue
                if self.state(s) == 'on':
                    self.rep(s, 'made', 'the view is not made although the terminal could be opened')
                self.closed(s)
                self.silent(s, k)
                if x.ti != '_ZTISt13runtime_error':
                    self.rep(s, 'failure', 'a terminal that cannot be opened is not reported as an error')
                continue
            self.n['made'] += 1
            if self.state(s) != 'on':
                self.rep(s, 'made', 'the view is made although the terminal could not be opened')
                continue
            self.modes(s)
            self.size(s, k, cls, 1)
            out.append((s, k))
        return out

    def modes(self, s):
        eng = self.eng
        last = {}
        for e in s.mon:
            g = {'nocbreak': 'cbreak', 'raw': 'cbreak', 'noraw': 'cbreak', 'halfdelay': 'cbreak', 'echo': 'noecho'}.get(e[0], e[0])
            last[(g, e[1]) if e[0] in ('keypad', 'wtimeout') else g] = e
        if last.get('cbreak', ('',))[0] not in ('cbreak', 'raw', 'halfdelay'):
            self.rep(s, 'mode', 'keys are read only at the end of a line')
        if last.get('noecho', ('',))[0] != 'noecho':
            self.rep(s, 'mode', 'the keys that are typed are printed')
        k = last.get(('keypad', None))
        if k is None or eng.values_of(s, k[2]) is None or 0 in eng.values_of(s, k[2]):
            self.rep(s, 'mode', 'the arrow keys are not translated')
        w = last.get(('wtimeout', None))
        if w is None or w[2][0] != 'c' or sgn(w[2][1], w[2][2]) < 0:
            self.rep(s, 'mode', 'keys are awaited forever')
        cur = last.get('curs_set')
        if cur is None or cur[1] != C(0, 32):
            self.rep(s, 'mode', 'the cursor is shown over the document')
        self.colours(s)

    def colours(self, s):
        pairs, started = {}, False
        for e in s.mon:
            if e[0] == 'start_color':
                started = True
            elif e[0] == 'init_pair':
                if not started:
                    self.rep(s, 'colours', 'colours are defined before they are started')
                if any(a[0] != 'c' for a in e[1:]):
                    raise AnalysisBroken('C21: unknown colours')
                pairs[e[1][1]] = (e[2][1], e[3][1])
        on = ('colour', True) in s.mon
        if not on:
            if ('colour', False) not in s.mon:
                self.rep(s, 'colours', 'it is not asked for whether colours are wanted')
            return
        for n in PAIRS:
            v = pairs.get(self.const(n))
            if v is None:
                self.rep(s, 'colours', 'the colours of %s are not defined' % n)
            elif v[0] == v[1]:
                self.rep(s, 'colours', 'the text of %s cannot be read' % n)
        for g in APART:
            if len({pairs.get(self.const(n)) for n in g}) < len(g):
                self.rep(s, 'colours', '%s look the same' % ', '.join(g))

    def size(self, s, k, cls, n):
        """the size kept is the current one"""
        eng = self.eng
        sz = [e for e in s.mon if e[0] == 'size'][-1]
        o = self.off('CurseOutput', 'screenSize')
        cols, rows = (eng.mk('sub', 32, sz[1 + i], sz[3 + i]) for i in (0, 1))
        got = [eng.rebind(s, s.mem[k].cells.get(o + i, UNDEF)) for i in (0, 4)]
        if cls == 'CurseSplitOutput':
            cols, rows = eng.mk('udiv', 32, cols, C(n, 32)) if n > 1 else cols, eng.mk('sub', 32, rows, C(2, 32))
        if any(g == UNDEF or differs(eng, s, g, w) for g, w in zip(got, (cols, rows))):
            self.rep(s, 'size', 'the size kept is not the one of the part of the screen for %s' % ('every document' if n > 1 else 'the document'))

    def closed(self, s):
        op = [e[1] for e in s.mon if e[0] == 'fopen' and e[1] is not None]
        cl = [e[1] for e in s.mon if e[0] == 'fclose']
        if set(op) - set(cl):
            self.rep(s, 'stream-open', 'the stream of the terminal is never closed')

    def silent(self, s, k):
        """a signal that arrives now does not use the view"""
        eng = self.eng
        hs = {}
        for e in s.mon:
            if e[0] == 'signal' and e[1][0] == 'c':
                hs[e[1][1]] = e[2]
        for sig, h in sorted(hs.items()):
            if h[0] != 'fp':
                continue
            f = self.p.mod.func(h[1])
            if f is None:
                continue
            t = s.copy()
            t.wobj(k).freed = True
            eng.push(t, f, [C(sig, 32)])
            for x in eng.run([t]):
                self.n['calls'] += 1

    def lived(self, cls, s, k, n):
        eng, p = self.eng, self.p
        names, roots = eng.new_obj(s, 'heap'), eng.new_obj(s, 'heap')
        if cls == 'CurseSplitOutput':
            sl = []
            for i in range(n):
                o = eng.new_obj(s, 'elem')
                models.put_s(eng, s, o, 0, (eng.atom('name'),))
                r = eng.new_obj(s, 'elem')
                s.mem[r].cells[0] = ('p', self.world.new(s, p.CONT), 0)
                sl.append((o, r))
            s.mem[names].cells[0] = ('Q', 'fin', tuple(o for o, _ in sl))
            s.mem[roots].cells[0] = ('Q', 'fin', tuple(r for _, r in sl))
            args = [('p', names, 0), ('p', roots, 0)]
        else:
            models.put_s(eng, s, names, 0, (eng.atom('name'),))
            args = [('p', self.world.new(s, p.CONT), 0), ('p', names, 0)]
        eng.keep_mem = (k, names, roots)
        eng.push(s, p.mod.one(cls + '::run'), [('p', k, 0)] + args)
        for x in eng.run([s]):
            t = x.state
            if x.kind != 'ret':
                if x.ti == '_ZTISt9bad_alloc':
                    continue
                if ('failed',) not in t.mon:
                    self.rep(t, 'run', 'the view does not run')
                self.ended(cls, t, k, 'failed')
                continue
            self.n['runs'] += 1
            if not any(e[0] == 'loop' for e in t.mon):
                self.rep(t, 'run', 'the view ends without a key')
            self.geometry(t, k, cls, n, 'made')
            self.resize(cls, t.copy(), k, n)
            self.ended(cls, t, k, 'run')

    def resize(self, cls, s, k, n):
        eng = self.eng
        hs = [e[2] for e in s.mon if e[0] == 'signal' and e[1] == C(28, 32) and e[2][0] == 'fp']
        if not hs:
            return self.rep(s, 'resize', 'a change of the size of the terminal is not handled')
        eng.push(s, self.p.mod.func(hs[-1][1]), [C(28, 32)])
        for x in eng.run([s]):
            self.n['resized'] += 1
            if x.kind != 'ret':
                self.rep(x.state, 'resize', 'a change of the size of the terminal ends the view')
                continue
            self.geometry(x.state, k, cls, n, 'resized')
            self.ended(cls, x.state, k, 'resized')

    def geometry(self, s, k, cls, n, how):
        self.size(s, k, cls, n or 1)
        if cls != 'CurseSplitOutput':
            return
        eng = self.eng
        g = {}
        for e in s.mon:
            if e[0] == 'win':
                g[e[1]] = list(e[2:6])
            elif e[0] == 'wresize':
                g[e[1]][0:2] = e[2:4]
            elif e[0] == 'mvwin':
                g[e[1]][2:4] = e[2:4]
            elif e[0] == 'delwin':
                g.pop(e[1], None)
        sz = [e for e in s.mon if e[0] == 'size'][-1]
        cols, rows = (eng.mk('sub', 32, sz[1 + i], sz[3 + i]) for i in (0, 1))
        one = eng.mk('udiv', 32, cols, C(n, 32)) if n > 1 else cols
        low = lambda a, x: eng.mk('sub', 32, a, C(x, 32))
        sl = s.mem[k].cells[self.off('CurseSplitOutput', 'subWindows')]
        if sl[:2] != ('Q', 'fin') or len(sl[2]) != n:
            return self.rep(s, 'windows', 'there is not one window for every document')
        ptr = lambda q, f: eng.rebind(s, s.mem[q].cells.get(self.off('t_subWindow', f), UNDEF))
        seen = set()
        for i, q in enumerate(sl[2]):
            x = eng.mk('mul', 32, C(i, 32), low(one, 1)) if i else C(0, 32)
            want = dict(outerWin=(rows, one, C(0, 32), x),
                        innerWin=(low(rows, 2), low(one, 2), C(1, 32), eng.mk('add', 32, x, C(1, 32))))
            for f, w in want.items():
                p = ptr(q, f)
                seen.add(p)
                if p not in g:
                    self.rep(s, 'windows', 'a document has no %s window after it was %s' % (f[:5], how))
                elif any(differs(eng, s, a, b) for a, b in zip(g[p], w)):
                    self.rep(s, 'geometry', 'the %s window of a document is not %s where it belongs' % (f[:5], how))
            if how == 'made':
                to = [e for e in s.mon if e[0] == 'wtimeout' and e[1] == ptr(q, 'outerWin')]
                kp = [e for e in s.mon if e[0] == 'keypad' and e[1] == ptr(q, 'outerWin')]
                if i == 0 and (not to or to[-1][2][0] != 'c' or sgn(to[-1][2][1], 32) < 0):
                    self.rep(s, 'mode', 'keys are awaited forever')
                if i == 0 and (not kp or 0 in (eng.values_of(s, kp[-1][2]) or {0})):
                    self.rep(s, 'mode', 'the arrow keys are not translated')
        b = eng.rebind(s, s.mem[k].cells.get(self.off('CurseSplitOutput', 'bottomLine'), UNDEF))
        if len(seen) != 2 * n or b in seen:
            self.rep(s, 'windows', 'two parts of the view share a window')
        w = (C(1, 32), cols, low(rows, 1), C(0, 32))
        if b not in g:
            self.rep(s, 'windows', 'there is no window for messages')
        elif any(differs(eng, s, a, c) for a, c in zip(g[b], w)):
            self.rep(s, 'geometry', 'the line for messages is not %s where it belongs' % how)
        if set(g) - seen - {b}:
            self.rep(s, 'windows', 'a window is lost')

    def ended(self, cls, s, k, how):
        eng = self.eng
        d = [f for f in self.p.mod.find('%s::~%s' % (cls, cls)) if not f.name.endswith('D0Ev')]
        if not d:
            raise AnalysisBroken('C21: destructor of ' + cls)
        eng.keep_mem = (k,)
        eng.push(s, sorted(d, key=lambda f: f.name)[0], [('p', k, 0)])
        for x in eng.run([s]):
            t = x.state
            self.n['ended'] += 1
            if x.kind != 'ret':
                self.rep(t, 'ended', 'the view cannot be ended')
                continue
            if self.state(t) != 'deleted':
                self.rep(t, 'given-back', 'the terminal is not given back at the end' if self.state(t) == 'on' else
                         'the screen is not released at the end')
            w = {e[1] for e in t.mon if e[0] == 'win'} - {e[1] for e in t.mon if e[0] == 'delwin'}
            if w:
                self.rep(t, 'window-leaked', 'a window is not released at the end')
            self.closed(t)
            self.silent(t, k)

    # the state of the program is compared with all events
    def on_print(self, eng, st, *a):
        pass


class Main(Driver):
    """the program around the views: views may fail, messages are written while no view is open"""

    def __init__(self, n, warns):
        super().__init__('C21', n, warns)
        self.n = dict(ends=0, failures=0, messages=0)
        c = self.eng.cuts
        for k in CLASSES:
            c['%s::%s' % (k, k)] = self.may_fail(self.out_ctor(k), True)
            c['%s::run' % k] = self.may_fail(self.out_run(k), False)

    def may_fail(self, f, making):
        def g(eng, st, ins, fn, args):
            if not making and 'CurseSimple' in fn.qual:
                return f(eng, st, ins, fn, args)
            s2 = st.copy()
            out = f(eng, st, ins, fn, args)
            s2.trace = (s2.trace, 'the terminal cannot be opened' if making else 'the comparison fails')
            self.ev(s2, 'failed', making)
            if making and self.open_terminals(s2):
                self.rep(s2, 'terminal', 'the terminal is opened a second time')
            return out + [(s2, Throw('_ZTISt13runtime_error', 'terminal'))]
        return g

    def err(self, st, segs):
        self.n['messages'] += 1
        super().err(st, segs)
        if any(g[0] != 'k' or g[1] for g in segs):
            if self.open_terminals(st):
                self.rep(st, 'message', 'a message is written while a view is on the screen, and lost with it')
            self.ev(st, 'message')

    def display(self, eng, st, ins, fn, args):
        if self.open_terminals(st):
            self.rep(st, 'message', 'a document is printed while a view is on the screen')
        return super().display(eng, st, ins, fn, args)

    def uncaught(self, st):
        self.rep(st, 'failure', 'the program is aborted, the terminal is not given back')

    def done(self, st, v, how):
        eng = self.eng
        self.n['ends'] += 1
        if self.open_terminals(st):
            self.rep(st, 'terminal', 'the program ends while a view is on the screen')
        i = [i for i, e in enumerate(st.mon) if e[0] == 'failed']
        if not i:
            return
        self.n['failures'] += 1
        if how == 'throw':
            return
        v = eng.rebind(st, v)
        if v[0] != 'c' or v[1] & 255 == 0:
            self.rep(st, 'failure', 'the program succeeds although the view could not be shown')
        if not any(e[0] == 'message' for e in st.mon[i[0]:]):
            self.rep(st, 'failure', 'it is not reported why the view could not be shown')


def check(tier):
    k = Life(tier).go()
    viol = list(k.eng.violations.values())
    an, paths = set(k.eng.analysed), k.eng.stats['paths']
    tot = dict(ends=0, failures=0, messages=0)
    for nin, warns in ((1, (0, 1)), (2, (0, 1))) + (((3, (0, 1)),) if tier == 'thorough' else ()):
        if viol:
            break
        d = Main(nin, warns)
        d.go()
        viol += list(d.eng.violations.values())
        an |= set(d.eng.analysed)
        paths += d.eng.stats['paths']
        for x in tot:
            tot[x] += d.n[x]
    if not viol and (k.n['made'] < 8 or k.n['failed'] < 2 or k.n['resized'] < 8 or k.n['ended'] < 20 or k.n['windows'] < 10 or tot['ends'] < 40 or
                     tot['failures'] < 4):
        raise AnalysisBroken('C21: only %r %r' % (k.n, tot))
    return dict(violations=viol,
                coverage=dict(views_made=k.n['made'], views_not_made=k.n['failed'], views_run=k.n['runs'], resized=k.n['resized'], views_ended=k.n['ended'],
                              calls_of_the_terminal_library=k.n['calls'], windows=k.n['windows'], ends_of_program=tot['ends'],
                              failed_views=tot['failures'], functions=sorted(an), functions_analysed=len(an), paths=paths),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['the terminal library behaves as documented; windows can be made'])
