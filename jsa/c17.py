"""C17: keys and signals have the effect they are meant to have.

Four parts are interpreted for both views: reading one sequence of keys (any keys, any pauses), dispatching a sequence (any text), the
loop that reads and dispatches until something has to be done, and the loop that draws and reads until the end; and the signals that stop
the program.  Drawing, actions and the keyboard are events; what they do is nondeterministic."""
from ui import *

TABLE = {b'Q': 'quit', b'K': 'selectUp', b'KEY_UP': 'selectUp', b'J': 'selectDown', b'KEY_DOWN': 'selectDown', b'KEY_PPAGE': 'selectPUp',
         b'KEY_NPAGE': 'selectPDown', b'L': 'expandSelection', b'KEY_RIGHT': 'expandSelection', b'H': 'collapseSelection',
         b'KEY_LEFT': 'collapseSelection', b'/': 'initSearch', b'N': 'nextResult', b'^W-W': ('changeWindow', 1, 1),
         b'^W-KEY_RIGHT': ('changeWindow', 1, 0), b'^W-L': ('changeWindow', 1, 0), b'^W-KEY_LEFT': ('changeWindow', -1, 0),
         b'^W-H': ('changeWindow', -1, 0)}
ACTIONS = ('selectUp', 'selectDown', 'selectPUp', 'selectPDown', 'expandSelection', 'collapseSelection', 'initSearch', 'nextResult',
           'changeWindow')
OTHER = [b'', b'^W', b'^', b'A', b'q', b'QQ', b'KEY', b'KEY_HOME', b'KEY_END', b'^W-^W-W', b'^W-Q', b'^W-J', b'^W-K', b'^A-W', b'^L', b'^J', b'?',
         b'//', b'KEY_RESIZE', b'W', b'KEY_UP-KEY_UP', b'G', b'n']
MAXKEYS = 3


class Keys(UI):
    def __init__(self, tier):
        super().__init__('C17')
        self.thorough = tier == 'thorough'
        self.n = dict(sequences=0, dispatched=0, reads=0, loops=0, running=0, signals=0)
        eng, p = self.eng, self.p
        eng.mon = self
        self.R = p.di.enum('inputResult')
        if sorted(self.R) != ['nextInput', 'quit', 'redraw', 'redrawAll']:
            raise AnalysisBroken('C17: results of actions')
        for cls in ['CurseOutput'] + [c for c, _ in self.views]:
            for a in ACTIONS:
                eng.cuts['%s::%s' % (cls, a)] = self.action
            eng.cuts[cls + '::redraw'] = self.redraw
            eng.cuts[cls + '::getScreenSize'] = self.size
            eng.cuts[cls + '::onResizeHandler'] = lambda eng, st, ins, fn, args: self.ev(st, ('resize-handler',), UNDEF)
        eng.models['resize_term'] = eng.models['resizeterm'] = lambda eng, st, ins, fn, args: self.ev(st, ('resize',), C(0, 32))
        eng.models['keyname'] = self.keyname
        eng.models['toupper'] = self.toupper
        for n in ('wgetch', 'getch'):
            eng.models[n] = self.getch
        eng.models['ioctl'] = self.ioctl
        eng.models['signal'] = self.signal
        for n in ('fileno', 'getpid'):
            eng.models[n] = lambda eng, st, ins, fn, args: [(st, eng.opaque(32, 'n'))]
        Screen(eng, self)
        for n in ('newterm', 'initscr'):
            eng.models[n] = lambda eng, st, ins, fn, args: [(st, eng.opaque(64, 'screen'))]
        for n in ('getmaxx', 'getmaxy', 'getbegx', 'getbegy'):
            eng.models[n] = lambda eng, st, ins, fn, args: [(st, eng.opaque(32, 'size'))]
        eng.models['newwin'] = lambda eng, st, ins, fn, args: [(st, ('p', eng.new_obj(st, 'heap'), 0))]
        eng.models['delwin'] = eng.models['endwin'] = lambda eng, st, ins, fn, args: [(st, C(0, 32))]
        for n in ('CurseSplitOutput::computeDiff', 'CurseSplitOutput::setSelection'):
            eng.cuts[n] = lambda eng, st, ins, fn, args: [(st, UNDEF)]
        for n in ('start_color', 'init_pair', 'use_default_colors', 'mvwin', 'wresize'):
            eng.models[n] = lambda eng, st, ins, fn, args: [(st, C(0, 32))]

    def on_print(self, eng, st, *a):
        pass

    def on_screen(self, eng, st, name, args):
        if name in ('wtimeout', 'keypad'):
            st.mon += ((name,) + tuple(eng.rebind(st, a) for a in args),)

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, msg, key=(rule, msg))

    def ev(self, st, e, v):
        st.mon = st.mon + (e,)
        return [(st, v)]

    # -- events
    def action(self, eng, st, ins, fn, args):
        a = [eng.rebind(st, x) for x in args]
        r = eng.opaque(8, 'result')
        st.mon += (('act', fn.qual.split('::')[-1]) + tuple(sgn(x[1], x[2]) if x[0] == 'c' and x[2] == 8 else x[1] if x[0] == 'c' else None
                                                            for x in a[1:]) + (r, a[0] == self.this),)
        return [(st, r)]

    def redraw(self, eng, st, ins, fn, args):
        if len(models.params(fn)):
            return None
        s2 = st.copy()
        st.mon += (('redraw', True),)
        s2.mon += (('redraw', False),)
        return [(st, TRUE), (s2, FALSE)] if not self.short(s2) else [(st, TRUE)]

    def short(self, st):
        """enough redraws without success in a row"""
        return len(st.mon) > 3 and all(e == ('redraw', False) for e in st.mon[-3:])

    def size(self, eng, st, ins, fn, args):
        v = (eng.opaque(32, 'w'), eng.opaque(32, 'h'))
        st.mon += (('size',) + v,)
        packed = eng.mk('or', 64, eng.mk('zext', 64, v[0]), eng.mk('shl', 64, eng.mk('zext', 64, v[1]), C(32, 64)))
        if fn.sret:
            d = eng.deref(st, args[0])[0][1]
            o = st.wobj(d[1])
            o.cells[d[2]], o.cells[d[2] + 4] = v
            return [(st, UNDEF)]
        return [(st, packed)]

    # -- the keyboard: a key, or nothing for a while; meanwhile a signal may ask the program to stop
    def getch(self, eng, st, ins, fn, args):
        w = eng.rebind(st, args[0]) if fn.name == 'wgetch' else None
        if w is not None and w != self.win(eng, st):
            self.rep(st, 'keys-window', 'keys are read from another window')
        ev = st.mon
        if ('stop',) in ev:
            self.rep(st, 'stop', 'the keyboard is read again although the program was asked to stop')
            raise Stop()
        cur = self.current(ev)
        if cur and cur[-1][0] == 'end':
            self.rep(st, 'keys-lost', 'another key is read after a sequence was complete')
            raise Stop()
        r = [e for e in ev if e[0] == 'eval' and e[2] is not None]
        if r and r[-1][2] != self.R['nextInput']:
            self.rep(st, 'result', 'another key is read although something has to be done')
            raise Stop()
        out = []
        for what in ('key', 'idle'):
            if sum(e[0] == what for e in ev) >= self.maxkeys:
                continue
            for stop in (False, True):
                s = st.copy()
                v = C(-1, 32)
                s.mon += ((what,),)
                if what == 'key':
                    v = eng.opaque(32, 'key')
                    s.facts[('rng', v)] = s.facts[('srng', v)] = (0, 1023)
                    s.mon = s.mon[:-1] + (('key', v),)
                if stop:
                    s.mon += (('stop',),)
                    s.wobj(self.this[1]).cells[self.off('CurseOutput', 'breakLoop')] = C(1, 8)
                out.append((s, v))
        if not out:
            raise Stop()
        return out

    def current(self, ev):
        """what was read of the sequence that was not dispatched yet"""
        i = max([-1] + [i for i, e in enumerate(ev) if e[0] == 'eval'])
        return [e for e in ev[i + 1:] if e[0] in ('prefix', 'end')]

    def evalkey(self, eng, st, ins, fn, args):
        st.mon += (('given', None),)
        st.mon = st.mon[:-1]
        cur = self.current(st.mon)
        out = []
        for s, q in eng.deref(st, args[1]):
            segs = models.get_s(eng, s, q[1], q[2] + self.seqoff) if isinstance(q[2], int) else None
            want = []
            for e in cur:
                want += ([('k', b'-')] if want else []) + list(e[1:])
            if segs is None or models.norm(eng, s, segs) != models.norm(eng, s, models.implode(want)):
                self.rep(s, 'keys', 'the sequence that is dispatched is not the one that was typed')
            whole = bool(cur) and cur[-1][0] == 'end'
            if not whole:
                if cur and ('stop',) not in s.mon:
                    self.rep(s, 'keys', 'an incomplete sequence is dispatched')
                s.mon += (('eval', tuple(cur), None),)
                out.append((s, C(self.R['nextInput'], 8)))
                continue
            for v in sorted(self.R.values()):
                s2 = s.copy()
                s2.mon += (('eval', tuple(cur), v),)
                out.append((s2, C(v, 8)))
        return out

    def win(self, eng, st):
        if self.given != NULL:
            return self.given
        eng.gobj(st, 'stdscr')
        return eng.rebind(st, eng.load(st, ('p', ('G', 'stdscr'), 0), PTR)[0][1])

    def toupper(self, eng, st, ins, fn, args):
        k = eng.rebind(st, args[0])
        c = ('upper', k)
        v = st.facts.get(c)
        if v is None:
            v = st.facts[c] = eng.opaque(32, 'upper')
        return [(st, v)]

    def keyname(self, eng, st, ins, fn, args):
        k = eng.rebind(st, args[0])
        last = [e for e in st.mon if e[0] == 'key']
        if not last or k != st.facts.get(('upper', last[-1][1])):
            self.rep(st, 'keys-name', 'the name of something else than the (capital) key that was read is looked up')
        out = []
        for kind in ('prefix', 'end'):
            s = st.copy()
            segs = (('ch', C(94, 8) if kind == 'prefix' else eng.sym(s, 8, [x for x in range(1, 256) if x != 94])), eng.atom('name'))
            s.mon += ((kind,) + segs,)
            out.append((s, self.cstring(s, segs)))
        return out

    def cstring(self, st, segs):
        """pointer to a constant C string"""
        o = self.eng.new_obj(st, 'heap')
        models.put_s(self.eng, st, o, 0, segs)
        return ('sp', o, 0, 0)

    def ioctl(self, eng, st, ins, fn, args):
        s2 = st.copy()
        st.mon += (('winsize', True),)
        s2.mon += (('winsize', False),)
        return [(st, C(0, 32)), (s2, C(-1, 32))]

    def signal(self, eng, st, ins, fn, args):
        st.mon += (('signal', eng.rebind(st, args[0]), eng.rebind(st, args[1])),)
        return [(st, NULL)]

    # -- the parts
    def go(self):
        p, eng = self.p, self.eng
        self.seqoff = self.off('InputSequence', 'seq')
        self.maxkeys = 4 if self.thorough else 3
        for cls, ti in self.views:
            self.dispatch(cls, ti)
        eng.cuts['CurseOutput::evalKey'] = self.evalkey
        self.reading()
        eng.cuts['CurseOutput::readInput'] = self.readinput
        for cls, ti in self.views:
            self.running(cls, ti)
        for cls, ti in self.views:
            self.loop(cls, ti)
            self.signals(cls, ti)
        return self

    def start(self, cls, ti):
        st = State()
        st.mon = ()
        k = self.obj(st, cls, ti)
        self.this = ('p', k, 0)
        self.eng.keep_mem = (k,)
        return st, k

    def dispatch(self, cls, ti):
        eng = self.eng
        fn = self.p.mod.one('CurseOutput::evalKey')
        keys = [(k, TABLE[k]) for k in sorted(TABLE)] + [(k, None) for k in OTHER] + [(None, None)]
        for key, want in keys:
            st, k = self.start(cls, ti)
            o = eng.new_obj(st, 'heap')
            if key is None:
                a = eng.atom('key')
                st.facts[('seq-no', a)] = frozenset(TABLE) | {b''}
                st.facts[('emp', a)] = False
                segs = (a,)
            else:
                segs = (('k', key),) if key else ()
            models.put_s(eng, st, o, self.seqoff, segs)
            eng.push(st, fn, [self.this, ('p', o, 0)])
            name = 'an unknown sequence of keys' if want is None else key.decode()
            for x in eng.run([st]):
                self.n['dispatched'] += 1
                s = x.state
                if x.kind != 'ret':
                    self.rep(s, 'dispatch', '%s ends with an exception' % name)
                    continue
                v = eng.rebind(s, x.value)
                acts = [e for e in s.mon if e[0] == 'act']
                if want in (None, 'quit'):
                    if acts or [e for e in s.mon if e[0] == 'redraw']:
                        self.rep(s, 'dispatch', '%s has the effect of %s' % (name, acts[0][1] if acts else 'a redraw'))
                    if v != C(self.R['quit' if want else 'nextInput'], 8):
                        self.rep(s, 'dispatch', '%s %s' % (name, 'does not end the view' if want else 'does not wait for the next one'))
                    continue
                w = (want,) if isinstance(want, str) else want
                if len(acts) != 1 or acts[0][1] != w[0] or acts[0][2:-2] != w[1:]:
                    self.rep(s, 'dispatch', '%s has %s' % (name, 'no effect' if not acts else 'the effect of %s %s' % (
                        acts[0][1], acts[0][2:-2]) if len(acts) == 1 else 'several effects'))
                    continue
                if not acts[0][-1]:
                    self.rep(s, 'dispatch', '%s acts on another view' % name)
                if v != eng.rebind(s, acts[0][-2]):
                    self.rep(s, 'dispatch', 'the result of the action of %s is lost' % name)

    def reading(self):
        eng = self.eng
        cls, ti = self.views[0]
        fn = self.p.mod.one('CurseOutput::readInput')
        for given in (True, False):
            for stopped in (False, True):
                st, k = self.start(cls, ti)
                st.mem[k].cells[self.off('CurseOutput', 'breakLoop')] = C(int(stopped), 8)
                if stopped:
                    st.mon = (('stop',),)
                self.given = ('p', eng.new_obj(st, 'heap'), 0) if given else NULL
                eng.push(st, fn, [self.this, self.given])
                for x in eng.run([st]):
                    self.n['sequences'] += 1
                    s = x.state
                    if x.kind != 'ret':
                        self.rep(s, 'result', 'reading keys ends with an exception')
                        continue
                    v = eng.rebind(s, x.value)
                    ev = [e for e in s.mon if e[0] == 'eval' and e[2] is not None]
                    stop = ('stop',) in s.mon
                    q = C(self.R['quit'], 8)
                    cur = self.current(s.mon)
                    if cur and cur[-1][0] == 'end' and not stop:
                        self.rep(s, 'keys-lost', 'a sequence is not dispatched')
                    if ev and ev[-1][2] != self.R['nextInput']:
                        if v != C(ev[-1][2], 8) and not (stop and v == q):
                            self.rep(s, 'result', 'the result of an action is lost')
                    elif v != q or not stop:
                        self.rep(s, 'result', 'waiting for keys ends although nothing has to be done' if not stop else
                                 'the program goes on although it was asked to stop')

    def readinput(self, eng, st, ins, fn, args):
        if eng.rebind(st, args[1]) != self.given:
            self.rep(st, 'keys-window', 'keys are read from another window')
        if not st.mon or st.mon[-1] != ('redraw', True):
            self.rep(st, 'loop', 'keys are awaited although the view is not drawn')
        n = sum(e[0] == 'read' for e in st.mon)
        b = eng.rebind(st, eng.load(st, ('p', self.this[1], self.off('CurseOutput', 'breakLoop')), ('i', 8))[0][1])
        if n == 0 and eng.values_of(st, b) != {0}:
            self.rep(st, 'loop', 'the view starts as if the program had been asked to stop')
        if n >= 3:
            raise Stop()
        out = []
        for r, v in sorted(self.R.items()):
            if r == 'nextInput':
                continue
            s = st.copy()
            s.mon += (('read', r),)
            out.append((s, C(v, 8)))
        return out

    def loop(self, cls, ti):
        eng = self.eng
        fn = self.p.mod.one('CurseOutput::loop')
        st, k = self.start(cls, ti)
        self.given = ('p', eng.new_obj(st, 'heap'), 0)
        eng.push(st, fn, [self.this, self.given])
        for x in eng.run([st]):
            self.n['loops'] += 1
            s = x.state
            if x.kind != 'ret':
                self.rep(s, 'loop', 'the view ends with an exception')
                continue
            reads = [e[1] for e in s.mon if e[0] == 'read']
            if 'quit' not in reads:
                self.rep(s, 'loop', 'the view ends although it was not asked to')
            elif reads.index('quit') != len(reads) - 1 or s.mon[-1][0] != 'read':
                self.rep(s, 'loop', 'the view goes on after it was ended')

    def running(self, cls, ti):
        """the view is made and run: the window whose keys are read gives up waiting after a moment and translates special keys"""
        eng, p = self.eng, self.p
        ends = []
        eng.cuts['CurseOutput::loop'] = lambda eng, st, ins, fn, args: (ends.append((st, eng.rebind(st, args[1]))), [])[1]
        for x in self.made(cls, ti):
            s, k = x.state, x.this
            names, roots = eng.new_obj(s, 'heap'), eng.new_obj(s, 'heap')
            if cls == 'CurseSplitOutput':
                sl = []
                for i in range(2):
                    o = eng.new_obj(s, 'elem')
                    models.put_s(eng, s, o, 0, (eng.atom('name'),))
                    r = eng.new_obj(s, 'elem')
                    s.mem[r].cells[0] = ('p', self.world.new(s, p.CONT if hasattr(p, 'CONT') else None), 0)
                    sl.append((o, r))
                s.mem[names].cells[0] = ('Q', 'fin', tuple(o for o, _ in sl))
                s.mem[roots].cells[0] = ('Q', 'fin', tuple(r for _, r in sl))
                args = [('p', names, 0), ('p', roots, 0)]
            else:
                models.put_s(eng, s, names, 0, (eng.atom('name'),))
                args = [('p', self.world.new(s, p.CONT), 0), ('p', names, 0)]
            eng.push(s, p.mod.one(cls + '::run'), [('p', k, 0)] + args)
            for y in eng.run([s]):
                if y.kind == 'ret':
                    self.rep(y.state, 'keys-window', 'the view does not run')
        if not ends:
            raise AnalysisBroken('C17: %s does not run' % cls)
        for s, w in ends:
            self.n['running'] += 1
            w = self.win_of(s, w)
            t = [e[2] for e in s.mon if e[0] == 'wtimeout' and self.win_of(s, e[1]) == w]
            if not t or t[-1][0] != 'c' or sgn(t[-1][1], t[-1][2]) < 0:
                self.rep(s, 'pause', 'keys are awaited forever, a signal cannot stop the view meanwhile')
            kp = [e[2] for e in s.mon if e[0] == 'keypad' and self.win_of(s, e[1]) == w]
            if not kp or kp[-1][0] != 'c' or not kp[-1][1]:
                self.rep(s, 'keypad', 'keys are read as if the terminal had no arrow keys')
        del eng.cuts['CurseOutput::loop']

    def win_of(self, st, w):
        eng = self.eng
        eng.gobj(st, 'stdscr')
        return eng.rebind(st, eng.load(st, ('p', ('G', 'stdscr'), 0), PTR)[0][1]) if w == NULL else w

    def made(self, cls, ti):
        """the states in which a view has been made"""
        eng, p = self.eng, self.p
        st = State()
        st.mon = ()
        k = self.obj(st, cls, ti)
        self.this = ('p', k, 0)
        par = eng.new_obj(st, 'lazy', lazy='any', cls=frozenset(['_ZTI6Params']), di='Params')
        ctor = [f for f in p.mod.find(cls + '::' + cls) if len(models.params(f)) == 1 and 'Params' in models.params(f)[0]]
        if not ctor:
            raise AnalysisBroken('C17: constructor of ' + cls)
        eng.keep_mem = (k,)
        eng.push(st, ctor[0], [self.this, ('p', par, 0)])
        for x in eng.run([st]):
            if x.kind == 'ret':
                x.this = k
                yield x

    def signals(self, cls, ti):
        """the view is made, then a signal arrives"""
        eng, p = self.eng, self.p
        brk = self.off('CurseOutput', 'breakLoop')
        for x in self.made(cls, ti):
            s0, k = x.state, x.this
            hs = {}
            for e in s0.mon:
                if e[0] == 'signal' and e[1][0] == 'c':
                    hs[e[1][1]] = e[2]
            for sig, name in ((2, 'SIGINT'), (15, 'SIGTERM'), (28, 'SIGWINCH')):
                h = hs.get(sig)
                if h is None or h[0] != 'fp':
                    self.rep(s0, 'signals', '%s is not handled' % name)
                    continue
                s = s0.copy()
                s.mon = ()
                s.wobj(k).cells[brk] = C(0, 8)
                c = s.mem[k].cells
                f = p.mod.func(h[1])
                eng.push(s, f, [C(sig, 32)])
                for y in eng.run([s]):
                    self.n['signals'] += 1
                    self.judge(y, k, brk, sig, name, h)

    def judge(self, x, k, brk, sig, name, h):
        eng, s = self.eng, x.state
        if x.kind != 'ret':
            return self.rep(s, 'signals', '%s ends with an exception' % name)
        ag = [e for e in s.mon if e[0] == 'signal']
        if any(e[1] == C(sig, 32) and e[2] != h for e in ag):
            self.rep(s, 'signals', '%s is not handled any more after it came once' % name)
        b = eng.values_of(s, s.mem[k].cells[brk])
        if sig != 28:
            if b is None or 0 in b:
                self.rep(s, 'signals', '%s does not stop the view' % name)
            return
        if b != {0}:
            self.rep(s, 'signals', '%s stops the view' % name)
        sz = [e for e in s.mon if e[0] == 'size']
        if not sz:
            return self.rep(s, 'resize', 'the size of the screen is not asked for after it changed')
        o = self.off('CurseOutput', 'screenSize')
        if tuple(eng.rebind(s, s.mem[k].cells.get(o + i, UNDEF)) for i in (0, 4)) != sz[-1][1:]:
            self.rep(s, 'resize', 'the size of the screen is not kept after it changed')
        ev = [e[0] for e in s.mon]
        if ('winsize', True) in s.mon and ('resize',) not in s.mon:
            self.rep(s, 'resize', 'the terminal library is not told the new size')
        if ('resize',) in s.mon and ev.index('size') < ev.index('resize'):
            self.rep(s, 'resize', 'the size of the screen is asked for before the terminal library knows it')
        rd = [e for e in s.mon if e[0] == 'redraw']
        if not rd or not rd[-1][1] or ev.index('redraw') < ev.index('size'):
            self.rep(s, 'resize', 'the view is not drawn again after the size of the screen changed')


def check(tier):
    k = Keys(tier).go()
    v = list(k.eng.violations.values())
    if not v and (k.n['dispatched'] < 80 or k.n['sequences'] < 50 or k.n['loops'] < 6 or k.n['signals'] < 12):
        raise AnalysisBroken('C17: only %r' % k.n)
    return dict(violations=v,
                coverage=dict(dispatched=k.n['dispatched'], sequences=k.n['sequences'], loop_ends=k.n['loops'], signals=k.n['signals'],
                              functions=sorted(k.eng.analysed), functions_analysed=len(k.eng.analysed), paths=k.eng.stats['paths']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['ncurses names keys as documented', 'signals are delivered between operations of the program'])
