"""C22: every input is read, displayed and reported as documented.

main is interpreted with everything it calls in main.cpp for one, two and three inputs (thorough: four) under a nondeterministic environment: the
command line asks for anything, the output is a terminal or not, every input can be read with any number of warnings, be
empty, end prematurely or be malformed in any way.  The sequence of events (readers, displays, messages, releases) at the end
of every path is compared with the documented one."""
from driver import *


class D(Driver):
    def __init__(self, n, warns):
        super().__init__('C22', n, warns)
        self.n = dict(ends=0, documents=0)

    def done(self, st, v, how):
        eng = self.eng
        sts = [st]
        for g in ('isDiff', 'compressed', 'isIgnoringUnicode'):
            sts = [x for s in sts for x, _ in eng.split(s, eng.mk('icmp ne', 1, eng.rebind(s, self.flags[g]), C(0, 1)))]
        sts = [x for s in sts for x, _ in eng.split(s, eng.mk('icmp ne', 1, eng.rebind(s, self.tty), C(0, 32)))]
        for s in sts:
            self.n['ends'] += 1
            self.judge(s, eng.rebind(s, v))

    def judge(self, st, v):
        ev = st.mon
        kinds = [e[0] for e in ev]
        parsed = [e[1] for e in ev if e[0] == 'parsed']
        rep = lambda r, m: self.rep(st, r, m)
        if len(parsed) != 1:
            rep('command-line', 'the command line is interpreted %s' % ('twice' if parsed else 'never'))
            return
        if ('params-dead',) not in ev:
            rep('params', 'the parameters are not released')
        elif [e for e in ev[ev.index(('params-dead',)) + 1:]]:
            rep('params', 'something is done after the parameters were released')
        text = self.text(st, st.mem[self.gh].cells[0][1])
        readers = [e for e in ev if e[0] == 'reader']
        shown = [e for e in ev if e[0] in ('display', 'run', 'terminal')]
        stat = v[1] if v is not None and v[0] == 'c' else None
        if parsed[0] is not True:
            if readers or shown:
                rep('command-line', 'inputs are read although the command line %s' % ('asks for nothing' if parsed[0] is False else 'is wrong'))
            if parsed[0] is None:
                if 'usage' not in kinds or not any(g[0] == 'a' and g != self.prog for g in text):
                    rep('command-line', 'a wrong command line is not reported with its reason and the usage')
                if stat is None or stat & 255 == 0:
                    rep('status', 'the program succeeds although the command line is wrong')
            elif stat != 0 or text:
                rep('status', 'help or version end with an error')
            return
        diff, tty = self.flag(st, 'isDiff'), self.eng.values_of(st, self.tty) == {1} and not self.flag(st, 'compressed')
        mode = 'diff' if diff else 'tty' if tty else 'plain'
        # locale
        loc = 'setlocale' in kinds and kinds.index('setlocale') < (kinds.index('reader') if readers else len(kinds))
        if loc == bool(self.flag(st, 'isIgnoringUnicode')):
            rep('locale', 'the locale is %s' % ('set although unicode is to be ignored' if loc else 'not set'))
        # readers
        seq = [e[2] for e in readers]
        if seq != list(range(len(seq))):
            rep('order', 'the inputs are not read one by one in the order of the command line')
            return
        res = {}
        for e in ev:
            if e[0] == 'read':
                res[e[2]] = e[3]
        bad = None
        for i in range(len(seq)):
            if i not in res:
                rep('order', 'an input is not read')
                return
            if res[i][0] != 'ok' and bad is None:
                bad = i
        if bad is not None and len(seq) > bad + 1:
            rep('order', 'another input is read after a malformed one')
        if bad is None and len(seq) != self.nin:
            rep('order', 'not all inputs are read')
            return
        good = list(range(bad if bad is not None else self.nin))
        self.n['documents'] += len(good)
        # displays
        disp = [e[1:] for e in ev if e[0] == 'display']
        runs = [e[1:] for e in ev if e[0] == 'run']
        if mode == 'plain':
            want = [(i, 'stdout') for i in good], []
        elif mode == 'tty':
            want = [], [((i,), ((self.names[i],),), 'CurseSimpleOutput') for i in good]
        elif bad is not None:
            want = [], []
        else:
            want = [], [(tuple(good), tuple((self.names[i],) for i in good), 'CurseSplitOutput')]
        if (disp, runs) != want:
            rep('display', {'plain': 'not every readable document is printed once, in order, to the standard output',
                            'tty': 'not every readable document is displayed once, in order, under its own name',
                            'diff': 'the comparison does not show exactly the documents of all inputs, in order, under their names'}[mode])
        # messages
        self.messages(st, text, bad, good, res, mode)
        if self.open_terminals(st):
            rep('terminal', 'the display is not released at the end')
        for e in readers:
            if ('freed', e[1]) not in ev and (bad is None or e[2] != bad or self.strict_free):
                rep('released', 'a document is never released')
            elif ev.count(('freed', e[1])) > 1:
                rep('released', 'a document is released twice')
        if bad is None and stat != 0:
            rep('status', 'the program fails although every input was read')

    strict_free = True

    def text(self, st, segs):
        """the text on the error output, without the line that marks the column"""
        out = []
        for g in models.norm(self.eng, st, segs):
            if g[0] == 'rep':
                continue
            if g[0] == 'k':
                b = g[1].replace(b'~', b'').replace(b'^', b'')
                if b:
                    models._push(out, ('k', b))
                continue
            out.append(g)
        return list(models.implode(out))

    def one(self, st, head, name, h, what, ty):
        f = st.facts
        line, col = f.get(('hist', 'line', (h,))), f.get(('hist', 'col', (h,)))
        if line is None or col is None:
            return [('k', b'?')]
        return [('k', head), self.prog, ('k', b': '), name, ('k', b' ['), ty, ('k', b'] at line '), ('num', line, 'u'),
                ('k', b', col '), ('num', col, 'u'), ('k', b' ('), what, ('k', b') while reading\n'), h, ('k', b'\n\n')]

    def messages(self, st, text, bad, good, res, mode):
        ev = st.mon
        rep = lambda r, m: self.rep(st, r, m)
        parts = []
        if bad is not None:
            if res[bad][0] == 'error':
                e = [e for e in ev if e[0] == 'failure'][0]
                parts.append(self.one(st, b'Error: ', self.names[bad], e[2], e[3], ('k', b'<' + e[4].encode() + b'>')))
            else:
                parts.append(None)
        ws = [self.one(st, b'Warning: ', self.names[e[1]], e[2], e[3], e[4]) for e in ev if e[0] == 'warning' and e[1] in good]
        alts = [parts + ws]
        if mode == 'diff' and bad is not None:
            alts.append(parts)
        if bad is not None:
            alts.append(ws + parts)
        for a in alts:
            if self.match(st, text, a, bad):
                return
        if bad is not None and not any(self.match(st, text[:n], parts, bad) for n in range(len(text) + 1)):
            rep('error-message', 'a malformed input is not reported with its name, place and reason')
        else:
            rep('warning-message', 'the warnings of the inputs are not reported once each, in order, with name, place and reason')

    def match(self, st, text, parts, bad):
        t = list(models.explode(text))
        for p in parts:
            if p is None:
                # end of input: a line with the name of the program and of the input
                line = []
                while t and t[0] != ('k', b'\n'):
                    line.append(t.pop(0))
                if not t or self.names[bad] not in line or self.prog not in line:
                    return False
                t.pop(0)
                continue
            for g in models.explode(models.norm(self.eng, st, models.implode(p))):
                if not t or not self.same(st, t[0], g):
                    return False
                t.pop(0)
        return not t

    def same(self, st, a, b):
        if a[0] == 'num' and b[0] == 'num' and b[1] is not None:
            return self.eng.rebind(st, a[1]) == self.eng.rebind(st, b[1])
        return a == b


class W(Driver):
    """a warning keeps what it was made from"""

    def __init__(self):
        super().__init__('C22 warnings', 0, ())

    def go(self):
        eng, n = self.eng, 0
        for fn in self.p.mod.find('Warning::Warning'):
            ps = models.params(fn)
            if len(ps) != 1 or 'JsonException' not in ps[0]:
                continue
            for ti in self.errors:
                st = State()
                st.mon = ()
                x = self.exc(eng, st, ti)
                h, w = st.mem[x].cells[self.histoff], st.mem[x].cells[self.whatoff]
                k = eng.new_obj(st, 'heap')
                eng.keep_mem = (x, k)
                eng.push(st, fn, [('p', k, 0), ('p', x, 0)])
                for e in eng.run([st]):
                    if e.kind == 'throw' and e.ti == '_ZTISt9bad_alloc':
                        continue
                    n += 1
                    s = e.state
                    c = s.mem[k].cells
                    t = c.get(self.typeoff())
                    if e.kind != 'ret' or c.get(self.wexc + self.histoff) != h or c.get(self.wexc + self.whatoff) != w or \
                            t is None or models.norm(eng, s, t[1]) != (('k', b'<' + ti.encode() + b'>'),):
                        self.rep(s, 'warning', 'a warning does not keep the kind, place and reason of its error')
        return n


def check(tier):
    viol, n, an, tot = [], {}, set(), dict(ends=0, documents=0)
    stats = dict(paths=0, states=0, steps=0)
    for nin, warns in ((1, (0, 1, 2)), (2, (0, 1, 2)), (3, (0, 1))) + (((4, (0, 1)),) if tier == 'thorough' else ()):
        d = D(nin, warns)
        d.go()
        viol += [v for v in d.eng.violations.values() if v['message'] not in {x['message'] for x in viol}]
        an |= set(d.eng.analysed)
        for k in tot:
            tot[k] += d.n[k]
        for k in stats:
            stats[k] += d.eng.stats[k]
        if viol:
            break
    w = W()
    nw = w.go()
    viol += list(w.eng.violations.values())
    if not viol and (nw < 8 or tot['ends'] < 100 or tot['documents'] < 50):
        raise AnalysisBroken('C22: only %r' % tot)
    return dict(violations=viol,
                coverage=dict(warnings_made=nw, ends_of_program=tot['ends'], documents=tot['documents'], error_classes=len(d.errors), functions=sorted(an),
                              functions_analysed=len(an), paths=stats['paths'], abstract_states=stats['states'], steps=stats['steps']),
                explanation=__doc__.split('\n\n', 1)[1],
                assumptions=['the reader, the two curses displays and the plain printer behave as their own checks say; here they '
                             'are events'])
