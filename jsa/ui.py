"""Shared harness of the checks of the interactive views: the object of a view, and a model of the screen."""
import random
from common import *
from nodes import NodeWorld
from models import cstr, norm

A_COLOR, A_REVERSE, A_BOLD = 0xff00, 1 << 18, 1 << 21


def ev(eng, v, env):
    k = v[0]
    if k == 'c':
        return v[1]
    if k in ('o', 'y'):
        return env[v[1]]
    if k == 'e':
        a = [ev(eng, x, env) for x in v[3:]]
        if None in a:
            return None
        if v[1] == 'select':
            return a[1] if a[0] else a[2]
        r = eng.fold(v[1], v[2], a, [eng.width(x) for x in v[3:]])
        return None if r is None else r & ((1 << v[2]) - 1)
    return None


def ids(v, out):
    if v[0] in ('o', 'y'):
        out[v[1]] = v
    elif v[0] == 'e':
        for x in v[3:]:
            ids(x, out)
    return out


def differs(eng, st, a, b, tries=24):
    """may two integer expressions differ?  They are evaluated for many values of their leaves (linear expressions that are equal
    for all of these are equal)."""
    a, b = eng.rebind(st, a), eng.rebind(st, b)
    if a == b:
        return False
    lv = ids(b, ids(a, {}))
    rnd = random.Random(1)
    for _ in range(tries):
        env = {}
        for i, x in lv.items():
            env[i] = rnd.choice(sorted(st.dom[i])) if x[0] == 'y' else rnd.getrandbits(x[2])
        x, y = ev(eng, a, env), ev(eng, b, env)
        if x is None or y is None or x != y:
            return True
    return False


def format_segs(eng, st, fmt, args):
    """text printed by a printf-like function; None when the format is not a constant"""
    f = cstr(eng, st, fmt)[0][1]
    if any(g[0] != 'k' for g in f):
        return None
    f = b''.join(g[1] for g in f)
    out, i, args = [], 0, list(args)
    while i < len(f):
        if f[i:i + 1] != b'%':
            j = f.find(b'%', i)
            j = len(f) if j < 0 else j
            out.append(('k', f[i:j]))
            i = j
            continue
        m = re.match(rb'%(-?)(\*|\d*)(?:\.(\*|\d+))?(hh|h|ll|l|z)?([csSdiux%])', f[i:])
        if not m:
            raise AnalysisBroken('format %r' % f)
        i += m.end()
        w = args.pop(0) if m.group(2) == b'*' else None
        if m.group(3) == b'*':
            args.pop(0)
        k = m.group(5)
        if k == b'%':
            out.append(('k', b'%'))
            continue
        a = args.pop(0)
        if w is not None or m.group(2) or m.group(3):
            out.append(('fmt', m.group(0).decode(), w, a if k != b's' else cstr(eng, st, a)[0][1]))
        elif k == b's':
            out += list(cstr(eng, st, a)[0][1])
        elif k == b'c':
            a = eng.rebind(st, a)
            if a[0] == 'e' and a[1] in ('sext', 'zext'):
                a = a[3]
            out.append(('ch', eng.mk('trunc', 8, a) if eng.width(a) > 8 else a))
        else:
            out.append(('fmt', m.group(0).decode(), None, a))
    r = []
    for g in out:
        r.append(g)
    return tuple(models.implode([g for g in r]) if all(g[0] != 'fmt' for g in r) else r)


class Screen:
    """ncurses: attributes per window and what is printed; calls mon.on_print(eng, st, win, pos, segs, attrs)"""

    def __init__(self, eng, mon):
        self.eng, self.mon = eng, mon
        m = eng.models
        for n in ('wattr_on', 'wattr_off', 'wattrset', 'wattron', 'wattroff', 'attron', 'attroff', 'attrset', 'wattr_set'):
            m[n] = self.attr
        m['wmove'], m['move'] = self.move, self.move
        for n in ('printw', 'wprintw', 'mvprintw', 'mvwprintw', 'waddnstr', 'addnstr', 'mvaddnstr', 'mvwaddnstr', 'waddstr', 'addstr',
                  'mvaddstr', 'mvwaddstr', 'waddch', 'addch', 'mvaddch', 'mvwaddch'):
            m[n] = self.put
        for n in ('wrefresh', 'refresh', 'clear', 'wclear', 'erase', 'werase', 'box', 'wborder', 'keypad', 'curs_set', 'wtimeout',
                  'cbreak', 'noecho', 'touchwin', 'wnoutrefresh', 'doupdate', 'flushinp'):
            m[n] = self.other
        self.win0 = ('stdscr',)

    def win(self, eng, st, v):
        v = eng.rebind(st, v)
        g = eng.mod.globals.get('stdscr') and st.mem.get(('G', 'stdscr'))
        if g is not None and g.cells.get(0) == v:
            return self.win0
        return v

    # ghost state: ('scr', ((win, bits), ...), ((win, pos), ...)) in st.mem[self.key]
    def start(self, st):
        self.key = self.eng.new_obj(st, 'ghost')
        st.mem[self.key].cells[0] = ('scr', (), ())
        return self.key

    def attrs(self, st, w):
        return dict(st.mem[self.key].cells[0][1]).get(w, 0)

    def set(self, st, w, bits=None, pos=None):
        _, a, p = st.mem[self.key].cells[0]
        if bits is not None:
            a = tuple(sorted(((k, v) for k, v in list(dict(a, **{}).items()) if k != w), key=repr)) + (((w, bits),) if bits else ())
        if pos is not None:
            p = tuple(x for x in p if x[0] != w) + ((w, pos),)
        st.wobj(self.key).cells[0] = ('scr', a, p)

    def pos(self, st, w):
        return dict(st.mem[self.key].cells[0][2]).get(w)

    def attr(self, eng, st, ins, fn, args):
        n = fn.name
        w, a = (self.win0, args[0]) if n in ('attron', 'attroff', 'attrset') else (self.win(eng, st, args[0]), args[1])
        vs = eng.values_of(st, eng.rebind(st, a))
        if vs is None or len(vs) > 64:
            raise AnalysisBroken('attributes of a text are not known')
        out = []
        for v in sorted(vs):
            s = st
            if len(vs) > 1:
                s = st.copy()
                r = [x for x, b in eng.split(s, eng.mk('icmp eq', 1, eng.rebind(s, a), C(v, eng.width(a)))) if b]
                if not r:
                    continue
                s = r[0]
            b = self.attrs(s, w)
            if n.endswith('on'):
                if n == 'wattr_on' or True:
                    b = (b & ~A_COLOR if v & A_COLOR else b) | v
            elif n.endswith('off'):
                b = (b & ~A_COLOR if v & A_COLOR else b) & ~(v & ~A_COLOR)
            else:
                b = v
            self.set(s, w, bits=b)
            out.append((s, C(0, 32)))
        return out

    def move(self, eng, st, ins, fn, args):
        w, y, x = (self.win0, args[0], args[1]) if fn.name == 'move' else (self.win(eng, st, args[0]), args[1], args[2])
        self.set(st, w, pos=(eng.rebind(st, y), eng.rebind(st, x)))
        return [(st, C(0, 32))]

    def put(self, eng, st, ins, fn, args):
        n, a = fn.name, list(args)
        mv = n.startswith('mv')
        n = n[2:] if mv else n
        w = self.win0
        if n.startswith('w'):
            w = self.win(eng, st, a.pop(0))
            n = n[1:]
        pos = None
        if mv:
            pos = (eng.rebind(st, a.pop(0)), eng.rebind(st, a.pop(0)))
        else:
            pos = self.pos(st, w) or ('after',)
        if n == 'printw':
            segs = format_segs(eng, st, a[0], a[1:])
            if segs is None:
                eng.report(st, 'format', 'text that is not constant is used as a format')
                segs = ()
        elif n == 'addch':
            c = eng.rebind(st, a[0])
            segs = (('ch', eng.mk('trunc', 8, c)),)
        else:
            segs = cstr(eng, st, a[0])[0][1]
            if n == 'addnstr':
                k = eng.rebind(st, a[1])
                if k[0] != 'c' or sgn(k[1], k[2]) >= 0:
                    ln = [models.seglen(eng, st, segs)] if hasattr(models, 'seglen') else [None]
                    if ln[0] is None or differs(eng, st, ln[0], eng.mk('sext', 64, k) if eng.width(k) < 64 else k):
                        segs = (('cut', segs, k),)
        self.set(st, w, pos=('after',))
        r = self.mon.on_print(eng, st, w, pos, segs, self.attrs(st, w))
        return [(s, C(0, 32)) for s in (r if r is not None else [st])]

    def other(self, eng, st, ins, fn, args):
        h = getattr(self.mon, 'on_screen', None)
        if h:
            h(eng, st, fn.name, args)
        return [(st, C(0, 32) if ins.ty[0] == 'i' else UNDEF)]


class UI:
    """objects of the views"""

    def __init__(self, name):
        self.p = p = prog()
        self.eng = Engine(p.mod, p.di, name=name)
        self.world = NodeWorld(p, self.eng)
        self.views = [('CurseSimpleOutput', '_ZTI17CurseSimpleOutput'), ('CurseSplitOutput', '_ZTI16CurseSplitOutput')]

    def off(self, cls, f):
        return self.p.di.off(cls, f)

    def virtual(self, ti, base, qual, pred=lambda f: True):
        """the function a view uses for a virtual function of CurseOutput"""
        mod = self.p.mod
        fs = [f for f in mod.find(qual) if pred(f)]
        if len(fs) != 1:
            raise AnalysisBroken('%s: %d functions' % (qual, len(fs)))
        return fs[0]

    def obj(self, st, cls, ti, **cells):
        k = self.eng.new_obj(st, 'lazy', lazy='any', cls=frozenset([ti]), di=cls)
        for n, v in cells.items():
            st.mem[k].cells[self.off(cls, n)] = v
        return k

    def flags(self, st, mode, typ, op):
        e = self.eng
        k = e.new_obj(st, 'lazy', lazy='any', cls=frozenset(['_ZTI10OutputFlag']), di='OutputFlag')
        c = st.mem[k].cells
        c[self.off('OutputFlag', 'mode')] = mode
        c[self.off('OutputFlag', '_type')] = typ
        c[self.off('OutputFlag', 'diffOpt')] = op
        return k

    def const(self, name):
        """value of a constant member of OutputFlag"""
        g = self.eng.mod.globals
        n = '_ZN10OutputFlag%d%sE' % (len(name), name)
        st = State()
        self.eng.gobj(st, n)
        v = self.eng.load(st, ('p', ('G', n), 0), ('i', 8))[0][1]
        return sgn(v[1], 8)

    def windows(self, st, this, n=2):
        """n sub-windows with fields of their own; [(slot, {field: value})]"""
        e = self.eng
        sl = []
        for i in range(n):
            k = e.new_obj(st, 'lazy', lazy='any', di='t_subWindow')
            sl.append(k)
        st.mem[this].cells[self.off('CurseSplitOutput', 'subWindows')] = ('Q', 'fin', tuple(sl))
        return sl
