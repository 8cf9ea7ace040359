"""Abstract interpreter over LLVM IR: a path-sensitive dataflow analysis.

States are abstract (finite-domain inputs, opaque values with recorded facts, lazily
materialised heaps); states are joined by equality of their canonical form at every block
that has several predecessors, and integers that keep changing around a loop are widened, so
the exploration is a fixpoint computation over a finite state space.  No part of the program
is executed and no solver is used.
"""
import time
import re
import struct
from build import AnalysisBroken
from ir import PTR, VOID, strip_templates

NULL = ('c', 0, 64)
STOP = ('STOP',)       # monitor value: the path is not followed any further
UNDEF = ('u',)
DEAD = ('dead',)
TRUE = ('c', 1, 1)
FALSE = ('c', 0, 1)


def C(v, w=32):
    return ('c', v & ((1 << w) - 1), w)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Id:
    """Identity of an abstract object / opaque value; renumbered in canonical forms."""
    __slots__ = ('n', 'tag')

    def __init__(self, n, tag=''):
        self.n, self.tag = n, tag

    def __repr__(self):
        return '#%d%s' % (self.n, self.tag)


class Obj:
    """kind: alloca heap global lazy elem exc ;  cells: offset -> value"""
    __slots__ = ('kind', 'cells', 'size', 'cls', 'freed', 'lazy', 'site', 'di')

    def __init__(self, kind, size=None, cls=None, lazy=None, site=None, di=None):
        self.kind, self.size, self.cls, self.lazy, self.site, self.di = kind, size, cls, lazy, site, di
        self.cells = {}
        self.freed = False

    def clone(self):
        o = Obj(self.kind, self.size, self.cls, self.lazy, self.site, self.di)
        o.cells = dict(self.cells)
        o.freed = self.freed
        return o


class Frame:
    __slots__ = ('fn', 'bb', 'idx', 'regs', 'allocas', 'prev', 'visits', 'extra')

    def __init__(self, fn):
        self.fn, self.bb, self.idx, self.prev = fn, fn.entry, 0, None
        self.regs = {}
        self.allocas = []
        self.visits = {}
        self.extra = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.bb, f.idx, f.prev, f.extra = self.fn, self.bb, self.idx, self.prev, self.extra
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        return f


class State:
    __slots__ = ('frames', 'mem', 'own', 'dom', 'facts', 'bind', 'mon', 'trace', 'exc', 'caught', 'depth', 'at')

    def __init__(self):
        self.frames, self.mem, self.own = [], {}, set()
        self.dom, self.facts, self.bind = {}, {}, {}
        self.mon = None
        self.trace = None
        self.exc = None
        self.caught = ()
        self.depth = 0
        self.at = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.dom, s.facts, s.bind = dict(self.dom), dict(self.facts), dict(self.bind)
        s.mon, s.trace, s.exc, s.caught, s.depth = self.mon, self.trace, self.exc, self.caught, self.depth
        s.at = self.at
        return s

    def obj(self, k):
        return self.mem.get(k)

    def wobj(self, k):
        o = self.mem[k]
        if k not in self.own:
            o = o.clone()
            self.mem[k] = o
            self.own.add(k)
        return o

    def note(self, msg):
        self.trace = (self.trace, msg)
        return self


class Throw:
    def __init__(self, ti, what=None, obj=None):
        self.ti, self.what, self.obj = ti, what, obj


class Violation(Exception):
    pass


class Stop(Exception):
    """raised by a monitor: the current path is not followed any further"""


def is_plain(v):
    """does not depend on anything of the analysis it was computed in"""
    if isinstance(v, tuple):
        return all(is_plain(x) for x in v)
    return not isinstance(v, Id)


class Exit:
    """How a path ended: kind in ret / throw / exit / terminate."""

    def __init__(self, kind, state, value=None, ti=None, why=None):
        self.kind, self.state, self.value, self.ti, self.why = kind, state, value, ti, why


def fnum(v):
    """the number a floating constant is, None if it is not known"""
    if v[0] != 'fc':
        return None
    if isinstance(v[1], float):
        return v[1]
    if v[1].startswith('0x'):
        return struct.unpack('>d', struct.pack('>Q', int(v[1], 16)))[0] if re.match('0x[0-9A-Fa-f]+$', v[1]) else None
    return float(v[1])


def fround(x, ty):
    return struct.unpack('f', struct.pack('f', x))[0] if ty == ('f', 'float') else x


class Engine:
    live = []
    widen_delay = 0         # changes of a constant in a loop before it is widened
    MAX_UNROLL = 6
    str_limit = None
    split_bool = False      # decide a condition that is counted with
    unroll = None
    MAX_STEPS = 6_000_000
    MAX_DEPTH = 60

    def __init__(self, mod, di=None, models=None, name=''):
        self.mod = mod
        self.di = di
        self.name = name
        self.ids = 0
        import models as M
        self.models = dict(M.MODELS)
        self.rx_models = list(M.RX_MODELS)
        self.rx_cache = {}
        if models:
            self.models.update(models)
        self.cuts = {}
        self.violations = {}
        self.endless = None
        self.stats = dict(steps=0, states=0, forks=0, calls=0, merged=0, paths=0)
        self.analysed = set()
        self.sites = set()
        self.unknown = {}
        self.mon = None            # monitor object with hooks
        self.lazy_class = {}
        self.exits = []
        Engine.live.append(self)
        self._dyn = {}
        self.allow_unknown = None
        self.on_deref_problem = None
        self._livec = {}
        self._marked = {}
        self.keep_links = ()     # cells of lazy objects that widening keeps
        self.keep_mem = ()

    # ------------------------------------------------------------------ ids / values
    def new_id(self, tag=''):
        self.ids += 1
        return Id(self.ids, tag)

    def opaque(self, w, tag=''):
        return ('o', self.new_id(tag), w)

    def sym(self, st, w, dom, tag=''):
        i = self.new_id(tag)
        st.dom[i] = frozenset(x & ((1 << w) - 1) for x in dom)
        return ('y', i, w)

    def new_obj(self, st, kind, **kw):
        k = self.new_id(kind[0])
        st.mem[k] = Obj(kind, **kw)
        st.own.add(k)
        return k

    def atom(self, tag=''):
        """an opaque string segment"""
        return ('a', self.new_id(tag))

    # ------------------------------------------------------------------ expression algebra
    def width(self, v):
        k = v[0]
        if k in ('c', 'o', 'y'):
            return v[2]
        if k == 'e':
            return v[2]
        return 64

    def resolve(self, st, v):
        """apply bindings to an opaque"""
        while v[0] == 'o' and v[1] in st.bind:
            v = st.bind[v[1]]
        if v[0] == 'y':
            d = st.dom[v[1]]
            if len(d) == 1:
                return ('c', next(iter(d)), v[2])
        return v

    def mk(self, op, w, *a):
        """build an expression with constant folding and light normalisation"""
        if all(x[0] == 'c' for x in a):
            r = self.fold(op, w, [x[1] for x in a], [x[2] for x in a])
            if r is not None:
                return ('c', r & ((1 << w) - 1), w)
        if op == 'sub' and a[1][0] == 'c':
            op, a = 'add', (a[0], C(-a[1][1], w))
        if op == 'sub' and a[0] == a[1]:
            return C(0, w)
        if op in ('add', 'mul', 'and', 'or', 'xor') and a[0][0] == 'c':
            a = (a[1], a[0])
        if op == 'add' and a[1][0] == 'c':
            if a[1][1] == 0:
                return a[0]
            if a[0][0] == 'e' and a[0][1] == 'add' and a[0][4][0] == 'c':
                return self.mk('add', w, a[0][3], C(a[0][4][1] + a[1][1], w))
        if op == 'sub' and a[0][0] == 'e' and a[0][1] == 'add' and a[0][3] == a[1]:
            return a[0][4]
        if op == 'sub' and a[0][0] == 'e' and a[0][1] == 'add' and a[0][4] == a[1]:
            return a[0][3]
        if op == 'sub' and a[1][0] == 'e' and a[1][1] == 'add' and a[1][4][0] == 'c':
            # x - (y + c)  ->  (x - y) + (-c)
            return self.mk('add', w, self.mk('sub', w, a[0], a[1][3]), C(-a[1][4][1], w))
        if op == 'sub' and a[0][0] == 'e' and a[0][1] == 'add' and a[0][4][0] == 'c':
            return self.mk('add', w, self.mk('sub', w, a[0][3], a[1]), a[0][4])
        if op == 'mul' and a[1][0] == 'c':
            if a[1][1] == 1:
                return a[0]
            if a[1][1] == 0:
                return C(0, w)
        if op == 'and' and a[1][0] == 'c':
            if a[1][1] == 0:
                return C(0, w)
            if a[1][1] == (1 << w) - 1:
                return a[0]
            if a[0][0] == 'e' and a[0][1] == 'zext':
                sw = self.width(a[0][3])
                if (a[1][1] & ((1 << sw) - 1)) == (1 << sw) - 1:
                    return a[0]
        if op in ('or', 'xor', 'shl', 'lshr', 'ashr') and a[1][0] == 'c' and a[1][1] == 0:
            return a[0]
        if op in ('and', 'or') and a[0] == a[1]:
            return a[0]
        if op == 'xor' and w == 1 and a[1] == TRUE and a[0][0] == 'e' and a[0][1] == 'xor' and a[0][4] == TRUE:
            return a[0][3]
        if op in ('udiv', 'sdiv') and a[1][0] == 'c' and a[1][1] == 1:
            return a[0]
        if op in ('zext', 'sext') and a[0][0] == 'e' and a[0][1] == op:
            return self.mk(op, w, a[0][3])
        if op == 'trunc':
            x = a[0]
            if x[0] == 'e' and x[1] in ('zext', 'sext'):
                iw = self.width(x[3])
                if iw == w:
                    return x[3]
                if iw > w:
                    return self.mk('trunc', w, x[3])
                return self.mk(x[1], w, x[3])
            if x[0] == 'e' and x[1] == 'trunc':
                return self.mk('trunc', w, x[3])
            if x[0] == 'e' and x[1] == 'or' and self.packed(x):
                return self.mk('or', w, self.mk('trunc', w, x[3]), self.mk('trunc', w, x[4]))
            if x[0] == 'e' and x[1] == 'shl' and x[4][0] == 'c' and x[4][1] >= w:
                return C(0, w)
        if op == 'lshr' and a[1][0] == 'c' and a[0][0] == 'e':
            x, n = a[0], a[1][1]
            if x[1] == 'or' and self.packed(x):
                return self.mk('or', w, self.mk('lshr', w, x[3], a[1]), self.mk('lshr', w, x[4], a[1]))
            if x[1] == 'zext' and self.width(x[3]) <= n:
                return C(0, w)
            if x[1] == 'shl' and x[4] == a[1] and x[3][0] == 'e' and x[3][1] == 'zext' and self.width(x[3][3]) <= w - n:
                return x[3]
        if op == 'icmp':
            pass
        if op in ('add', 'mul', 'and', 'or', 'xor') and a[1][0] != 'c' and repr_key(a[1]) < repr_key(a[0]):
            a = (a[1], a[0])
        e = ('e', op, w) + tuple(a)
        if depth(e) > 14:
            return self.opaque(w, 'deep')
        return e

    def packed(self, x):
        """two values side by side in one integer"""
        def part(y):
            return y[0] == 'e' and (y[1] == 'zext' or y[1] == 'shl' and y[4][0] == 'c' and y[4][1] and part(y[3]))
        return part(x[3]) and part(x[4])

    def fold(self, op, w, v, ws):
        m = (1 << w) - 1
        a = v[0]
        b = v[1] if len(v) > 1 else None
        sw = ws[0]
        try:
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < 200 else 0
            if op == 'lshr':
                return a >> b
            if op == 'ashr':
                return (sgn(a, sw) >> b) & m
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op == 'sdiv':
                x, y = sgn(a, sw), sgn(b, sw)
                q = abs(x) // abs(y)
                return (q if (x < 0) == (y < 0) else -q) & m
            if op == 'srem':
                x, y = sgn(a, sw), sgn(b, sw)
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                return (x - q * y) & m
            if op == 'zext' or op == 'trunc':
                return a & m
            if op == 'sext':
                return sgn(a, sw) & m
            if op == 'tolower':
                s = sgn(a, sw)
                return (s + 32 if 65 <= s <= 90 else s) & m
            if op == 'toupper':
                s = sgn(a, sw)
                return (s - 32 if 97 <= s <= 122 else s) & m
            if op == 'hexv':
                return int(chr(a & 255), 16)
            if op.startswith('is:'):
                s = sgn(a, sw)
                ch = chr(s) if 0 <= s < 128 else None
                r = False
                if ch is not None:
                    r = {'digit': ch.isdigit(), 'alpha': ch.isalpha(), 'alnum': ch.isalnum(),
                         'space': ch in ' \t\n\r\v\f', 'upper': ch.isupper(), 'lower': ch.islower(),
                         'xdigit': ch in '0123456789abcdefABCDEF', 'print': 32 <= s < 127,
                         'cntrl': s < 32 or s == 127,
                         'punct': 33 <= s < 127 and not ch.isalnum()}[op[3:]]
                return 1 if r else 0
            if op.startswith('icmp'):
                return 1 if icmp(op[5:], a, b, sw) else 0
        except ZeroDivisionError:
            return None
        return None

    # leaves of an expression
    def leaves(self, v, out):
        k = v[0]
        if k in ('y', 'o'):
            out[v[1]] = v
        elif k == 'e':
            for x in v[3:]:
                if isinstance(x, tuple):
                    self.leaves(x, out)
        elif k == 'c':
            pass
        else:
            out[('x', v)] = ('x',)
        return out

    def subst_eval(self, v, env):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'y':
            return env[v[1]]
        vals = [self.subst_eval(x, env) for x in v[3:]]
        if None in vals:
            return None
        if v[1] == 'select':
            return vals[1] if vals[0] else vals[2]
        return self.fold(v[1], v[2], vals, [self.width(x) for x in v[3:]])

    def rebind(self, st, v):
        """rewrite an expression after domain refinements/bindings"""
        k = v[0]
        if k in ('o', 'y'):
            return self.resolve(st, v)
        if k == 'e':
            ch = False
            args = []
            for x in v[3:]:
                y = self.rebind(st, x)
                ch |= y is not x
                args.append(y)
            if v[1] in ('icmp eq', 'icmp ne') and args[0][0] == 'p' and args[1][0] == 'p':
                r = self.ptr_eq(st, args[0], args[1])
                if r is not None:
                    return TRUE if r == (v[1] == 'icmp eq') else FALSE
            if ch:
                return self.mk(v[1], v[2], *args)
        return v

    def values_of(self, st, v, limit=70000):
        """set of concrete values of v if it ranges over finite inputs, else None"""
        v = self.rebind(st, v)
        if v[0] == 'c':
            return {v[1]}
        lv = self.leaves(v, {})
        if any(x[0] != 'y' for x in lv.values()):
            return None
        n = 1
        for i in lv:
            n *= len(st.dom[i])
        if n > limit:
            return None
        out = set()
        ids = list(lv)

        def rec(k, env):
            if k == len(ids):
                out.add(self.subst_eval(v, env))
                return
            for x in st.dom[ids[k]]:
                env[ids[k]] = x
                rec(k + 1, env)
        rec(0, {})
        if None in out:
            return None
        return out

    # ------------------------------------------------------------------ branching
    def split(self, st, cond):
        """[(state, bool)] for a width-1 (or any int: !=0) condition."""
        cond = self.rebind(st, cond)
        if cond[0] == 'c':
            return [(st, bool(cond[1]))]
        if cond[0] in ('p', 'fp', 'sp'):
            return [(st, True)]
        if cond[0] == 'u':
            self.report(st, 'uninit-branch', 'branch on an uninitialised value')
            return self._both(st)
        # negations
        if cond[0] == 'e' and cond[1] == 'xor' and cond[2] == 1 and cond[4] == TRUE:
            return [(s, not b) for s, b in self.split(st, cond[3])]
        if cond[0] == 'e' and cond[1] == 'icmp eq' and cond[4][0] == 'c' and self.width(cond[3]) == 1:
            return [(s, b == bool(cond[4][1])) for s, b in self.split(st, cond[3])]
        if cond[0] == 'e' and cond[1] == 'icmp ne' and cond[4][0] == 'c' and self.width(cond[3]) == 1:
            return [(s, b != bool(cond[4][1])) for s, b in self.split(st, cond[3])]
        if cond[0] == 'e' and cond[1] in ('icmp eq', 'icmp ne') and cond[4][0] == 'c' and cond[3][0] == 'e' and \
                cond[3][1] in ('zext', 'sext') and self.width(cond[3][3]) == 1:
            one = 1 if cond[3][1] == 'zext' else (1 << cond[3][2]) - 1
            eq = cond[1] == 'icmp eq'
            if cond[4][1] == 0:
                return [(s, (not b) == eq) for s, b in self.split(st, cond[3][3])]
            if cond[4][1] == one:
                return [(s, b == eq) for s, b in self.split(st, cond[3][3])]
            return [(st, not eq)]
        if cond[0] == 'e' and cond[1] in ('zext', 'sext', 'trunc') and cond[1] != 'trunc':
            return self.split(st, cond[3])
        if cond[0] == 'e' and cond[1] == 'and' and cond[2] == 1:
            out = []
            for s, b in self.split(st, cond[3]):
                if not b:
                    out.append((s, False))
                else:
                    out += self.split(s, cond[4])
            return out
        if cond[0] == 'e' and cond[1] == 'or' and cond[2] == 1:
            out = []
            for s, b in self.split(st, cond[3]):
                if b:
                    out.append((s, True))
                else:
                    out += self.split(s, cond[4])
            return out
        if cond[0] == 'e' and cond[1] == 'select':
            out = []
            for s, b in self.split(st, cond[3]):
                out += self.split(s, cond[4] if b else cond[5])
            return out
        lv = self.leaves(cond, {})
        if lv and all(x[0] == 'y' for x in lv.values()):
            return self._split_finite(st, cond, list(lv))
        return self._split_opaque(st, cond)

    def _both(self, st):
        self.stats['forks'] += 1
        s2 = st.copy()
        return [(st, True), (s2, False)]

    def _split_finite(self, st, cond, ids):
        if len(ids) == 1:
            i = ids[0]
            T, F = [], []
            for x in st.dom[i]:
                r = self.subst_eval(cond, {i: x})
                if r is None:
                    return self._split_memo(st, cond)
                (T if r else F).append(x)
            if not F:
                return [(st, True)]
            if not T:
                return [(st, False)]
            s2 = st.copy()
            self.stats['forks'] += 1
            st.dom[i] = frozenset(T)
            s2.dom[i] = frozenset(F)
            return [(st, True), (s2, False)]
        n = 1
        for i in ids:
            n *= len(st.dom[i])
        if n > 70000:
            return self._split_memo(st, cond)
        if len(ids) == 2:
            # split exactly: for each value of the smaller leaf
            a, b = sorted(ids, key=lambda i: len(st.dom[i]))
            rows = {}
            for x in st.dom[a]:
                T = frozenset(y for y in st.dom[b] if self.subst_eval(cond, {a: x, b: y}))
                rows.setdefault(T, []).append(x)
            if len(rows) <= 8:
                out = []
                for T, xs in rows.items():
                    F = st.dom[b] - T
                    for d, r in ((T, True), (F, False)):
                        if d:
                            s2 = st.copy()
                            s2.dom[a] = frozenset(xs)
                            s2.dom[b] = d
                            out.append((s2, r))
                # merge if all the same outcome
                if len({r for _, r in out}) == 1:
                    return [(st, out[0][1])]
                self.stats['forks'] += 1
                return out
        vals = self.values_of(st, cond)
        if vals is not None and len(vals) == 1:
            return [(st, bool(next(iter(vals))))]
        return self._split_memo(st, cond)

    def _split_memo(self, st, cond):
        if cond in st.facts:
            return [(st, st.facts[cond])]
        s2 = st.copy()
        self.stats['forks'] += 1
        st.facts[cond] = True
        s2.facts[cond] = False
        return [(st, True), (s2, False)]

    def linear(self, e):
        """(base, const) decomposition"""
        if e[0] == 'e' and e[1] == 'add' and e[4][0] == 'c':
            return e[3], e[4][1]
        return e, 0

    def _split_opaque(self, st, cond):
        if cond[0] == 'e' and cond[1].startswith('icmp '):
            pred = cond[1][5:]
            a, b = cond[3], cond[4]
            w = self.width(a)
            if a == b:
                return [(st, pred in ('eq', 'ule', 'uge', 'sle', 'sge'))]
            if a[0] == 'c':
                a, b = b, a
                pred = SWAP[pred]
            # opaque pointer against null / object
            if a[0] == 'o' and w == 64 and b == NULL and pred in ('eq', 'ne'):
                key = ('null', a)
                if key in st.facts:
                    r = st.facts[key]
                    return [(st, r == (pred == 'eq'))]
                if 0 in st.facts.get(('ne', a), ()):
                    return [(st, pred == 'ne')]
                s2 = st.copy()
                self.stats['forks'] += 1
                st.facts[key] = True
                st.bind[a[1]] = NULL
                s2.facts[key] = False
                rng = s2.facts.get(('rng', a))
                if rng is not None and isinstance(rng, tuple) and rng[0] == 0:
                    s2.facts[('rng', a)] = (1, rng[1])
                out = [(st, pred == 'eq'), (s2, pred != 'eq')]
                if ('rng', a) in st.facts and isinstance(st.facts[('rng', a)], tuple) and st.facts[('rng', a)][0] > 0:
                    return out[1:]
                return out
            if b[0] == 'c':
                base, k = self.linear(a)
                return self._split_range(st, base, k, pred, b[1], w, cond)
            if pred in ('eq', 'ne') and (a[0] == 'p' or b[0] == 'p'):
                r = self.ptr_eq(st, a, b)
                if r is not None:
                    return [(st, r == (pred == 'eq'))]
                x, y = (a, b) if a[0] == 'o' else (b, a)
                if x[0] == 'o' and y[0] == 'p':
                    key = ('peq', x, y)
                    if key in st.facts:
                        return [(st, st.facts[key] == (pred == 'eq'))]
                    s2 = st.copy()
                    self.stats['forks'] += 1
                    st.bind[x[1]] = y
                    s2.facts[key] = False
                    return [(st, pred == 'eq'), (s2, pred == 'ne')]
            return self._split_rel(st, a, b, pred, w)
        if cond[0] == 'o' and cond[2] == 1:
            s2 = st.copy()
            self.stats['forks'] += 1
            st.bind[cond[1]] = TRUE
            s2.bind[cond[1]] = FALSE
            return [(st, True), (s2, False)]
        return self._split_memo(st, cond)

    def _split_range(self, st, base, k, pred, c, w, cond):
        """base + k PRED c  with base opaque: keep an unsigned interval for base (when it
        does not wrap) plus a memo of excluded values."""
        m = (1 << w) - 1
        if k != 0:
            bl, bh = st.facts.get(('rng', base), (0, m))
            if pred in ('eq', 'ne'):
                c = (c - k) & m
            elif pred[0] == 'u' and bh + k <= m and c >= k:
                c -= k
            elif pred[0] == 'u' and bh + k <= m:
                return [(st, pred in ('ugt', 'uge'))]
            else:
                key = ('rel', pred, base, k, c)
                if key in st.facts:
                    return [(st, st.facts[key])]
                # complementary predicate
                ck = ('rel', NEG[pred], base, k, c)
                if ck in st.facts:
                    return [(st, not st.facts[ck])]
                s2 = st.copy()
                self.stats['forks'] += 1
                st.facts[key] = True
                s2.facts[key] = False
                return [(st, True), (s2, False)]
        signed = pred[0] == 's' and pred != 'eq'
        key = ('srng', base) if signed else ('rng', base)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, m)
        if key in st.facts:
            lo, hi = st.facts[key]
        ex = st.facts.get(('ne', base), frozenset())
        if pred in ('eq', 'ne'):
            # use both interval kinds
            inr = True
            if ('rng', base) in st.facts:
                l2, h2 = st.facts[('rng', base)]
                inr = l2 <= c <= h2
            if inr and ('srng', base) in st.facts:
                l2, h2 = st.facts[('srng', base)]
                inr = l2 <= sgn(c, w) <= h2
            if c in ex or not inr:
                return [(st, pred == 'ne')]
            if lo == hi == c:
                return [(st, pred == 'eq')]
            s2 = st.copy()
            self.stats['forks'] += 1
            if base[0] == 'o':
                st.bind[base[1]] = C(c, w)
            st.facts[('rng', base)] = (c, c)
            s2.facts[('ne', base)] = ex | {c}
            l2, h2 = s2.facts.get(('rng', base), (0, m))
            if c == l2:
                l2 += 1
            if c == h2:
                h2 -= 1
            s2.facts[('rng', base)] = (l2, h2)
            return [(st, pred == 'eq'), (s2, pred != 'eq')]
        cc = sgn(c, w) if signed else c
        # nonneg unsigned range helps signed queries
        if signed and ('rng', base) in st.facts:
            l2, h2 = st.facts[('rng', base)]
            if h2 < (1 << (w - 1)):
                lo, hi = max(lo, l2), min(hi, h2)
        p = pred[1:]
        tl, th, fl, fh = {'lt': (lo, min(hi, cc - 1), max(lo, cc), hi), 'le': (lo, min(hi, cc), max(lo, cc + 1), hi),
                          'gt': (max(lo, cc + 1), hi, lo, min(hi, cc)), 'ge': (max(lo, cc), hi, lo, min(hi, cc - 1))}[p]
        out = []
        if tl <= th and fl <= fh:
            s2 = st.copy()
            self.stats['forks'] += 1
            st.facts[key] = (tl, th)
            s2.facts[key] = (fl, fh)
            if tl == th and base[0] == 'o':
                st.bind[base[1]] = C(tl, w)
            if fl == fh and base[0] == 'o':
                s2.bind[base[1]] = C(fl, w)
            return [(st, True), (s2, False)]
        return [(st, tl <= th)]

    def _split_rel(self, st, a, b, pred, w):
        """relation between two opaque expressions: subset of {<,=,>}"""
        swap = repr_key(b) < repr_key(a)
        if swap:
            a, b, pred = b, a, SWAP[pred]
        signed = pred[0] == 's'
        key = ('cmp', 's' if signed else 'u', a, b)
        cur = st.facts.get(key, frozenset('<=>'))
        oth = st.facts.get(('cmp', 'u' if signed else 's', a, b))
        if oth is not None:
            if '=' not in oth:
                cur = cur - {'='}
            elif oth == frozenset('='):
                cur = frozenset('=')
        sel = {'eq': '=', 'ne': '<>', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred if pred in ('eq', 'ne') else pred[1:]]
        t = cur & frozenset(sel)
        f = cur - frozenset(sel)
        if t and f:
            s2 = st.copy()
            self.stats['forks'] += 1
            st.facts[key] = t
            s2.facts[key] = f
            return [(st, True), (s2, False)]
        return [(st, bool(t))]

    # ------------------------------------------------------------------ reporting
    def where(self, st):
        """innermost repo location of the state, plus the repo call chain"""
        chain = []
        for f in reversed(st.frames):
            b = f.fn.blocks[f.bb]
            ins = b.insts[min(f.idx, len(b.insts) - 1)]
            if f.fn.is_repo():
                chain.append('%s (%s)' % (self.mod.loc(ins), f.fn.qual))
        if not chain and st.at:
            return list(st.at)
        return chain

    def report(self, st, rule, msg, key=None):
        ch = self.where(st)
        loc = ch[0] if ch else '?'
        k = key or (rule, loc, msg)
        if k not in self.violations:
            tr = []
            t = st.trace
            while t is not None and len(tr) < 60:
                tr.append(t[1])
                t = t[0]
            self.violations[k] = dict(rule=rule, where=loc, message=msg, chain=ch, path=list(reversed(tr)), t=time.time())
        return self.violations[k]

    # ------------------------------------------------------------------ memory
    def gobj(self, st, name):
        """ensure global object"""
        k = ('G', name)
        if k not in st.mem:
            o = Obj('global')
            st.mem[k] = o
            st.own.add(k)
            g = self.mod.global_init(name)
            if g and g[1] is not None:
                if g[1][0] == 'str':
                    o.cells['str'] = ('bytes', g[1][1])
                    o.size = len(g[1][1])
                else:
                    self._init_cells(st, o, 0, g[0], g[1])
                if g[0][0] == 'arr' and g[1][0] == 'zero':
                    o.cells['zero'] = True
                if not g[2] and self.mod.is_const_global(name):
                    x = self.dyn_init(name)
                    if x is not None:
                        o.cells = dict(x)
        return k

    def dyn_init(self, name):
        """contents of a constant that is initialised at start-up"""
        if name in self._dyn:
            return self._dyn[name]
        self._dyn[name] = None
        fns = self.mod.dyn_init(name)
        if len(fns) == 1:
            e = Engine(self.mod, self.di, name='init')
            Engine.live.remove(e)
            st = State()
            e.push(st, fns[0], [])
            try:
                xs = e.run([st])
            except AnalysisBroken:
                xs = []
            if len(xs) == 1 and xs[0].kind == 'ret':
                c = xs[0].state.mem.get(('G', name))
                if c is not None and all(is_plain(v) for v in c.cells.values()):
                    self._dyn[name] = c.cells
        return self._dyn[name]

    def _init_cells(self, st, o, off, t, v):
        if v[0] == 'agg':
            if t[0] == 'arr':
                es = self.mod.sizeof(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self._init_cells(st, o, off + i * es, et, ev)
            else:
                offs = self.mod.layout(t)[0]
                for i, (et, ev) in enumerate(v[1]):
                    self._init_cells(st, o, off + offs[i], et, ev)
        elif v[0] == 'zero':
            self._zero(o, off, t)
        elif v[0] == 'str':
            for i, c in enumerate(v[1]):
                o.cells[off + i] = C(c, 8)
        else:
            o.cells[off] = self.const(st, v, t)

    def _zero(self, o, off, t):
        if t[0] in ('st', 'lit'):
            offs = self.mod.layout(t)[0]
            for e, x in zip(self.mod.elems(t), offs):
                self._zero(o, off + x, e)
        elif t[0] == 'arr':
            if t[1] <= 256:
                for i in range(t[1]):
                    self._zero(o, off + i * self.mod.sizeof(t[2]), t[2])
        elif t[0] == 'i':
            o.cells[off] = C(0, t[1])
        elif t[0] == 'ptr':
            o.cells[off] = NULL
        else:
            o.cells[off] = ('fc', 0.0)

    def const(self, st, v, t):
        k = v[0]
        if k == 'c':
            return C(v[1], t[1] if t[0] == 'i' else 64)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            if t[0] == 'i':
                return C(0, t[1])
            if t[0] == 'ptr':
                return NULL
            if t[0] in ('lit', 'st'):
                return ('agg',) + tuple(self.const(st, ('zero',), e) for e in self.mod.elems(t))
            return ('fc', 0.0)
        if k == 'f':
            return ('fc', v[1])
        if k == 'g':
            n = v[1]
            if n in self.mod.funcs:
                return ('fp', n)
            g = self.mod.global_init(n)
            if g and g[1] and g[1][0] == 'aliasof':
                return self.const(st, g[1][1], t)
            return ('p', self.gobj(st, n), 0)
        if k == 'agg':
            return ('agg',) + tuple(self.const(st, ev, et) for et, ev in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base = self.const(st, v[3][0][1], PTR)
                off, var = self.gep_off(st, v[2], v[3][1:], None)
                return self.padd(st, base, off)
            if v[1] in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.const(st, v[3], v[2])
            if v[1] in ('trunc', 'zext', 'sext'):
                return self.mk(v[1], v[4][1], self.const(st, v[3], v[2]))
            ops = [self.const(st, x, tt) for tt, x in v[2]]
            if v[1] in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                if all(o[0] == 'c' for o in ops):
                    return self.mk(v[1], self.width(ops[0]), *ops)
            return self.opaque(64, 'ce')
        if k == 'str':
            return ('bytes', v[1])
        if k == 'md':
            return v
        raise AnalysisBroken('const %r' % (v,))

    def padd(self, st, p, off):
        if p[0] == 'p':
            if isinstance(off, int):
                if isinstance(p[2], int):
                    return ('p', p[1], p[2] + off)
                return ('p', p[1], self.mk('add', 64, p[2], C(off, 64)) if off else p[2])
            return ('p', p[1], self.mk('add', 64, off, C(p[2], 64)) if isinstance(p[2], int)
                    else self.mk('add', 64, p[2], off))
        if p[0] == 'sp':
            if isinstance(off, int):
                return ('sp', p[1], p[2], self._iadd(p[3], off))
            return ('sp', p[1], p[2], self._iadd2(p[3], off))
        if p[0] == 'vt':
            if isinstance(off, int):
                return ('vs', p[1], off)
        if p[0] == 'vs' and isinstance(off, int):
            return ('vs', p[1], p[2] + off)
        if off == 0:
            return p
        if p[0] in ('o', 'e', 'c'):
            o = C(off, 64) if isinstance(off, int) else off
            return self.mk('add', 64, p, o)
        return ('badp', p, off)

    def _iadd(self, a, k):
        if isinstance(a, int):
            return a + k
        r = self.mk('add', 64, a, C(k, 64))
        return r[1] if r[0] == 'c' else r

    def _iadd2(self, a, e):
        if isinstance(a, int):
            if e[0] == 'c':
                return a + sgn(e[1], 64)
            return self.mk('add', 64, e, C(a, 64)) if a else e
        return self.mk('add', 64, a, e)

    def gep_off(self, st, bt, idxs, regs):
        """(offset int|expr)"""
        off = 0
        var = None
        t = bt
        for n, (it, iv) in enumerate(idxs):
            if n == 0:
                sz = self.mod.sizeof(t)
            elif t[0] in ('st', 'lit'):
                i = iv[1]
                off += self.mod.layout(t)[0][i]
                t = self.mod.elems(t)[i]
                continue
            elif t[0] in ('arr', 'vec'):
                t = t[2]
                sz = self.mod.sizeof(t)
            else:
                raise AnalysisBroken('gep into %r' % (t,))
            v = self.const(st, iv, it) if iv[0] != 'l' else regs[iv[1]]
            v = self.rebind(st, v) if v[0] in ('o', 'y', 'e') else v
            if v[0] == 'c':
                off += sgn(v[1], v[2]) * sz
            elif v[0] == 'u':
                var = self.opaque(64, 'undefidx')
            else:
                x = v if self.width(v) == 64 else self.mk('sext', 64, v)
                x = self.mk('mul', 64, x, C(sz, 64))
                var = x if var is None else self.mk('add', 64, var, x)
        if var is not None:
            return (self.mk('add', 64, var, C(off, 64)) if off else var), True
        return off, False

    # -- pointer resolution: make sure p points at an object; returns list of (state, ptr)
    def deref(self, st, p, why='dereference'):
        p = self.rebind(st, p) if p[0] in ('o', 'y', 'e') else p
        if p[0] in ('p', 'sp', 'vt', 'vs'):
            return [(st, p)]
        if p[0] == 'c':
            if p[1] == 0 or p[1] < 4096:
                self.null_deref(st, p, why)
                return []
        if p[0] == 'o':
            # opaque pointer, materialise a lazy object (null is a separate outcome)
            out = []
            nk = st.facts.get(('null', p))
            if nk is None and self.opaque_may_be_null(st, p):
                s2 = st.copy()
                s2.bind[p[1]] = NULL
                s2.facts[('null', p)] = True
                self.null_deref(s2, NULL, why)
            st.facts[('null', p)] = False
            k = self.new_obj(st, 'lazy', lazy='any')
            st.bind[p[1]] = ('p', k, 0)
            return [(st, ('p', k, 0))]
        if p[0] == 'e' and p[1] == 'add' and p[3][0] == 'o' and p[4][0] == 'c':
            r = self.deref(st, p[3], why)
            return [(s, self.padd(s, q, sgn(p[4][1], 64))) for s, q in r]
        if p[0] == 'u':
            self.report(st, 'uninit-pointer', 'an uninitialised pointer is dereferenced')
            return []
        if p[0] == 'dead':
            self.report(st, 'dangling', 'a pointer to a destroyed object is used')
            return []
        if p[0] == 'fp':
            return [(st, p)]
        # unknown pointer
        k = self.new_obj(st, 'lazy', lazy='any')
        return [(st, ('p', k, 0))]

    def opaque_may_be_null(self, st, p):
        return False

    def null_deref(self, st, p, why):
        self.report(st, 'null-deref', 'null pointer %s' % why)

    def check_live(self, st, p, what):
        k = p[1]
        o = st.mem.get(k)
        if o is None:
            self.report(st, 'dangling', '%s of an object whose lifetime ended' % what)
            return None
        if o.freed:
            self.report(st, 'use-after-free', '%s of freed object' % what)
            return None
        return o

    def load(self, st, p, t):
        """[(state, value)]"""
        out = []
        for s, q in self.deref(st, p, 'is read through'):
            if q[0] == 'sp':
                out += self.load_char(s, q)
                continue
            if q[0] == 'vt' or q[0] == 'vs':
                out.append((s, self.load_vt(s, q)))
                continue
            if q[0] != 'p':
                out.append((s, self.fresh(s, t)))
                continue
            o = self.check_live(s, q, 'read')
            if o is None:
                continue
            if not isinstance(q[2], int):
                out += self.load_var(s, q, t, o)
                continue
            out += self.load_cell(s, q[1], q[2], t)
        return out

    def load_var(self, s, q, t, o):
        vs = self.values_of(s, q[2])
        if vs is not None and len(vs) <= 300 and not o.lazy:
            # enumerate
            out = []
            for v in sorted(vs):
                s2 = s.copy()
                r = self.split(s2, self.mk('icmp eq', 1, q[2], C(v, 64)))
                for s3, b in r:
                    if b:
                        out += self.load_cell(s3, q[1], sgn(v, 64), t)
            return out
        # remember by symbolic offset
        key = q[2]
        if key in o.cells:
            return [(s, o.cells[key])]
        if o.cells.get('str') or not o.lazy:
            if not o.lazy and o.kind != 'global':
                # unknown index into a known array: any stored value
                vals = {v for k2, v in o.cells.items()}
                return [(s, self.fresh(s, t))]
            return [(s, self.fresh(s, t))]
        v = self.fresh(s, t)
        s.wobj(q[1]).cells[key] = v
        return [(s, v)]

    def load_cell(self, s, k, off, t):
        o = s.mem[k]
        if 'str' in o.cells:
            b = o.cells['str'][1]
            if t == ('i', 8):
                if 0 <= off < len(b):
                    return [(s, C(b[off], 8))]
                self.report(s, 'out-of-bounds', 'read at offset %d of a %d-byte string constant' % (off, len(b)))
                return [(s, self.opaque(8, 'oob'))]
        v = o.cells.get(off)
        if v is None:
            return self.load_missing(s, k, off, t)
        if v == DEAD:
            self.report(s, 'dangling', 'read of a destroyed value')
            return []
        if t[0] == 'i' and v[0] in ('c', 'o', 'y', 'e') and self.width(v) != t[1]:
            vw = self.width(v)
            if vw > t[1]:
                return [(s, self.mk('trunc', t[1], v))]
            return [(s, self.assemble(s, o, off, t))]
        if v[0] in ('o', 'y', 'e'):
            v = self.rebind(s, v)
        return [(s, v)]

    def assemble(self, s, o, off, t):
        n = t[1] // 8
        vals = []
        x = off
        while x < off + n:
            v = o.cells.get(x)
            if v is not None and v[0] in ('o', 'e', 'y') and self.width(v) == 32 and n == 8:
                w = o.cells.get(off + 4 if x == off else off)
                if w is not None and w[0] in ('o', 'e', 'y', 'c') and self.width(w) == 32:
                    lo, hi = (v, w) if x == off else (w, v)
                    return self.mk('or', 64, self.mk('zext', 64, self.rebind(s, lo)), self.mk('shl', 64, self.mk('zext', 64, self.rebind(s, hi)), C(32, 64)))
            if v is None or v[0] != 'c':
                return self.opaque(t[1], 'asm')
            vals.append((x - off, v))
            x += v[2] // 8 or 1
        r = 0
        for sh, v in vals:
            r |= v[1] << (8 * sh)
        return C(r, t[1])

    def load_missing(self, s, k, off, t):
        o = s.mem[k]
        if o.lazy is not None:
            return self.load_lazy(s, k, off, t)
        if o.kind == 'global':
            v = self.fresh(s, t)
            s.wobj(k).cells[off] = v
            return [(s, v)]
        if t[0] == 'i' and t[1] == 8:
            # byte inside a wider constant
            for b in range(1, 8):
                v = o.cells.get(off - b)
                if v is not None:
                    if v[0] == 'c' and v[2] // 8 > b:
                        return [(s, C(v[1] >> (8 * b), 8))]
                    break
        if t == ('i', 32):
            v = o.cells.get(off - 4)
            if v is not None and v[0] in ('c', 'o', 'e', 'y') and self.width(v) == 64:
                return [(s, self.mk('trunc', 32, self.mk('lshr', 64, self.rebind(s, v), C(32, 64))))]
        return [(s, UNDEF)]

    def load_lazy(self, s, k, off, t):
        """a field of a lazily materialised object is read for the first time"""
        o = s.mem[k]
        v = None
        if callable(o.lazy):
            v = o.lazy(self, s, k, off, t)
            if isinstance(v, list):
                return v
        if v is None:
            v = self.lazy_default(s, k, off, t)
            if isinstance(v, list):
                return v
        s.wobj(k).cells[off] = v
        return [(s, v)]

    def lazy_default(self, s, k, off, t):
        o = s.mem[k]
        if off == 0 and o.cls is not None and t == PTR:
            return ('vt', k)
        if t == ('i', 8) and o.di is not None and self.di and self.di.is_bool(o.di, off):
            return self.sym(s, 8, (0, 1), 'b')
        return self.fresh(s, t)

    def fresh(self, st, t):
        k = t[0]
        if k == 'i':
            return self.opaque(t[1], 'ld')
        if k == 'ptr':
            return self.opaque(64, 'ptr')
        if k in ('lit', 'st'):
            return ('agg',) + tuple(self.fresh(st, e) for e in self.mod.elems(t))
        if k == 'f':
            return ('fo', self.new_id('f'))
        if k == 'void':
            return UNDEF
        return ('fo', self.new_id('x'))

    def load_vt(self, s, q):
        """load through a vtable pointer"""
        if q[0] == 'vt':
            return ('vm', q[1], 0)
        off = q[2]
        if off < 0:
            return C(0, 64)         # virtual-base offset / offset-to-top: one address per object
        return ('vm', q[1], off // 8)

    def load_char(self, s, q):
        import models as M
        return M.string_char(self, s, q)

    def store(self, st, p, v, t):
        out = []
        for s, q in self.deref(st, p, 'is written through'):
            if q[0] == 'sp':
                import models as M
                out += M.string_store(self, s, q, v)
                continue
            if q[0] != 'p':
                out.append(s)
                continue
            o = self.check_live(s, q, 'write')
            if o is None:
                continue
            w = s.wobj(q[1])
            if not isinstance(q[2], int):
                vs = self.values_of(s, q[2])
                if vs is not None and len(vs) <= 64:
                    for x in sorted(vs):
                        s2 = s.copy()
                        for s3, b in self.split(s2, self.mk('icmp eq', 1, q[2], C(x, 64))):
                            if b:
                                self._put(s3.wobj(q[1]), sgn(x, 64), v, t)
                                out.append(s3)
                    continue
                # weak update: forget symbolic cells
                for kk in [kk for kk in w.cells if not isinstance(kk, (int, str))]:
                    del w.cells[kk]
                w.cells[q[2]] = v
                out.append(s)
                continue
            self._put(w, q[2], v, t)
            out.append(s)
        return out

    def _put(self, w, off, v, t):
        if v[0] == 'agg':
            if t[0] in ('lit', 'st'):
                offs = self.mod.layout(t)[0]
                for x, e, et in zip(offs, v[1:], self.mod.elems(t)):
                    self._put(w, off + x, e, et)
                return
        if 'str' in w.cells:
            b = w.cells.pop('str')[1]
            for i, c in enumerate(b):
                w.cells[i] = C(c, 8)
        n = self.mod.sizeof(t)
        if n > 1:
            for i in range(1, n):
                w.cells.pop(off + i, None)
        if v[0] == 'bytes':
            for i, c in enumerate(v[1]):
                w.cells[off + i] = C(c, 8)
            return
        w.cells[off] = v

    # ------------------------------------------------------------------ operands
    def val(self, st, fr, v, t):
        if v[0] == 'l':
            r = fr.regs[v[1]]
            if r[0] in ('o', 'y', 'e'):
                r = self.rebind(st, r)
            return r
        return self.const(st, v, t)

    # ------------------------------------------------------------------ main loop
    def run(self, starts, on_exit=None):
        """starts: states with frames pushed.  Explores everything; returns exits."""
        work = list(starts)
        visited = set()
        exits = []
        base_depth = {}
        while work:
            st = work.pop()
            if len(self.violations) > 40:
                break
            while st is not None:
                self.stats['steps'] += 1
                if self.violations and self.stats['steps'] & 1023 == 0:
                    self.enough()
                if self.stats['steps'] > self.MAX_STEPS:
                    raise AnalysisBroken('%s: state budget exceeded' % self.name)
                try:
                    r = self.step(st, visited)
                except Stop:
                    r = None
                if r is None:
                    st = None
                elif isinstance(r, State):
                    st = r
                elif isinstance(r, Exit):
                    self.stats['paths'] += 1
                    exits.append(r)
                    if on_exit:
                        on_exit(r)
                    st = None
                else:
                    # list of states/exits
                    nxt = None
                    for x in r:
                        if isinstance(x, Exit):
                            self.stats['paths'] += 1
                            exits.append(x)
                            if on_exit:
                                on_exit(x)
                        elif x is not None:
                            if nxt is None:
                                nxt = x
                            else:
                                work.append(x)
                    st = nxt
        self.exits += exits
        return exits

    KNOWN = frozenset()

    def enough(self):
        """a violation is established: no need to explore its (possibly diverging) consequences to the end"""
        now = time.time()
        for v in self.violations.values():
            if v.get('fid') not in self.KNOWN and now - v['t'] > 20:
                raise AnalysisBroken('stopped after the first violations')

    def push(self, st, fn, args):
        fn.parse()
        if len(st.frames) > self.MAX_DEPTH:
            raise AnalysisBroken('call depth in ' + fn.dname)
        f = Frame(fn)
        for (n, t), a in zip(fn.params, args):
            f.regs[n] = a
        if fn.vararg:
            f.extra = tuple(args[len(fn.params):])
        st.frames.append(f)
        if fn.is_repo():
            self.analysed.add(fn.dname)
        return st

    def goto(self, st, fr, target, visited):
        """branch to target within the frame; evaluates phis; merge check"""
        prev = fr.bb
        b = fr.fn.blocks[target]
        if b.phis:
            vals = []
            for ph in b.phis:
                for v, lab in ph.a:
                    if lab == prev:
                        vals.append((ph.res, self.val(st, fr, v, ph.ty)))
                        break
            for n, v in vals:
                fr.regs[n] = v
        fr.prev, fr.bb, fr.idx = prev, target, len(b.phis)
        heads = fr.fn.backedge_targets()
        if target in heads:
            h = getattr(self.mon, 'pre_widen', None)
            r = h(self, st) if h else None
            if r is not None:
                out = []
                for s in r:
                    self.widen(s, s.frames[-1], target)
                    x = self.arrive(s, s.frames[-1], target, visited)
                    if x is not None:
                        out.append(x)
                return out
            self.widen(st, fr, target)
        return self.arrive(st, fr, target, visited)

    def arrive(self, st, fr, target, visited):
        b = fr.fn.blocks[target]
        if len(b.preds) > 1:
            # drop dead registers
            live = fr.fn.liveness()[target]
            ph = {p.res for p in b.phis}
            fr.regs = {k: v for k, v in fr.regs.items() if k in live or k in ph}
            if self.endless:
                return st
            key = hash(self.canon(st))
            if key in visited:
                self.stats['merged'] += 1
                return None
            visited.add(key)
            self.stats['states'] += 1
        return st

    # -- widening at loop heads
    def widen(self, st, fr, head):
        n, snap, base = fr.visits.get(head, (0, None, None))
        n += 1
        if self.endless:      # bounded inputs: nothing is merged, and loops come to an end
            if n > 250:
                self.endless(st)
                raise Stop()
            fr.visits[head] = (n, None, None)
            return
        lim = self.unroll(st) if self.unroll else self.MAX_UNROLL
        if n <= lim:
            if n == lim or self.unroll:
                snap = self.snapshot(st, fr)
            fr.visits[head] = (n, snap, snap)
            return
        if n < 300 and self.counted(st, fr, head, snap):
            fr.visits[head] = (n, self.snapshot(st, fr), base)
            return
        # forget how lazily materialised objects met during the loop hang together
        for ok in list(st.mem):
            o = st.mem[ok]
            if o.kind != 'lazy':
                continue
            for off, v in list(o.cells.items()):
                if not isinstance(v, tuple) or ('m', ok, off) in base or off in self.keep_links:
                    continue
                r = self.rebind(st, v) if v[0] in ('o', 'e') else v
                if r[0] == 'p' and isinstance(r[1], Id) and st.mem.get(r[1]) is not None and st.mem[r[1]].kind == 'lazy':
                    del st.wobj(ok).cells[off]
        cur = self.snapshot(st, fr)
        watoms = {}          # equal contents stay equal
        for k, v in cur.items():
            ov = snap.get(k)
            if not ov or not v or ov == v:
                continue
            if v[0] in ('e', 'o') and self.widen_delay:
                r = self.rebind(st, v)
                if r[0] == 'c':
                    v = r
                    if k[0] == 'r':
                        fr.regs[k[1]] = v
                    else:
                        st.wobj(k[1]).cells[k[2]] = v
                if ov[0] in ('e', 'o') and v[0] == 'c':
                    ov = self.rebind(st, ov)
                if v == ov:
                    continue
            if v[0] == 'c' and ov[0] == 'c' and self.widen_delay:
                d = fr.visits.get((head, k), 0)
                if d < self.widen_delay:
                    fr.visits[(head, k)] = d + 1
                    continue
            if v[0] in ('e', 'y') and self.width(v) <= 8:
                vs = self.values_of(st, v)
                if vs is not None and len(vs) == 1:
                    v = C(min(vs), self.width(v))
                    if k[0] == 'r':
                        fr.regs[k[1]] = v
                    else:
                        st.wobj(k[1]).cells[k[2]] = v
                    if v == ov:
                        continue
            if v[0] in ('c', 'e', 'y') and (ov[0] in ('c', 'e', 'o', 'y')):
                if v[0] == 'y' and ov[0] == 'y':
                    continue
                if v[0] == 'e' and ov[0] == 'e' and self.values_of(st, v) is not None:
                    continue
                w = self.width(v)
                if w == 1 or w == 8 and v[0] == 'c' and v[1] <= 1:
                    continue
                if v[0] == 'y' and w == 8 and ov[0] == 'c' and ov[1] in st.dom[v[1]]:
                    continue
                nv = self.widen_value(st, k, ov, v, w)
                if k[0] == 'r':
                    fr.regs[k[1]] = nv
                else:
                    st.wobj(k[1]).cells[k[2]] = nv
            elif v[0] in ('S', 'SS') and ov[0] == v[0] and not smeasure(v[1]) > max(self.str_limit(st) if self.str_limit else 8, smeasure(ov[1])):
                pass
            elif v[0] in ('S', 'SS') and ov[0] == v[0] or v[0] == 'SS':
                import models as M
                g = M.norm(self, st, v[1])
                if g not in watoms:
                    watoms[g] = self.atom('w')
                st.wobj(k[1]).cells[k[2]] = (v[0], (watoms[g],)) + v[2:]
        fr.visits[head] = (lim + 1, self.snapshot(st, fr), base)

    def counted(self, st, fr, head, snap):
        """a loop that counts between known bounds needs no widening"""
        c = fr.fn.counter(head)
        if c is None:
            return False
        v = fr.regs.get(c[0])
        o = c[1]
        if o[0] == 'l':
            o = fr.regs.get(o[1])
            if o is None:
                return False
        else:
            o = self.const(st, o, c[2].ty)
        old = snap.get(('r', c[0]))

        def known(x):
            return x is not None and (x[0] == 'c' and x[2] >= 8 or x[0] == 'p' and isinstance(x[2], int))
        if not (known(v) and known(o) and old is not None and old != v):
            return False
        if v[0] == 'p' and (o[0] != 'p' or o[1] != v[1]):
            return False
        return True

    def widen_value(self, st, k, ov, v, w):
        nv = self.opaque(w, 'w')
        if ov[0] == 'c' and v[0] == 'c' and ov[1] < v[1] < (1 << (w - 1)):
            st.facts[('rng', nv)] = (ov[1], (1 << w) - 1)
            st.facts[('inc', nv)] = True
        return nv

    def snapshot(self, st, fr):
        out = {}
        for k, v in fr.regs.items():
            out[('r', k)] = v
        for ok, o in st.mem.items():
            if o.kind != 'global' or True:
                for off, v in o.cells.items():
                    if isinstance(v, tuple):
                        out[('m', ok, off)] = v
        return out

    # -- canonical form
    def canon(self, st):
        num = {}
        order = []
        todo = []

        def cv(v):
            if isinstance(v, tuple):
                if v and v[0] == 'o' and v[1] in st.bind:
                    return cv(st.bind[v[1]])
                return tuple(cv(x) for x in v)
            if isinstance(v, Id):
                n = num.get(v)
                if n is None:
                    n = len(num)
                    num[v] = n
                    order.append(v)
                    if v in st.mem:
                        todo.append(v)
                return ('#', n)
            if isinstance(v, frozenset) and any(isinstance(x, (Id, tuple)) for x in v):
                return ('fs',) + tuple(sorted((cv(x) for x in sorted(v, key=repr_key)), key=repr))
            return v
        out = []
        top = len(st.frames) - 1
        for i, f in enumerate(st.frames):
            if i == top:
                regs = f.regs
                out.append((f.fn.name, f.bb, f.idx, tuple((k, cv(regs[k])) for k in sorted(regs))))
            else:
                live = self.live_after(f)
                out.append((f.fn.name, f.bb, f.idx, tuple((k, cv(f.regs[k])) for k in sorted(f.regs) if k in live)))
            for a in f.allocas:
                cv(a)
        out.append(cv(st.mon) if st.mon is not None else None)
        out.append(cv(st.exc) if st.exc else None)
        out.append(cv(st.caught))
        for k in st.mem:
            if isinstance(k, tuple) or k in self.keep_mem:
                todo.append(k)
        done = set()
        while todo:
            k = todo.pop()
            if k in done:
                continue
            done.add(k)
            o = st.mem.get(k)
            if o is None:
                continue
            if o.kind == 'global' and 'str' in o.cells:
                continue
            ck = cv(k) if isinstance(k, Id) else k
            cells = []
            for off in sorted(o.cells, key=repr_key):
                v = o.cells[off]
                cells.append((cv(off) if isinstance(off, tuple) else off, cv(v)))
            out.append((ck, o.kind, o.freed, cv(o.cls) if o.cls else None, tuple(cells)))
        # facts / domains for known ids
        fl = []
        for i in order:
            if i in st.dom:
                fl.append(('d', num[i], st.dom[i]))
        known = num
        fs = []
        for k, v in st.facts.items():
            if self._ids_known(k, known):
                fs.append((cv(k), cv(v) if isinstance(v, tuple) else v))
        out.append(tuple(fl))
        out.append(frozenset(fs))
        return tuple(out)

    def _ids_known(self, v, known):
        if isinstance(v, tuple):
            return all(self._ids_known(x, known) for x in v)
        if isinstance(v, Id):
            return v in known
        return True

    def live_after(self, f):
        """registers live after the call instruction at f.idx"""
        key = (f.fn.name, f.bb, f.idx)
        r = self._livec.get(key)
        if r is None:
            from ir import locals_of
            live = f.fn.liveness()
            b = f.fn.blocks[f.bb]
            s = set()
            for x in b.succs:
                s |= live[x]
                for ph in f.fn.blocks[x].phis:
                    for v, lab in ph.a:
                        if lab == f.bb and v[0] == 'l':
                            s.add(v[1])
            for ins in reversed(b.insts[f.idx + 1:]):
                if ins.res:
                    s.discard(ins.res)
                s.update(locals_of(ins))
            r = s
            self._livec[key] = r
        return r

    def marked_allocas(self, fn):
        """allocas whose lifetime is delimited by markers"""
        r = self._marked.get(fn.name)
        if r is None:
            r = set()
            for b in fn.blocks.values():
                for ins in b.insts:
                    if ins.op in ('call', 'invoke') and ins.a[0][0] == 'g' and ins.a[0][1].startswith('llvm.lifetime.start'):
                        v = ins.a[1][1][1]
                        if v[0] == 'l':
                            r.add(v[1])
            self._marked[fn.name] = r
        return r

    # ------------------------------------------------------------------ one step
    def step(self, st, visited):
        if st.mon is STOP:
            return None
        fr = st.frames[-1]
        b = fr.fn.blocks[fr.bb]
        ins = b.insts[fr.idx]
        op = ins.op
        if op == 'alloca':
            k = self.new_obj(st, 'alloca', size=None)
            fr.allocas.append(k)
            if ins.res in self.marked_allocas(fr.fn):
                st.mem[k].freed = True
            fr.regs[ins.res] = ('p', k, 0)
            t, cnt = ins.a
            if cnt[0] == 'c':
                st.mem[k].size = self.mod.sizeof(t) * cnt[1]
            else:
                st.mem[k].size = self.mk('mul', 64, self.val(st, fr, cnt, ('i', 64)), C(self.mod.sizeof(t), 64))
                h = getattr(self.mon, 'on_alloca', None)
                if h:
                    h(st, st.mem[k].size)
            fr.idx += 1
            return st
        if op == 'load':
            p = self.val(st, fr, ins.a[0], PTR)
            r = self.load(st, p, ins.ty)
            out = []
            for s, v in r:
                f = s.frames[-1]
                if v[0] == 'u' and self.mon is not None and hasattr(self.mon, 'on_uninit'):
                    self.mon.on_uninit(self, s, ins, p)
                f.regs[ins.res] = v
                f.idx += 1
                out.append(s)
            return out
        if op == 'store':
            v = self.val(st, fr, ins.a[0], ins.ty)
            p = self.val(st, fr, ins.a[1], PTR)
            out = self.store(st, p, v, ins.ty)
            for s in out:
                s.frames[-1].idx += 1
            return out
        if op == 'getelementptr':
            base = self.val(st, fr, ins.a[1][0][1], PTR)
            off, var = self.gep_off(st, ins.a[0], ins.a[1][1:], fr.regs)
            fr.regs[ins.res] = self.padd(st, base, off)
            fr.idx += 1
            return st
        if op == 'br':
            c, t, f = ins.a
            if c is None:
                return self.goto(st, fr, t, visited)
            cv = self.val(st, fr, c, ('i', 1))
            rs = self.split(st, cv)
            multi = len(rs) > 1
            out = []
            for s, v in rs:
                if multi and fr.fn.is_repo():
                    s.trace = (s.trace, '%s:%s' % (self.mod.loc(ins), 'T' if v else 'F'))
                out += self._aslist(self.goto(s, s.frames[-1], t if v else f, visited))
            return out
        if op in ('call', 'invoke'):
            return self.do_call(st, fr, ins)
        if op == 'ret':
            v = self.val(st, fr, ins.a[0], ins.ty) if ins.a[0] is not None else UNDEF
            return self.do_ret(st, v)
        if op == 'switch':
            v = self.val(st, fr, ins.a[0], ins.ty)
            out = []
            cur = [st]
            for cval, lab in ins.a[2]:
                nxt = []
                for s in cur:
                    vv = self.val(s, s.frames[-1], ins.a[0], ins.ty)
                    for s2, bb in self.split(s, self.mk('icmp eq', 1, vv, C(cval, self.width(vv)))):
                        if bb:
                            out.append((s2, lab))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                out.append((s, ins.a[1]))
            res = []
            for s, lab in out:
                res += self._aslist(self.goto(s, s.frames[-1], lab, visited))
            return res
        if op == 'icmp':
            fr.regs[ins.res] = self.icmp_val(st, ins.a[0], self.val(st, fr, ins.a[1], ins.ty),
                                             self.val(st, fr, ins.a[2], ins.ty), ins.ty)
            fr.idx += 1
            return st
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = self.val(st, fr, ins.a[0], ins.ty)
            c = self.val(st, fr, ins.a[1], ins.ty)
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                if self.mon is not None and hasattr(self.mon, 'on_div'):
                    r = self.mon.on_div(self, st, ins, a, c)
                    if r is not None:
                        return r
            fr.regs[ins.res] = self.arith(st, op, ins.ty, a, c)
            fr.idx += 1
            return st
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            v = self.val(st, fr, ins.a[0], ins.a[1])
            if op == 'zext' and self.split_bool and ins.a[1] == ('i', 1) and ins.a[2][1] >= 32 and v[0] in ('o', 'y', 'e'):
                out = []
                for s, b in self.split(st, v):
                    s.frames[-1].regs[ins.res] = C(int(b), ins.a[2][1])
                    s.frames[-1].idx += 1
                    out.append(s)
                return out
            if op in ('zext', 'sext', 'trunc') and ins.a[2][0] == 'i' and v[0] in ('c', 'o', 'y', 'e'):
                v = self.mk(op, ins.a[2][1], v)
            fr.regs[ins.res] = v
            fr.idx += 1
            return st
        if op == 'phi':
            raise AnalysisBroken('phi reached')
        if op == 'select':
            c = self.val(st, fr, ins.a[0], ('i', 1))
            a = self.val(st, fr, ins.a[1], ins.ty)
            d = self.val(st, fr, ins.a[2], ins.ty)
            out = []
            for s, v in self.split(st, c):
                s.frames[-1].regs[ins.res] = a if v else d
                s.frames[-1].idx += 1
                out.append(s)
            return out
        if op == 'extractvalue':
            v = self.val(st, fr, ins.a[0], ins.ty)
            for i in ins.a[1]:
                v = v[1 + i] if v[0] == 'agg' else self.opaque(64, 'xv')
            fr.regs[ins.res] = v
            fr.idx += 1
            return st
        if op == 'insertvalue':
            v = self.val(st, fr, ins.a[0], ins.ty)
            e = self.val(st, fr, ins.a[1], ('i', 64))
            if v[0] != 'agg':
                v = ('agg',) + tuple(UNDEF for _ in self.mod.elems(ins.ty))
            i = ins.a[2][0]
            fr.regs[ins.res] = v[:1 + i] + (e,) + v[2 + i:]
            fr.idx += 1
            return st
        if op == 'landingpad':
            return self.do_landingpad(st, fr, ins)
        if op == 'resume':
            v = self.val(st, fr, ins.a[0], ('lit', (PTR, ('i', 32)), False))
            return self.unwind(st)
        if op == 'unreachable':
            return self.do_unreachable(st, ins)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc',
                  'fpext', 'fcmp', 'freeze'):
            return self.do_float(st, fr, ins)
        raise AnalysisBroken('op ' + op)

    def do_unreachable(self, st, ins):
        return None

    def arith(self, st, op, t, a, c):
        w = t[1]
        if op == 'sub' and a[0] in ('p', 'sp', 'vt') and c[0] in ('p', 'sp'):
            if a[0] == c[0] == 'p' and a[1] == c[1] and isinstance(a[2], int) and isinstance(c[2], int):
                return C(a[2] - c[2], w)
            if a[0] == c[0] == 'sp' and a[1:3] == c[1:3] and isinstance(a[3], int) and isinstance(c[3], int):
                return C(a[3] - c[3], w)
            return self.opaque(w, 'pdiff')
        if op == 'add' and a[0] in ('p', 'sp'):
            return self.padd(st, a, sgn(c[1], 64) if c[0] == 'c' else c)
        if a[0] not in ('c', 'o', 'y', 'e') or c[0] not in ('c', 'o', 'y', 'e'):
            if UNDEF in (a, c):
                return UNDEF
            return self.opaque(w, 'ar')
        if op == 'sub' and a[0] != 'c' and c[0] == 'c':
            pass
        return self.mk(op, w, a, c)

    def icmp_val(self, st, pred, a, b, t):
        if t == PTR or a[0] in ('p', 'sp', 'fp', 'vt', 'vm', 'it') or b[0] in ('p', 'sp', 'fp', 'it'):
            r = self.ptr_eq(st, a, b)
            if r is not None and pred in ('eq', 'ne'):
                return TRUE if r == (pred == 'eq') else FALSE
            if r is not None and r and pred in ('ule', 'uge', 'sle', 'sge'):
                return TRUE
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                return TRUE if icmp(pred, a[2] & (1 << 64) - 1, b[2] & (1 << 64) - 1, 64) else FALSE
        if a[0] == 'u' or b[0] == 'u':
            return UNDEF
        if pred in ('eq', 'ne') and a[0] == b[0] == 'e' and a[1] == b[1] and a[1] in ('sext', 'zext') and self.width(a[3]) == self.width(b[3]):
            a, b = a[3], b[3]
        if a[0] in ('c', 'o', 'y', 'e') and b[0] in ('c', 'o', 'y', 'e'):
            if b[0] != 'c' and a[0] == 'c':
                return self.mk('icmp ' + SWAP[pred], 1, b, a)
            return self.mk('icmp ' + pred, 1, a, b)
        if pred in ('eq', 'ne'):
            # opaque pointer against object
            x, y = (a, b) if repr_key(a) <= repr_key(b) else (b, a)
            return self.mk('icmp ' + pred, 1, x, y)
        return self.opaque(1, 'pc')

    def ptr_eq(self, st, a, b):
        if a == b:
            return True
        ka, kb = a[0], b[0]
        solid = ('p', 'sp', 'fp', 'vt')
        if ka in solid and kb == 'c':
            return False
        if kb in solid and ka == 'c':
            return False
        if ka == 'p' and kb == 'p':
            if a[1] == b[1]:
                if isinstance(a[2], int) and isinstance(b[2], int):
                    return a[2] == b[2]
                return None
            if self.may_alias(st, a[1], b[1]):
                return None
            return False
        if ka == 'fp' and kb == 'fp':
            return a[1] == b[1]
        if ka == 'sp' and kb == 'sp' and a[1:3] == b[1:3] and isinstance(a[3], int) and isinstance(b[3], int):
            return a[3] == b[3]
        if ka == 'sp' and kb == 'sp':
            return st.facts.get(('peq', a, b), st.facts.get(('peq', b, a)))
        return None

    def may_alias(self, st, x, y):
        """two distinct abstract objects that may be the same concrete object"""
        ox, oy = st.mem.get(x), st.mem.get(y)
        if not (ox and oy and ox.kind == 'lazy' and oy.kind == 'lazy'):
            return False
        if ox.lazy == 'any' and oy.lazy == 'any':
            return True
        sx, sy = ox.cells.get('slot'), oy.cells.get('slot')
        if sx and sy and ox.cells.get('owner') == oy.cells.get('owner') and (not ox.cls or not oy.cls or ox.cls & oy.cls):
            # children of one container, one of them reached by position
            for z in (sx, sy):
                o = st.mem.get(z[1])
                if o is not None and o.cells.get('any') == TRUE:
                    return True
        return False

    def do_float(self, st, fr, ins):
        op = ins.op
        if op in ('fptosi', 'fptoui'):
            v = self.val(st, fr, ins.a[0], ins.a[1])
            x = fnum(v)
            lo, hi = (0, 1 << ins.a[2][1]) if op == 'fptoui' else (-(1 << ins.a[2][1] - 1), 1 << ins.a[2][1] - 1)
            if x is not None and lo - 1 < x < hi:
                r = C(int(x) & ((1 << ins.a[2][1]) - 1), ins.a[2][1])
            else:
                r = self.fmemo(st, op, v, ins.a[2][1])
        elif op in ('sitofp', 'uitofp', 'fptrunc', 'fpext'):
            v = self.val(st, fr, ins.a[0], ins.a[1])
            r = ('fe', op, v)
            x = fnum(v)
            if v[0] == 'c' or x is not None:
                x = x if x is not None else float(v[1] if op == 'uitofp' else sgn(v[1], v[2]))
                r = ('fc', fround(x, ins.a[2]))
        elif op == 'fneg' or op == 'freeze':
            v = self.val(st, fr, ins.a[0], ins.ty)
            r = ('fe', op, v) if op == 'fneg' else v
        elif op == 'fcmp':
            a = self.val(st, fr, ins.a[1], ins.ty)
            b = self.val(st, fr, ins.a[2], ins.ty)
            key = ('fcmp', ins.a[0], a, b)
            x, y = fnum(a), fnum(b)
            if x is not None and y is not None:
                o = ins.a[0]
                r = TRUE if {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}.get(o[1:], o in ('ord', 'true')) else FALSE
            elif key in st.facts:
                r = TRUE if st.facts[key] else FALSE
            else:
                s2 = st.copy()
                st.facts[key] = True
                s2.facts[key] = False
                for s, v in ((st, TRUE), (s2, FALSE)):
                    s.frames[-1].regs[ins.res] = v
                    s.frames[-1].idx += 1
                return [st, s2]
        else:
            a = self.val(st, fr, ins.a[0], ins.ty)
            b = self.val(st, fr, ins.a[1], ins.ty)
            r = ('fe', op, a, b)
            x, y = fnum(a), fnum(b)
            if x is not None and y is not None and (op in ('fadd', 'fsub', 'fmul') or op == 'fdiv' and y):
                r = ('fc', fround({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op](), ins.ty))
        if r[0] == 'fe' and depth(r) > 14:
            r = ('fo', self.new_id('f'))
        fr.regs[ins.res] = r
        fr.idx += 1
        return st

    def fmemo(self, st, op, v, w):
        key = ('fval', op, v, w)
        if key in st.facts:
            return st.facts[key]
        r = self.opaque(w, 'f')
        st.facts[key] = r
        return r

    # ------------------------------------------------------------------ calls
    def do_call(self, st, fr, ins):
        self.stats['calls'] += 1
        callee = ins.a[0]
        args = [self.val(st, fr, v, t) if t != ('metadata',) else v for t, v in ins.a[1]]
        if callee[0] == 'l':
            f = self.val(st, fr, callee, PTR)
            return self.call_indirect(st, ins, f, args)
        if callee[0] == 'ce':
            f = self.const(st, callee, PTR)
            return self.call_indirect(st, ins, f, args)
        return self.call_named(st, ins, callee[1], args)

    def call_indirect(self, st, ins, f, args):
        if f[0] == 'fp':
            return self.call_named(st, ins, f[1], args)
        if f[0] == 'vm':
            out = []
            cls = self.class_of(st, f[1])
            if f[2] == 2 and cls and all(not self.mod.vtable_slots(c) and self.mod.derives(c, '_ZTISt9exception') is not None or
                                         c.startswith('_ZTISt') and not self.mod.vtable_slots(c) for c in cls):
                return self.finish_outcomes(st, ins, self.std_what(st, ins, args))
            if f[2] == 1 and cls and all(c.startswith('_ZTISt') and not self.mod.vtable_slots(c) for c in cls):
                o = st.wobj(f[1])          # deleting destructor of a standard class
                o.freed = True
                o.cells.clear()
                return self.finish_outcomes(st, ins, [(st, UNDEF)])
            for s, name in self.resolve_virtual(st, f):
                # `this` adjustment is 0: single inheritance in every polymorphic repo class
                r = self.call_named(s, ins, name, args)
                out += self._aslist(r)
            return out
        raise AnalysisBroken('%s: indirect call through %r at %s' % (self.name, f, self.mod.loc(ins)))

    def std_what(self, st, ins, args):
        p = args[0]
        if 'what' not in st.mem[p[1]].cells:
            st.wobj(p[1]).cells['what'] = ('S', (self.atom('what'),))
        return [(st, ('sp', p[1], 'what', 0))]

    def _aslist(self, r):
        if r is None:
            return []
        return r if isinstance(r, list) else [r]

    def class_of(self, st, k):
        o = st.mem.get(k)
        if o is None:
            return None
        v = o.cells.get(0)
        if o.cls is not None and (v is None or v[0] == 'vt'):
            return o.cls
        # a constructor stored a vtable pointer
        if v is not None and v[0] == 'p' and isinstance(v[1], tuple) and v[1][1].startswith('_ZTV'):
            return frozenset(['_ZTI' + v[1][1][4:]])
        return None

    def vt_slot(self, ti, slot):
        g = self.mod.vtable_slots(ti)
        if not g:
            return None
        arr = g[0]
        i = slot + 2
        if i >= len(arr):
            return None
        v = arr[i][1]
        while v[0] == 'ce':
            v = v[3]
        return v[1] if v[0] == 'g' else None

    def resolve_virtual(self, st, f):
        k, slot = f[1], f[2]
        cls = self.class_of(st, k)
        if cls is None:
            raise AnalysisBroken('%s: virtual call on object of unknown class (%s)' % (self.name, self.where(st)[:1]))
        groups = {}
        for ti in cls:
            n = self.vt_slot(ti, slot)
            if n is None:
                raise AnalysisBroken('vtable slot %s[%d]' % (ti, slot))
            groups.setdefault(n, set()).add(ti)
        out = []
        items = sorted(groups.items())
        for i, (n, tis) in enumerate(items):
            s = st if i == len(items) - 1 else st.copy()
            if len(items) > 1:
                s.wobj(k).cls = frozenset(tis)
                s.trace = (s.trace, 'dynamic type in {%s}' % ','.join(sorted(demangle_ti(x) for x in tis)))
            out.append((s, n))
        return out

    def call_named(self, st, ins, name, args):
        fn = self.mod.func(name)
        if fn is None:
            if name.startswith('llvm.'):
                return self.model(st, ins, name, name, args)
            raise AnalysisBroken('callee @' + name)
        q = fn.qual
        if self.mon is not None:
            h = getattr(self.mon, 'on_call', None)
            if h:
                r = h(self, st, ins, fn, q, args)
                if r is not None:
                    return self.finish_outcomes(st, ins, r)
        c = self.cuts.get(q)
        if c is not None:
            r = c(self, st, ins, fn, args)
            if r is not None:
                return self.finish_outcomes(st, ins, r)
        repo = (not fn.declared) and fn.is_repo()
        if repo:
            rec = sum(1 for f in st.frames if f.fn is fn)
            if rec:
                h = getattr(self.mon, 'on_recursion', None)
                if h:
                    r = h(self, st, ins, fn, q, args, rec)
                    if r is not None:
                        return self.finish_outcomes(st, ins, r)
                elif rec > getattr(self, "max_rec", 2):
                    raise AnalysisBroken('%s: unhandled recursion of %s' % (self.name, q))
            return self.push(st, fn, args)
        return self.model(st, ins, name, q, args, fn)

    def model(self, st, ins, name, q, args, fn=None):
        m = self.models.get(q)
        if m is None:
            n = len(self.rx_models)
            if self.rx_cache.get('') != n:
                self.rx_cache = {'': n}
            if q in self.rx_cache:
                m = self.rx_cache[q]
            else:
                m = self.rx_cache[q] = next((mm for rx, mm in self.rx_models if rx.match(q)), None)
        if m is not None:
            r = m(self, st, ins, fn, args)
            if r is not NotImplemented:
                return self.finish_outcomes(st, ins, r)
        if fn is not None and not fn.declared and 'available_externally' not in fn.retattrs:
            return self.push(st, fn, args)
        if fn is not None and not fn.declared:
            return self.push(st, fn, args)
        if fn is not None and fn.declared and set(re.findall(r'#\d+', fn.tail)) & self.mod.pure_groups \
                and ins.ty is not None and ins.ty[0] in ('i', 'f'):
            return self.finish_outcomes(st, ins, [(st, self.fresh(st, ins.ty))])    # the function only reads memory
        self.unknown[q] = self.unknown.get(q, 0) + 1
        if self.allow_unknown is not None and self.allow_unknown(q, args):
            return self.finish_outcomes(st, ins, [(st, self.fresh(st, ins.ty))])
        raise AnalysisBroken('%s: no model for %s (called at %s)' % (self.name, fn.dname if fn else name,
                                                                  '; '.join(self.where(st)[:2])))

    def finish_outcomes(self, st, ins, r):
        """r: list of (state, value|Throw) or Exit"""
        out = []
        for x in r:
            if isinstance(x, (Exit, State)):
                out.append(x)
                continue
            s, v = x
            if isinstance(v, Throw):
                out += self._aslist(self.throw_std(s, v))
                continue
            out += self._aslist(self.return_to(s, ins, v))
        return out

    def return_to(self, s, ins, v):
        f = s.frames[-1]
        if ins.res is not None:
            f.regs[ins.res] = v
        if ins.op == 'invoke':
            return self._inv_normal(s, f, ins)
        f.idx += 1
        return s

    def _inv_normal(self, s, f, ins):
        prev = f.bb
        b = f.fn.blocks[ins.a[3]]
        if b.phis:
            vals = []
            for ph in b.phis:
                for v, lab in ph.a:
                    if lab == prev:
                        vals.append((ph.res, self.val(s, f, v, ph.ty)))
                        break
            for n, v in vals:
                f.regs[n] = v
        f.prev, f.bb, f.idx = prev, ins.a[3], len(b.phis)
        return s

    def pop_frame(self, st):
        f = st.frames.pop()
        for a in f.allocas:
            st.mem.pop(a, None)
            st.own.discard(a)
        return f

    def do_ret(self, st, v):
        f = st.frames[-1]
        if self.mon is not None:
            h = getattr(self.mon, 'on_return', None)
            if h:
                h(self, st, f.fn, v)
        if len(st.frames) == 1 or not st.frames[-2].fn.is_repo():
            st.at = tuple(self.where(st))
        self.pop_frame(st)
        if not st.frames:
            return Exit('ret', st, value=v)
        g = st.frames[-1]
        ins = g.fn.blocks[g.bb].insts[g.idx]
        return self.return_to(st, ins, v)

    # ------------------------------------------------------------------ exceptions
    def throw_std(self, st, th):
        if th.obj is not None:
            st.exc = (('p', th.obj, 0), th.ti)
            return self.unwind(st)
        k = self.new_obj(st, 'exc', lazy='any', cls=frozenset([th.ti]))
        st.mem[k].site = th.what
        st.exc = (('p', k, 0), th.ti)
        return self.unwind(st)

    def unwind(self, st):
        """propagate st.exc from the current call instruction outwards"""
        if st.frames:
            st.at = tuple(self.where(st))
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.bb].insts[f.idx]
            if ins.op == 'invoke':
                lab = ins.a[4]
                prev = f.bb
                b = f.fn.blocks[lab]
                if b.phis:
                    vals = []
                    for ph in b.phis:
                        for v, l2 in ph.a:
                            if l2 == prev:
                                vals.append((ph.res, self.val(st, f, v, ph.ty)))
                                break
                    for n, v in vals:
                        f.regs[n] = v
                f.prev, f.bb, f.idx = prev, lab, len(b.phis)
                lp = b.insts[f.idx]
                # decide whether this pad is entered at all
                sel = self.lp_select(st, lp)
                if sel is None:
                    self.pop_frame(st)
                    continue
                return st
            if self.mon is not None:
                h = getattr(self.mon, 'on_unwind', None)
                if h:
                    h(self, st, f.fn)
            if re.search(r'\bnounwind\b', f.fn.tail) and False:
                return Exit('terminate', st, ti=st.exc[1], why='noexcept')
            self.pop_frame(st)
        return Exit('throw', st, ti=st.exc[1], value=st.exc[0])

    def lp_select(self, st, lp):
        """selector value, or None if the pad does not apply"""
        ti = st.exc[1]
        for cl in lp.a[0]:
            if cl[0] == 'catch':
                v = cl[1]
                if v[0] == 'null':
                    return ('c', self.ti_num('*'), 32)
                n = v[1]
                if self.mod.derives(ti, n) is not None:
                    return ('c', self.ti_num(n), 32)
            elif cl[0] == 'filter':
                return ('c', (-1) & 0xffffffff, 32)
        if any(cl[0] == 'cleanup' for cl in lp.a[0]):
            return ('c', 0, 32)
        return None

    def ti_num(self, n):
        if not hasattr(self, '_tin'):
            self._tin = {}
        return self._tin.setdefault(n, len(self._tin) + 1)

    def do_landingpad(self, st, fr, ins):
        sel = self.lp_select(st, ins)
        fr.regs[ins.res] = ('agg', st.exc[0], sel)
        fr.idx += 1
        return st


def smeasure(segs):
    n = 0
    for g in segs:
        n += len(g[1]) if g[0] == 'k' else 1
    return n


SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule',
        'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}
NEG = {'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt',
       'sgt': 'sle', 'eq': 'ne', 'ne': 'eq'}


def icmp(pred, a, b, w):
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return a != b
    if pred[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    p = pred[1:]
    return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b


_rk = {}


def repr_key(v):
    return repr(v)


def depth(e):
    if not isinstance(e, tuple):
        return 0
    d = 0
    for x in e:
        if isinstance(x, tuple):
            y = depth(x)
            if y > d:
                d = y
    return d + 1


def demangle_ti(ti):
    n = ti[4:]
    m = re.match(r'(\d+)', n)
    if m and len(n) == len(m.group(1)) + int(m.group(1)):
        return n[len(m.group(1)):]
    return {'13JSonPrimitiveIiE': 'JSonPrimitive<int>', '13JSonPrimitiveIxE': 'JSonPrimitive<long long>',
            '13JSonPrimitiveIdE': 'JSonPrimitive<double>', '13JSonPrimitiveIbE': 'JSonPrimitive<bool>',
            '13JSonPrimitiveI4NullE': 'JSonPrimitive<Null>'}.get(n, 'JSonPrimitive<string>' if n.startswith('13JSonPrimitive') else n)
