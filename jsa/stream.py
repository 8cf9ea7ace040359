"""std::istream model: a nondeterministic byte source with look-ahead, for one stream object.

The stream's state lives in the cells of its abstract object:
  'good'  TRUE / FALSE (the end of the input was met)
  'pend'  tuple of bytes handed back (unget/putback/peek)
  'last'  the byte read last (for unget)
A monitor with `on_char(eng, st, v)` / `on_unget(eng, st)` / `on_eof(eng, st)` follows the consumption."""
from engine import *
import models as M


class StreamWorld:
    def __init__(self, eng, mon):
        self.eng, self.mon = eng, mon
        for q in ('get', 'read', 'unget', 'putback', 'peek', 'gcount', 'ignore'):
            eng.models['std::istream::' + q] = getattr(self, q)
        for q in ('good', 'eof', 'fail', 'bad', 'operator!', 'operator bool', 'clear', 'rdstate'):
            old = eng.models.get('std::basic_ios::' + q)
            eng.models['std::basic_ios::' + q] = self.ios(q, old)

    def new(self, st):
        k = self.eng.new_obj(st, 'lazy', lazy='any')
        o = st.mem[k]
        # vtable pointer with the virtual-base offset 0
        o.cells.update({'good': TRUE, 'pend': (), 'last': None, 'stream': TRUE, 0: ('vt', k)})
        return k

    def key(self, st, p):
        if p[0] == 'p' and p[1] in st.mem and 'stream' in st.mem[p[1]].cells:
            return p[1]
        return None

    def take(self, st, k):
        """[(state, byte or None)]"""
        o = st.mem[k]
        pend = o.cells['pend']
        if pend:
            w = st.wobj(k)
            w.cells['pend'] = pend[1:]
            w.cells['last'] = pend[0]
            return self.mon.on_char(self.eng, st, pend[0])
        if o.cells['good'] != TRUE:
            return [(st, None)]
        s2 = st.copy()
        w2 = s2.wobj(k)
        w2.cells['good'] = FALSE
        w2.cells['last'] = None
        s2.trace = (s2.trace, 'end of the input')
        v = self.eng.sym(st, 8, range(256), 'c')
        w = st.wobj(k)
        w.cells['last'] = v
        return self.mon.on_char(self.eng, st, v) + [(x, None) for x in self.mon.on_eof(self.eng, s2)]

    def get(self, eng, st, ins, fn, args):
        k = self.key(st, args[0])
        if k is None:
            return NotImplemented
        ps = M.params(fn)
        out = []
        if len(ps) > 1:
            raise AnalysisBroken('istream::get(char*, ...)')
        for s, v in self.take(st, k):
            if ps:
                if v is not None:
                    s = (eng.store(s, args[1], v, ('i', 8)) or [s])[0]
                out.append((s, args[0]))
            else:
                out.append((s, eng.mk('zext', 32, v) if v is not None else C(-1, 32)))
        return out

    def peek(self, eng, st, ins, fn, args):
        k = self.key(st, args[0])
        if k is None:
            return NotImplemented
        pend = st.mem[k].cells['pend']
        if pend:
            return [(st, eng.mk('zext', 32, pend[0]))]
        if st.mem[k].cells['good'] != TRUE:
            return [(st, C(-1, 32))]
        s2 = st.copy()
        s2.wobj(k).cells['good'] = FALSE
        v = eng.sym(st, 8, range(256), 'c')
        st.wobj(k).cells['pend'] = (v,)
        return [(st, eng.mk('zext', 32, v))] + [(x, C(-1, 32)) for x in self.mon.on_eof(eng, s2)]

    def read(self, eng, st, ins, fn, args):
        k = self.key(st, args[0])
        if k is None:
            return NotImplemented
        if args[2][0] != 'c' or args[2][1] > 64:
            raise AnalysisBroken('istream::read of an unknown size')
        cur = [(st, 0, False)]
        for i in range(args[2][1]):
            nxt = []
            for s, n, e in cur:
                if e:
                    nxt.append((s, n, e))
                    continue
                for s2, v in self.take(s, k):
                    if v is None:
                        s2.wobj(k).cells['good'] = FALSE
                        nxt.append((s2, n, True))
                    else:
                        s2 = (eng.store(s2, eng.padd(s2, args[1], i), v, ('i', 8)) or [s2])[0]
                        nxt.append((s2, n + 1, False))
            cur = nxt
        out = []
        for s, n, e in cur:
            s.wobj(k).cells['gcount'] = C(n, 64)
            out.append((s, args[0]))
        return out

    def gcount(self, eng, st, ins, fn, args):
        k = self.key(st, args[0])
        if k is None:
            return NotImplemented
        return [(st, st.mem[k].cells.get('gcount', C(0, 64)))]

    def unget(self, eng, st, ins, fn, args):
        k = self.key(st, args[0])
        if k is None:
            return NotImplemented
        o = st.mem[k]
        if o.cells['last'] is None:
            return [(st, args[0])]
        w = st.wobj(k)
        w.cells['pend'] = (o.cells['last'],) + o.cells['pend']
        w.cells['last'] = None
        self.mon.on_unget(eng, st)
        return [(st, args[0])]

    def putback(self, eng, st, ins, fn, args):
        return self.unget(eng, st, ins, fn, args)

    def ignore(self, eng, st, ins, fn, args):
        k = self.key(st, args[0])
        if k is None:
            return NotImplemented
        if args[1] != C(1, 64):
            raise AnalysisBroken('istream::ignore(n)')
        return [(s, args[0]) for s, v in self.take(st, k)]

    def ios(self, q, old):
        def f(eng, st, ins, fn, args):
            k = self.key(st, args[0])
            if k is None:
                return old(eng, st, ins, fn, args) if old else NotImplemented
            g = st.mem[k].cells['good'] == TRUE
            if q == 'clear':
                return [(st, UNDEF)]
            if q in ('good', 'operator bool'):
                return [(st, TRUE if g else FALSE)]
            if q == 'bad':
                return [(st, FALSE)]
            if q == 'rdstate':
                return [(st, C(0 if g else 6, 32))]
            return [(st, FALSE if g else TRUE)]
        return f
