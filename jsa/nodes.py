"""Lazily materialised JSON element trees for the abstract interpreter."""
from engine import *
from ir import PTR
import models as M


class NodeWorld:
    """callback object given to lazy JSON element objects"""

    def __init__(self, prog, eng):
        self.p, self.eng = prog, eng
        self.fields = {}
        for ti in prog.classes:
            self.fields[ti] = {o: (n, t) for n, (o, t) in prog.di.members(prog.didesc(ti)).items()
                               if not n.startswith(('base:', '_vptr', '_M_'))}
            for n, (o, t) in prog.di.members(prog.didesc(ti)).items():
                if n.startswith('base:list<'):
                    self.fields[ti][o] = ('@list', t)
        eng.slot_hook = self.slot_hook
        self.on_node = None            # callback(st, key) when a node is created

    def new(self, st, cls, **cells):
        k = self.eng.new_obj(st, 'lazy', cls=frozenset(cls), lazy=self)
        o = st.mem[k]
        for n, v in cells.items():
            o.cells[n] = v
        return k

    def is_node(self, st, k):
        o = st.mem.get(k)
        return o is not None and o.lazy is self

    def field(self, st, k, off):
        """the (name, type) of the field at off, over the possible classes"""
        out = {}
        for ti in st.mem[k].cls:
            f = self.fields[ti].get(off)
            out.setdefault(f, set()).add(ti)
        return out

    def __call__(self, eng, st, k, off, t):
        if off == 0 and t == PTR:
            return ('vt', k)
        fs = self.field(st, k, off)
        if None in fs:
            bad = fs.pop(None)
            eng.report(st, 'kind-confusion', 'a field of %s is read although the node may be a %s' % (
                '/'.join(sorted({demangle_ti(x) for v in fs.values() for x in v})) or 'another class',
                '/'.join(sorted(demangle_ti(x) for x in bad))))
            good = frozenset(x for v in fs.values() for x in v)
            if not good:
                return eng.fresh(st, t) if t[0] != 'string' else None
            st.wobj(k).cls = good
        name, ty = sorted(fs)[0]
        if len(fs) > 1 and len({n for n, _ in fs}) > 1:
            eng.report(st, 'kind-confusion', 'field at offset %d read for several node kinds' % off)
        if name == 'key':
            return ('S', (('a', self.tag(st, k, 'key')),))
        if name == 'stringValue':
            return ('S', (('a', self.tag(st, k, 'text')),))
        if name == 'value' and ty == 'JSonElement*':
            c = self.new(st, self.p.VALUE, owner=('p', k, 0))
            return ('p', c, 0)
        if name == 'value' and t[0] == 'string':
            return ('S', (('a', self.tag(st, k, 'text')),))
        if name == 'value' and ty == 'bool':
            v = eng.sym(st, 8, (0, 1), 'bool')
            return v
        if name == 'parent':
            o = st.mem[k]
            if 'owner' in o.cells:
                return o.cells['owner']
            return eng.opaque(64, 'parent')
        if name == '@list':
            return ('Q', 'lazy', eng.new_id('q'), None)
        return None

    def tag(self, st, k, what):
        """the string identity of a node's text / key (stable per node)"""
        o = st.mem[k]
        v = o.cells.get('id:' + what)
        if v is None:
            v = ('a', self.eng.new_id(what))
            st.wobj(k).cells['id:' + what] = v
        return v[1]

    def slot_hook(self, st, s, ck, et):
        """a fresh container slot"""
        k = ck[0]
        if k in st.mem and self.is_node(st, k) and 'JSonElement' in et:
            cls = st.mem[k].cls
            kids = frozenset()
            if cls & self.p.OBJECT:
                kids |= self.p.ENTRY
            if cls - self.p.OBJECT:
                kids |= self.p.VALUE
            c = self.new(st, kids, owner=('p', k, 0), slot=('p', s, 0))
            st.mem[s].cells[0] = ('p', c, 0)

    def __repr__(self):
        return 'NodeWorld'
