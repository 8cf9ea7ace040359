"""Shared harness pieces: program loading, JSON node model."""
import build
from ir import Module, PTR, Func
from di import DI
from engine import *
import models

_prog = None

STRT = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


class Prog:
    def __init__(self, kind='ssa'):
        self.mod = Module(build.build(kind))
        self.di = DI(self.mod)
        self._nodes()

    def _nodes(self):
        """concrete JSON element classes, by dynamic type"""
        m = self.mod
        base = '_ZTI11JSonElement'
        self.classes = {}
        for g in list(m.globals):
            if g.startswith('_ZTI') and m.derives(g, base) is not None and m.vtable_slots(g):
                abstract = any('__cxa_pure_virtual' in str(s) for grp in m.vtable_slots(g) for s in grp)
                if not abstract:
                    self.classes[g] = demangle_ti(g)
        d = lambda t, b: m.derives(t, b) is not None
        self.ENTRY = frozenset(t for t in self.classes if d(t, '_ZTI15JSonObjectEntry'))
        self.OBJECT = frozenset(t for t in self.classes if d(t, '_ZTI10JSonObject'))
        self.CONT = frozenset(t for t in self.classes if d(t, '_ZTI13JSonContainer'))
        self.ARRAY = self.CONT - self.OBJECT
        self.PRIM = frozenset(t for t in self.classes if d(t, '_ZTI14AJSonPrimitive'))
        self.STRING = frozenset(t for t in self.PRIM if 'basic_string' in t or 'Ss' in t)
        self.VALUE = self.CONT | self.PRIM
        if not (self.ENTRY and self.OBJECT and self.ARRAY and self.PRIM and len(self.STRING) == 1):
            raise AnalysisBroken('JSON element class hierarchy not recognised: %s' % sorted(self.classes.values()))

    def didesc(self, ti):
        """debug-info class name of a typeinfo"""
        n = demangle_ti(ti)
        if n == 'JSonPrimitive<string>':
            for k in self.di._byname:
                if k.startswith('JSonPrimitive<std::'):
                    return k
        return n


def prog(kind='ssa'):
    global _prog
    if _prog is None or _prog[0] != kind:
        _prog = (kind, Prog(kind))
    return _prog[1]


def getter_off(p, qual):
    """offset of the member that a getter returns (the only field of *this it reads)"""
    eng = Engine(p.mod, p.di, name=qual)
    st = State()
    k = eng.new_obj(st, 'lazy', lazy='any')
    eng.push(st, p.mod.one(qual), [('p', k, 0)])
    offs = set()
    for x in eng.run([st]):
        offs |= {o for o in x.state.mem[k].cells if isinstance(o, int)}
    offs.discard(0)
    if len(offs) != 1:
        raise AnalysisBroken('%s reads %r' % (qual, sorted(offs)))
    return offs.pop()
