"""Documents of bounded shape (kinds of simple values, texts and what is collapsed stay abstract) for the checks of the views."""
from engine import *


def forests(n, memo={}):
    """all lists of documents with n elements together"""
    if n == 0:
        return [()]
    if n not in memo:
        memo[n] = [(t,) + f for k in range(1, n + 1) for t in trees(k) for f in forests(n - k)]
    return memo[n]


def trees(n):
    """all documents with n elements: 'P' a simple value, ('A', children) an array, ('O', children) an object"""
    r = ['P'] if n == 1 else []
    return r + [(c, f) for c in 'AO' for f in forests(n - 1)]


def upto(n):
    return [t for k in range(1, n + 1) for t in trees(k)]


class Node:
    """an element of a document: kind P, A, O or E (member); obj its object, kids its children, val the value of a member"""
    __slots__ = ('kind', 'obj', 'kids', 'val', 'up', 'i')

    def container(self):
        """the container that this element shows, None for a simple value"""
        v = self.val if self.kind == 'E' else self
        return v if v.kind in 'AO' else None

    def siblings(self):
        return self.up.kids if self.up and self.up.kind in 'AO' else [self]

    def around(self):
        """the selectable element of the container around it"""
        return head(self.up) if self.up else None

    def next(self):
        """the next sibling, of it or of the nearest element around it that has one"""
        n = head(self)
        while n is not None:
            s = n.siblings()
            if n.i + 1 < len(s):
                return s[n.i + 1]
            n = n.around()
        return None

    def prev(self):
        return self.siblings()[self.i - 1] if self.i else None


def head(n):
    """what is selected for an element: the member for the value of a member"""
    return n.up if n.up is not None and n.up.kind == 'E' else n


def build(world, st, t, up=None, i=0, prim=None):
    """materialise a document; returns its Node"""
    p, eng = world.p, world.eng
    n = Node()
    n.kind, n.up, n.i, n.val, n.kids = (t if t == 'P' else t[0]), up, i, None, []
    owner = ('p', up.obj, 0) if up else NULL
    n.obj = world.new(st, {'P': prim or p.PRIM, 'A': p.ARRAY, 'O': p.OBJECT}[n.kind], owner=owner)
    if n.kind == 'P':
        return n
    loff = [o for o, f in world.fields[sorted(st.mem[n.obj].cls)[0]].items() if f[0] == '@list']
    slots = []
    for j, k in enumerate(t[1]):
        if n.kind == 'O':
            e = Node()
            e.kind, e.up, e.i, e.kids = 'E', n, j, []
            e.obj = world.new(st, p.ENTRY, owner=('p', n.obj, 0))
            e.val = build(world, st, k, e, 0, prim)
            st.mem[e.obj].cells[p.di.off('JSonObjectEntry', 'value')] = ('p', e.val.obj, 0)
        else:
            e = build(world, st, k, n, j, prim)
        n.kids.append(e)
        s = eng.new_obj(st, 'elem')
        st.mem[s].cells[0] = ('p', e.obj, 0)
        slots.append(s)
    st.mem[n.obj].cells[loff[0]] = ('Q', 'fin', tuple(slots))
    return n


def walk(n):
    """the selectable elements in document order"""
    yield n
    c = n.container()
    if c:
        for k in c.kids:
            yield from walk(k)


def every(n):
    """every element, values of members too"""
    yield n
    if n.kind == 'E':
        yield from every(n.val)
    for k in n.kids:
        yield from every(k)
