"""Class layouts from the debug information: member name -> (byte offset, type description)."""
import re
from build import AnalysisBroken


class DI:
    def __init__(self, mod):
        self.mod = mod
        self._cls = {}
        self._byname = {}
        for k, s in mod._md.items():
            if 'DICompositeType(' not in s or 'DIFlagFwdDecl' in s:
                continue
            m = re.search(r'name: "([^"]*)"', s)
            if m and re.search(r'DW_TAG_(class|structure)_type', s):
                self._byname.setdefault(m.group(1), k)
        for k, s in mod._md.items():          # typedef struct { ... } name;
            if 'DIDerivedType(tag: DW_TAG_typedef' in s:
                m = re.search(r'name: "([^"]*)"', s)
                b = re.search(r'baseType: !(\d+)', s)
                if m and b and m.group(1) not in self._byname:
                    t = mod.md(int(b.group(1)))
                    if 'DW_TAG_structure_type' in t and 'name:' not in t and 'DIFlagFwdDecl' not in t:
                        self._byname[m.group(1)] = int(b.group(1))
        self.enums = {}
        for k, s in mod._md.items():
            if 'DICompositeType(' in s and 'DW_TAG_enumeration_type' in s:
                m = re.search(r'name: "([^"]*)"', s)
                if m:
                    self.enums.setdefault(m.group(1), k)

    def _list(self, ref):
        return [int(x) for x in re.findall(r'!(\d+)', re.sub(r'^\s*!?\w*\s*!\{', '{', self.mod.md(ref)))]

    def _strip(self, k):
        while True:
            s = self.mod.md(k)
            if re.search(r'DIDerivedType\(tag: DW_TAG_(typedef|const_type|volatile_type|atomic_type)', s):
                m = re.search(r'baseType: !(\d+)', s)
                if not m:
                    return None
                k = int(m.group(1))
                continue
            return k

    def typename(self, k):
        k = self._strip(k)
        if k is None:
            return 'void'
        s = self.mod.md(k)
        if 'DW_TAG_pointer_type' in s:
            m = re.search(r'baseType: !(\d+)', s)
            return (self.typename(int(m.group(1))) if m else 'void') + '*'
        if 'DW_TAG_reference_type' in s or 'DW_TAG_rvalue' in s:
            m = re.search(r'baseType: !(\d+)', s)
            return (self.typename(int(m.group(1))) if m else 'void') + '&'
        m = re.search(r'name: "([^"]*)"', s)
        return m.group(1) if m else '?'

    def members(self, cname):
        """name -> (offset, typename) of a class, bases included (bases under 'base:<name>')"""
        r = self._cls.get(cname)
        if r is not None:
            return r
        k = self._byname.get(cname)
        if k is None:
            raise AnalysisBroken('class %s not found in the debug information' % cname)
        r = self._members(k)
        self._cls[cname] = r
        return r

    def _members(self, k):
        s = self.mod.md(k)
        out = {}
        m = re.search(r'elements: !(\d+)', s)
        if not m:
            return out
        for e in self._list(int(m.group(1))):
            es = self.mod.md(e)
            o = re.search(r'\boffset: (\d+)', es)
            off = int(o.group(1)) // 8 if o else 0
            if 'DW_TAG_member' in es and 'DIFlagStaticMember' not in es:
                nm = re.search(r'name: "([^"]*)"', es)
                bt = re.search(r'baseType: !(\d+)', es)
                if nm:
                    out[nm.group(1)] = (off, self.typename(int(bt.group(1))))
            elif 'DW_TAG_inheritance' in es:
                bt = re.search(r'baseType: !(\d+)', es)
                b = self._strip(int(bt.group(1)))
                bs = self.mod.md(b)
                nm = re.search(r'name: "([^"]*)"', bs)
                if nm:
                    out['base:' + nm.group(1)] = (off, nm.group(1))
                if 'DIFlagFwdDecl' in bs and nm and nm.group(1) in self._byname:
                    b = self._byname[nm.group(1)]
                for n2, (o2, t2) in self._members(b).items():
                    out.setdefault(n2, (off + o2, t2))
        return out

    def off(self, cname, member):
        m = self.members(cname)
        if member not in m:
            raise AnalysisBroken('member %s::%s not found' % (cname, member))
        return m[member][0]

    def is_bool(self, cname, off):
        return any(o == off and t == 'bool' for o, t in self.members(cname).values())

    def enum(self, name):
        k = self.enums.get(name)
        if k is None:
            raise AnalysisBroken('enum %s not found' % name)
        m = re.search(r'elements: !(\d+)', self.mod.md(k))
        out = {}
        for e in self._list(int(m.group(1))):
            es = self.mod.md(e)
            out[re.search(r'name: "([^"]*)"', es).group(1)] = int(re.search(r'value: (-?\d+)', es).group(1))
        return out
