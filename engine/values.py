"""Abstract values of the interpreter."""
import dd, lin
from dd import Node, leaf, TRUE, FALSE
from lin import Lin

class Undef:
    def __repr__(self):
        return 'undef'
UNDEF = Undef()

class Unknown:
    __slots__ = ('why',)
    def __init__(self, why):
        self.why = why
    def __repr__(self):
        return 'Unknown(%s)' % self.why

class Agg:
    __slots__ = ('f', 'ty')
    def __init__(self, f, ty=None):
        self.f = tuple(f)
        self.ty = ty
    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.f))
UNIT = Agg(())

class Enum:
    """discr: Node with leaves = variant index; pay: {variant: tuple of values}"""
    __slots__ = ('ty', 'discr', 'pay')
    def __init__(self, ty, discr, pay):
        self.ty, self.discr, self.pay = ty, discr, pay
    def __repr__(self):
        return 'enum(%s;%s)' % (self.discr, self.pay)

class Ptr:
    """node: leaves are (obj, path)"""
    __slots__ = ('node',)
    def __init__(self, node):
        self.node = node
    def __repr__(self):
        return 'ptr(%s)' % (dd.leaves(self.node),)

class Sym:
    """unexpanded symbolic value of a type, named by an access path"""
    __slots__ = ('ty', 'path')
    def __init__(self, ty, path):
        self.ty, self.path = ty, path
    def __repr__(self):
        return 'sym<%s>' % self.path

class View:
    """a window [pos, end) of an immutable byte source: Bytes, str, &[u8] contents"""
    __slots__ = ('src', 'pos', 'end', '_k')
    def __init__(self, src, pos, end):
        self.src, self.pos, self.end = src, pos, end
        self._k = None
    @property
    def key(self):
        if self._k is None:
            self._k = (self.src, self.pos.key, self.end.key)
        return self._k
    def __eq__(self, o):
        return isinstance(o, View) and self.key == o.key
    def __hash__(self):
        return hash(self.key)
    def rem(self):
        return lin.sub(self.end, self.pos)
    def __repr__(self):
        return 'view<%s>[%s..%s]' % (self.src[1] if len(self.src) > 1 else self.src, self.pos, self.end)

class Blob:
    """guarded choice of Views; node leaves are View"""
    __slots__ = ('node',)
    def __init__(self, node):
        self.node = node
    def __repr__(self):
        return 'blob(%s)' % (dd.leaves(self.node),)

class PList:
    """persistent append-only list"""
    __slots__ = ('prev', 'item', 'n')
    def __init__(self, prev, item, n):
        self.prev, self.item, self.n = prev, item, n
    def push(self, item):
        return PList(self, item, self.n + 1)
    def items(self):
        out = []
        p = self
        while p.prev is not None:
            out.append(p.item)
            p = p.prev
        return out[::-1]
EMPTY = PList(None, None, 0)

def common_prefix(a, b):
    """-> (prefix, suffix_a, suffix_b)"""
    sa, sb = [], []
    while a.n > b.n:
        sa.append(a.item)
        a = a.prev
    while b.n > a.n:
        sb.append(b.item)
        b = b.prev
    while a is not b:
        sa.append(a.item)
        sb.append(b.item)
        a, b = a.prev, b.prev
    return a, sa[::-1], sb[::-1]

class Buf:
    """byte buffer being built: list of (guard, entry); length kept as a Lin.
    entries: ('int', width, Lin) big-endian, ('view', View), ('blob', Blob), ('base', name, Lin),
             ('loop', LoopSum), ('head', name)"""
    __slots__ = ('ents', 'len')
    def __init__(self, ents, ln):
        self.ents, self.len = ents, ln
    def __repr__(self):
        return 'buf[%d](len=%s)' % (self.ents.n, self.len)

class VecV:
    """Vec<T>/slice of non-bytes: base (None | ('sym', path, elem ty) | ('head', name) | ('map', ...)), pushes, len"""
    __slots__ = ('base', 'push', 'len')
    def __init__(self, base, push, ln):
        self.base, self.push, self.len = base, push, ln
    def __repr__(self):
        return 'vec(%s,+%d,len=%s)' % (self.base, self.push.n, self.len)

class Iter:
    """iterator: kind + args (values / python constants)"""
    __slots__ = ('kind', 'a')
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a
    def __repr__(self):
        return 'iter.%s%r' % (self.kind, self.a)

def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Lin, View)):
        return a == b
    if isinstance(a, Node):
        return False
    if isinstance(a, Agg):
        return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Enum):
        return a.discr is b.discr and a.pay.keys() == b.pay.keys() and all(
            len(a.pay[k]) == len(b.pay[k]) and all(same(x, y) for x, y in zip(a.pay[k], b.pay[k])) for k in a.pay)
    if isinstance(a, (Ptr, Blob)):
        return a.node is b.node
    if isinstance(a, Sym):
        return a.path == b.path and a.ty == b.ty
    if isinstance(a, Buf):
        return a.ents is b.ents and a.len == b.len
    if isinstance(a, VecV):
        return a.base == b.base and a.push is b.push and a.len == b.len
    if isinstance(a, Iter):
        return a.kind == b.kind and len(a.a) == len(b.a) and all(
            same(x, y) if not isinstance(x, (int, str, tuple)) else x == y for x, y in zip(a.a, b.a))
    if isinstance(a, Unknown):
        return True
    if isinstance(a, tuple):
        return a == b
    return a == b

import re
FN_TRAIT = re.compile(r'ops::(?:function::)?Fn(Once|Mut)?::call(_once|_mut)?$')
