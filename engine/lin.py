"""Integers as affine forms over atoms with decision-diagram coefficients."""
from math import gcd
import dd
from dd import leaf, BIG, TRUE, FALSE, iset, iand, inot

ONE = ''            # key of the constant term
ZERO_N = leaf(0)
ONE_N = leaf(1)

class Atom:
    __slots__ = ('name', 'lo', 'hi', 'kind', 'args', 'rank', 'okey')
    def __repr__(self):
        return self.name

ATOMS = {}
def atom(name, lo, hi, kind='sym', args=(), rank=5, okey=None):
    a = ATOMS.get(name)
    if a is None:
        a = Atom()
        a.name, a.lo, a.hi, a.kind, a.args, a.rank, a.okey = name, lo, hi, kind, args, rank, okey or name
        ATOMS[name] = a
    return a

class Lin:
    __slots__ = ('t', '_key', '_iv')
    def __init__(self, t):
        # t: dict atom-name -> Node(int leaves); zero coefficients dropped
        self.t = {k: n for k, n in t.items() if n is not ZERO_N}
        self._key = None
        self._iv = None
    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted((k, n.id) for k, n in self.t.items()))
        return self._key
    def __eq__(self, o):
        return isinstance(o, Lin) and self.key == o.key
    def __hash__(self):
        return hash(self.key)
    def __repr__(self):
        return fmt(self)
    def const(self):
        """int if constant else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and ONE in self.t and self.t[ONE].var is None:
            return self.t[ONE].val
        return None
    def c0(self):
        return self.t.get(ONE, ZERO_N)
    def atoms(self):
        return [k for k in self.t if k != ONE]
    def pure(self):
        """Node of ints if there are no atoms"""
        if not self.t:
            return ZERO_N
        if len(self.t) == 1 and ONE in self.t:
            return self.t[ONE]
        return None
    def single(self):
        """(atom, coef, const) when const coefficients and exactly one atom"""
        a = self.atoms()
        if len(a) != 1 or self.t[a[0]].var is not None or self.c0().var is not None:
            return None
        return ATOMS[a[0]], self.t[a[0]].val, self.c0().val
    def plain(self):
        return all(n.var is None for n in self.t.values())

def num(v):
    return Lin({ONE: leaf(v)}) if v else Lin({})

def of_node(n):
    return Lin({ONE: n})

def of_atom(a):
    return Lin({a.name: ONE_N})

def sym(name, lo, hi, **kw):
    return of_atom(atom(name, lo, hi, **kw))

def _addn(a, b):
    if a is ZERO_N:
        return b
    if b is ZERO_N:
        return a
    return dd.plus(a, b)

def add(a, b):
    t = dict(a.t)
    for k, n in b.t.items():
        t[k] = _addn(t[k], n) if k in t else n
    return norm(Lin(t))

def scale(a, c):
    if c == 0:
        return num(0)
    if c == 1:
        return a
    return Lin({k: dd.map_leaves(('*', c), lambda v: v * c, n) for k, n in a.t.items()})

def sub(a, b):
    return add(a, scale(b, -1))

def mulnode(a, n):
    return Lin({k: dd.apply('*', lambda x, y: x * y, m, n) for k, m in a.t.items()})

def ite(g, a, b):
    if a is b or g is TRUE or a == b:
        return a
    if g is FALSE:
        return b
    t = {}
    for k in set(a.t) | set(b.t):
        t[k] = dd.ite(g, a.t.get(k, ZERO_N), b.t.get(k, ZERO_N))
    return Lin(t)

def restrict(a, c):
    if c is TRUE or a.plain():
        return a
    return Lin({k: dd.restrict(n, c) for k, n in a.t.items()})

def interval(a):
    if a._iv is None:
        lo = hi = 0
        for k, n in a.t.items():
            lv = dd.leaves(n)
            if k == ONE:
                lo += min(lv)
                hi += max(lv)
            else:
                at = ATOMS[k]
                c = [v * x for v in lv for x in (at.lo, at.hi)]
                lo += min(c)
                hi += max(c)
        # constant part correlated with coefficients: refine when small
        a._iv = (lo, hi)
    return a._iv

def norm(a):
    """256*u8(p)+u8(p+1) -> u16(p); 65536*u16(p)+u16(p+2) -> u32(p); c*(m*div(x,m)+mod(x,m)) -> c*x"""
    again = True
    while again:
        again = False
        for k in list(a.t):
            if k == ONE:
                continue
            at = ATOMS[k]
            n = a.t[k]
            if n.var is not None:
                continue
            c = n.val
            if at.kind == 'tok' and at.args[0] in (1, 2):
                w = at.args[0]
                if c % (256 ** w) == 0:
                    k2 = tok_name(w, at.args[1], add(at.args[2], num(w)))
                    n2 = a.t.get(k2)
                    if n2 is not None and n2.var is None and n2.val * 256 ** w == c:
                        t = dict(a.t)
                        del t[k], t[k2]
                        big = tok(w * 2, at.args[1], at.args[2])
                        a = add(Lin(t), scale(big, n2.val))
                        again = True
                        break
            elif at.kind == 'div' and c % at.args[1] == 0:
                k2 = 'mod(%s,%d)' % (fmtkey(at.args[0]), at.args[1])
                n2 = a.t.get(k2)
                if n2 is not None and n2.var is None and n2.val * at.args[1] == c:
                    t = dict(a.t)
                    del t[k], t[k2]
                    a = add(Lin(t), scale(at.args[0], n2.val))
                    again = True
                    break
    return a

# ------------------------------------------------------------------ names
def fmt(a):
    parts = []
    for k in sorted(a.t):
        n = a.t[k]
        c = str(n.val) if n.var is None else 'D%d' % n.id
        if k == ONE:
            parts.append(c)
        elif c == '1':
            parts.append(k)
        else:
            parts.append('%s*%s' % (c, k))
    return '+'.join(parts) or '0'

_abbr = {}
def fmtkey(a):
    """canonical short name for a Lin used inside atom names"""
    s = fmt(a)
    if len(s) > 60:
        if a.key not in _abbr:
            _abbr[a.key] = '#%d' % len(_abbr)
        s = _abbr[a.key]
    return s

# ------------------------------------------------------------------ input tokens
PINS = {}           # assumptions of the analysed partition: name of an input integer -> its value
def tok_name(w, src, pos):
    return 'u%d[%s@%s]' % (8 * w, src, fmtkey(pos))

_posorder = {}
def tok(w, src, pos):
    """big-endian unsigned integer of w bytes at position pos of source src"""
    nm = tok_name(w, src, pos)
    if nm in PINS:
        return num(PINS[nm])
    if nm not in ATOMS:
        c = pos.const()
        o = '%s|%s' % (src, ('%06d' % c) if c is not None else 'x%06d' % _posorder.setdefault(nm, len(_posorder)))
        atom(nm, 0, 256 ** w - 1, 'tok', (w, src, pos), rank=3, okey=o)
    return of_atom(ATOMS[nm])

# ------------------------------------------------------------------ tests
def _var_of(at):
    return dd.var(at.name, at.lo, at.hi, rank=at.rank, meta=at, key=at.okey)

def _scale_set(s, c, c0):
    """{x : c*x + c0 in s}"""
    out = []
    for lo, hi in s:
        lo, hi = lo - c0, hi - c0
        if c < 0:
            lo, hi = -hi, -lo
        d = abs(c)
        l = -((-lo) // d) if lo > -BIG // 2 else -BIG
        h = hi // d if hi < BIG // 2 else BIG
        out.append((l, h))
    return iset(*out)

def test_atom(at, s):
    """guard: atom in s"""
    s = iand(s, ((at.lo, at.hi),))
    if not s:
        return FALSE
    if s == ((at.lo, at.hi),):
        return TRUE
    if at.kind == 'tab':
        base, table = at.args
        vals = [(base.lo + i, base.lo + i) for i, v in enumerate(table) if iand(((v, v),), s)]
        return test_atom(base, iset(*vals))
    if at.kind == 'div':
        x, c = at.args
        return test(x, iset(*[(lo * c, hi * c + c - 1) for lo, hi in s]))
    if at.kind == 'named' and distributable(at.args[0]):
        return test(at.args[0], s)
    return dd.test(_var_of(at), s)

NEG = ((-BIG, -1),)
NONPOS = ((-BIG, 0),)
EQ0 = ((0, 0),)
POS = ((1, BIG),)
NONNEG = ((0, BIG),)

def simplify(a):
    """operand form for tests: names a form whose coefficients are guarded"""
    if a.plain():
        return a
    if distributable(a):
        return a
    c0 = a.c0()
    m = min(dd.leaves(c0))
    if m:
        return add(of_atom(named(sub(a, num(m)))), num(m))
    return of_atom(named(a))

def distributable(a):
    return all(a.t[k].var is None for k in a.atoms()) and len(dd.leaves(a.c0(), 40)) <= 32

def named(a):
    nm = 'sum<%s>' % fmtkey(a)
    lo, hi = interval(a)
    return atom(nm, lo, hi, 'named', (a,), rank=8)

def _test_plain(a, s):
    lo, hi = interval(a)
    if not iand(((lo, hi),), s):
        return FALSE
    if iand(((lo, hi),), s) == ((lo, hi),):
        return TRUE
    sg = a.single()
    if sg:
        at, c, c0 = sg
        return test_atom(at, _scale_set(s, c, c0))
    # several atoms: linear-form variable, constant 0, gcd 1, first coefficient positive
    ks = sorted(a.atoms(), key=lambda k: (ATOMS[k].rank, ATOMS[k].okey))
    g = 0
    for k in ks:
        g = gcd(g, abs(a.t[k].val))
    sign = 1 if a.t[ks[0]].val > 0 else -1
    c0 = a.c0().val
    f = Lin({k: leaf(a.t[k].val // (g * sign)) for k in ks})
    flo, fhi = interval(f)
    v = dd.var('lin(%s)' % fmtkey(f), flo, fhi, rank=7, meta=f)
    return dd.test(v, _scale_set(s, g * sign, c0))

def test(a, s):
    """guard: value of a in s.  Guarded constants are distributed, other guarded forms named."""
    if not a.plain() and not distributable(a):
        n = by_byte(a)
        if n is not None:
            return dd.map_leaves(('in', s), lambda v: bool(iand(((v, v),), s)), n)
    a = simplify(a)
    n0 = a.c0()
    if n0.var is None:
        return _test_plain(a, s)
    base = Lin({k: n for k, n in a.t.items() if k != ONE})
    if not base.t:
        return dd.map_leaves(('in', s), lambda v: bool(iand(((v, v),), s)), n0)
    return dd.bind_leaves(lambda v: _test_plain(add(base, num(v)), s), n0)

def cmp(op, a, b):
    """guard for a op b"""
    if a == b:
        return TRUE if op in ('Eq', 'Le', 'Ge') else FALSE
    pa, pb = a.pure(), b.pure()
    if pa is None or pb is None:
        d = sub(a, b)
        if not d.plain() and (a.plain() or b.plain()) and by_byte(d) is None:
            d = sub(simplify(a), simplify(b))
    else:
        d = sub(a, b)
    s = {'Eq': EQ0, 'Ne': inot(EQ0), 'Lt': NEG, 'Le': NONPOS, 'Gt': POS, 'Ge': NONNEG}[op]
    return test(d, s)

def by_byte(a):
    """values of a form whose guarded coefficients depend on the one byte in it"""
    ks = a.atoms()
    if len(ks) != 1 or root_small(ATOMS[ks[0]]) is None:
        return None
    v = _var_of(root_small(ATOMS[ks[0]]))
    if not any(v in dd.support(n) for n in a.t.values()) or sum(len(dd.support(n)) for n in a.t.values()) > 4:
        return None
    return small_node(a, 256)

def small_node(a, limit=4096):
    """pure DD node of ints when every atom is small (domain <= 256), else None"""
    p = a.pure()
    if p is not None:
        return p
    n = 1
    for k in a.atoms():
        at = root_small(ATOMS[k])
        if at is None:
            return None
        n *= at.hi - at.lo + 1
    if n > limit:
        return None
    r = a.c0()
    for k in a.atoms():
        r = dd.plus(r, dd.apply('*', lambda x, y: x * y, a.t[k], atom_node(ATOMS[k])))
    return r

def root_small(at):
    if at.kind == 'tab':
        return at.args[0]
    if at.hi - at.lo <= 255:
        return at
    return None

def atom_node(at):
    base = root_small(at)
    v = _var_of(base)
    if at.kind == 'tab':
        return dd.mk(v, [(((base.lo + i, base.lo + i),), leaf(x)) for i, x in enumerate(at.args[1])])
    return dd.mk(v, [(((x, x),), leaf(x)) for x in range(base.lo, base.hi + 1)])

# ------------------------------------------------------------------ non-linear operations
def tab(at, table):
    """unary function of a small atom given as a table over its domain"""
    base = at
    if at.kind == 'tab':
        base, t0 = at.args
        table = tuple(table[v - at.lo] for v in t0)
    if len(set(table)) == 1:
        return num(table[0])
    d = table[0] - base.lo
    if all(v == base.lo + i + d for i, v in enumerate(table)):
        return add(of_atom(base), num(d)) if d else of_atom(base)
    nm = None
    if base.lo == 0 and base.hi == 255:
        for m in (0x7f, 0x3f, 0x1f, 0x0f, 7, 3, 1):
            if all(v == i & m for i, v in enumerate(table)):
                nm = '(%s&%d)' % (base.name, m)
                break
            if all(v == i >> (8 - m.bit_length()) for i, v in enumerate(table)):
                nm = '(%s>>%d)' % (base.name, 8 - m.bit_length())
                break
    if nm is None:
        nm = 'tab(%s,%s)' % (base.name, _tabid(tuple(table)))
    return of_atom(atom(nm, min(table), max(table), 'tab', (base, tuple(table)), rank=base.rank, okey=base.okey))

_tabs = {}
def _tabid(t):
    return 'T%d' % _tabs.setdefault(t, len(_tabs))

def unary(name, fn, a):
    """fn: int -> int, applied exactly when possible, else None"""
    p = a.pure()
    if p is not None:
        return of_node(dd.map_leaves(('un', name), fn, p))
    ks = a.atoms()
    if len(ks) == 1 and a.plain():
        at = ATOMS[ks[0]]
        base = root_small(at)
        if base is not None:
            c, c0 = a.t[ks[0]].val, a.c0().val
            return tab(at, [fn(c * v + c0) for v in range(at.lo, at.hi + 1)])
    return None

def distribute(a, fn):
    """apply fn(Lin with constant coefficients)->Lin at every joint leaf of a's coefficients"""
    ks = list(a.t)
    t = leaf(())
    for k in ks:
        t = dd.apply(('tup', len(ks)), lambda x, y: x + (y,), t, a.t[k])
    vals = dd.leaves(t, 33)
    if len(vals) > 32:
        return None
    out = None
    for v in vals:
        r = fn(Lin({k: leaf(c) for k, c in zip(ks, v)}))
        if r is None:
            return None
        out = r if out is None else ite(dd.when(t, v), r, out)
    return out

def nonlin(a):
    a2 = simplify(a)
    return a2

def div(a, c):
    if c == 1:
        return a
    r = unary(('div', c), lambda v: v // c, a)
    if r is not None:
        return r
    if all(n.var is None and n.val % c == 0 for n in a.t.values()):
        return Lin({k: leaf(n.val // c) for k, n in a.t.items()})
    if not a.plain():
        a = of_atom(named(a))
    lo, hi = interval(a)
    if lo // c == hi // c:
        return num(lo // c)
    s = a.single()
    if s and s[1] == 1 and s[2] == 0 and s[0].kind == 'div':
        return div(s[0].args[0], c * s[0].args[1])
    return of_atom(atom('div(%s,%d)' % (fmtkey(a), c), lo // c, hi // c, 'div', (a, c), rank=6))

def mod(a, c):
    r = unary(('mod', c), lambda v: v % c, a)
    if r is not None:
        return r
    lo, hi = interval(a)
    if 0 <= lo and hi < c:
        return a
    if not a.plain():
        a = of_atom(named(a))
        lo, hi = interval(a)
        if 0 <= lo and hi < c:
            return a
    # drop multiples of c
    t = {k: n for k, n in a.t.items() if not (n.var is None and n.val % c == 0)}
    if len(t) != len(a.t):
        return mod(Lin(t), c)
    s = a.single()
    if s and s[1] == 1 and s[2] == 0 and s[0].kind == 'mod' and s[0].args[1] % c == 0:
        return mod(s[0].args[0], c)
    return of_atom(atom('mod(%s,%d)' % (fmtkey(a), c), 0, c - 1, 'mod', (a, c), rank=6))

def tz(n):
    return (n & -n).bit_length() - 1 if n else 80

def low_zero_bits(a):
    """number of low bits known to be zero"""
    return min([tz(v) for n in a.t.values() for v in dd.leaves(n)] or [80])

def bitop(op, a, b, bits):
    f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y}[op]
    if a.const() is None or b.const() is None:
        if op in ('BitOr', 'BitXor'):
            for x, y in ((a, b), (b, a)):
                lo, hi = interval(y)
                if lo >= 0 and interval(x)[0] >= 0 and hi < (1 << low_zero_bits(x)):
                    return add(x, y)
    pa, pb = a.pure(), b.pure()
    if pa is not None and pb is not None:
        return of_node(dd.apply(op, f, pa, pb))
    ca, cb = a.const(), b.const()
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if cb == 0:
            return num(0) if op == 'BitAnd' else a
        r = unary((op, cb), lambda v: f(v, cb), a)
        if r is not None:
            return r
        if op == 'BitAnd':
            if (cb + 1) & cb == 0:
                return mod(a, cb + 1)
            k = tz(cb)
            m = cb >> k
            if (m + 1) & m == 0:
                return scale(mod(div(a, 1 << k), m + 1), 1 << k)
        # or with bits the other operand cannot have: single constant above its range
    na, nb = small_node(a), small_node(b)
    if na is not None and nb is not None and len(dd.support(na) | dd.support(nb)) <= 4:
        return of_node(dd.apply(op, f, na, nb))
    return None

def eq_under(a, b, g):
    """is a == b whenever guard g holds (syntactic on atoms, exact on coefficients)"""
    d = sub(a, b)
    for k, n in d.t.items():
        if dd.and_(g, dd.map_leaves('!=0', lambda v: v != 0, n)) is not FALSE:
            # last resort: equality test decided by the guard
            return dd.implies(g, test(d, EQ0))
    return True

def eq_quick(a, b, g):
    """cheap sufficient check of a == b under g"""
    d = restrict(sub(a, b), g)
    if not d.t:
        return True
    if not d.plain() or len(d.t) > 3 or not d.atoms():
        return False
    return dd.implies(g, test(d, EQ0))

_tidy = {}
def tidy(a, g):
    """the form a under guard g, with guarded alternatives folded together where the guard makes them equal"""
    if a.plain():
        return a
    key = (a.key, g.id)
    r = _tidy.get(key)
    if r is not None:
        return r
    a0 = a
    a = restrict(a, g)
    ks = list(a.t)
    if any(a.t[k].var is not None for k in ks if k != ONE):
        t = leaf(())
        for k in ks:
            t = dd.apply(('tup', len(ks)), lambda x, y: x + (y,), t, a.t[k])
        vals = dd.leaves(t, 13)
        if len(vals) <= 12:
            forms = {v: Lin({k: leaf(c) for k, c in zip(ks, v)}) for v in vals}
            order = sorted(vals, key=lambda v: sum(c != 0 for c in v))
            m = {}
            for i, v in enumerate(order):
                gv = None
                for w in reversed(order[i + 1:]):
                    if sum(c != 0 for c in w) <= sum(c != 0 for c in v):
                        continue
                    if gv is None:
                        gv = dd.and_(g, dd.when(t, v))
                    if eq_quick(forms[v], forms[w], gv):
                        m[v] = w
                        break
            if m:
                t = dd.map_leaves_raw(lambda v: m.get(v, v), t)
                a = Lin({k: dd.map_leaves(('proj', i), lambda v, i=i: v[i], t) for i, k in enumerate(ks)})
    if len(_tidy) > 20000:
        _tidy.clear()
    _tidy[key] = a
    return a

def demod(a, g):
    """remainders the guard makes the number itself"""
    ks = [k for k in a.t if k != ONE and ATOMS[k].kind == 'mod']
    for k in ks:
        x, c = ATOMS[k].args
        if dd.implies(g, test(x, ((0, c - 1),))):
            a = add(Lin({j: n for j, n in a.t.items() if j != k}), mulnode(x, a.t[k]))
    return a

_pins = {}
def pinned(at, g):
    """the only value of the atom that g allows, or None"""
    key = (at.name, g.id)
    r = _pins.get(key, 0)
    if r != 0:
        return r
    r = None
    v = dd.VARS.get(at.name)
    if v is not None and v in dd.support(g):
        vals = dd.values(g, v)
        if vals and len(vals) == 1 and vals[0][0] == vals[0][1]:
            r = vals[0][0]
    if len(_pins) > 50000:
        _pins.clear()
    _pins[key] = r
    return r

def pin(a, g):
    """replace input integers whose value g fixes"""
    for k in a.t:
        if k != ONE and ATOMS[k].kind == 'tok' and ATOMS[k].args[0] == 2:
            x = pinned(ATOMS[k], g)
            if x is not None:
                n = a.t[k]
                a = add(Lin({j: m for j, m in a.t.items() if j != k}),
                        of_node(dd.map_leaves(('*', x), lambda c: c * x, n)))
                return pin(a, g)
    return a

def eq_guard(a, b):
    return test(sub(a, b), EQ0)

class Subst(dict):
    """a substitution with its memo tables"""
    __slots__ = ('guards', 'vars', 'atoms', 'lins')

_substs = {}
def as_subst(m):
    if isinstance(m, Subst):
        return m
    k = tuple(sorted((a, v.key) for a, v in m.items()))
    r = _substs.get(k)
    if r is None:
        r = Subst(m)
        r.guards, r.vars, r.atoms, r.lins = {}, {}, {}, {}
        if len(_substs) > 400:
            _substs.clear()
        _substs[k] = r
    return r

def rename(name, m):
    """element indices inside access paths"""
    if '[' in name:
        for k, v in m.items():
            t = '[%s]' % k
            if t in name:
                name = name.replace(t, '[%s]' % fmtkey(v))
    return name

def subst(a, m):
    """replace atoms by Lins (m: name -> Lin), deep into derived atoms"""
    m = as_subst(m)
    r = m.lins.get(a.key)
    if r is None:
        r = _subst(a, m)
        m.lins[a.key] = (r is not a, r)
        return r
    return r[1] if r[0] else a

def _subst(a, m):
    out = None
    for k, n in a.t.items():
        if k == ONE:
            r = None
        else:
            r = subst_atom(ATOMS[k], m)
        n2 = subst_guard(n, m) if n.var is not None else n
        if r is None and n2 is n:
            continue
        if out is None:
            out = {}
        out[k] = (r, n2)
    if out is None:
        return a
    res = Lin({k: n for k, n in a.t.items() if k not in out})
    for k, (r, n2) in out.items():
        if r is None:
            res = add(res, Lin({k: n2}))
        else:
            res = add(res, mulnode(r, n2))
    return res

def subst_atom(at, m):
    """substituted form of an atom, or None when unchanged"""
    m = as_subst(m)
    if at.name in m.atoms:
        return m.atoms[at.name]
    r = m.atoms[at.name] = _subst_atom(at, m)
    return r

def _subst_atom(at, m):
    if at.name in m:
        return m[at.name]
    k = at.kind
    if k == 'tok':
        p = subst(at.args[2], m)
        s = rename(at.args[1], m)
        return None if p is at.args[2] and s == at.args[1] else tok(at.args[0], s, p)
    if k in ('div', 'mod'):
        x = subst(at.args[0], m)
        return None if x is at.args[0] else (div if k == 'div' else mod)(x, at.args[1])
    if k == 'named':
        x = subst(at.args[0], m)
        return None if x is at.args[0] else simplify(x)
    if k == 'tab':
        x = subst_atom(at.args[0], m)
        if x is None:
            return None
        s = x.single()
        if s and s[1] == 1 and s[2] == 0 and s[0].lo == at.args[0].lo and s[0].hi == at.args[0].hi:
            return tab(s[0], at.args[1])
        c = x.const()
        if c is not None:
            return num(at.args[1][c - at.args[0].lo])
        return of_atom(atom('?tab', 0, max(at.args[1])))
    if k == 'vbi':
        p = subst(at.args[1], m)
        s = rename(at.args[0], m)
        return None if p is at.args[1] and s == at.args[0] else vbi(s, p)
    if k == 'sum':
        term, idx, n = at.args
        n2 = subst(n, m)
        t2 = subst(term, {a: b for a, b in m.items() if a != idx})
        return None if n2 is n and t2 is term else summed(t2, idx, n2)
    if k in ('sym', 'unk', 'head') and '[' in at.name:
        nm = rename(at.name, m)
        if nm != at.name:
            return of_atom(atom(nm, at.lo, at.hi, at.kind, at.args, rank=at.rank))
    return None

_vt = {}
def varint_template(src, p):
    """(value, size, wellformed) of the variable byte integer at position p, over its byte tokens"""
    k = (src, p.key)
    r = _vt.get(k)
    if r is None:
        toks = [tok(1, src, add(p, num(i))) for i in range(4)]
        cont = [test(t, ((128, 255),)) for t in toks]
        val, size = None, None
        for i in (3, 2, 1, 0):
            low = scale(bitop('BitAnd', toks[i], num(127), 8), 128 ** i)
            if val is None:
                val, size = low, num(i + 1)
            else:
                val = add(low, ite(cont[i], val, num(0)))
                size = ite(cont[i], size, num(i + 1))
        ok = dd.or_(dd.or_(dd.not_(cont[0]), dd.not_(cont[1])), dd.or_(dd.not_(cont[2]), dd.not_(cont[3])))
        r = _vt[k] = (val, size, ok)
    return r

def vbi(src, p):
    """value of the well-formed variable byte integer at p"""
    nm = 'vbi[%s@%s]' % (src, fmtkey(p))
    return of_atom(atom(nm, 0, 268435455, 'vbi', (src, p), rank=3, okey='%s|v%s' % (src, fmtkey(p))))

def summed(term, idx, n):
    lo, hi = interval(term)
    nm = 'sum{%s<%s}(%s)' % (idx, fmtkey(n), fmtkey(term))
    return of_atom(atom(nm, 0 if lo >= 0 else -(1 << 56), 1 << 56, 'sum', (term, idx, n), rank=6))

def _subst_var(v, m):
    """maker of the substituted test, or None when the variable is unaffected"""
    meta = v.meta
    if isinstance(meta, Atom):
        x = subst_atom(meta, m)
        if x is not None:
            return lambda s: test(x, s)
    elif isinstance(meta, Lin):
        x = subst(meta, m)
        if x is not meta:
            return lambda s: test(x, s)
    elif meta in ('bool', 'discr') or (isinstance(meta, tuple) and '[' in v.name):
        nm = rename(v.name, m)
        if nm != v.name:
            v2 = dd.var(nm, v.dom[0][0], v.dom[-1][1], rank=v.key[0], meta=meta)
            return lambda s: dd.test(v2, s)
    return None

def subst_guard(node, m):
    """apply a substitution to the tests of a diagram"""
    if node.var is None:
        return node
    m = as_subst(m)
    hit = False
    for v in dd.support(node):
        if v.name not in m.vars:
            m.vars[v.name] = _subst_var(v, m)
        if m.vars[v.name] is not None:
            hit = True
    if not hit:
        return node
    return _subst_guard(node, m)

def _subst_guard(node, m):
    if node.var is None:
        return node
    r = m.guards.get(node.id)
    if r is not None:
        return r
    kids = [(s, _subst_guard(n, m)) for s, n in node.edges]
    mkt = m.vars.get(node.var.name)
    if mkt is None:
        if all(a is b[1] for (_, a), b in zip(kids, node.edges)):
            r = node
        else:
            v = node.var
            mkt = lambda s: dd.test(v, s)
    if r is None:
        r = kids[-1][1]
        for s, n in kids[:-1]:
            r = dd.ite(mkt(s), n, r)
    m.guards[node.id] = r
    return r

_ment = {}
def mentions(a, name):
    """does the form depend on the atom, directly or inside derived atoms and access paths"""
    key = (a.key, name)
    r = _ment.get(key)
    if r is None:
        r = _ment[key] = _mentions(a, name)
    return r

def _mentions(a, name):
    t = '[%s]' % name
    for k, n in a.t.items():
        if n.var is not None and any(var_mentions(v, name) for v in dd.support(n)):
            return True
        if k == ONE:
            continue
        if k == name or t in k:
            return True
        at = ATOMS[k]
        for x in at.args:
            if isinstance(x, Lin) and mentions(x, name):
                return True
            if isinstance(x, Atom) and mentions(of_atom(x), name):
                return True
    return False

def var_mentions(v, name):
    if v.name == name or ('[%s]' % name) in v.name:
        return True
    if isinstance(v.meta, Atom):
        return mentions(of_atom(v.meta), name)
    if isinstance(v.meta, Lin):
        return mentions(v.meta, name)
    return False

def imprecise_guard(n):
    return any(imprecise_var(v) for v in dd.support(n))

_impv = {}
def imprecise_var(v):
    r = _impv.get(v.name)
    if r is None:
        if '?' in v.name:
            r = True
        elif isinstance(v.meta, Atom):
            r = imprecise_atom(v.meta)
        elif isinstance(v.meta, Lin):
            r = imprecise(v.meta)
        else:
            r = False
        _impv[v.name] = r
    return r

def imprecise_atom(at):
    if '?' in at.name:
        return True
    for x in at.args:
        if isinstance(x, Lin) and imprecise(x):
            return True
        if isinstance(x, Atom) and imprecise_atom(x):
            return True
    return False

def imprecise(a):
    for k, n in a.t.items():
        if n.var is not None and imprecise_guard(n):
            return True
        if k != ONE and imprecise_atom(ATOMS[k]):
            return True
    return False

_mk = {}
NONE = frozenset()
def atoms_of_kind(a, kind):
    """names of the atoms of this kind the form depends on"""
    if isinstance(a, Atom):
        a = of_atom(a)
    key = (a.key, kind)
    r = _mk.get(key)
    if r is None:
        _mk[key] = NONE
        r = set()
        for k, n in a.t.items():
            if n.var is not None:
                for v in dd.support(n):
                    if isinstance(v.meta, (Lin, Atom)):
                        r |= atoms_of_kind(v.meta, kind)
            if k == ONE:
                continue
            at = ATOMS[k]
            if at.kind == kind:
                r.add(k)
            for x in at.args:
                if isinstance(x, (Lin, Atom)):
                    r |= atoms_of_kind(x, kind)
        r = _mk[key] = frozenset(r)
    return r
