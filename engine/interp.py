"""Abstract interpreter over the extracted MIR.

Every function is interpreted once per call context on symbolic values: no path is enumerated (states
are merged at joins with decision-diagram guards), loops are collapsed to an inductive summary unless a
constant counter bounds them, and nothing of the analysed crate is executed."""
import sys
import feas
import dd, lin
from dd import leaf, TRUE, FALSE, and_, or_, not_, implies
from lin import Lin, ATOMS, num
from values import *

sys.setrecursionlimit(20000)
MAXLEN = 1 << 47          # no object in memory is longer than this
MAXCNT = 1 << 56          # no usize counter that is only ever advanced by object sizes reaches this

class EngineError(Exception):
    pass

class State:
    __slots__ = ('g', 'cells')
    def __init__(self, g, cells):
        self.g, self.cells = g, cells
    def copy(self):
        return State(self.g, dict(self.cells))
    def when(self, c):
        return State(and_(self.g, c), dict(self.cells))

class Recorder:
    def __init__(self):
        self.obs = []        # (kind, span, fn, guard of failure, text)
        self.loops = []      # LoopRec
        self.notes = []      # (what, span, guard)
        self.allocs = []     # (Lin size, span, fn, guard)
        self.eqs = []        # (guard, {atom: Lin}) equalities substituted away
        self.checked = 0     # obligations discharged
        self.calls = {}      # fn key -> count
        self.ext = {}        # modelled external calls
    def merge(self, o):
        self.obs += o.obs
        self.loops += o.loops
        self.notes += o.notes
        self.allocs += o.allocs
        self.eqs += o.eqs
        self.checked += o.checked
        for d, s in ((self.calls, o.calls), (self.ext, o.ext)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v

class LoopRec:
    pass

class Frame:
    __slots__ = ('fn', 'depth', 'key')

def T_path(t):
    return t.get('path', '')

BYTESY = {'std::string::String', 'bytes::Bytes', 'bytes::BytesMut', 'std::borrow::Cow'}
PTRLIKE = {'std::ptr::NonNull', 'std::ptr::Unique', 'core::ptr::Unique', 'std::boxed::BoxRaw'}

PIN = [None]        # every list given as input has this many elements (None: any number)

def decide(v, g, depth):
    """v with the tests its variants and flags depend on settled by g"""
    t = type(v)
    if t is dd.Node:
        return v if v.var is None else dd.restrict(v, g)
    if depth > 3:
        return v
    if t is Agg:
        f = [decide(x, g, depth + 1) if type(x) in (Enum, Agg, dd.Node) else x for x in v.f]
        return v if all(x is y for x, y in zip(f, v.f)) else Agg(f, v.ty)
    if t is Enum:
        d = v.discr if v.discr.var is None else dd.restrict(v.discr, g)
        ch = d is not v.discr
        pay = {}
        for k, p in v.pay.items():
            gk = and_(g, dd.when(d, k)) if any(type(x) in (Enum, Agg, dd.Node) for x in p) else FALSE
            q = tuple(decide(x, gk, depth + 1) if type(x) in (Enum, Agg, dd.Node) else x for x in p) if gk is not FALSE else p
            ch = ch or any(x is not y for x, y in zip(p, q))
            pay[k] = q
        return Enum(v.ty, d, pay) if ch else v
    return v

def narrow_val(v, g, depth):
    t = type(v)
    if t is Lin:
        return v if v.plain() else lin.tidy(v, g)
    if t is View:
        p, e = v.pos, v.end
        if not p.plain() or not e.plain():
            p, e = lin.tidy(p, g), lin.tidy(e, g)
        p, e = lin.pin(p, g), lin.pin(e, g)
        return v if p is v.pos and e is v.end else View(v.src, p, e)
    if depth > 4:
        return v
    if t is Agg:
        f = None
        for i, x in enumerate(v.f):
            y = narrow_val(x, g, depth + 1)
            if y is not x:
                f = f or list(v.f)
                f[i] = y
        return v if f is None else Agg(f, v.ty)
    if t is Enum:
        pay = None
        for k, p in v.pay.items():
            q = None
            for i, x in enumerate(p):
                y = narrow_val(x, g, depth + 1)
                if y is not x:
                    q = q or list(p)
                    q[i] = y
            if q is not None:
                pay = pay or dict(v.pay)
                pay[k] = tuple(q)
        return v if pay is None else Enum(v.ty, v.discr, pay)
    if t is Iter:
        f = None
        for i, x in enumerate(v.a):
            y = narrow_val(x, g, depth + 1)
            if y is not x:
                f = f or list(v.a)
                f[i] = y
        return v if f is None else Iter(v.kind, *f)
    return v

class Interp:
    opaque_eq = False
    cur_g = TRUE            # the guard under which values are being computed
    def __init__(self, facts):
        self.facts = facts
        self.types = facts['types']
        self.fns = {f['key']: f for f in facts['fns']}
        self.frames = []
        self.stack = []          # call-site chain, for naming
        self.rec = Recorder()
        self.loopids = {}
        self.tag = facts.get('tag', '')      # tells the loops of several runs in one process apart
        self.cmplog = []
        self.origin = {}
        self.headatoms = set()
        self.active = set()
        self.nest = 0
        self.utf8 = set()
        self.tmp = facts.get('tmp0', 0)
        self.headelem = {}
        self.cfgs = {}
        self.dtors = {}
        self.consts = {}
        import models
        self.models = models.table(self)

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]
    def bits(self, ti):
        t = self.types[ti]
        if t['k'] in ('uint', 'int'):
            return t['bits'], t['k'] == 'int'
        if t['k'] == 'bool':
            return 1, False
        if t['k'] == 'char':
            return 32, False
        return None
    def irange(self, ti):
        b = self.bits(ti)
        if b is None:
            return None
        return (-(1 << (b[0] - 1)), (1 << (b[0] - 1)) - 1) if b[1] else (0, (1 << b[0]) - 1)
    def is_bytes(self, ti):
        t = self.types[ti]
        if t['k'] == 'str':
            return True
        if t['k'] in ('slice', 'array'):
            return self.types[t['inner']]['k'] == 'uint' and self.types[t['inner']]['bits'] == 8 and t['k'] == 'slice'
        if t['k'] == 'adt':
            p = t['path']
            if p in BYTESY:
                return True
            if p in ('std::vec::Vec', 'std::boxed::Box') and t.get('args'):
                a = self.types[t['args'][0]]
                if p == 'std::boxed::Box':
                    return self.is_bytes(t['args'][0])
                return a['k'] == 'uint' and a['bits'] == 8
        return False
    def is_str(self, ti):
        t = self.types[ti]
        if t['k'] == 'str':
            return True
        if t['k'] == 'adt':
            if t['path'] in ('std::string::String', 'std::borrow::Cow'):
                return True
            if t['path'] == 'std::boxed::Box' and t.get('args'):
                return self.is_str(t['args'][0])
        return False
    def peel(self, ti):
        while self.types[ti]['k'] in ('ref', 'rawptr'):
            ti = self.types[ti]['inner']
        return ti
    def place_ty(self, fn, p):
        ti = fn['locals'][p['l']]
        var = None
        for e in p['p']:
            k = e[0]
            t = self.types[ti]
            if k == '*':
                if t['k'] in ('ref', 'rawptr'):
                    ti = t['inner']
                elif t['k'] == 'adt' and t['path'] == 'std::boxed::Box':
                    ti = t['args'][0]
                else:
                    return None
            elif k == '.':
                ti = e[2]
            elif k == 'v':
                pass
            elif k in ('idx', 'cidx'):
                if t['k'] not in ('slice', 'array'):
                    return None
                ti = t['inner']
            else:
                return None
        return ti
    def op_ty(self, fn, o):
        if 'const' in o:
            return o['ty']
        p = o.get('cp') or o.get('mv')
        return self.place_ty(fn, p) if p else None

    # ------------------------------------------------------------------ symbolic values
    def expand(self, v):
        """one level of a Sym"""
        if type(v) is not Sym:
            return v
        t = self.types[v.ty]
        k = t['k']
        p = v.path
        if self.is_bytes(v.ty):
            if self.is_str(v.ty):
                self.utf8.add(p)
            return View(p, num(0), self.lenatom(p))
        if k in ('uint', 'int', 'char'):
            lo, hi = self.irange(v.ty)
            return lin.sym(p, lo, hi, kind='unk' if p.startswith('?') else 'sym')
        if k == 'bool':
            return dd.test(dd.var(p, 0, 1, meta='bool'), ((1, 1),))
        if k == 'tuple':
            return Agg([Sym(e, '%s.%d' % (p, i)) for i, e in enumerate(t['elems'])], v.ty)
        if k == 'array' and t['n'] is not None and t['n'] <= 64:
            return Agg([Sym(t['inner'], '%s[%d]' % (p, i)) for i in range(t['n'])], v.ty)
        if k == 'slice':
            return VecV(('sym', p, t['inner']), EMPTY, self.listlen(p))
        if k in ('ref', 'rawptr'):
            return Ptr(leaf((('so', p, t['inner']), ())))
        if k == 'adt':
            if t['path'] == 'std::vec::Vec':
                return VecV(('sym', p, t['args'][0]), EMPTY, self.listlen(p))
            if t['path'] == 'std::boxed::Box' and t.get('args'):
                return Sym(t['args'][0], p)
            if t['kind'] == 'struct' and t['variants']:
                return Agg([Sym(f['ty'], '%s.%s' % (p, f['name'])) for f in t['variants'][0]['fields']], v.ty)
            if t['kind'] == 'enum' and t['variants']:
                n = len(t['variants'])
                d = dd.var(p + '#', 0, n - 1, meta='discr', key=p)
                live = [i for i in range(n) if not any(self.types[f['ty']]['k'] == 'never' for f in t['variants'][i]['fields'])]
                node = dd.mk(d, [(((i, i),), leaf(i)) for i in range(n)])
                pay = {i: tuple(Sym(f['ty'], '%s.%s%s' % (p, vv['name'], '.' + f['name'])) for f in vv['fields'])
                       for i, vv in enumerate(t['variants']) if vv['fields']}
                return Enum(v.ty, node, pay)
        return v
    def listlen(self, p):
        return self.lenatom(p) if PIN[0] is None else num(PIN[0])
    def lenatom(self, p):
        return lin.sym(p + '.len', 0, MAXLEN)
    def bump(self):
        self.tmp += 1
        return self.tmp

    def fresh(self, ti, why):
        """value of a type about which nothing is known (imprecision is visible by the leading '?')"""
        self.tmp += 1
        self.rec.notes.append((why, self.where(), None))
        if ti is None:
            return Unknown(why)
        t = self.types[ti]
        if t['k'] == 'tuple' and not t['elems']:
            return UNIT
        return Sym(ti, '?%s%s.%d' % (self.tag, why.split(' ')[0][:40], self.tmp))
    def org(self, e):
        """remember which call wrote an entry"""
        fr = self.frames
        self.origin[id(e)] = (e, self.where(), [f.fn['path'] for f in fr[-3:]])
        return e
    def where(self):
        return self.cur_span if hasattr(self, 'cur_span') else ''

    # ------------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNDEF or a is None:
            return b
        if b is UNDEF or b is None:
            return a
        if type(a) is Sym and type(b) is Sym and a.path == b.path and a.ty == b.ty:
            return a
        if type(a) is Sym:
            a = self.expand(a)
        if type(b) is Sym:
            b = self.expand(b)
        ta, tb = type(a), type(b)
        if ta is Unknown or tb is Unknown:
            return a if ta is Unknown else b
        if ta is Lin and tb is Lin:
            return lin.ite(c, a, b)
        if ta is dd.Node and tb is dd.Node:
            return dd.ite(c, a, b)
        if ta is Ptr and tb is Ptr:
            return Ptr(dd.ite(c, a.node, b.node))
        if ta is Agg and tb is Agg and len(a.f) == len(b.f):
            if same(a, b):
                return a
            return Agg([self.merge_val(c, x, y) for x, y in zip(a.f, b.f)], a.ty if a.ty is not None else b.ty)
        if ta is Enum and tb is Enum:
            pay = {}
            for k in set(a.pay) | set(b.pay):
                if k not in a.pay:
                    pay[k] = b.pay[k]
                elif k not in b.pay:
                    pay[k] = a.pay[k]
                else:
                    pay[k] = tuple(self.merge_val(c, x, y) for x, y in zip(a.pay[k], b.pay[k]))
            return Enum(a.ty, dd.ite(c, a.discr, b.discr), pay)
        if ta in (View, Blob) and tb in (View, Blob):
            if ta is View and tb is View:
                if a == b:
                    return a
                if a.src == b.src:
                    return View(a.src, lin.ite(c, a.pos, b.pos), lin.ite(c, a.end, b.end))
            na = leaf(a) if ta is View else a.node
            nb = leaf(b) if tb is View else b.node
            return self.mkblob(dd.ite(c, na, nb))
        if ta is Buf and tb is Buf:
            pre, sa, sb = common_prefix(a.ents, b.ents)
            return Buf(merge_ents(pre, sa, sb, c), lin.ite(c, a.len, b.len))
        if ta is VecV and tb is VecV:
            if a.base == b.base:
                pre, sa, sb = common_prefix(a.push, b.push)
                p = pre
                for e in sa:
                    p = p.push((and_(e[0], c), e[1]))
                nc = not_(c)
                for e in sb:
                    p = p.push((and_(e[0], nc), e[1]))
                return VecV(a.base, p, lin.ite(c, a.len, b.len))
            return VecV(('ite', c, a, b), EMPTY, lin.ite(c, a.len, b.len))
        if ta is Iter and tb is Iter and a.kind == b.kind and len(a.a) == len(b.a):
            return Iter(a.kind, *[x if (x is y or same_or_eq(x, y)) else self.merge_val(c, x, y) for x, y in zip(a.a, b.a)])
        if ta in (View, Blob, Buf) and tb in (View, Blob, Buf):
            # an empty literal merged with a buffer under construction
            for x, y, cc in ((a, b, c), (b, a, not_(c))):
                if type(x) is View and type(y) is Buf and x.rem().const() == 0:
                    return self.merge_val(cc, Buf(EMPTY, num(0)), y)
        if same(a, b):
            return a
        return Unknown('merge %s/%s' % (ta.__name__, tb.__name__))

    def mkblob(self, node):
        if node.var is None:
            return node.val
        return Blob(node)

    def merge_lin(self, c, x, y, gx, gy):
        """one form for both sides when one of them already says both"""
        if x == y:
            return x
        if len(y.t) >= len(x.t) and lin.eq_quick(x, y, gx):
            return y
        if len(x.t) >= len(y.t) and lin.eq_quick(x, y, gy):
            return x
        return lin.ite(c, x, y)

    def merge2(self, a, b):
        if a is None or a.g is FALSE:
            return b
        if b is None or b.g is FALSE:
            return a
        g = or_(a.g, b.g)
        c = dd.restrict(a.g, g)
        if and_(c, and_(b.g, not_(a.g))) is not FALSE or not implies(a.g, c):
            c = a.g
        cells = dict(a.cells)
        ca = a.cells
        for k, vb in b.cells.items():
            va = ca.get(k)
            if va is None:
                cells[k] = vb
            elif va is not vb:
                if type(va) is Lin and type(vb) is Lin and va != vb:
                    cells[k] = self.merge_lin(c, va, vb, a.g, b.g)
                elif type(va) is View and type(vb) is View and va.src == vb.src and va != vb:
                    cells[k] = View(va.src, self.merge_lin(c, va.pos, vb.pos, a.g, b.g),
                                    self.merge_lin(c, va.end, vb.end, a.g, b.g))
                else:
                    cells[k] = self.merge_val(c, va, vb)
        return State(g, cells)

    def merge(self, sts):
        r = None
        for s in sts:
            r = self.merge2(r, s)
        return r

    # ------------------------------------------------------------------ projections
    def proj(self, v, e, st=None):
        """value of component e of v"""
        k = e[0]
        if type(v) is Sym:
            v = self.expand(v)
            if type(v) is Sym:
                v2 = self.expand(v)
                v = v2
        tv = type(v)
        if k == '.':
            if tv is Agg:
                if e[1] < len(v.f):
                    return v.f[e[1]]
                return Unknown('field')
            if tv is Ptr:
                return v           # NonNull/Unique/BoxRaw wrappers are transparent
            if tv in (View, Blob, Buf, VecV):
                return self.ref_value(v)   # the pointer inside a Box
            if tv is Iter and v.kind == 'range':
                return v.a[e[1]]
            if v is UNDEF:
                return UNDEF
            return Unknown('field of %s' % tv.__name__)
        if k == 'v':
            if tv is Enum:
                p = v.pay.get(e[1])
                return Agg(p) if p is not None else Agg(())
            if tv is Agg:
                return v
            return Unknown('variant of %s' % tv.__name__)
        if k == 'i':
            return self.index(v, e[1])
        if k == 'ci':
            i = num(e[1]) if not e[2] else lin.sub(self.length(v), num(e[1]))
            return self.index(v, i)
        if k == 'sub':
            return self.subrange(v, num(e[1]), lin.sub(self.length(v), num(e[2])) if e[3] else num(e[2]))
        return Unknown('proj %s' % k)

    def ref_value(self, v):
        """pointer to an immutable temporary holding v"""
        key = None
        if type(v) is View:
            key = ('val', v)
        elif type(v) is Blob:
            key = ('val', v.node.id)
        elif type(v) is Lin:
            key = ('val', 'lin', v.key)
        elif type(v) is Sym:
            return Ptr(leaf((('so', v.path, v.ty), ())))
        if key is None:
            self.tmp += 1
            key = ('val', '#', self.tmp)
        self.consts[key] = v
        return Ptr(leaf((key, ())))

    def index(self, v, i):
        if type(v) is Sym:
            v = self.expand(v)
        if type(v) is View:
            return self.byte(v, i)
        if type(v) is Blob:
            return self.bmap(v, lambda w: self.byte(w, i))
        if type(v) is Agg:
            c = i.const()
            if c is not None and 0 <= c < len(v.f):
                return v.f[c]
            n = lin.small_node(i)
            if n is not None and v.f:
                r = None
                for j, x in enumerate(v.f):
                    r = x if r is None else self.merge_val(dd.when(n, j), x, r)
                return r
            return Unknown('index')
        if type(v) is VecV:
            b = v.base
            if b is not None and b[0] == 'sym' and v.push is EMPTY:
                return Sym(b[2], '%s[%s]' % (b[1], lin.fmtkey(i)))
            if b is not None and b[0] == 'head' and v.push is EMPTY and b[1] in self.headelem:
                # whatever an earlier round has put there
                return Sym(self.headelem[b[1]], '%s[%s]' % (b[1], lin.fmtkey(i)))
            if b is not None and b[0] == 'ite' and v.push is EMPTY:
                return self.merge_val(b[1], self.index(b[2], i), self.index(b[3], i))
            if b is not None and b[0] == 'map' and v.push is EMPTY:
                return self.subst_val(b[3], {b[2]: i})
            if b is None:
                c = i.const()
                it = v.push.items()
                if c is not None and c < len(it) and all(g is TRUE for g, _ in it):
                    return it[c][1]
            return Unknown('vec index')
        return Unknown('index of %s' % type(v).__name__)

    def byte(self, w, i):
        p = lin.add(w.pos, i)
        if w.src.startswith('lit:'):
            data = bytes.fromhex(w.src[4:])
            c = p.const()
            if c is not None and c < len(data):
                return num(data[c])
            n = lin.small_node(p)
            if n is not None:
                return lin.of_node(dd.map_leaves(('lit', self.tag, w.src), lambda x: data[x] if 0 <= x < len(data) else 0, n))
        return lin.tok(1, w.src, p)

    def bmap(self, v, fn):
        """apply fn(View) -> value at every alternative"""
        if type(v) is View:
            return fn(v)
        r = None
        for w in sorted(dd.leaves(v.node), key=repr):
            x = fn(w)
            r = x if r is None else self.merge_val(dd.when(v.node, w), x, r)
        return r

    def length(self, v):
        if type(v) is Sym:
            v = self.expand(v)
            if type(v) is Sym:
                v = self.expand(v)
        if type(v) is View:
            return v.rem()
        if type(v) is Blob:
            return self.bmap(v, lambda w: w.rem())
        if type(v) in (Buf, VecV):
            return v.len
        if type(v) is Agg:
            return num(len(v.f))
        raise EngineError('length of %r' % (v,))

    def subrange(self, v, lo, hi):
        if type(v) is Sym:
            v = self.expand(v)
        if type(v) is View:
            return View(v.src, lin.add(v.pos, lo), lin.add(v.pos, hi))
        if type(v) is Blob:
            return self.bmap(v, lambda w: View(w.src, lin.add(w.pos, lo), lin.add(w.pos, hi)))
        if type(v) is Agg and lo.const() is not None and hi.const() is not None:
            return Agg(v.f[lo.const():hi.const()], None)
        if type(v) is Agg and lo.const() is not None and v.f and len(v.f) <= 64:
            # the first bytes of an array, up to a position that depends on the input
            p, n = EMPTY, lo.const()
            for i in range(n, len(v.f)):
                x = self.expand(v.f[i])
                if type(x) is not Lin or lin.interval(x)[0] < 0 or lin.interval(x)[1] > 255:
                    return Unknown('subrange')
                g = lin.cmp('Gt', hi, num(i))
                if g is not FALSE:
                    p = p.push((g, self.org(('int', 1, x)), num(i - n)))
            return Buf(p, lin.sub(hi, lo))
        if type(v) is VecV and lo.const() == 0 and hi == v.len:
            return v
        return Unknown('subrange')

    def read_path(self, v, path):
        for e in path:
            v = self.proj(v, e)
        return v

    def read_obj(self, st, obj):
        v = st.cells.get(obj)
        if v is None:
            v = self.consts.get(obj)
        if v is None:
            if obj[0] == 'so':
                return Sym(obj[2], obj[1])
            return UNDEF
        return v

    def read_loc(self, st, node):
        if node.var is None:
            if not isinstance(node.val, tuple):
                return Unknown('bad pointer')
            return self.read_path(self.read_obj(st, node.val[0]), node.val[1])
        r = None
        for l in sorted(dd.leaves(node), key=repr):
            x = self.read_loc(st, leaf(l))
            r = x if r is None else self.merge_val(dd.when(node, l), x, r)
        return r

    def update(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if type(v) is Sym:
            v = self.expand(v)
            if type(v) is Sym:
                v = self.expand(v)
        if e[0] == '.':
            if type(v) is Agg and e[1] < len(v.f):
                f = list(v.f)
                f[e[1]] = self.update(f[e[1]], path[1:], new)
                return Agg(f, v.ty)
            if v is UNDEF or type(v) is Agg:
                f = list(v.f) if type(v) is Agg else []
                while len(f) <= e[1]:
                    f.append(UNDEF)
                f[e[1]] = self.update(f[e[1]], path[1:], new)
                return Agg(f, None)
            return Unknown('store')
        if e[0] == 'v':
            if type(v) is Enum:
                pay = dict(v.pay)
                a = self.update(Agg(pay.get(e[1], ())), path[1:], new)
                pay[e[1]] = a.f if type(a) is Agg else ()
                return Enum(v.ty, v.discr, pay)
            return Unknown('store')
        if e[0] == 'i':
            if type(v) is Buf:
                return self.patch(v, e[1], new)
            c = e[1].const()
            if type(v) is Agg and c is not None and c < len(v.f):
                f = list(v.f)
                f[c] = self.update(f[c], path[1:], new)
                return Agg(f, v.ty)
            if type(v) is Agg:
                n = lin.small_node(e[1])
                if n is not None:
                    return Agg([self.merge_val(dd.when(n, j), self.update(x, path[1:], new), x) for j, x in enumerate(v.f)], v.ty)
            if type(v) is VecV and v.base is None and len(path) == 1 and c is not None:
                it = v.push.items()
                if c < len(it) and all(g is TRUE for g, _ in it):
                    p = EMPTY
                    for j, x in enumerate(it):
                        p = p.push((TRUE, new) if j == c else x)
                    return VecV(None, p, v.len)
            if type(v) is VecV and v.base and v.base[0] == 'head' and v.push is EMPTY:
                return VecV(('op', 'set', v, None), EMPTY, v.len)
        return Unknown('store into %s' % type(v).__name__)

    def patch(self, buf, idx, new):
        """buf[idx] = new: the entry starting at offset idx, one byte wide"""
        items = buf.ents.items()
        for j in range(len(items) - 1, -1, -1):
            g, e, off = items[j]
            if lin.eq_under(off, idx, self.cur_g) and implies(self.cur_g, g) and e[0] == 'int' and e[1] == 1:
                p = EMPTY if j == 0 else None
                # rebuild the list sharing the prefix
                q = buf.ents
                tail = []
                for _ in range(len(items) - j):
                    tail.append(q.item)
                    q = q.prev
                tail.reverse()
                q = q.push((g, self.org(('int', 1, new)), off))
                for t in tail[1:]:
                    q = q.push(t)
                return Buf(q, buf.len)
        return Buf(buf.ents.push((TRUE, self.org(('patch', idx, new)), buf.len)), buf.len)

    def write_loc(self, st, node, val):
        if node.var is None:
            if not isinstance(node.val, tuple):
                return
            obj, path = node.val
            was, self.cur_g = self.cur_g, st.g
            st.cells[obj] = self.update(self.read_obj(st, obj), path, val)
            self.cur_g = was
            return
        for l in dd.leaves(node):
            c = dd.when(node, l)
            old = self.read_loc(st, leaf(l))
            self.write_loc(st, leaf(l), self.merge_val(c, val, old))

    # ------------------------------------------------------------------ places and operands
    def place(self, st, fr, p):
        """location node of a place"""
        loc = leaf((('L', fr.depth, p['l']), ()))
        for e in p['p']:
            k = e[0]
            if k == '*':
                v = self.read_loc(st, loc)
                if type(v) is Sym:
                    v = self.expand(v)
                if type(v) is Ptr:
                    loc = v.node
                elif type(v) in (View, Blob, Buf, VecV, Agg, Enum, Lin, Sym):
                    pass           # a Box: the pointee is the box value itself
                else:
                    return leaf(None)
                continue
            if k == '.':
                x = ('.', e[1])
            elif k == 'v':
                x = ('v', e[1])
            elif k == 'idx':
                i = self.read_loc(st, leaf((('L', fr.depth, e[1]), ())))
                i = self.expand(i)
                if type(i) is not Lin:
                    return leaf(None)
                x = ('i', i)
            elif k == 'cidx':
                x = ('ci', e[1], bool(e[3]) if len(e) > 3 else False)
            elif k == 'sub':
                x = ('sub', e[1], e[2], bool(e[3]))
            else:
                continue
            loc = self.append(loc, x)
            if loc is None:
                return leaf(None)
        return loc

    def append(self, loc, x):
        def f(l):
            if not isinstance(l, tuple):
                return None
            return (l[0], l[1] + (x,))
        return dd.map_leaves(('app', x), f, loc)

    def read_place(self, st, fr, p):
        if not p['p']:
            v = st.cells.get(('L', fr.depth, p['l']))
            return UNDEF if v is None else v
        return self.read_loc(st, self.place(st, fr, p))

    def operand(self, st, fr, o):
        if 'const' in o:
            return self.const(o['const'], o['ty'])
        if 'cp' in o:
            return self.read_place(st, fr, o['cp'])
        if 'mv' in o:
            return self.read_place(st, fr, o['mv'])
        if 'rtcheck' in o:
            return TRUE
        return Unknown('operand')

    def const(self, c, ti):
        k = c['c']
        t = self.types[ti]
        if k == 'int':
            if t['k'] == 'bool':
                return TRUE if c['v'] else FALSE
            return num(c['v'])
        if k == 'bytes':
            b = bytes(c['v'])
            src = 'lit:' + b.hex()
            self.utf8.add(src)
            return View(src, num(0), num(len(b)))
        if k == 'ref':
            inner = t['inner'] if t['k'] in ('ref', 'rawptr') else ti
            return self.ref_value(self.const(c['v'], inner))
        if k == 'array':
            el = t.get('inner', ti)
            if t['k'] == 'array' and self.types[el]['k'] == 'uint' and self.types[el]['bits'] == 8:
                pass
            return Agg([self.const(x, el) for x in c['v']], ti)
        if k == 'agg':
            vs = t.get('variants') or []
            if t['k'] == 'adt' and t['kind'] == 'enum':
                vi = c['variant']
                fs = tuple(self.const(x, f['ty']) for x, f in zip(c['v'], vs[vi]['fields']))
                return Enum(ti, leaf(vi), {vi: fs} if fs else {})
            if t['k'] == 'tuple':
                return Agg([self.const(x, e) for x, e in zip(c['v'], t['elems'])], ti)
            if vs:
                return Agg([self.const(x, f['ty']) for x, f in zip(c['v'], vs[0]['fields'])], ti)
            return Agg((), ti)
        if k == 'zst':
            return Agg((), ti)
        if k == 'fn':
            return Agg((), ti)
        return self.fresh(ti, 'const')

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, dty):
        r = rv['r']
        fn = fr.fn
        if r == 'use':
            return self.operand(st, fr, rv['o'])
        if r in ('ref', 'rawptr'):
            return Ptr(self.place(st, fr, rv['p']))
        if r == 'agg':
            f = [self.operand(st, fr, o) for o in rv['f']]
            k = rv['kind']
            if k == 'adt':
                t = self.types[rv['ty']]
                if t['path'] == 'std::borrow::Cow':
                    v = f[0]
                    return self.load(st, v)
                if t['kind'] == 'enum':
                    return Enum(rv['ty'], leaf(rv['variant']), {rv['variant']: tuple(f)} if f else {})
                return Agg(f, rv['ty'])
            if k == 'array':
                return Agg(f, None)
            if k == 'closure':
                return Agg(f, rv['ty'])
            if k == 'rawptr':
                return f[0]
            return Agg(f, None)
        if r == 'discr':
            ti = self.place_ty(fn, rv['p'])
            v = self.read_place(st, fr, rv['p'])
            return self.discr(v, ti, dty)
        if r == 'bin':
            a = self.operand(st, fr, rv['a'])
            b = self.operand(st, fr, rv['b'])
            return self.binop(st, rv['op'], a, b, self.op_ty(fn, rv['a']), self.op_ty(fn, rv['b']))
        if r == 'un':
            a = self.operand(st, fr, rv['a'])
            a = self.expand(a)
            if rv['op'] == 'Not':
                if type(a) is dd.Node:
                    return not_(a)
                if type(a) is Lin:
                    ti = self.op_ty(fn, rv['a'])
                    lo, hi = self.irange(ti)
                    return lin.sub(num(hi + lo), a) if lo == 0 else lin.sub(num(-1), a)
            if rv['op'] == 'Neg' and type(a) is Lin:
                return lin.scale(a, -1)
            if rv['op'] == 'PtrMetadata':
                try:
                    return self.length(self.load(st, a))
                except EngineError:
                    return self.fresh(dty, 'PtrMetadata')
            return self.fresh(dty, 'unop %s' % rv['op'])
        if r == 'cast':
            a = self.operand(st, fr, rv['o'])
            return self.cast(st, rv['kind'], a, self.op_ty(fn, rv['o']), rv['ty'])
        if r == 'repeat':
            v = self.operand(st, fr, rv['o'])
            n = rv['n']
            n = int(n) if n is not None else None
            if n is not None and n <= 64:
                return Agg([v] * n, None)
            return self.fresh(dty, 'repeat')
        return self.fresh(dty, 'rvalue %s' % r)

    def discr(self, v, ti, dty):
        v = self.expand(v)
        if type(v) is Enum:
            t = self.types[v.ty]
            m = {i: x['discr'] for i, x in enumerate(t['variants'])}
            b = self.bits(dty)
            return lin.of_node(dd.map_leaves(('discr', self.tag, v.ty), lambda i: m[i], v.discr))
        return self.fresh(dty, 'discr of %s' % type(v).__name__)

    def wrap(self, v, ti):
        lo, hi = self.irange(ti)
        l, h = lin.interval(v)
        if lo <= l and h <= hi:
            return v
        if implies(self.cur_g, lin.test(v, ((lo, hi),))):
            return v
        if lo == 0:
            return lin.mod(v, hi + 1)
        return self.fresh(ti, 'wrap')

    def binop(self, st, op, a, b, ta, tb):
        was, self.cur_g = self.cur_g, st.g
        try:
            return self.binop_(st, op, a, b, ta, tb)
        finally:
            self.cur_g = was

    def binop_(self, st, op, a, b, ta, tb):
        a, b = self.expand(a), self.expand(b)
        ov = op.endswith('WithOverflow')
        base = op[:-12] if ov else op
        unchecked = base.endswith('Unchecked')
        if unchecked:
            base = base[:-9]
        if type(a) is dd.Node and type(b) is dd.Node:
            if base in ('Eq', 'Ne', 'BitXor'):
                x = dd.ite(a, b, not_(b))
                return x if base == 'Eq' else not_(x)
            if base == 'BitAnd':
                return and_(a, b)
            if base == 'BitOr':
                return or_(a, b)
            f = {'Lt': lambda: and_(not_(a), b), 'Le': lambda: or_(not_(a), b), 'Gt': lambda: and_(a, not_(b)), 'Ge': lambda: or_(a, not_(b))}.get(base)
            if f:
                return f()
        if type(a) is Lin and type(b) is Lin:
            if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.cmp(base, a, b)
            if base == 'Cmp':
                n = dd.ite(self.cmp('Lt', a, b), leaf(0), dd.ite(self.cmp('Eq', a, b), leaf(1), leaf(2)))
                for i, t in enumerate(self.types):
                    if t['k'] == 'adt' and t['path'] == 'std::cmp::Ordering':
                        return Enum(i, n, {})
            r = self.arith(base, a, b, ta)
            if r is not None:
                if ov:
                    lo, hi = self.irange(ta)
                    bad = lin.test(r, dd.inot(((lo, hi),)))
                    return Agg((r, bad), None)
                if base in ('Add', 'Sub', 'Mul', 'Shl') and ta is not None and not unchecked:
                    return self.wrap(r, ta)
                return r
            if ov:
                x = self.expand(self.fresh(ta, 'binop %s' % op))
                self.tmp += 1
                return Agg((x, dd.test(dd.var('?ov%d' % self.tmp, 0, 1), ((1, 1),))), None)
            if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                self.tmp += 1
                return dd.test(dd.var('?cmp%d' % self.tmp, 0, 1), ((1, 1),))
            return self.fresh(ta, 'binop %s' % op)
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            self.tmp += 1
            self.rec.notes.append(('compare %s %s' % (type(a).__name__, type(b).__name__), self.where(), None))
            return dd.test(dd.var('?cmp%d' % self.tmp, 0, 1), ((1, 1),))
        if ov:
            x = self.expand(self.fresh(ta, 'binop %s' % op))
            self.tmp += 1
            return Agg((x, dd.test(dd.var('?ov%d' % self.tmp, 0, 1), ((1, 1),))), None)
        return self.fresh(ta, 'binop %s' % op)

    def cmp(self, op, a, b):
        d = lin.sub(a, b)
        if self.headatoms and any(k in self.headatoms for k in d.t):
            if d not in self.cmplog:
                self.cmplog.append(d)
        if not d.plain():
            r = lin.restrict(d, self.cur_g)
            lo, hi = lin.interval(r)
            if r.plain() or len(r.t) < len(d.t) or lo > 0 or hi < 0:
                return lin.cmp(op, r, num(0))
        return lin.cmp(op, a, b)

    def arith(self, op, a, b, ta):
        if op == 'Add':
            return lin.add(a, b)
        if op == 'Sub':
            return lin.sub(a, b)
        if op == 'Mul':
            for x, y in ((a, b), (b, a)):
                c = x.const()
                if c is not None:
                    return lin.scale(y, c)
                p = x.pure()
                if p is not None and y.pure() is not None:
                    return lin.of_node(dd.apply('*', lambda u, v: u * v, p, y.pure()))
                if p is not None and len(dd.leaves(p, 9)) <= 8:
                    return lin.mulnode(y, p)
            return None
        if op in ('Div', 'Rem'):
            c = b.const()
            if c is None or c <= 0:
                return None
            if lin.interval(a)[0] < 0 and not (a.plain() and ta is not None and (self.irange(ta) or (-1,))[0] == 0):
                return None         # an unsigned number is not negative wherever this is reached
            return lin.div(a, c) if op == 'Div' else lin.mod(a, c)
        if op in ('Shl', 'Shr'):
            p = b.pure()
            if p is None or lin.interval(a)[0] < 0:
                return None
            r = None
            for k in dd.leaves(p):
                if k < 0 or k >= 128:
                    k2 = 0
                else:
                    k2 = k
                x = lin.scale(a, 1 << k2) if op == 'Shl' else lin.div(a, 1 << k2)
                if op == 'Shl' and ta is not None:
                    x = self.wrap(x, ta)
                r = x if r is None else lin.ite(dd.when(p, k), x, r)
            return r
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            bt = self.bits(ta) if ta is not None else None
            return lin.bitop(op, a, b, bt[0] if bt else 64)
        return None

    def cast(self, st, kind, a, ta, tb):
        t = self.types[tb]
        if kind == 'IntToInt':
            if type(a) is Sym:
                a = self.expand(a)
            if type(a) is dd.Node:
                return lin.of_node(dd.map_leaves('b2i', lambda x: int(x), a))
            if type(a) is Lin:
                lo, hi = self.irange(tb)
                l, h = lin.interval(a)
                if lo <= l and h <= hi or implies(st.g, lin.test(a, ((lo, hi),))):
                    return a
                if lo == 0:
                    if l < 0:
                        src = self.irange(ta)
                        if src and src[0] < 0:
                            # sign extension: add 2^bits to negative values
                            a = lin.ite(lin.test(a, lin.NEG), lin.add(a, num(hi + 1)), a)
                            l, h = lin.interval(a)
                            if implies(st.g, lin.test(a, ((lo, hi),))):
                                return a
                    return lin.mod(a, hi + 1)
                return self.fresh(tb, 'cast')
            return self.fresh(tb, 'cast')
        if type(a) is Ptr:
            if t['k'] in ('ref', 'rawptr') or (t['k'] == 'adt' and t['path'] in PTRLIKE) or (t['k'] == 'adt' and t['path'] == 'std::boxed::Box'):
                return a
            if t['k'] in ('uint', 'int'):
                return self.fresh(tb, 'ptr-to-int')
            return a
        if type(a) in (View, Blob, Buf, VecV) and t['k'] in ('ref', 'rawptr'):
            return self.ref_value(a)
        if kind.startswith('PointerCoercion'):
            return a
        if kind == 'Transmute' and type(a) in (Agg, Enum, Lin, Iter):
            if type(a) is Enum and self.bits(tb):
                return self.discr(a, None, tb)
            return a
        return self.fresh(tb, 'cast %s' % kind)

    def load(self, st, v):
        """value behind any chain of pointers"""
        for _ in range(8):
            if type(v) is Sym:
                v = self.expand(v)
                continue
            if type(v) is Ptr:
                v = self.read_loc(st, v.node)
                continue
            return v
        return v

    def load1(self, st, v):
        if type(v) is Sym:
            v = self.expand(v)
        if type(v) is Ptr:
            return self.read_loc(st, v.node)
        return v

    def target(self, st, v):
        """location node of the last pointer in a chain ending in a non-pointer value"""
        node = None
        for _ in range(8):
            if type(v) is Sym:
                v = self.expand(v)
                continue
            if type(v) is Ptr:
                node = v.node
                v = self.read_loc(st, node)
                continue
            return node, v
        return node, v

    # ------------------------------------------------------------------ obligations
    def oblige(self, kind, st, bad, text=''):
        """bad must be impossible here; afterwards it is assumed impossible"""
        self.rec.checked += 1
        x = and_(st.g, bad)
        if x is not FALSE:
            fn = self.frames[-1].fn['path'] if self.frames else ''
            self.rec.obs.append((kind, self.where(), fn, x, text))
            st.g = and_(st.g, not_(bad))

    # ------------------------------------------------------------------ control flow
    def cfg(self, fn):
        c = self.cfgs.get(fn['key'])
        if c is not None:
            return c
        bl = fn['blocks']
        succ = {}
        for i, b in enumerate(bl):
            if b is None:
                continue
            t = b['term']
            k = t['t']
            if k == 'goto' or k == 'assert' or k == 'drop':
                s = [t['to']]
            elif k == 'call':
                s = [t['to']] if t['to'] is not None else []
            elif k == 'switch':
                s = [x[1] for x in t['arms']] + ([t['else']] if t['else'] is not None else [])
            else:
                s = []
            succ[i] = list(dict.fromkeys(x for x in s if bl[x] is not None))
        order = []
        seen = {0}
        stack = [(0, iter(succ[0]))]
        while stack:
            n, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(succ[x])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        rpo = {n: i for i, n in enumerate(order)}
        pred = {n: [] for n in order}
        for n in order:
            for x in succ[n]:
                pred[x].append(n)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for n in order[1:]:
                ps = [p for p in pred[n] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while rpo[x] > rpo[y]:
                            x = idom[x]
                        while rpo[y] > rpo[x]:
                            y = idom[y]
                    d = x
                if idom.get(n) != d:
                    idom[n] = d
                    ch = True
        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b
        loops = {}
        for n in order:
            for x in succ[n]:
                if rpo[x] <= rpo[n]:
                    if not dom(x, n):
                        raise EngineError('irreducible loop in %s' % fn['path'])
                    body = loops.setdefault(x, {x})
                    work = [n]
                    while work:
                        m = work.pop()
                        if m not in body:
                            body.add(m)
                            work += pred[m]
        # liveness of locals whose address is never taken
        taken = set()
        uses, defs = {}, {}
        def place_uses(p, u):
            u.add(p['l'])
            for e in p['p']:
                if e[0] == 'idx':
                    u.add(e[1])
        def op_uses(o, u):
            p = o.get('cp') or o.get('mv')
            if p:
                place_uses(p, u)
        for n in order:
            u, d = set(), set()
            def use_set(f):
                x = set()
                f(x)
                u.update(x - d)
            b = bl[n]
            for s in b['s']:
                if 'rv' not in s:
                    if 'setdiscr' in s:
                        use_set(lambda x: place_uses(s['setdiscr'], x))
                    continue
                rv = s['rv']
                for key in ('o', 'a', 'b'):
                    if key in rv:
                        use_set(lambda x: op_uses(rv[key], x))
                for o in rv.get('f', []):
                    use_set(lambda x: op_uses(o, x))
                if 'p' in rv:
                    use_set(lambda x: place_uses(rv['p'], x))
                    if rv['r'] in ('ref', 'rawptr') and not (rv['p']['p'] and rv['p']['p'][0][0] == '*'):
                        taken.add(rv['p']['l'])
                if s['p']['p']:
                    use_set(lambda x: place_uses(s['p'], x))
                else:
                    d.add(s['p']['l'])
            t = b['term']
            if t['t'] == 'switch':
                use_set(lambda x: op_uses(t['d'], x))
            elif t['t'] == 'assert':
                use_set(lambda x: op_uses(t['cond'], x))
            elif t['t'] == 'call':
                for o in t['args']:
                    use_set(lambda x: op_uses(o, x))
                if t['f'].get('op'):
                    use_set(lambda x: op_uses(t['f']['op'], x))
                if t['dest']['p']:
                    use_set(lambda x: place_uses(t['dest'], x))
                else:
                    d.add(t['dest']['l'])
            elif t['t'] == 'drop':
                ti = self.place_ty(fn, t['p'])
                if ti is not None and self.has_dtor(ti):
                    use_set(lambda x: place_uses(t['p'], x))
                    taken.add(t['p']['l'])
            elif t['t'] == 'return':
                u.add(0)
            uses[n], defs[n] = u, d
        live = {n: set() for n in order}
        ch = True
        while ch:
            ch = False
            for n in reversed(order):
                o = set()
                for x in succ[n]:
                    o |= live[x]
                l = uses[n] | (o - defs[n])
                if l != live[n]:
                    live[n] = l
                    ch = True
        c = {'succ': succ, 'rpo': rpo, 'loops': loops, 'live': live, 'taken': taken}
        self.cfgs[fn['key']] = c
        return c

    def call(self, key, args, st):
        """run a function body; returns (value, state) with the guard of normal return, or (None, None)"""
        fn = self.fns[key]
        depth = len(self.frames)
        if depth > 60:
            raise EngineError('call depth')
        nest = sum(f.key == key for f in self.frames)
        if nest > 1:
            # recursion: followed as long as it can go on
            if not feas.feasible(st.g):
                return None, None
            if nest > 8:
                raise EngineError('recursion in %s' % key)
        fr = Frame()
        fr.fn, fr.depth, fr.key = fn, depth, key
        self.rec.calls[key] = self.rec.calls.get(key, 0) + 1
        st = st.copy()
        for i, a in enumerate(args):
            st.cells[('L', depth, i + 1)] = a
        self.frames.append(fr)
        span, was = getattr(self, 'cur_span', ''), self.cur_g
        try:
            c = self.cfg(fn)
            back, exits = self.region(fr, c, None, set(c['rpo']), 0, st)
            ret = exits.get('return')
        finally:
            self.frames.pop()
            self.cur_span, self.cur_g = span, was
        if ret is None or ret.g is FALSE:
            return None, None
        v = ret.cells.get(('L', depth, 0), UNIT)
        for k in [k for k in ret.cells if k[0] in ('L', 'T') and k[1] >= depth]:
            del ret.cells[k]
        v = self.canon(v, ret.g)
        return v, ret

    def trim(self, fr, c, b, st):
        live, taken = c['live'][b], c['taken']
        d = fr.depth
        for k in [k for k in st.cells if k[0] == 'L' and k[1] == d and k[2] not in live and k[2] not in taken]:
            del st.cells[k]
        return st

    def region(self, fr, c, header, blocks, entry, st):
        """interpret the blocks of a region once in reverse post-order.
        Returns (merged back-edge state or None, {target: state})."""
        rpo, loops = c['rpo'], c['loops']
        pend = {entry: [st]}
        back = []
        exits = {}
        import heapq
        heap = [(rpo[entry], entry)]
        queued = {entry}
        def put(src, tgt, s):
            if s is None or s.g is FALSE:
                return
            if tgt == 'return':
                exits.setdefault('return', []).append(s)
            elif tgt == header:
                back.append(s)
            elif tgt not in blocks:
                exits.setdefault(tgt, []).append(s)
            else:
                pend.setdefault(tgt, []).append(s)
                if tgt not in queued:
                    queued.add(tgt)
                    heapq.heappush(heap, (rpo[tgt], tgt))
        while heap:
            _, b = heapq.heappop(heap)
            queued.discard(b)
            sts = pend.pop(b, [])
            sts = [self.trim(fr, c, b, s) for s in sts]
            s = self.merge(sts)
            if s is None or s.g is FALSE:
                continue
            if b in loops and b != header:
                for tgt, s2 in self.mir_loop(fr, c, b, s):
                    put(b, tgt, s2)
                continue
            for tgt, s2 in self.block(fr, b, s.copy()):
                put(b, tgt, s2)
        bk = self.merge([self.trim(fr, c, header, s) for s in back]) if back else None
        return bk, {t: self.merge([self.trim(fr, c, t, x) if t != 'return' else x for x in l]) for t, l in exits.items()}

    def block(self, fr, b, st):
        fn = fr.fn
        bl = fn['blocks'][b]
        for s in bl['s']:
            if 'rv' in s:
                self.cur_span = s['sp']
                self.cur_g = st.g
                dty = self.place_ty(fn, s['p'])
                v = self.rvalue(st, fr, s['rv'], dty)
                if not s['p']['p']:
                    st.cells[('L', fr.depth, s['p']['l'])] = v
                else:
                    self.write_loc(st, self.place(st, fr, s['p']), v)
            elif 'setdiscr' in s:
                loc = self.place(st, fr, s['setdiscr'])
                v = self.expand(self.read_loc(st, loc))
                if type(v) is Enum:
                    self.write_loc(st, loc, Enum(v.ty, leaf(s['v']), v.pay))
                else:
                    ti = self.place_ty(fn, s['setdiscr'])
                    self.write_loc(st, loc, Enum(ti, leaf(s['v']), {s['v']: v.f} if type(v) is Agg else {}))
        t = bl['term']
        self.cur_span = t['sp']
        self.cur_g = st.g
        k = t['t']
        if k == 'goto':
            return [(t['to'], st)]
        if k == 'drop':
            ti = self.place_ty(fn, t['p'])
            if ti is not None and self.has_dtor(ti):
                self.stack.append((fr.key, b))
                try:
                    st = self.drop(st, self.place(st, fr, t['p']), ti)
                finally:
                    self.stack.pop()
                if st is None or st.g is FALSE:
                    return []
            return [(t['to'], st)]
        if k == 'return':
            return [('return', st)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'assert':
            v = self.operand(st, fr, t['cond'])
            v = self.expand(v)
            if type(v) is dd.Node:
                bad = not_(v) if t['exp'] else v
                if t['msg'].startswith('other') and any(x.name.startswith('?') for x in dd.support(bad)):
                    return [(t['to'], st)]     # pointer alignment and null checks inserted by the compiler
                self.oblige('panic', st, bad, t['msg'])
            return [(t['to'], st)] if st.g is not FALSE else []
        if k == 'switch':
            return self.switch(fr, t, st)
        if k == 'call':
            return self.do_call(fr, t, st, b)
        raise EngineError('terminator %s' % k)

    def has_dtor(self, ti, seen=()):
        """does dropping a value of the type run a destructor of the crate"""
        r = self.dtors.get(ti)
        if r is None:
            if ti in seen:
                return False
            t = self.types[ti]
            k = t['k']
            if k == 'adt':
                parts = [f['ty'] for v in t['variants'] for f in v['fields']] if t['variants'] else list(t.get('args', ()))
                r = bool(t.get('dtor')) or any(self.has_dtor(x, seen + (ti,)) for x in parts)
            elif k == 'tuple':
                r = any(self.has_dtor(x, seen + (ti,)) for x in t['elems'])
            elif k == 'closure':
                r = any(self.has_dtor(x, seen + (ti,)) for x in t['upvars'])
            elif k in ('array', 'slice'):
                r = self.has_dtor(t['inner'], seen + (ti,))
            else:
                r = False
            if not seen:
                self.dtors[ti] = r
        return r

    def drop(self, st, loc, ti):
        """drop glue: the destructors of the crate, the value's own before those of its parts"""
        t = self.types[ti]
        if t['k'] == 'adt' and t.get('dtor'):
            _, st = self.invoke(t['dtor'], [Ptr(loc)], st, {'to': 0, 'atys': [], 'dty': None, 'args': []})
            if st is None or st.g is FALSE:
                return None
        if t['k'] == 'adt' and t['kind'] == 'enum':
            v = self.expand(self.read_loc(st, loc))
            if type(v) is not Enum:
                raise EngineError('drop of %s' % t['s'])
            outs = []
            for i, w in enumerate(t['variants']):
                fs = [(j, f['ty']) for j, f in enumerate(w['fields']) if self.has_dtor(f['ty'])]
                s = State(and_(st.g, dd.when(v.discr, i)), dict(st.cells))
                for j, ft in fs:
                    if s is not None and s.g is not FALSE:
                        s = self.drop(s, self.append(self.append(loc, ('v', i)), ('.', j)), ft)
                if s is not None and s.g is not FALSE:
                    outs.append(s)
            return self.merge(outs) if outs else None
        if t['k'] == 'adt' and t['kind'] == 'struct' and t['variants']:
            fs = [f['ty'] for f in t['variants'][0]['fields']]
        elif t['k'] == 'tuple':
            fs = t['elems']
        elif t['k'] == 'closure':
            fs = t['upvars']
        else:
            raise EngineError('drop of %s' % t['s'])
        for j, ft in enumerate(fs):
            if self.has_dtor(ft):
                st = self.drop(st, self.append(loc, ('.', j)), ft)
                if st is None or st.g is FALSE:
                    return None
        return st

    def switch(self, fr, t, st):
        v = self.expand(self.operand(st, fr, t['d']))
        out = []
        rest = TRUE
        dty = self.types[t['dty']]
        for val, tgt in t['arms']:
            if type(v) is dd.Node:
                c = v if val else not_(v)
            elif type(v) is Lin:
                b = self.bits(t['dty'])
                if b and b[1] and val >= 1 << (b[0] - 1):
                    val -= 1 << b[0]
                c = self.cmp('Eq', v, num(val))
            else:
                self.tmp += 1
                self.rec.notes.append(('switch on %s' % type(v).__name__, self.where(), None))
                c = dd.test(dd.var('?sw%d' % self.tmp, 0, 1), ((1, 1),))
            g = and_(and_(st.g, rest), c)
            if g is not FALSE:
                out.append((tgt, self.solve(self.narrow(State(g, dict(st.cells))), c)))
            rest = and_(rest, not_(c))
        if t['else'] is not None:
            g = and_(st.g, rest)
            if g is not FALSE:
                out.append((t['else'], self.solve(self.narrow(State(g, dict(st.cells))), rest)))
        return out

    def narrow(self, st):
        """drop the guarded parts of integers that the state's guard excludes"""
        g = st.g
        for k, v in st.cells.items():
            t = type(v)
            if t is Lin:
                if not v.plain():
                    st.cells[k] = lin.tidy(v, g)
            elif t is View or t is Agg or t is Enum or t is Iter:
                w = narrow_val(v, g, 0)
                if w is not v:
                    st.cells[k] = w
        return st

    def do_call(self, fr, t, st, b):
        args = [self.operand(st, fr, o) for o in t['args']]
        self.stack.append((fr.key, b))
        try:
            v, st2 = self.invoke(t['f'], args, st, t)
        finally:
            self.stack.pop()
        self.cur_span = t['sp']
        if t['to'] is None or st2 is None or st2.g is FALSE:
            return []
        if not t['dest']['p']:
            st2.cells[('L', fr.depth, t['dest']['l'])] = v
        else:
            self.write_loc(st2, self.place(st2, fr, t['dest']), v)
        return [(t['to'], st2)]

    def invoke(self, f, args, st, t):
        """-> (value, state)"""
        was, self.cur_g = self.cur_g, st.g
        try:
            return self.invoke_(f, args, st, t)
        finally:
            self.cur_g = was

    def invoke_(self, f, args, st, t):
        key = f.get('key')
        m = self.models(f)
        if m is not None:
            r = m(self, f, args, st, t)
            if r is not NotImplemented:
                name = f['decl']
                self.rec.ext[name] = self.rec.ext.get(name, 0) + 1
                return r
        if key is not None and key in self.fns:
            fn = self.fns[key]
            if fn['spread'] >= 0:
                pass
            elif '{closure' in key and len(args) == 2 and type(args[1]) is Agg and (
                    len(args) != fn['argc'] or FN_TRAIT.search(f['decl'])):
                args = [args[0]] + list(args[1].f)
            return self.call(key, args, st)
        if t['to'] is None:
            # diverging library function: a panic
            self.oblige('panic', st, TRUE, f.get('path') or f['decl'])
            return None, None
        self.rec.notes.append(('unmodelled call %s' % (f.get('path') or f['decl']), self.where(), st.g))
        # anything reachable through a mutable reference may change
        st = st.copy()
        for a, aty in zip(args, t['atys']):
            ty = self.types[aty]
            if ty['k'] in ('ref', 'rawptr') and ty.get('mut') and type(a) is Ptr:
                self.write_loc(st, a.node, self.fresh(ty['inner'], 'unmodelled'))
        return self.fresh(t['dty'], 'call:' + f['decl'].split('::')[-1]), st

    def call_closure(self, clo, args, st):
        """call a closure / function item value"""
        c = clo
        for _ in range(4):
            if type(c) is Ptr:
                c = self.read_loc(st, c.node)
        if type(c) is Agg and c.ty is not None:
            t = self.types[c.ty]
            if t['k'] == 'closure' and t.get('body') in self.fns:
                fn = self.fns[t['body']]
                st = st.copy()
                a0 = c
                lt = self.types[fn['locals'][1]] if fn['argc'] >= 1 else None
                if lt is not None and lt['k'] == 'ref':
                    if type(clo) is Ptr:
                        a0 = clo
                        v = self.read_loc(st, a0.node)
                        if type(v) is Ptr:
                            a0 = v
                    else:
                        key = ('T', len(self.frames), 'clo', len(self.stack))
                        st.cells[key] = c
                        a0 = Ptr(leaf((key, ())))
                return self.call(t['body'], [a0] + list(args), st)
            if t['k'] == 'fndef':
                f = t.get('callee') or {'decl': t.get('path', ''), 'key': t.get('key'), 'path': t.get('path', '')}
                return self.invoke(f, list(args), st, {'to': 0, 'atys': [], 'dty': t.get('ret'), 'args': []})
        self.rec.notes.append(('unknown callee', self.where(), st.g))
        return Unknown('callee'), st

    # ------------------------------------------------------------------ canonical variable byte integers
    def canon(self, v, g, depth=0):
        if depth > 4:
            return v
        if type(v) is Lin:
            return self.canon_lin(v, g)
        if type(v) is Agg:
            f = [self.canon(x, g, depth + 1) for x in v.f]
            return v if all(x is y for x, y in zip(f, v.f)) else Agg(f, v.ty)
        if type(v) is Enum:
            ch = False
            pay = {}
            for k, p in v.pay.items():
                if any(type(x) in (Lin, Agg, Enum) for x in p):
                    gk = and_(g, dd.when(v.discr, k))
                    n = tuple(self.canon(x, gk, depth + 1) for x in p) if gk is not FALSE else p
                    ch = ch or any(x is not y for x, y in zip(n, p))
                    pay[k] = n
                else:
                    pay[k] = p
            return Enum(v.ty, v.discr, pay) if ch else v
        return v

    def canon_lin(self, v, g):
        v0 = v
        tabs = [ATOMS[k] for k in v.t if k != '' and ATOMS[k].kind in ('tab', 'tok')]
        if tabs:
            # integers recognised too early (the low bits of a last byte on their own): back to their bytes
            for k in list(v.t):
                if k != '' and ATOMS[k].kind == 'vbi':
                    val, _, _ = varint_template(*ATOMS[k].args)
                    v = lin.restrict(lin.add(Lin({x: n for x, n in v.t.items() if x != k}), lin.mulnode(val, v.t[k])), g)
            tabs = [ATOMS[k] for k in v.t if k != '' and ATOMS[k].kind in ('tab', 'tok')]
        if not tabs or len(tabs) > 4 or len(tabs) != len(v.atoms()):
            return v0
        toks = []
        for a in tabs:
            b = a.args[0] if a.kind == 'tab' else a
            if b.kind != 'tok' or b.args[0] != 1:
                return v0
            toks.append(b)
        srcs = set(b.args[1] for b in toks)
        if len(srcs) != 1:
            return v0
        src = srcs.pop()
        for b in toks:
            p = b.args[2]
            val, size, ok = varint_template(src, p)
            if not all(k in val.t for k in v.t):
                continue
            if and_(g, ok) is FALSE:
                continue
            if lin.eq_under(v, val, g):
                # keep plain single-byte forms as they are
                if len(tabs) == 1 and implies(g, lin.eq_guard(v, lin.of_atom(b))):
                    return v0
                return varint_value(src, p)
        return v0

    # ------------------------------------------------------------------ loops
    def mir_loop(self, fr, c, header, st):
        blocks = c['loops'][header]
        fn = fr.fn
        def body(s):
            return self.region(fr, c, header, blocks, header, s)
        ctx = tuple(self.stack) + ((fr.key, header),)
        names = dict((l, n) for l, n in fn['names'])
        def keyname(k):
            if k[0] == 'L' and k[1] == fr.depth:
                return '%s_%d' % (names.get(k[2], ''), k[2])
            if k[0] == 'L':
                f2 = self.frames[k[1]].fn
                return '%s_%d^%d' % (dict((l, n) for l, n in f2['names']).get(k[2], ''), k[2], fr.depth - k[1])
            return str(k)
        span = fn['blocks'][header]['term']['sp']
        live = set(('L', fr.depth, l) for l in c['live'][header] | c['taken'])
        def relevant(k):
            return not (k[0] == 'L' and k[1] == fr.depth and k not in live)
        ex = self.run_loop(ctx, body, st, span, keyname, relevant, fn)
        out = []
        for t, s in ex:
            out.append((t, s))
        return out

    def loopname(self, ctx):
        n = self.loopids.get(ctx)
        if n is None:
            n = self.loopids[ctx] = '%sL%d' % (self.tag, len(self.loopids))
        return n

    def with_rec(self, fn):
        """run fn with a private recorder; returns (result, recorder)"""
        old = self.rec
        self.rec = Recorder()
        try:
            r = fn()
            return r, self.rec
        finally:
            self.rec = old

    def run_loop(self, ctx, body, st0, span, keyname, relevant, fn):
        """-> list of (exit target, state)"""
        # 1. unroll while a constant counter advances
        def unroll():
            cur = st0
            outs = []
            grown = 0
            for it in range(10):
                self.stack.append(('iter', it))
                before = dd._count
                try:
                    back, exits = body(cur)
                finally:
                    self.stack.pop()
                before, grown = grown, dd._count - before
                if it >= 2 and grown > 15000 and grown > 2 * before:
                    return None         # the cases multiply from round to round
                outs += list(exits.items())
                if back is None or back.g is FALSE:
                    return outs
                if not self.progress(cur, back):
                    return None
                cur = back
            return None
        outs, rec = self.with_rec(unroll)
        if outs is not None:
            self.rec.merge(rec)
            by = {}
            for t, s in outs:
                by[t] = self.merge2(by.get(t), s)
            return list(by.items())
        # 2. inductive summary
        return self.summarise(ctx, body, st0, span, keyname, relevant, fn)

    def progress(self, a, b):
        for k, v in a.cells.items():
            w = b.cells.get(k)
            if w is v or w is None:
                continue
            if _const_changed(v, w):
                return True
        return False

    def summarise(self, ctx, body, st0, span, keyname, relevant, fn):
        L = self.loopname(ctx)
        forced = set()          # (cell key, component path)
        uni = {}                # head name -> (rep name, sign, init, rep init)
        banned = set()
        rename = {}
        invs = {}               # candidate invariants: Lin key -> Lin (>= 0)
        dropped = set()
        depthname = 'i%d' % self.nest
        self.nest += 1
        saved_log = self.cmplog
        saved_heads = set(self.headatoms)
        saved_active = set(self.active)
        H = None
        try:
            (back, exits), _ = self.with_rec(lambda: body(st0.copy()))
            if back is None or back.g is FALSE:
                (back, exits), rec = self.with_rec(lambda: body(st0.copy()))
                self.rec.merge(rec)
                return list(exits.items())
            for k, v in st0.cells.items():
                if relevant(k) and k in back.cells:
                    _diff(v, back.cells[k], (k,), forced)
            for attempt in range(14):
                self.cmplog = []
                heads = {}
                H = st0.copy()
                auto = []
                for k in sorted(set(f[0] for f in forced), key=repr):
                    H.cells[k] = self.havoc(st0.cells[k], (k,), forced, L + '.' + keyname(k), heads, uni, rename, self.cell_ty(k), auto)
                mine = set(h for h in heads if heads[h]['kind'] == 'lin') | set(rename.values())
                mine |= set(next(iter(d['cur'].len.t)) for d in heads.values() if d['kind'] == 'buf')
                self.headatoms = saved_heads | mine
                self.active = saved_active | mine
                for h, d in heads.items():
                    d['name'] = h
                g = st0.g
                for d in auto:
                    g = and_(g, lin.test(d, lin.NONNEG))
                for d in invs.values():
                    g = and_(g, lin.test(d, lin.NONNEG))
                if g is FALSE:
                    raise EngineError('contradictory loop invariant at %s' % span)
                H.g = g
                (back, exits), rec = self.with_rec(lambda: body(H.copy()))
                log = self.cmplog
                if back is None or back.g is FALSE:
                    break
                # new modifications
                more = set()
                for k, v in H.cells.items():
                    if relevant(k) and k in back.cells and k in st0.cells:
                        _diff(v, back.cells[k], (k,), more)
                more -= forced
                covered = set()
                for f in more:
                    if not any(f[:n] in forced for n in range(1, len(f))):
                        covered.add(f)
                if covered:
                    forced |= covered
                    continue
                # back values of heads
                bv, asis = {}, {}
                for h, d in heads.items():
                    bv[h] = _comp(back.cells.get(d['comp'][0]), d['comp'][1:])
                    if type(bv[h]) is Lin:
                        asis[h] = bv[h]
                        bv[h] = lin.restrict(bv[h], back.g)
                # check and extend unification
                again = False
                for h in list(uni):
                    rep, sign, ih, ir = uni[h]
                    if h not in heads or rep not in heads or type(bv[h]) is not Lin:
                        continue
                    want = lin.add(ih, lin.scale(lin.sub(bv[rep], ir), sign))
                    if not lin.eq_under(bv[h], want, back.g):
                        del uni[h]
                        banned.add(h)
                        again = True
                if again:
                    continue
                cand = [h for h in heads if heads[h]['kind'] == 'lin' and h not in uni and h not in banned and type(bv[h]) is Lin]
                cand.sort(key=lambda h: (heads[h]['init'].const() is None, heads[h]['view'], h))
                delta = {h: lin.sub(bv[h], heads[h]['cur']) for h in cand}
                reps = []
                for h in cand:
                    for r in reps:
                        s = 1 if lin.eq_under(delta[h], delta[r], back.g) else -1 if lin.eq_under(delta[h], lin.scale(delta[r], -1), back.g) else 0
                        if not s:
                            # recomputed from the other one in every round
                            for k in (1, -1):
                                if lin.eq_under(bv[h], lin.add(heads[h]['init'], lin.scale(lin.sub(bv[r], heads[r]['init']), k)), back.g):
                                    s = k
                                    break
                        if s:
                            uni[h] = (r, s, heads[h]['init'], heads[r]['init'])
                            again = True
                            break
                    else:
                        reps.append(h)
                for h in reps:
                    if h not in rename and delta[h].const() == 1 and heads[h]['init'].const() == 0 and depthname not in rename.values():
                        rename[h] = depthname
                        again = True
                if again:
                    invs.clear()
                    continue
                # candidate invariants from comparisons (inductive filtering)
                initm = {heads[h]['atom']: heads[h]['init'] for h in heads if heads[h]['kind'] == 'lin' and h not in uni}
                backm = {heads[h]['atom']: bv[h] for h in heads if heads[h]['kind'] == 'lin' and h not in uni and type(bv[h]) is Lin}
                ch = False
                # (a number that follows from another one stays above zero as itself)
                own = {heads[h]['cur'].key: h for h in uni if h in heads and heads[h]['uni']}
                for d in log + [heads[h]['cur'] for h in own.values()]:
                    for x in (d, lin.scale(d, -1)):
                        if x.key in invs or x.key in dropped or not any(k in initm for k in x.t):
                            continue
                        if lin.interval(x)[0] >= 0:
                            continue
                        if implies(st0.g, lin.test(lin.subst(x, initm), lin.NONNEG)):
                            invs[x.key] = x
                            ch = True
                        else:
                            dropped.add(x.key)
                bad = []
                if not ch:
                    for k, x in invs.items():
                        if k in own and own[k] in asis and not feas.feasible(and_(back.g, not_(lin.test(asis[own[k]], lin.NONNEG)))):
                            continue
                        if not all(a in backm for a in x.t if a in initm) or not implies(back.g, lin.test(lin.subst(x, backm), lin.NONNEG)):
                            bad.append(k)
                    for k in bad:
                        del invs[k]
                        dropped.add(k)
                if ch or bad:
                    continue
                break
            else:
                raise EngineError('loop summary did not stabilise at %s' % span)
            self.active = saved_active
            return self.finish_loop(L, ctx, span, fn, st0, H, back, exits, rec, heads, uni, rename, log, saved_log)
        finally:
            self.nest -= 1
            self.active = saved_active
            self.cmplog = saved_log
            self.headatoms = self.headatoms | saved_heads

    def cell_ty(self, k):
        if k[0] == 'L' and k[1] < len(self.frames):
            return self.frames[k[1]].fn['locals'][k[2]]
        return None

    def havoc(self, e, comp, forced, name, heads, uni, rename, ti, auto):
        if comp in forced:
            t = type(e)
            if t is Sym:
                e2 = self.expand(e)
                if type(e2) in (Lin, dd.Node, View, VecV):
                    e, t = e2, type(e2)
            h = {'comp': comp, 'init': e, 'view': False, 'atom': None, 'uni': False}
            if t is Lin:
                h['kind'] = 'lin'
                h['view'] = len(comp) > 1
                heads[name] = h
                if name in uni:
                    rep, sign, ih, ir = uni[name]
                    ra = rename.get(rep, rep)
                    if ra in ATOMS:
                        h['uni'] = True
                        h['cur'] = lin.add(ih, lin.scale(lin.sub(lin.of_atom(ATOMS[ra]), ir), sign))
                        return h['cur']
                nm = rename.get(name, name)
                lo, hi = 0, MAXCNT
                if ti is not None and self.bits(ti):
                    b = self.bits(ti)
                    if b[0] < 64 or b[1]:
                        lo, hi = self.irange(ti)
                if nm != name:
                    hi = MAXLEN
                a = lin.atom(nm, lo, hi, 'head', (), rank=6)
                h['atom'] = nm
                h['cur'] = lin.of_atom(a)
                return h['cur']
            if t is dd.Node:
                h['kind'] = 'bool'
                heads[name] = h
                h['cur'] = dd.test(dd.var(name, 0, 1, rank=6, meta='bool'), ((1, 1),))
                return h['cur']
            if t is Enum or t is Sym:
                h['kind'] = 'enum'
                heads[name] = h
                h['cur'] = Sym(e.ty, name)
                return h['cur']
            if t in (View, Blob):
                h['kind'] = 'bytes'
                heads[name] = h
                srcs = [e.src] if t is View else [w.src for w in dd.leaves(e.node)]
                h['cur'] = View(name, num(0), self.lenatom(name))
                return h['cur']
            if t is VecV:
                h['kind'] = 'vec'
                heads[name] = h
                h['cur'] = VecV(('head', name), EMPTY, self.lenatom(name))
                tt = self.types[ti] if ti is not None else None
                if tt is not None and tt['k'] == 'adt' and tt['path'] == 'std::vec::Vec' and tt.get('args'):
                    self.headelem[name] = tt['args'][0]
                return h['cur']
            if t is Buf:
                h['kind'] = 'buf'
                heads[name] = h
                ln = lin.of_atom(lin.atom(name + '.len', 0, MAXCNT, 'head', (), rank=6))
                h['cur'] = Buf(e.ents, ln)
                return h['cur']
            if t is Agg and e.ty is not None:
                h['kind'] = 'enum'
                heads[name] = h
                h['cur'] = Sym(e.ty, name)
                return h['cur']
            h['kind'] = 'unknown'
            heads[name] = h
            h['cur'] = Unknown('loop-carried %s' % t.__name__)
            return h['cur']
        if not any(f[:len(comp)] == comp for f in forced):
            return e
        if type(e) is Sym:
            e = self.expand(e)
        if type(e) is Agg:
            t = self.types[e.ty] if e.ty is not None else None
            fts = None
            if t is not None and t['k'] == 'adt' and t['variants']:
                fts = [(f['name'], f['ty']) for f in t['variants'][0]['fields']]
            return Agg([self.havoc(x, comp + (i,), forced, '%s.%s' % (name, fts[i][0] if fts and i < len(fts) else i), heads, uni, rename,
                                   fts[i][1] if fts and i < len(fts) else None, auto) for i, x in enumerate(e.f)], e.ty)
        if type(e) is View:
            p = self.havoc(e.pos, comp + ('pos',), forced, name + '.pos', heads, uni, rename, None, auto)
            n = self.havoc(e.end, comp + ('end',), forced, name + '.end', heads, uni, rename, None, auto)
            auto.append(lin.sub(n, p))
            return View(e.src, p, n)
        if type(e) is Iter:
            a = [self.havoc(x, comp + (i,), forced, '%s.%d' % (name, i), heads, uni, rename, None, auto) if _isval(x) else x for i, x in enumerate(e.a)]
            if e.kind in ('slice', 'range', 'own'):
                lo, hi = a[-2], a[-1]
                if type(lo) is Lin and type(hi) is Lin:
                    auto.append(lin.sub(hi, lo))
            return Iter(e.kind, *a)
        return e

    def finish_loop(self, L, ctx, span, fn, st0, H, back, exits, rec, heads, uni, rename, log, outer_log):
        r = LoopRec()
        r.name, r.ctx, r.span = L, ctx, span
        r.fn = fn['path'] if fn else (self.frames[-1].fn['path'] if self.frames else '')
        r.entry, r.head, r.back, r.heads, r.uni = st0, H, back, heads, dict(uni)
        r.exits = list(exits.items())
        r.log = log
        self.rec.merge(rec)
        live = [(t, s) for t, s in exits.items() if s is not None and s.g is not FALSE]
        idx = None
        for h, a in rename.items():
            if h in heads:
                idx = (h, a)
        r.idx = idx[1] if idx else None
        r.n = None
        out = []
        many = len(live) > 1
        ev = dd.var('exit[%s]' % L, 0, max(1, len(live) - 1), rank=4, meta=r) if many else None
        r.exitvar = ev
        r.solved = {}
        for j, (t, s) in enumerate(live):
            s = s.copy()
            s.cells = dict(s.cells)
            eqs = self.equalities(s, log)
            m = {}
            if idx and idx[1] in eqs:
                n = eqs[idx[1]]
                r.n = n
                m[idx[1]] = n
                self.closed_forms(r, s, st0, H, back, heads, uni, idx[1], n, m)
            for a, x in eqs.items():
                if a not in m:
                    m[a] = x
            if m:
                s = self.subst_state(s, m)
            if r.idx:
                # the conditions on the round left are forgotten: settle what they decide first
                for k, v in s.cells.items():
                    if type(v) in (Enum, Agg, dd.Node):
                        w = decide(v, s.g, 0)
                        if w is not v:
                            s.cells[k] = w
            if r.idx and not (idx and idx[1] in eqs):
                tag = '[%s]' % r.idx
                s.g = dd.exists(s.g, lambda v: tag in v.name or v.name == r.idx)
            elif r.idx:
                tag = '[%s]' % r.idx
                s.g = dd.exists(s.g, lambda v: tag in v.name)
            if many:
                s.g = and_(s.g, dd.test(ev, ((j, j),)))
            r.solved[t] = m
            eqm = {a: x for a, x in eqs.items() if a in m}
            if eqm:
                self.rec.eqs.append((s.g, eqm))
            out.append((t, s))
        r.live = [t for t, _ in live]
        self.rec.loops.append(r)
        # comparisons against surviving heads stay available for equality solving
        for d in log:
            if d not in outer_log:
                outer_log.append(d)
        return out

    def equalities(self, s, log):
        """head atoms whose value the state's guard determines"""
        out = {}
        for d in log:
            for k in d.t:
                if k in self.headatoms and k not in self.active and k not in out and d.t[k].var is None and abs(d.t[k].val) == 1 and ATOMS[k].kind == 'head':
                    if implies(s.g, lin.test(d, lin.EQ0)):
                        c = d.t[k].val
                        rest = Lin({a: n for a, n in d.t.items() if a != k})
                        x = lin.scale(rest, -c)
                        if not any(a in out for a in x.t) and not lin.mentions(x, k):
                            out[k] = x
        return out

    def solve(self, st, cond):
        """propagate equalities implied by a branch on loop results"""
        if cond.var is None:
            return st
        sup = dd.support(cond)
        for v in sup:
            if v.meta is not None and getattr(v.meta, 'kind', None) == 'tok' and v.meta.args[0] == 2:
                x = lin.pinned(v.meta, st.g)
                if x:       # zero lengths stay symbolic: nothing is laid out behind them
                    g = st.g
                    st = self.subst_state(st, {v.name: num(x)})
                    st.g = and_(st.g, dd.test(v, ((x, x),)))
        if not self.cmplog:
            return st
        names = None
        for d in self.cmplog:
            t = lin.test(d, lin.EQ0)
            if t.var is None or not (dd.support(t) & sup):
                continue
            eq = self.equalities(st, [d])
            if eq:
                st = self.subst_state(st, eq)
                self.rec.eqs.append((st.g, eq))
        return st

    def closed_forms(self, r, s, st0, H, back, heads, uni, idx, n, m):
        """values at normal exit of a counted loop of everything accumulated per element"""
        for h, d in heads.items():
            b = _comp(back.cells.get(d['comp'][0]), d['comp'][1:])
            if d['kind'] == 'lin' and h not in uni and d['atom'] != idx:
                if type(b) is not Lin:
                    continue
                delta = lin.restrict(lin.sub(b, d['cur']), back.g)
                x = self.summation(delta, idx, n, heads)
                if x is not None:
                    m[d['atom']] = lin.add(d['init'], x)
            elif d['kind'] == 'buf' and type(b) is Buf:
                pre, _, suf = common_prefix(d['init'].ents, b.ents)
                if pre is d['init'].ents:
                    delta = lin.restrict(lin.sub(b.len, d['cur'].len), back.g)
                    x = self.summation(delta, idx, n, heads)
                    base = d['init']
                    ents = base.ents.push((TRUE, ('loop', n, idx, tuple(suf), back.g, r), base.len))
                    key = d['comp'][0]
                    if x is None:
                        x = lin.sub(d['cur'].len, base.len)
                    s.cells[key] = _setcomp(s.cells[key], d['comp'][1:], Buf(ents, lin.add(base.len, x)))
                    m[next(iter(d['cur'].len.t))] = lin.add(base.len, x)
            elif d['kind'] == 'vec' and type(b) is VecV:
                if b.base == ('head', h) and b.push.n == 1 and b.push.item[0] is TRUE and type(d['init']) is VecV and d['init'].base is None and d['init'].push is EMPTY:
                    v = VecV(('map', n, idx, b.push.item[1], h), EMPTY, n)
                    key = d['comp'][0]
                    s.cells[key] = _setcomp(s.cells[key], d['comp'][1:], v)

    def summation(self, delta, idx, n, heads):
        """sum of delta over idx in 0..n, or None"""
        out = num(0)
        names = set(h for h in heads) | set(d['atom'] for d in heads.values() if d['atom'])
        names.discard(idx)
        for k, c in delta.t.items():
            if k == '':
                if c.var is None:
                    out = lin.add(out, lin.scale(n, c.val))
                    continue
                low = min(dd.leaves(c))
                out = lin.add(out, lin.scale(n, low))
                c = dd.map_leaves(('-', low), lambda v: v - low, c)
            elif lin.mentions(lin.of_atom(ATOMS[k]), idx) is False and '[%s]' % idx not in k and c.var is None:
                return None
            if k in names:
                return None
            term = Lin({k: c}) if k == '' or c.var is not None else lin.of_atom(ATOMS[k])
            x = lin.summed(term, idx, n)
            if k != '' and c.var is None:
                x = lin.scale(x, c.val)
            out = lin.add(out, x)
        return out

    # ------------------------------------------------------------------ substitution
    def subst_state(self, st, m):
        memo = {}
        cells = {}
        for k, v in st.cells.items():
            cells[k] = self.subst_val(v, m, memo)
        return State(lin.subst_guard(st.g, m), cells)

    def subst_val(self, v, m, memo=None):
        t = type(v)
        if t is Lin:
            return lin.subst(v, m)
        if t is dd.Node:
            return lin.subst_guard(v, m)
        if t is Agg:
            f = [self.subst_val(x, m, memo) for x in v.f]
            return v if all(x is y for x, y in zip(f, v.f)) else Agg(f, v.ty)
        if t is Enum:
            pay = {k: tuple(self.subst_val(x, m, memo) for x in p) for k, p in v.pay.items()}
            return Enum(v.ty, lin.subst_guard(v.discr, m), pay)
        if t is View:
            p, e = lin.subst(v.pos, m), lin.subst(v.end, m)
            return v if p is v.pos and e is v.end else View(v.src, p, e)
        if t is Blob:
            return self.mkblob(dd.map_leaves_raw(lambda w: self.subst_val(w, m), lin.subst_guard(v.node, m)))
        if t is VecV:
            ln = lin.subst(v.len, m)
            if v.push is EMPTY:
                return v if ln is v.len else VecV(v.base, v.push, ln)
            p = EMPTY
            for g, x in v.push.items():
                p = p.push((lin.subst_guard(g, m), self.subst_val(x, m)))
            return VecV(v.base, p, ln)
        if t is Buf:
            # entries are rebuilt lazily: only the length and entries that mention the atoms
            ents = self.subst_ents(v.ents, m)
            ln = lin.subst(v.len, m)
            return v if ents is v.ents and ln is v.len else Buf(ents, ln)
        if t is Iter:
            return Iter(v.kind, *[self.subst_val(x, m) if _isval(x) else x for x in v.a])
        if t is Sym:
            return v
        return v

    def subst_ents(self, ents, m):
        items = ents.items()
        first = None
        new = []
        for i, (g, e, off) in enumerate(items):
            g2, off2 = lin.subst_guard(g, m), lin.subst(off, m)
            e2 = e
            if e[0] == 'int':
                x = lin.subst(e[2], m)
                if x is not e[2]:
                    e2 = ('int', e[1], x)
            elif e[0] == 'view':
                x = self.subst_val(e[1], m)
                if x is not e[1]:
                    e2 = ('view', x)
            if g2 is not g or off2 is not off or e2 is not e:
                if first is None:
                    first = i
            new.append((g2, e2, off2))
        if first is None:
            return ents
        p = ents
        for _ in range(len(items) - first):
            p = p.prev
        for x in new[first:]:
            p = p.push(x)
        return p

def _isval(x):
    return isinstance(x, (Lin, dd.Node, Agg, Enum, Ptr, Sym, View, Blob, Buf, VecV, Iter))

def ent_key(e):
    k = e[0]
    if k == 'int':
        return (k, e[1], e[2].key)
    if k == 'view':
        return (k, e[1].key)
    if k == 'blob':
        return (k, e[1].node.id)
    return (k, id(e))

def merge_ents(pre, sa, sb, c):
    """entries of two buffers that share a prefix: equal entries in the same order become one"""
    p = pre
    nc = not_(c)
    def one(x, y):
        return (dd.ite(c, x[0], y[0]), x[1], lin.ite(c, x[2], y[2]))
    i = 0
    ka, kb = [ent_key(x[1]) for x in sa], [ent_key(x[1]) for x in sb]
    n, m = len(ka), len(kb)
    while i < n and i < m and ka[i] == kb[i]:
        p = p.push(one(sa[i], sb[i]))
        i += 1
    if i < n and i < m:
        import difflib
        sm = difflib.SequenceMatcher(None, ka[i:], kb[i:], autojunk=False)
        ops = sm.get_opcodes()
    else:
        ops = [('replace', 0, n - i, 0, m - i)]
    for op, a1, a2, b1, b2 in ops:
        if op == 'equal':
            for x, y in zip(range(a1, a2), range(b1, b2)):
                p = p.push(one(sa[i + x], sb[i + y]))
            continue
        for x in range(a1, a2):
            e = sa[i + x]
            g = and_(e[0], c)
            if g is not FALSE:
                p = p.push((g, e[1], e[2]))
        for y in range(b1, b2):
            e = sb[i + y]
            g = and_(e[0], nc)
            if g is not FALSE:
                p = p.push((g, e[1], e[2]))
    return p

def same_or_eq(x, y):
    if _isval(x) and _isval(y):
        return same(x, y)
    return not _isval(x) and not _isval(y) and x == y

def _const_changed(v, w):
    if type(v) is Lin and type(w) is Lin:
        a, b = v.const(), w.const()
        return a is not None and b is not None and a != b
    if type(v) is Agg and type(w) is Agg and len(v.f) == len(w.f):
        return any(_const_changed(x, y) for x, y in zip(v.f, w.f))
    if type(v) is Iter and type(w) is Iter and v.kind == w.kind:
        return any(_const_changed(x, y) for x, y in zip(v.a, w.a) if _isval(x))
    return False

def _diff(a, b, comp, out):
    if a is b or a is UNDEF:
        return
    if isinstance(a, Node) and isinstance(b, Node):
        out.add(comp)
        return
    if same(a, b):
        return
    if type(a) is Agg and type(b) is Agg and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            _diff(x, y, comp + (i,), out)
        return
    if type(a) is View and type(b) is View and a.src == b.src:
        if a.pos != b.pos:
            out.add(comp + ('pos',))
        if a.end != b.end:
            out.add(comp + ('end',))
        return
    if type(a) is Iter and type(b) is Iter and a.kind == b.kind and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            if _isval(x):
                _diff(x, y, comp + (i,), out)
            elif x != y:
                out.add(comp)
        return
    out.add(comp)

def _comp(v, path):
    for e in path:
        if type(v) is Agg and isinstance(e, int) and e < len(v.f):
            v = v.f[e]
        elif type(v) is View and e in ('pos', 'end'):
            v = v.pos if e == 'pos' else v.end
        elif type(v) is Iter and isinstance(e, int):
            v = v.a[e]
        else:
            return None
    return v

def _setcomp(v, path, new):
    if not path:
        return new
    e = path[0]
    if type(v) is Agg:
        f = list(v.f)
        f[e] = _setcomp(f[e], path[1:], new)
        return Agg(f, v.ty)
    if type(v) is Iter:
        a = list(v.a)
        a[e] = _setcomp(a[e], path[1:], new)
        return Iter(v.kind, *a)
    return v

# ---------------------------------------------------------------------- variable byte integers
varint_template = lin.varint_template

def varint_value(src, p):
    return lin.vbi(src, p)
