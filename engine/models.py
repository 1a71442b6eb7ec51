"""Abstract transfer functions for the std / bytes library calls the crate can make.

Each model states what the library documents: the bytes moved, the positions advanced, and the condition
under which the call panics (recorded as an obligation)."""
import itertools
import re
import dd, lin
from dd import leaf, TRUE, FALSE, and_, or_, not_
from lin import Lin, num, ATOMS
from values import *

def empty_view():
    return View('lit:', num(0), num(0))

# ------------------------------------------------------------------ helpers
def int_of(I, st, v):
    v = I.expand(I.load(st, v))
    if type(v) is Sym:
        v = I.expand(v)
    return v if type(v) is Lin else None

def ret_pointer(I, f, a, st, t):
    """a reference to the same content"""
    v = a[0]
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) is not Ptr:
        return I.ref_value(v), st
    node, val = I.target(st, v)
    return Ptr(node if node is not None else v.node), st

def ret_value(I, f, a, st, t):
    """the content itself (conversion / copy)"""
    return I.load(st, a[0]), st

class Unmodelled(Exception):
    pass

def guarded(fn):
    def m(I, f, a, st, t):
        try:
            return fn(I, f, a, st, t)
        except Unmodelled:
            return NotImplemented
    return m

def opt(I, st, ti, c, v):
    """Option value: Some(v) under c"""
    if ti is None:
        return Unknown('option')
    return Enum(ti, dd.ite(c, leaf(1), leaf(0)), {1: (v,)})

def append(I, buf, v):
    """bytes of v appended to a buffer under construction"""
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) is View and buf.ents is EMPTY and not isinstance(buf, Buf):
        return v
    if type(v) is Agg:
        for x in v.f:
            x = I.expand(x)
            if type(x) is not Lin:
                return Buf(buf.ents.push((TRUE, I.org(('other', Unknown('array'))), buf.len)), lin.add(buf.len, num(len(v.f))))
            buf = Buf(buf.ents.push((TRUE, I.org(('int', 1, x)), buf.len)), lin.add(buf.len, num(1)))
        return buf
    if type(v) is Buf:
        ents = buf.ents
        for g, e, off in v.ents.items():
            ents = ents.push((g, e, lin.add(buf.len, off)))
        return Buf(ents, lin.add(buf.len, v.len))
    if type(v) is View:
        if v.rem().const() == 0:
            return buf
        return Buf(buf.ents.push((TRUE, I.org(('view', v)), buf.len)), lin.add(buf.len, v.rem()))
    if type(v) is Blob:
        return Buf(buf.ents.push((TRUE, I.org(('blob', v)), buf.len)), lin.add(buf.len, I.length(v)))
    if type(v) is VecV:
        return Buf(buf.ents.push((TRUE, I.org(('vec', v)), buf.len)), lin.add(buf.len, v.len))
    I.tmp += 1
    x = lin.sym('?len%d' % I.tmp, 0, 1 << 47)
    return Buf(buf.ents.push((TRUE, I.org(('other', v)), buf.len)), lin.add(buf.len, x))

def as_buf(I, v):
    if type(v) is Buf:
        return v
    if v is UNDEF:
        return Buf(EMPTY, num(0))
    if type(v) in (View, Blob):
        return append(I, Buf(EMPTY, num(0)), v)
    if type(v) is VecV and v.base is None and v.push is EMPTY:
        return Buf(EMPTY, num(0))
    return None

def mut_target(I, st, v):
    """(node, value) of the object behind &mut; for `&mut &[u8]` the location of the inner slice pointer"""
    return I.target(st, v)

def slice_self(f):
    p = f.get('path') or ''
    return 'for &[u8]' in p

def set_window(I, f, a, st, new):
    """store a shortened window into the receiver"""
    if slice_self(f):
        v = a[0]
        node = None
        while True:
            if type(v) is Sym:
                v = I.expand(v)
            w = I.read_loc(st, v.node) if type(v) is Ptr else None
            if type(w) is Sym:
                w = I.expand(w)
            if type(w) is Ptr:
                node, v = v.node, w
                continue
            break
        if node is None:
            return False
        I.write_loc(st, node, I.ref_value(new))
        return True
    node, _ = I.target(st, a[0])
    if node is None:
        return False
    I.write_loc(st, node, new)
    return True

def window(I, st, v):
    w = I.load(st, v)
    if type(w) is Sym:
        w = I.expand(w)
    return w if type(w) in (View, Blob) else None

# ------------------------------------------------------------------ reading side
def take_front(I, f, a, st, n, what):
    """common part of advance / get_* / split_to: -> (front, rest, st) or None"""
    w = window(I, st, a[0])
    if w is None or n is None:
        return None
    st = st.copy()
    ln = I.length(w)
    I.oblige('panic', st, I.cmp('Gt', n, ln), '%s past the end of the buffer' % what)
    if st.g is FALSE:
        return None, None, st
    return I.subrange(w, num(0), n), I.subrange(w, n, ln), st

def m_advance(I, f, a, st, t):
    r = take_front(I, f, a, st, int_of(I, st, a[1]), 'advance')
    if r is None:
        return NotImplemented
    _, rest, st = r
    if st.g is FALSE:
        return None, None
    if not set_window(I, f, a, st, rest):
        return NotImplemented
    return UNIT, st

def getter(w):
    def m(I, f, a, st, t):
        r = take_front(I, f, a, st, num(w), 'get_u%d' % (8 * w))
        if r is None:
            return NotImplemented
        front, rest, st = r
        if st.g is FALSE:
            return None, None
        x = num(0)
        for i in range(w):
            b = I.index(front, num(i))
            if type(b) is not Lin:
                return NotImplemented
            x = lin.add(x, lin.scale(b, 256 ** (w - 1 - i)))
        if not set_window(I, f, a, st, rest):
            return NotImplemented
        return x, st
    return m

def getter_le(w):
    def m(I, f, a, st, t):
        r = take_front(I, f, a, st, num(w), 'get_u%d_le' % (8 * w))
        if r is None:
            return NotImplemented
        front, rest, st = r
        if st.g is FALSE:
            return None, None
        x = num(0)
        for i in range(w):
            x = lin.add(x, lin.scale(I.index(front, num(i)), 256 ** i))
        if not set_window(I, f, a, st, rest):
            return NotImplemented
        return x, st
    return m

def m_split_to(I, f, a, st, t):
    r = take_front(I, f, a, st, int_of(I, st, a[1]), 'split_to')
    if r is None:
        return NotImplemented
    front, rest, st = r
    if st.g is FALSE:
        return None, None
    if not set_window(I, f, a, st, rest):
        return NotImplemented
    return front, st

def m_split_off(I, f, a, st, t):
    r = take_front(I, f, a, st, int_of(I, st, a[1]), 'split_off')
    if r is None:
        return NotImplemented
    front, rest, st = r
    if st.g is FALSE:
        return None, None
    if not set_window(I, f, a, st, front):
        return NotImplemented
    return rest, st

def m_split(I, f, a, st, t):
    w = window(I, st, a[0])
    if w is None:
        return NotImplemented
    st = st.copy()
    if not set_window(I, f, a, st, I.subrange(w, I.length(w), I.length(w))):
        return NotImplemented
    return w, st

def m_truncate(I, f, a, st, t):
    n = int_of(I, st, a[1])
    node, v = I.target(st, a[0])
    if n is None or node is None:
        return NotImplemented
    st = st.copy()
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) in (View, Blob):
        ln = I.length(v)
        m = lin.ite(I.cmp('Lt', n, ln), n, ln)
        I.write_loc(st, node, I.subrange(v, num(0), m))
        return UNIT, st
    if type(v) is Buf:
        I.write_loc(st, node, cut(I, v, n, st.g))
        return UNIT, st
    if type(v) is VecV:
        longer = I.cmp('Gt', v.len, n)
        if and_(st.g, longer) is not FALSE:
            I.write_loc(st, node, VecV(('op', 'truncate', v, longer, n), EMPTY, lin.ite(longer, n, v.len)))
        return UNIT, st
    return NotImplemented

def list_op(op):
    def m(I, f, a, st, t):
        node, v = I.target(st, a[0])
        if type(v) is Sym:
            v = I.expand(v)
        if type(v) is not VecV or node is None:
            return NotImplemented
        st = st.copy()
        if op == 'reverse' and v.base and v.base[0] == 'op' and v.base[1] == op and v.push is EMPTY:
            I.write_loc(st, node, v.base[2])
            return UNIT, st
        ln = v.len if op != 'dedup' else lin.of_atom(lin.atom('?dedup%d' % I.bump(), 0, lin.interval(v.len)[1]))
        I.write_loc(st, node, VecV(('op', op, v, I.cmp('Gt', v.len, num(1))), EMPTY, ln))
        return UNIT, st
    return m

def m_insert(I, f, a, st, t):
    node, v = I.target(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    i = int_of(I, st, a[1])
    if node is None or type(v) is not VecV or i is None:
        return NotImplemented
    if not lin.eq_under(i, v.len, st.g):
        if i.const() != 0:
            return NotImplemented
        st = st.copy()
        I.write_loc(st, node, VecV(('op', 'front', v, a[2]), EMPTY, lin.add(v.len, num(1))))
        return UNIT, st
    st = st.copy()
    I.write_loc(st, node, VecV(v.base, v.push.push((TRUE, a[2])), lin.add(v.len, num(1))))
    return UNIT, st

@guarded
def m_retain(I, f, a, st, t):
    node, v = I.target(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) is not VecV or node is None or v.push is not EMPTY:
        raise Unmodelled()
    e = I.index(v, num(0))
    if type(e) is Unknown:
        raise Unmodelled()
    st = st.copy()
    clo = stash(I, st, a[1])
    y, s2 = I.call_closure(clo, [I.ref_value(e)], st)
    if s2 is None:
        raise Unmodelled()
    y = I.expand(y)
    if not isinstance(y, dd.Node):
        raise Unmodelled()
    goes = and_(not_(y), not_(lin.test(v.len, lin.EQ0)))
    ln = lin.of_atom(lin.atom('?retain%d' % I.bump(), 0, lin.interval(v.len)[1]))
    I.write_loc(s2, node, VecV(('op', 'retain', v, goes), EMPTY, ln))
    return UNIT, s2

def m_vec_append(I, f, a, st, t):
    node, v = I.target(st, a[0])
    other, w = I.target(st, a[1])
    v = I.expand(v) if type(v) is Sym else v
    w = I.expand(w) if type(w) is Sym else w
    if node is None or other is None or type(v) is not VecV or type(w) is not VecV or w.base is not None:
        return NotImplemented
    st = st.copy()
    p = v.push
    for x in w.push.items():
        p = p.push(x)
    I.write_loc(st, node, VecV(v.base, p, lin.add(v.len, w.len)))
    I.write_loc(st, other, VecV(None, EMPTY, num(0)))
    return UNIT, st

def cut(I, v, n, g):
    """buffer truncated to n bytes: exact when n is the offset of an entry"""
    p = v.ents
    if lin.eq_under(v.len, n, g):
        return v
    best = None
    while p.prev is not None:
        if lin.eq_under(p.item[2], n, and_(g, p.item[0])) or lin.eq_under(p.item[2], n, g):
            best = p.prev
        p = p.prev
    if best is not None:
        return Buf(best, n)
    if n.const() == 0:
        return Buf(EMPTY, num(0))
    return Buf(EMPTY.push((TRUE, I.org(('other', Unknown('truncate'))), num(0))), n)

def m_len(I, f, a, st, t):
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) is Iter:
        n = iter_len(I, v)
        return (n, st) if n is not None else NotImplemented
    if type(v) in (View, Blob, Buf, VecV, Agg):
        if type(v) is Agg and v.ty is not None and I.types[v.ty]['k'] == 'adt':
            return NotImplemented
        return I.length(v), st
    return NotImplemented

def m_is_empty(I, f, a, st, t):
    r = m_len(I, f, a, st, t)
    if r is NotImplemented:
        return r
    return I.cmp('Eq', r[0], num(0)), st

def m_has_remaining(I, f, a, st, t):
    r = m_len(I, f, a, st, t)
    if r is NotImplemented:
        return r
    return I.cmp('Gt', r[0], num(0)), st

def m_slice_range(I, f, a, st, t):
    """Bytes::slice(range) / Index::index with a range"""
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    r = rng(I, st, a[1], v)
    if r is None:
        return NotImplemented
    lo, hi = r
    st = st.copy()
    ln = I.length(v)
    I.oblige('panic', st, I.cmp('Gt', lo, hi), 'range start after its end')
    I.oblige('panic', st, I.cmp('Gt', hi, ln), 'range end past the end of the data')
    if st.g is FALSE:
        return None, None
    return I.subrange(v, lo, hi), st

def rng(I, st, r, v):
    r = I.load(st, r)
    if type(r) is Sym:
        r = I.expand(r)
    if type(r) is not Agg or r.ty is None:
        return None
    p = I.types[r.ty].get('path', '')
    f = [I.expand(x) for x in r.f]
    try:
        ln = I.length(v)
    except Exception:
        return None
    if p.endswith('::Range'):
        return f[0], f[1]
    if p.endswith('::RangeFrom'):
        return f[0], ln
    if p.endswith('::RangeTo'):
        return num(0), f[0]
    if p.endswith('::RangeFull'):
        return num(0), ln
    if p.endswith('::RangeInclusive'):
        return f[0], lin.add(f[1], num(1))
    if p.endswith('::RangeToInclusive'):
        return num(0), lin.add(f[0], num(1))
    return None

def m_index(I, f, a, st, t):
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    i = I.load(st, a[1])
    i = I.expand(i)
    if type(i) is Lin:
        st = st.copy()
        try:
            I.oblige('panic', st, I.cmp('Ge', i, I.length(v)), 'index out of bounds')
        except Exception:
            return NotImplemented
        if st.g is FALSE:
            return None, None
        node, _ = I.target(st, a[0])
        return Ptr(I.append(node, ('i', i))), st
    r = m_slice_range(I, f, a, st, t)
    if r is NotImplemented or r[1] is None:
        return r
    if type(r[0]) is Unknown or (type(v) is Buf):
        # writable window of a buffer: keep the location when it is the whole object
        return NotImplemented
    return I.ref_value(r[0]), r[1]

def m_get(I, f, a, st, t):
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    i = I.expand(I.load(st, a[1]))
    try:
        ln = I.length(v)
    except Exception:
        return NotImplemented
    if type(i) is Lin:
        ok = I.cmp('Lt', i, ln)
        x = I.index(v, i) if not (type(v) is Agg and i.const() is not None and i.const() >= len(v.f)) else UNDEF
        return opt(I, st, t['dty'], ok, I.ref_value(x) if x is not UNDEF else x), st
    r = rng(I, st, a[1], v)
    if r is None:
        return NotImplemented
    ok = and_(I.cmp('Le', r[0], r[1]), I.cmp('Le', r[1], ln))
    return opt(I, st, t['dty'], ok, I.ref_value(I.subrange(v, r[0], r[1]))), st

def m_first(I, f, a, st, t):
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    try:
        ln = I.length(v)
    except Exception:
        return NotImplemented
    if ln.const() == 0:
        return opt(I, st, t['dty'], FALSE, UNDEF), st
    return opt(I, st, t['dty'], I.cmp('Gt', ln, num(0)), I.ref_value(I.index(v, num(0)))), st

def m_last(I, f, a, st, t):
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    try:
        ln = I.length(v)
    except Exception:
        return NotImplemented
    if ln.const() == 0:
        return opt(I, st, t['dty'], FALSE, UNDEF), st
    return opt(I, st, t['dty'], I.cmp('Gt', ln, num(0)), I.ref_value(I.index(v, lin.sub(ln, num(1))))), st

def m_split_at(I, f, a, st, t):
    v = window(I, st, a[0])
    n = int_of(I, st, a[1])
    if v is None or n is None:
        return NotImplemented
    st = st.copy()
    ln = I.length(v)
    I.oblige('panic', st, I.cmp('Gt', n, ln), 'split_at past the end')
    if st.g is FALSE:
        return None, None
    return Agg([I.ref_value(I.subrange(v, num(0), n)), I.ref_value(I.subrange(v, n, ln))], None), st

def m_iter_as_slice(I, f, a, st, t):
    """slice::Iter::as_slice: what is left to iterate over"""
    node, it = I.target(st, a[0])
    if type(it) is Sym:
        it = I.expand(it)
    if type(it) is not Iter or it.kind not in ('slice', 'own'):
        return NotImplemented
    v, lo, hi = it.a
    if lo.const() == 0 and hi == I.length(v):
        return I.ref_value(v), st
    if type(v) is not View:
        return NotImplemented
    return I.ref_value(I.subrange(v, lo, hi)), st

def m_contains(I, f, a, st, t):
    """[T]::contains on an array of known length"""
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    try:
        n = I.length(v).const()
    except Exception:
        return NotImplemented
    if n is None and type(v) is VecV and v.base and v.base[0] in ('head', 'sym') and v.push is EMPTY:
        # any value may be among the entries so far, as soon as there is one
        x = I.load(st, a[1])
        x = I.expand(x) if type(x) is Sym else x
        nm = lin.fmtkey(x) if type(x) is Lin else str(x.key) if type(x) is View else '#%d' % I.bump()
        return and_(not_(lin.test(v.len, lin.EQ0)), dd.test(dd.var('contains[%s,%s,%s]' % (v.base[1], lin.fmtkey(v.len), nm), 0, 1), ((1, 1),))), st
    if n is None or n > 64:
        return NotImplemented
    x = I.load(st, a[1])
    g = FALSE
    for i in range(n):
        u = I.index(v, num(i))
        e = eq_opaque(I, st, [I.ref_value(u), a[1]]) if I.opaque_eq and type(u) is Sym else None
        if e is None:
            e = eq_values(I, st, u, x)
        if e is None:
            return NotImplemented
        g = or_(g, e)
    return g, st

def split_end(front):
    def m(I, f, a, st, t):
        v = window(I, st, a[0])
        if v is None:
            return NotImplemented
        ln = I.length(v)
        if ln.const() == 0:
            return opt(I, st, t['dty'], FALSE, UNDEF), st
        some = I.cmp('Gt', ln, num(0))
        if front:
            x = Agg([I.ref_value(I.index(v, num(0))), I.ref_value(I.subrange(v, num(1), ln))], None)
        else:
            m1 = lin.sub(ln, num(1))
            x = Agg([I.ref_value(I.index(v, m1)), I.ref_value(I.subrange(v, num(0), m1))], None)
        return opt(I, st, t['dty'], some, x), st
    return m

def m_get_uint(I, f, a, st, t):
    n = int_of(I, st, a[1])
    n = n.const() if n is not None else None
    if n is None or n > 8:
        return NotImplemented
    return getter(n)(I, f, a[:1], st, t)

def m_put_uint(I, f, a, st, t):
    n = int_of(I, st, a[2])
    n = n.const() if n is not None else None
    x = int_of(I, st, a[1])
    if n is None or n not in (1, 2, 4, 8) or x is None:
        return NotImplemented
    return putter(n)(I, f, [a[0], lin.mod(x, 256 ** n)], st, t)

def m_copy_to_slice(I, f, a, st, t):
    node, d = I.target(st, a[1])
    if type(d) is not Agg or node is None:
        return NotImplemented
    n = len(d.f)
    r = take_front(I, f, a, st, num(n), 'copy_to_slice')
    if r is None:
        return NotImplemented
    front, rest, st = r
    if st.g is FALSE:
        return None, None
    I.write_loc(st, node, Agg([I.index(front, num(i)) for i in range(n)], d.ty))
    if not set_window(I, f, a, st, rest):
        return NotImplemented
    return UNIT, st

def m_copy_from_slice(I, f, a, st, t):
    """<[u8]>::copy_from_slice into an array"""
    node, d = I.target(st, a[0])
    s = I.load(st, a[1])
    if type(s) is Sym:
        s = I.expand(s)
    if type(d) is not Agg or node is None:
        return NotImplemented
    try:
        ln = I.length(s)
    except Exception:
        return NotImplemented
    st = st.copy()
    I.oblige('panic', st, I.cmp('Ne', ln, num(len(d.f))), 'copy_from_slice length mismatch')
    if st.g is FALSE:
        return None, None
    I.write_loc(st, node, Agg([I.index(s, num(i)) for i in range(len(d.f))], d.ty))
    return UNIT, st

# ------------------------------------------------------------------ text
def m_from_utf8(I, f, a, st, t):
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    by_value = type(a[0]) is not Ptr
    if type(v) not in (View, Blob):
        return NotImplemented
    def ok(w):
        if w.src in I.utf8:
            return TRUE
        nm = 'utf8ok[%s@%s..%s]' % (w.src, lin.fmtkey(w.pos), lin.fmtkey(w.end))
        return dd.test(dd.var(nm, 0, 1, rank=6, meta=('utf8', w.src, w.pos, w.end)), ((1, 1),))
    if type(v) is View:
        g = ok(v)
    else:
        g = FALSE
        for w in dd.leaves(v.node):
            g = or_(g, and_(dd.when(v.node, w), ok(w)))
    ti = t['dty']
    et = None
    try:
        et = I.types[ti]['variants'][1]['fields'][0]['ty']
    except Exception:
        pass
    I.tmp += 1
    err = Sym(et, 'Utf8Error') if et is not None else Unknown('Utf8Error')
    okv = v if by_value else a[0]
    if type(okv) is Ptr:
        okv = Ptr(I.target(st, okv)[0])
    return Enum(ti, dd.ite(g, leaf(0), leaf(1)), {0: (okv,), 1: (err,)}), st

def lossy(I, f, a, st, t):
    v = window(I, st, a[0])
    if v is None:
        return NotImplemented
    nm = f['decl'].split('::')[-1]
    def one(w):
        p = '%s<%s@%s..%s>' % (nm, w.src, lin.fmtkey(w.pos), lin.fmtkey(w.end))
        return View(p, num(0), I.lenatom(p))
    r = I.bmap(v, one)
    if I.types[t['dty']]['k'] in ('ref', 'rawptr'):
        return I.ref_value(r), st
    return r, st

# ------------------------------------------------------------------ writing side
def putter(w, le=False):
    def m(I, f, a, st, t):
        node, v = I.target(st, a[0])
        x = int_of(I, st, a[1])
        b = as_buf(I, v)
        if node is None or b is None:
            return NotImplemented
        if x is None:
            x = I.expand(I.fresh(None, 'put of non-integer'))
            I.tmp += 1
            x = lin.sym('?put%d' % I.tmp, 0, 256 ** w - 1, kind='unk')
        st = st.copy()
        if le and w > 1:
            for i in range(w):
                b = Buf(b.ents.push((TRUE, I.org(('int', 1, lin.mod(lin.div(x, 256 ** i), 256))), b.len)), lin.add(b.len, num(1)))
            I.write_loc(st, node, b)
        else:
            I.write_loc(st, node, Buf(b.ents.push((TRUE, I.org(('int', w, x)), b.len)), lin.add(b.len, num(w))))
        return UNIT, st
    return m

def m_put_slice(I, f, a, st, t):
    node, v = I.target(st, a[0])
    b = as_buf(I, v)
    if node is None or b is None:
        return NotImplemented
    s = I.load(st, a[1])
    if type(s) is Sym:
        s = I.expand(s)
    st = st.copy()
    I.write_loc(st, node, append(I, b, s))
    return UNIT, st

def m_put_bytes(I, f, a, st, t):
    node, v = I.target(st, a[0])
    b = as_buf(I, v)
    x, n = int_of(I, st, a[1]), int_of(I, st, a[2])
    if node is None or b is None or x is None or n is None or n.const() is None or n.const() > 64:
        return NotImplemented
    st = st.copy()
    for _ in range(n.const()):
        b = Buf(b.ents.push((TRUE, I.org(('int', 1, x)), b.len)), lin.add(b.len, num(1)))
    I.write_loc(st, node, b)
    return UNIT, st

def m_resize(I, f, a, st, t):
    return NotImplemented

def m_new_bytes(I, f, a, st, t):
    return Buf(EMPTY, num(0)), st

def m_with_capacity_bytes(I, f, a, st, t):
    alloc(I, st, int_of(I, st, a[0]), 1)
    return Buf(EMPTY, num(0)), st

def alloc(I, st, n, unit):
    if n is not None:
        fn = I.frames[-1].fn['path'] if I.frames else ''
        I.rec.allocs.append((n, I.where(), fn, st.g))

def m_repeat(I, f, a, st, t):
    n = int_of(I, st, a[1])
    v = I.load(st, a[0])
    v = I.expand(v) if type(v) is Sym else v
    try:
        ln = I.length(v)
    except Exception:
        return NotImplemented
    if n is not None:
        r = I.arith('Mul', ln, n, None)
        alloc(I, st, r if type(r) is Lin else lin.of_atom(lin.atom('?repeat%d' % I.bump(), 0, dd.BIG)), 1)
    return NotImplemented

def m_reserve(I, f, a, st, t):
    alloc(I, st, int_of(I, st, a[1]), 1)
    return UNIT, st

def vec_new(I, ti):
    return Buf(EMPTY, num(0)) if ti is not None and I.is_bytes(ti) else VecV(None, EMPTY, num(0))

def m_vec_new(I, f, a, st, t):
    return vec_new(I, t['dty']), st

def m_vec_with_capacity(I, f, a, st, t):
    alloc(I, st, int_of(I, st, a[0]), 1)
    return vec_new(I, t['dty']), st

def m_vec_push(I, f, a, st, t):
    node, v = I.target(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    if node is None:
        return NotImplemented
    st = st.copy()
    if type(v) is VecV:
        I.write_loc(st, node, VecV(v.base, v.push.push((TRUE, a[1])), lin.add(v.len, num(1))))
        return UNIT, st
    b = as_buf(I, v)
    x = int_of(I, st, a[1])
    if b is None or x is None:
        return NotImplemented
    I.write_loc(st, node, Buf(b.ents.push((TRUE, I.org(('int', 1, x)), b.len)), lin.add(b.len, num(1))))
    return UNIT, st

def m_clear(I, f, a, st, t):
    node, v = I.target(st, a[0])
    if node is None:
        return NotImplemented
    st = st.copy()
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) is VecV:
        I.write_loc(st, node, VecV(None, EMPTY, num(0)))
    elif type(v) is Buf:
        I.write_loc(st, node, Buf(EMPTY, num(0)))
    elif type(v) is View:
        I.write_loc(st, node, View(v.src, v.pos, v.pos))
    else:
        return NotImplemented
    return UNIT, st

def m_default(I, f, a, st, t):
    ti = t['dty']
    ty = I.types[ti]
    if ty['k'] == 'adt' and ty['path'] == 'std::vec::Vec':
        return vec_new(I, ti), st
    if ty['k'] == 'adt' and ty['path'] == 'bytes::BytesMut':
        return Buf(EMPTY, num(0)), st
    if I.is_bytes(ti):
        return empty_view(), st
    if ty['k'] in ('uint', 'int'):
        return num(0), st
    if ty['k'] == 'bool':
        return FALSE, st
    return NotImplemented

def m_clone(I, f, a, st, t):
    ti = t['dty']
    ty = I.types[ti]
    if ty['k'] in ('ref', 'rawptr'):
        return I.load1(st, a[0]), st
    if I.is_bytes(ti) or (ty['k'] == 'adt' and ty['path'] in ('std::vec::Vec', 'std::str::Utf8Error', 'core::str::Utf8Error')):
        v = I.load(st, a[0])
        return (I.expand(v) if type(v) is Sym else v), st
    if ty['k'] in ('uint', 'int', 'bool', 'char'):
        return I.expand(I.load(st, a[0])), st
    return NotImplemented

# ------------------------------------------------------------------ equality
def name_of(v):
    if type(v) is Sym:
        return v.path
    if type(v) is View:
        if v.pos.const() == 0:
            return v.src
        return '%s@%s..%s' % (v.src, lin.fmtkey(v.pos), lin.fmtkey(v.end))
    if type(v) is VecV and v.base is not None and v.base[0] == 'sym' and v.push is EMPTY:
        return v.base[1]
    return None

def eq_views(I, x, y, fold=False):
    if x == y:
        return TRUE
    for a, b in ((x, y), (y, x)):
        if a.src.startswith('lit:') and a.rem().const() is not None:
            n = a.rem().const()
            if b.src.startswith('lit:'):
                if b.rem().const() != n:
                    return FALSE
            if n <= 16:
                g = I.cmp('Eq', b.rem(), num(n))
                for i in range(n):
                    p, q = I.byte(a, num(i)), I.byte(b, num(i))
                    c = p.const() if fold else None
                    if c is not None and chr(c).isalpha() and c < 128:
                        g = and_(g, or_(I.cmp('Eq', q, num(c)), I.cmp('Eq', q, num(c ^ 32))))
                    elif fold and c is None:
                        raise Unmodelled()
                    else:
                        g = and_(g, I.cmp('Eq', q, p))
                return g
    a, b = sorted([name_of(x), name_of(y)])
    e = dd.test(dd.var('eq<%s|%s>' % (a, b), 0, 1, rank=6, meta='bool'), ((1, 1),))
    if fold:
        return or_(e, and_(I.cmp('Eq', x.rem(), y.rem()), dd.test(dd.var('caseless<%s|%s>' % (a, b), 0, 1, rank=6, meta='bool'), ((1, 1),))))
    return e

@guarded
def m_eq_fold(I, f, a, st, t):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    x = I.expand(x) if type(x) is Sym else x
    y = I.expand(y) if type(y) is Sym else y
    if type(x) not in (View, Blob) or type(y) not in (View, Blob):
        raise Unmodelled()
    xs = [(x, TRUE)] if type(x) is View else [(w, dd.when(x.node, w)) for w in dd.leaves(x.node)]
    ys = [(y, TRUE)] if type(y) is View else [(w, dd.when(y.node, w)) for w in dd.leaves(y.node)]
    g = FALSE
    for u, gu in xs:
        for w, gw in ys:
            g = or_(g, and_(and_(gu, gw), eq_views(I, u, w, True)))
    return g, st

def eq_values(I, st, x, y):
    for _ in range(3):
        if type(x) is Sym:
            x2 = I.expand(x)
            if x2 is x:
                break
            x = x2
    for _ in range(3):
        if type(y) is Sym:
            y2 = I.expand(y)
            if y2 is y:
                break
            y = y2
    if type(x) is Lin and type(y) is Lin:
        return I.cmp('Eq', x, y)
    if isinstance(x, dd.Node) and isinstance(y, dd.Node):
        return dd.ite(x, y, not_(y))
    if type(x) is View and type(y) is View:
        return eq_views(I, x, y)
    if type(x) in (View, Blob) and type(y) in (View, Blob):
        xs = [(x, TRUE)] if type(x) is View else [(w, dd.when(x.node, w)) for w in dd.leaves(x.node)]
        ys = [(y, TRUE)] if type(y) is View else [(w, dd.when(y.node, w)) for w in dd.leaves(y.node)]
        g = FALSE
        for u, gu in xs:
            for w, gw in ys:
                g = or_(g, and_(and_(gu, gw), eq_views(I, u, w)))
        return g
    a, b = name_of(x), name_of(y)
    if a is not None and b is not None:
        if a == b:
            return TRUE
        a, b = sorted([a, b])
        return dd.test(dd.var('eq<%s|%s>' % (a, b), 0, 1, rank=6, meta='bool'), ((1, 1),))
    return None

def place_name(I, st, p):
    """access path and type behind a reference into a symbolic argument"""
    for _ in range(3):
        if type(p) is not Ptr or p.node.var is not None:
            return None
        obj, proj = p.node.val
        if obj[0] != 'so':
            p = I.load1(st, p)
            continue
        name, ti, var = obj[1], obj[2], None
        for e in proj:
            t = I.types[ti]
            if e[0] == 'v':
                var = e[1]
                continue
            if e[0] != '.':
                return None
            if t['k'] == 'tuple':
                name, ti = '%s.%d' % (name, e[1]), t['elems'][e[1]]
            elif t['k'] == 'adt' and t['variants']:
                v = t['variants'][var or 0]
                fld = v['fields'][e[1]]
                name, ti = '%s.%s%s' % (name, '' if var is None or t['kind'] != 'enum' else v['name'] + '.', fld['name']), fld['ty']
                var = None
            else:
                return None
        return name, ti
    return None

def plain_enum(I, ti):
    t = I.types[ti]
    return t['k'] == 'adt' and t['kind'] == 'enum' and bool(t['variants']) and not any(v['fields'] for v in t['variants'])

def eq_opaque(I, st, a):
    """one condition for a comparison of two parts of the arguments (used when checking equality itself)"""
    x, y = place_name(I, st, a[0]), place_name(I, st, a[1])
    if x is None or y is None or I.types[x[1]]['k'] in ('uint', 'int', 'bool', 'char') or plain_enum(I, x[1]) or x[0] in ('self', 'other'):
        return None
    if I.types[x[1]] is not I.types[y[1]]:
        return None
    return opaque(I, x[1], x[0], y[0])

def opaque(I, ti, a, b):
    """whether two parts of the arguments are equal: one condition per text, list or structure; numbers, tuples and
    lists of known length by their parts"""
    import interp
    import simple
    t = I.types[ti]
    if a == b:
        return TRUE
    if t['k'] in ('uint', 'int', 'char', 'bool') or plain_enum(I, ti):
        return not_(simple.differs(I, Sym(ti, a), Sym(ti, b)))
    if interp.PIN[0] is not None and t['k'] == 'adt' and t['path'] == 'std::vec::Vec':
        g = TRUE
        x, y = I.expand(Sym(ti, a)), I.expand(Sym(ti, b))
        for i in range(interp.PIN[0]):
            u, w = I.index(x, num(i)), I.index(y, num(i))
            g = and_(g, opaque(I, u.ty, u.path, w.path))
        return g
    if interp.PIN[0] is not None and t['k'] == 'tuple':
        g = TRUE
        for i, e in enumerate(t['elems']):
            g = and_(g, opaque(I, e, '%s.%d' % (a, i), '%s.%d' % (b, i)))
        return g
    m, n = sorted([a, b])
    return dd.test(dd.var('eq<%s|%s>' % (m, n), 0, 1, rank=6, meta='bool'), ((1, 1),))

def transitive(names, limit=8):
    """eq<a|b> conditions among the given names are an equivalence"""
    def e(a, b):
        m, n = sorted([a, b])
        return dd.test(dd.var('eq<%s|%s>' % (m, n), 0, 1, rank=6, meta='bool'), ((1, 1),))
    g = TRUE
    names = sorted(names)
    if len(names) > limit:
        return None
    for a, b, c in itertools.combinations(names, 3):
        x, y, z = e(a, b), e(b, c), e(a, c)
        for p, q, r in ((x, y, z), (x, z, y), (y, z, x)):
            g = and_(g, or_(r, not_(and_(p, q))))
    return g

def m_eq(I, f, a, st, t):
    if I.opaque_eq:
        g = eq_opaque(I, st, a)
        if g is not None:
            return g, st
    g = eq_values(I, st, I.load(st, a[0]), I.load(st, a[1]))
    if g is None:
        return NotImplemented
    return g, st

def m_ne(I, f, a, st, t):
    if I.opaque_eq:
        g = eq_opaque(I, st, a)
        if g is not None:
            return not_(g), st
    g = eq_values(I, st, I.load(st, a[0]), I.load(st, a[1]))
    if g is None:
        return NotImplemented
    return not_(g), st

# ------------------------------------------------------------------ iterators
ADAPT = {'std::iter::Map': 'map', 'std::iter::Filter': 'filter', 'std::iter::Enumerate': 'enumerate', 'std::iter::Copied': 'copied',
         'std::iter::Cloned': 'copied', 'std::iter::Rev': 'rev', 'std::iter::Take': 'take', 'std::iter::Skip': 'skip', 'std::iter::Zip': 'zip',
         'std::iter::Chain': 'chain', 'std::iter::FilterMap': 'filter_map', 'std::ops::Range': 'range', 'std::iter::Inspect': 'inspect',
         'std::iter::TakeWhile': 'take_while', 'std::iter::SkipWhile': 'skip_while', 'std::iter::MapWhile': 'map_while',
         'std::iter::Fuse': 'fuse', 'std::iter::adapters::GenericShunt': 'shunt'}

def m_iter(I, f, a, st, t):
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) in (View, Blob, VecV, Agg):
        return Iter('slice', v, num(0), I.length(v)), st
    return NotImplemented

def m_into_iter_vec(I, f, a, st, t):
    v = a[0]
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) is Iter:
        return v, st
    if type(v) is Ptr:
        return m_iter(I, f, a, st, t)
    if type(v) in (VecV, View, Agg):
        if type(v) is Agg and v.ty is not None:
            return NotImplemented
        return Iter('own', v, num(0), I.length(v)), st
    return NotImplemented

def iter_len(I, it):
    if type(it) is Iter and it.kind in ('slice', 'own', 'range'):
        return lin.sub(it.a[-1], it.a[-2])
    return None

def next_base(I, st, node, it):
    """next() on a base iterator stored at node: -> (guard of Some, item, state)"""
    if it.kind in ('slice', 'own'):
        v, lo, hi = it.a
        has = I.cmp('Lt', lo, hi)
        if and_(st.g, has) is FALSE:
            return FALSE, UNDEF, st
        x = I.index(v, lo)
        st = st.copy()
        I.write_loc(st, node, Iter(it.kind, v, lin.add(lo, num(1)), hi))
        if it.kind == 'slice':
            x = I.ref_value(x)
        return has, x, st
    return None

def next_of(back):
    @guarded
    def m(I, f, a, st, t):
        node, it = I.target(st, a[0])
        if type(it) is Sym:
            it = I.expand(it)
        if node is None or type(it) not in (Iter, Agg):
            return NotImplemented
        if type(it) is Agg and (it.ty is None or I.types[it.ty].get('path', '') not in ADAPT or I.types[it.ty]['path'] == 'std::ops::Range'):
            return NotImplemented
        ti = t['dty']
        r = pull(I, st, node, back)
        if r is None:
            return NotImplemented
        if not any(k == 'skip' for k, _, _ in r):
            key = ('T', len(I.frames) - 1, 'nx', len(I.stack))
            m = None
            for k, x, s in r:
                s = s.copy()
                s.cells[key] = Enum(ti, leaf(1), {1: (x,)}) if k == 'item' else Enum(ti, leaf(0), {})
                m = I.merge2(m, s)
            if m is None:
                return None, None
            m = m.copy()
            return m.cells.pop(key), m
        if back:
            return NotImplemented
        v, s = first(I, st, Ptr(node), t, 'next', ti, lambda x, s: ([(x, s)], None))
        return v, s
    return m

def first(I, st, itp, t, name, ti, choose):
    """Option of the first element chosen; choose(item, state) -> ([(value, state)], state to go on with)"""
    def step(x, s, ak):
        yes, no = choose(x, s)
        brk = None
        for v, q in yes:
            q = q.copy()
            q.cells[ak[0]] = Enum(ti, leaf(1), {1: (v,)})
            brk = I.merge2(brk, q)
        return no, brk
    done, brk, ak, itk = consume(I, st, itp, t, name, step, [Enum(ti, leaf(0), {})])
    m = I.merge2(brk, done)
    if m is None:
        return None, None
    m = m.copy()
    v = m.cells.pop(ak[0])
    m.cells.pop(itk, None)
    return v, m

def fork(st, g):
    s = st.copy()
    s.g = and_(st.g, g)
    return s

def pull(I, st, node, back=False):
    """one step of any iterator stored at node -> [(kind, item, state)] with disjoint guards covering st.g;
    kind is 'item', 'skip' (nothing produced, not exhausted) or 'end'.  None: not modelled."""
    v = I.read_loc(st, node)
    if type(v) is Sym:
        v = I.expand(v)
    def fin(has, x, s2):
        out = []
        p, q = fork(s2, has), fork(s2, not_(has))
        if p.g is not FALSE:
            out.append(('item', x, p))
        if q.g is not FALSE:
            out.append(('end', UNDEF, q))
        return out
    if type(v) is Iter:
        r = (prev_base if back else next_base)(I, st, node, v)
        return None if r is None else fin(*r)
    if type(v) is Ptr:
        return pull(I, st, v.node, back)
    if type(v) is not Agg or v.ty is None:
        return None
    path = I.types[v.ty].get('path', '')
    k = ADAPT.get(path)
    if k is None:
        return None
    fs = [x['name'] for x in I.types[v.ty]['variants'][0]['fields']] if I.types[v.ty].get('variants') else []
    def fld(n):
        return I.append(node, ('.', fs.index(n)))
    def each(inner, fn):
        if inner is None:
            return None
        out = []
        for kind, x, s in inner:
            if kind != 'item':
                out.append((kind, x, s))
                continue
            r = fn(x, s)
            if r is None:
                return None
            out += r
        return out
    def test(y, s, yes, no):
        p, q = split_bool(s, I.expand(y))
        return [r for r in (yes + (p,), no + (q,)) if r[2].g is not FALSE]
    if k == 'range':
        lo, hi = I.expand(v.f[0]), I.expand(v.f[1])
        if type(lo) is not Lin or type(hi) is not Lin:
            return None
        has = I.cmp('Lt', lo, hi)
        st = st.copy()
        if back:
            h1 = lin.sub(hi, num(1))
            I.write_loc(st, fld('end'), h1)
            return fin(has, h1, st)
        I.write_loc(st, fld('start'), lin.add(lo, num(1)))
        return fin(has, lo, st)
    if k == 'rev':
        return pull(I, st, fld('iter'), not back)
    if k == 'map':
        def fn(x, s):
            y, s3 = I.call_closure(Ptr(fld('f')), [x], s)
            return [] if s3 is None else [('item', y, s3)]
        return each(pull(I, st, fld('iter'), back), fn)
    if k == 'inspect':
        def fn(x, s):
            y, s3 = I.call_closure(Ptr(fld('f')), [I.ref_value(x)], s)
            return [] if s3 is None else [('item', x, s3)]
        return each(pull(I, st, fld('iter'), back), fn)
    if k == 'filter':
        def fn(x, s):
            y, s3 = I.call_closure(Ptr(fld('predicate')), [I.ref_value(x)], s)
            return [] if s3 is None else test(y, s3, ('item', x), ('skip', UNDEF))
        return each(pull(I, st, fld('iter'), back), fn)
    if k == 'filter_map':
        def fn(x, s):
            y, s3 = I.call_closure(Ptr(fld('f')), [x], s)
            return [] if s3 is None else some_or(I, y, s3, 'skip')
        return each(pull(I, st, fld('iter'), back), fn)
    if k == 'copied':
        return each(pull(I, st, fld('it'), back), lambda x, s: [('item', I.load1(s, x) if x is not UNDEF else x, s)])
    if k == 'chain':
        names = ['b', 'a'] if back else ['a', 'b']
        out = []
        s = st
        for n in names:
            o = I.expand(I.read_loc(s, fld(n)))
            if type(o) is not Enum:
                return None
            here = fork(s, dd.when(o.discr, 1))
            s = fork(s, dd.when(o.discr, 0))
            if here.g is not FALSE:
                r = pull(I, here, I.append(I.append(fld(n), ('v', 1)), ('.', 0)), back)
                if r is None:
                    return None
                for kind, x, s2 in r:
                    if kind == 'end':
                        s2 = s2.copy()
                        I.write_loc(s2, fld(n), Enum(o.ty, leaf(0), {}))
                        kind = 'skip'
                    out.append((kind, x, s2))
            if s.g is FALSE:
                return out
        out.append(('end', UNDEF, s))
        return out
    if back:
        return None
    if k == 'enumerate':
        c = I.expand(I.read_loc(st, fld('count')))
        if type(c) is not Lin:
            return None
        def fn(x, s):
            s = s.copy()
            I.write_loc(s, fld('count'), lin.add(c, num(1)))
            return [('item', Agg([c, x], None), s)]
        return each(pull(I, st, fld('iter')), fn)
    if k == 'take':
        n = I.expand(I.read_loc(st, fld('n')))
        if type(n) is not Lin:
            return None
        g = I.cmp('Gt', n, num(0))
        go, stop = fork(st, g), fork(st, not_(g))
        out = [('end', UNDEF, stop)] if stop.g is not FALSE else []
        if go.g is FALSE:
            return out
        I.write_loc(go, fld('n'), lin.sub(n, num(1)))
        r = pull(I, go, fld('iter'))
        if r is None or any(kk == 'skip' for kk, _, _ in r):
            return None
        return out + r
    if k == 'skip':
        n = I.expand(I.read_loc(st, fld('n')))
        if type(n) is not Lin:
            return None
        g = I.cmp('Gt', n, num(0))
        drop, go = fork(st, g), fork(st, not_(g))
        out = []
        if go.g is not FALSE:
            r = pull(I, go, fld('iter'))
            if r is None:
                return None
            out += r
        if drop.g is not FALSE:
            I.write_loc(drop, fld('n'), lin.sub(n, num(1)))
            r = pull(I, drop, fld('iter'))
            if r is None or any(kk == 'skip' for kk, _, _ in r):
                return None
            out += [('skip' if kk == 'item' else kk, UNDEF, s) for kk, _, s in r]
        return out
    if k == 'take_while':
        fl = I.expand(I.read_loc(st, fld('flag')))
        if not isinstance(fl, dd.Node):
            return None
        stop, go = fork(st, fl), fork(st, not_(fl))
        out = [('end', UNDEF, stop)] if stop.g is not FALSE else []
        def fn(x, s):
            y, s3 = I.call_closure(Ptr(fld('predicate')), [I.ref_value(x)], s)
            if s3 is None:
                return []
            r = []
            for kind, x2, s4 in test(y, s3, ('item', x), ('end', UNDEF)):
                if kind == 'end':
                    s4 = s4.copy()
                    I.write_loc(s4, fld('flag'), TRUE)
                r.append((kind, x2, s4))
            return r
        if go.g is not FALSE:
            r = each(pull(I, go, fld('iter')), fn)
            if r is None:
                return None
            out += r
        return out
    if k == 'map_while':
        def fn(x, s):
            y, s3 = I.call_closure(Ptr(fld('predicate')), [x], s)
            return [] if s3 is None else some_or(I, y, s3, 'end')
        return each(pull(I, st, fld('iter')), fn)
    if k == 'skip_while':
        def fn(x, s):
            fl = I.expand(I.read_loc(s, fld('flag')))
            if not isinstance(fl, dd.Node):
                return None
            out = []
            past, ask = fork(s, fl), fork(s, not_(fl))
            if past.g is not FALSE:
                out.append(('item', x, past))
            if ask.g is not FALSE:
                y, s3 = I.call_closure(Ptr(fld('predicate')), [I.ref_value(x)], ask)
                if s3 is not None:
                    for kind, x2, s4 in test(y, s3, ('skip', UNDEF), ('item', x)):
                        if kind == 'item':
                            s4 = s4.copy()
                            I.write_loc(s4, fld('flag'), TRUE)
                        out.append((kind, x2, s4))
            return out
        return each(pull(I, st, fld('iter')), fn)
    if k == 'zip':
        def fn(x, s):
            r = pull(I, s, fld('b'))
            if r is None or any(kk == 'skip' for kk, _, _ in r):
                return None
            return [('item', Agg([x, y], None), s2) if kk == 'item' else (kk, y, s2) for kk, y, s2 in r]
        return each(pull(I, st, fld('a')), fn)
    if k == 'fuse':
        o = I.expand(I.read_loc(st, fld('iter')))
        if type(o) is not Enum or dd.when(o.discr, 1) is not TRUE:
            return None
        return pull(I, st, I.append(I.append(fld('iter'), ('v', 1)), ('.', 0)))
    if k == 'shunt':
        def fn(x, s):
            x = I.expand(x)
            if type(x) is not Enum:
                return None
            path = I.types[x.ty].get('path', '')
            good = 0 if path.endswith('Result') else 1
            p, q = fork(s, dd.when(x.discr, good)), fork(s, dd.when(x.discr, 1 - good))
            out = []
            if p.g is not FALSE and good in x.pay:
                out.append(('item', x.pay[good][0], p))
            if q.g is not FALSE:
                res = I.read_loc(q, fld('residual'))
                if type(res) is not Ptr:
                    return None
                old = I.expand(I.read_loc(q, res.node))
                if type(old) is not Enum:
                    return None
                q = q.copy()
                rty = I.types[old.ty]
                inner = rty['args'][0] if rty.get('args') else None
                if inner is None:
                    return None
                I.write_loc(q, res.node, Enum(old.ty, leaf(1), {1: (Enum(inner, x.discr, dict(x.pay)),)}))
                out.append(('end', UNDEF, q))
            return out
        return each(pull(I, st, fld('iter')), fn)
    return None

def some_or(I, y, s, other):
    y = I.expand(y)
    if type(y) is not Enum:
        return None
    out = []
    p, q = fork(s, dd.when(y.discr, 1)), fork(s, dd.when(y.discr, 0))
    if p.g is not FALSE and 1 in y.pay:
        out.append(('item', y.pay[1][0], p))
    if q.g is not FALSE:
        out.append((other, UNDEF, q))
    return out

def prev_base(I, st, node, it):
    if it.kind not in ('slice', 'own'):
        return None
    v, lo, hi = it.a
    has = I.cmp('Lt', lo, hi)
    if and_(st.g, has) is FALSE:
        return FALSE, UNDEF, st
    h1 = lin.sub(hi, num(1))
    x = I.index(v, h1)
    st = st.copy()
    I.write_loc(st, node, Iter(it.kind, v, lo, h1))
    return has, (I.ref_value(x) if it.kind == 'slice' else x), st

def consume(I, st, itv, t, name, step, accs):
    """run `step(item, state) -> state or None, stop list` over the iterator as a loop.
    accs: list of initial accumulator values.  Returns (state at exhaustion, [(guard-state)] of early exits)"""
    depth = len(I.frames) - 1
    itk = ('T', depth, name + '.it', len(I.stack))
    ak = [('T', depth, '%s.acc%d' % (name, i), len(I.stack)) for i in range(len(accs))]
    st = st.copy()
    st.cells[itk] = itv
    for k, v in zip(ak, accs):
        st.cells[k] = v
    fail = []
    def body(s):
        r = pull(I, s, leaf((itk, ())))
        if r is None:
            raise Unmodelled()
        exits = {}
        back = None
        for kind, x, s2 in r:
            if s2.g is FALSE:
                continue
            if kind == 'end':
                exits['done'] = I.merge2(exits.get('done'), s2)
            elif kind == 'skip':
                back = I.merge2(back, s2)
            else:
                b2, brk = step(x, s2, ak)
                back = I.merge2(back, b2)
                if brk is not None and brk.g is not FALSE:
                    exits['break'] = I.merge2(exits.get('break'), brk)
        return back, exits
    span = I.where()
    fn = I.frames[-1].fn if I.frames else None
    ctx = tuple(I.stack) + (('virtual', name, span),)
    frames_n = depth
    def relevant(k):
        return True
    def keyname(k):
        if k in (itk,):
            return 'it'
        if k in ak:
            return 'acc%d' % ak.index(k)
        if k[0] == 'L' and k[1] < len(I.frames):
            f2 = I.frames[k[1]].fn
            return '%s_%d^%d' % (dict((l, n) for l, n in f2['names']).get(k[2], ''), k[2], depth - k[1])
        return str(k)
    outs = dict(I.run_loop(ctx, body, st, span, keyname, relevant, fn))
    return outs.get('done'), outs.get('break'), ak, itk

def put_iter_back(I, st, src, itk):
    """by-reference consumers leave the iterator advanced"""
    if type(src) is Ptr:
        node, v = I.target(st, src)
        if node is not None and itk in st.cells:
            I.write_loc(st, node, st.cells[itk])

@guarded
def m_fold(I, f, a, st, t):
    clo = a[2]
    def step(x, s, ak):
        acc = s.cells[ak[0]]
        y, s2 = I.call_closure(clo, [acc, x], s)
        if s2 is None:
            return None, None
        s2 = s2.copy()
        s2.cells[ak[0]] = y
        return s2, None
    itv = a[0]
    clo = stash(I, st, clo)
    done, brk, ak, itk = consume(I, st, itv, t, 'fold', step, [a[1]])
    if done is None:
        return None, None
    v = done.cells.pop(ak[0])
    done.cells.pop(itk, None)
    return v, done

def stash(I, st, clo):
    """closures called repeatedly keep their state (FnMut) in one place"""
    if type(clo) is Ptr:
        return clo
    key = ('T', len(I.frames) - 1, 'fn', len(I.stack))
    st.cells[key] = clo
    return Ptr(leaf((key, ())))

@guarded
def m_sum(I, f, a, st, t):
    def step(x, s, ak):
        x = int_of(I, s, x)
        if x is None:
            raise Unmodelled()
        s = s.copy()
        s.cells[ak[0]] = lin.add(I.expand(s.cells[ak[0]]), x)
        return s, None
    done, brk, ak, itk = consume(I, st, a[0], t, 'sum', step, [num(0)])
    if done is None:
        return None, None
    v = done.cells.pop(ak[0])
    return v, done

@guarded
def m_count(I, f, a, st, t):
    def step(x, s, ak):
        s = s.copy()
        s.cells[ak[0]] = lin.add(s.cells[ak[0]], num(1))
        return s, None
    done, brk, ak, itk = consume(I, st, a[0], t, 'count', step, [num(0)])
    if done is None:
        return None, None
    return done.cells.pop(ak[0]), done

@guarded
def m_for_each(I, f, a, st, t):
    st = st.copy()
    clo = stash(I, st, a[1])
    def step(x, s, ak):
        y, s2 = I.call_closure(clo, [x], s)
        return s2, None
    done, brk, ak, itk = consume(I, st, a[0], t, 'each', step, [])
    if done is None:
        return None, None
    return UNIT, done

def split_bool(s, y):
    if type(y) is Sym or not isinstance(y, dd.Node):
        raise Unmodelled()
    p, q = s.copy(), s.copy()
    p.g = and_(s.g, y)
    q.g = and_(s.g, not_(y))
    return p, q

def quant(stop_on, name):
    @guarded
    def m(I, f, a, st, t):
        st = st.copy()
        clo = stash(I, st, a[1])
        def step(x, s, ak):
            y, s2 = I.call_closure(clo, [x], s)
            if s2 is None:
                return None, None
            yes, no = split_bool(s2, I.expand(y))
            return (no, yes) if stop_on else (yes, no)
        itv = a[0]
        done, brk, ak, itk = consume(I, st, itv, t, name, step, [])
        r = None
        v = None
        if done is not None and brk is not None:
            m2 = I.merge2(brk, done)
            v = brk.g if stop_on else not_(brk.g)
            v = dd.restrict(v, m2.g)
            return v, m2
        if done is not None:
            return (FALSE if stop_on else TRUE), done
        if brk is not None:
            return (TRUE if stop_on else FALSE), brk
        return None, None
    return m

def chooser(I, clo, mode, byref):
    def choose(x, s):
        y, s2 = I.call_closure(clo, [I.ref_value(x) if byref else x], s)
        if s2 is None:
            return [], None
        if mode == 'some':
            r = some_or(I, y, s2, 'no')
            if r is None:
                raise Unmodelled()
            no = None
            for k, v, q in r:
                if k == 'no':
                    no = I.merge2(no, q)
            return [(v, q) for k, v, q in r if k == 'item'], no
        p, q = split_bool(s2, I.expand(y))
        return ([(x, p)] if p.g is not FALSE else []), (q if q.g is not FALSE else None)
    return choose

def finder(mode, byref):
    @guarded
    def m(I, f, a, st, t):
        st = st.copy()
        clo = stash(I, st, a[1])
        return first(I, st, a[0], t, 'find', t['dty'], chooser(I, clo, mode, byref))
    return m

@guarded
def m_position(I, f, a, st, t):
    st = st.copy()
    clo = stash(I, st, a[1])
    ti = t['dty']
    def step(x, s, ak):
        y, s2 = I.call_closure(clo, [x], s)
        if s2 is None:
            return None, None
        p, q = split_bool(s2, I.expand(y))
        n = I.expand(s2.cells[ak[0]])
        if type(n) is not Lin:
            raise Unmodelled()
        p.cells[ak[1]] = Enum(ti, leaf(1), {1: (n,)})
        q.cells[ak[0]] = lin.add(n, num(1))
        return (q if q.g is not FALSE else None), p
    done, brk, ak, itk = consume(I, st, a[0], t, 'pos', step, [num(0), Enum(ti, leaf(0), {})])
    m = I.merge2(brk, done)
    if m is None:
        return None, None
    m = m.copy()
    return m.cells.pop(ak[1]), m

@guarded
def m_last_item(I, f, a, st, t):
    ti = t['dty']
    def step(x, s, ak):
        s = s.copy()
        s.cells[ak[0]] = Enum(ti, leaf(1), {1: (x,)})
        return s, None
    done, brk, ak, itk = consume(I, st, a[0], t, 'last', step, [Enum(ti, leaf(0), {})])
    if done is None:
        return None, None
    return done.cells.pop(ak[0]), done

@guarded
def m_try_for_each(I, f, a, st, t):
    st = st.copy()
    clo = stash(I, st, a[1])
    ti = t['dty']
    ty = I.types[ti]
    if ty['k'] != 'adt' or not ty['path'].endswith('Result'):
        raise Unmodelled()
    errs = {}
    def step(x, s, ak):
        y, s2 = I.call_closure(clo, [x], s)
        if s2 is None:
            return None, None
        y = I.expand(y)
        if type(y) is not Enum:
            raise Unmodelled()
        ok = dd.when(y.discr, 0)
        p, q = split_bool(s2, ok)
        q.cells[ak[0]] = y
        return p, q
    okv = Enum(ti, leaf(0), {0: (UNIT,)})
    itv = a[0]
    done, brk, ak, itk = consume(I, st, itv, t, 'tryeach', step, [okv])
    m2 = I.merge2(done, brk)
    if m2 is None:
        return None, None
    return m2.cells.pop(ak[0]), m2

@guarded
def m_try_fold(I, f, a, st, t):
    st = st.copy()
    clo = stash(I, st, a[2])
    ti = t['dty']
    ty = I.types[ti]
    if ty['k'] != 'adt' or not ty['path'].endswith('Result'):
        raise Unmodelled()
    def step(x, s, ak):
        y, s2 = I.call_closure(clo, [s.cells[ak[0]], x], s)
        if s2 is None:
            return None, None
        y = I.expand(y)
        if type(y) is not Enum:
            raise Unmodelled()
        p, q = split_bool(s2, dd.when(y.discr, 0))
        if 0 in y.pay:
            p.cells[ak[0]] = y.pay[0][0]
        q.cells[ak[1]] = y
        return p, q
    itv = a[0]
    done, brk, ak, itk = consume(I, st, itv, t, 'tryfold', step, [a[1], Enum(ti, leaf(0), {0: (UNIT,)})])
    if done is not None:
        done = done.copy()
        done.cells[ak[1]] = Enum(ti, leaf(0), {0: (done.cells[ak[0]],)})
    m2 = I.merge2(done, brk)
    if m2 is None:
        return None, None
    return m2.cells.pop(ak[1]), m2

@guarded
def m_collect_vec(I, f, a, st, t):
    ti = t['dty']
    ty = I.types[ti]
    if ty['k'] == 'adt' and ty['path'] == 'std::vec::Vec' or (ty['k'] == 'adt' and ty['path'] in ('bytes::BytesMut', 'bytes::Bytes')):
        pass
    else:
        raise Unmodelled()
    isb = I.is_bytes(ti)
    def step(x, s, ak):
        s = s.copy()
        v = s.cells[ak[0]]
        if isb:
            x = I.expand(x)
            if type(x) is not Lin:
                raise Unmodelled()
            v = Buf(v.ents.push((TRUE, I.org(('int', 1, x)), v.len)), lin.add(v.len, num(1)))
        else:
            v = VecV(v.base, v.push.push((TRUE, x)), lin.add(v.len, num(1)))
        s.cells[ak[0]] = v
        return s, None
    done, brk, ak, itk = consume(I, st, a[0], t, 'collect', step, [vec_new(I, ti)])
    if done is None:
        return None, None
    return done.cells.pop(ak[0]), done

@guarded
def m_extend(I, f, a, st, t):
    node, v = I.target(st, a[0])
    b = as_buf(I, v)
    it = a[1]
    if type(it) is Sym:
        it = I.expand(it)
    if node is None:
        raise Unmodelled()
    w = I.load(st, it) if type(it) is Ptr else it
    if type(w) is Sym:
        w = I.expand(w)
    st = st.copy()
    if type(w) is Enum and I.types[w.ty]['path'].endswith('option::Option') and type(v) is VecV:
        some = dd.when(w.discr, 1)
        if and_(st.g, some) is FALSE or not w.pay.get(1):
            return UNIT, st
        I.write_loc(st, node, VecV(v.base, v.push.push((some, w.pay[1][0])), lin.add(v.len, lin.ite(some, num(1), num(0)))))
        return UNIT, st
    if b is not None and type(w) in (View, Blob, Buf) :
        I.write_loc(st, node, append(I, b, w))
        return UNIT, st
    if type(w) in (VecV, View):
        w = Iter('slice' if type(it) is Ptr else 'own', w, num(0), I.length(w))
    if type(w) is not Iter and not (type(w) is Agg and w.ty is not None):
        raise Unmodelled()
    def step(x, s, ak):
        s = s.copy()
        _, v = I.target(s, a[0])
        if type(v) is Sym:
            v = I.expand(v)
        if type(v) is VecV:
            I.write_loc(s, node, VecV(v.base, v.push.push((TRUE, x)), lin.add(v.len, num(1))))
            return s, None
        bb = as_buf(I, v)
        x = int_of(I, s, x)
        if bb is None or x is None:
            raise Unmodelled()
        I.write_loc(s, node, Buf(bb.ents.push((TRUE, I.org(('int', 1, x)), bb.len)), lin.add(bb.len, num(1))))
        return s, None
    done, brk, ak, itk = consume(I, st, w, t, 'extend', step, [])
    if done is None:
        return None, None
    return UNIT, done

# ------------------------------------------------------------------ mem, cmp, num
def m_replace(I, f, a, st, t):
    st = st.copy()
    node = I.expand(a[0]).node
    old = I.read_loc(st, node)
    I.write_loc(st, node, a[1])
    return old, st

def m_take(I, f, a, st, t):
    d = m_default(I, f, a, st, t)
    if d is NotImplemented:
        ty = I.types[t['dty']]
        if ty['k'] == 'adt' and ty['path'].endswith('option::Option'):
            d = (Enum(t['dty'], leaf(0), {}), st)
        else:
            return NotImplemented
    st = st.copy()
    node = I.expand(a[0]).node
    old = I.read_loc(st, node)
    I.write_loc(st, node, d[0])
    return old, st

def m_swap(I, f, a, st, t):
    st = st.copy()
    n1, n2 = I.expand(a[0]).node, I.expand(a[1]).node
    x, y = I.read_loc(st, n1), I.read_loc(st, n2)
    I.write_loc(st, n1, y)
    I.write_loc(st, n2, x)
    return UNIT, st

def minmax(op):
    def m(I, f, a, st, t):
        x, y = int_of(I, st, a[0]), int_of(I, st, a[1])
        if x is None or y is None:
            return NotImplemented
        return lin.ite(I.cmp(op, x, y), x, y), st
    return m

def from_bytes(le):
    def m(I, f, a, st, t):
        v = I.load(st, a[0])
        if type(v) is Sym:
            v = I.expand(v)
        if type(v) is not Agg:
            return NotImplemented
        x = num(0)
        n = len(v.f)
        for i, b in enumerate(v.f):
            b = I.expand(b)
            if type(b) is not Lin:
                return NotImplemented
            x = lin.add(x, lin.scale(b, 256 ** (i if le else n - 1 - i)))
        return x, st
    return m

def to_bytes(le):
    def m(I, f, a, st, t):
        x = int_of(I, st, a[0])
        b = I.bits(t['atys'][0]) if t['atys'] else None
        if x is None or b is None or b[1]:
            return NotImplemented
        n = b[0] // 8
        l = [lin.mod(lin.div(x, 256 ** (n - 1 - i)), 256) for i in range(n)]
        return Agg(l[::-1] if le else l, None), st
    return m

def m_array_try_from(I, f, a, st, t):
    """<[u8; N]>::try_from(&[u8])"""
    ti = t['dty']
    ty = I.types[ti]
    try:
        ot = I.types[ty['variants'][0]['fields'][0]['ty']]
        ref = ot['k'] == 'ref'
        if ref:
            ot = I.types[ot['inner']]
        n = int(ot['n'])
    except Exception:
        return NotImplemented
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) not in (View, Blob, Agg):
        return NotImplemented
    g = I.cmp('Eq', I.length(v), num(n))
    if type(v) is Agg:
        arr = v
    else:
        arr = Agg([I.index(v, num(i)) for i in range(n)], None)
    return Enum(ti, dd.ite(g, leaf(0), leaf(1)), {0: (I.ref_value(arr) if ref else arr,), 1: (UNIT,)}), st

def arith_model(kind, op):
    def m(I, f, a, st, t):
        x, y = int_of(I, st, a[0]), int_of(I, st, a[1])
        ti = t['atys'][0] if t['atys'] else None
        if x is None or y is None or ti is None or I.irange(ti) is None:
            return NotImplemented
        lo, hi = I.irange(ti)
        r = I.arith(op, x, y, None)
        if r is None:
            return NotImplemented
        I.cur_g = st.g
        if kind == 'wrapping':
            return I.wrap(r, ti), st
        under = I.cmp('Lt', r, num(lo)) if lin.interval(r)[0] < lo else FALSE
        over = I.cmp('Gt', r, num(hi)) if lin.interval(r)[1] > hi else FALSE
        if kind == 'checked':
            return opt(I, st, t['dty'], not_(or_(under, over)), r), st
        if kind == 'saturating':
            return lin.ite(under, num(lo), lin.ite(over, num(hi), r)), st
        if kind == 'overflowing':
            return Agg([I.wrap(r, ti), or_(under, over)], None), st
        return NotImplemented
    return m

def pow_model(kind):
    """powers of guarded constants"""
    def m(I, f, a, st, t):
        x, y = int_of(I, st, a[0]), int_of(I, st, a[1])
        ti = t['atys'][0] if t['atys'] else None
        p, q = (v.pure() if v is not None else None for v in (x, y))
        if p is None or q is None or ti is None or I.irange(ti) is None:
            return lost(I, st, t)
        lo, hi = I.irange(ti)
        n = dd.apply('pow', lambda b, e: b ** e if 0 <= e <= 128 else hi + 1, p, q)
        bad = dd.map_leaves(('out', lo, hi), lambda v: not lo <= v <= hi, n)
        w = Lin({lin.ONE: n})
        if kind is None:
            st = st.copy()
            I.oblige('panic', st, bad, 'attempt to multiply with overflow')
            return (w, st) if st.g is not FALSE else (None, None)
        if kind == 'checked':
            return opt(I, st, t['dty'], not_(bad), w), st
        I.cur_g = st.g
        if kind == 'wrapping':
            return I.wrap(w, ti), st
        if kind == 'overflowing':
            return Agg([I.wrap(w, ti), bad], None), st
        return lin.ite(bad, num(hi), w), st
    return m

def lost(I, st, t):
    I.tmp += 1
    return (I.expand(Sym(t['dty'], '?call:%s.%d' % ('num', I.tmp))) if t.get('dty') is not None else Unknown('num')), st

def bits_model(n):
    """bit counts as a case split over powers of two"""
    def m(I, f, a, st, t):
        x = int_of(I, st, a[0])
        ti = t['atys'][0] if t['atys'] else None
        r = I.irange(ti) if ti is not None else None
        if x is None or r is None or r[0] < 0:
            return lost(I, st, t)
        bits = r[1].bit_length()
        p = lin.small_node(x)
        if n in ('leading_zeros', 'ilog2', 'checked_ilog2'):
            lo, hi = lin.interval(x)
            out = num(0)        # the position of the highest bit set, plus one
            for b in range(max(hi, 0).bit_length()):
                out = lin.ite(lin.test(x, ((1 << b, dd.BIG),)), num(b + 1), out)
            if n == 'leading_zeros':
                return lin.sub(num(bits), out), st
            if n == 'checked_ilog2':
                return opt(I, st, t['dty'], lin.test(x, lin.POS), lin.sub(out, num(1))), st
            st = st.copy()
            I.oblige('panic', st, lin.test(x, lin.NONPOS), 'logarithm of zero')
            return (lin.sub(out, num(1)), st) if st.g is not FALSE else (None, None)
        if p is None:
            return lost(I, st, t)
        if n == 'is_power_of_two':
            return dd.map_leaves(n, lambda v: v > 0 and v & (v - 1) == 0, p), st
        fn = {'trailing_zeros': lambda v: (v & -v).bit_length() - 1 if v else bits, 'count_ones': lambda v: bin(v).count('1'),
              'next_power_of_two': lambda v: 1 << max(v - 1, 0).bit_length()}[n]
        return Lin({lin.ONE: dd.map_leaves((n, bits), fn, p)}), st
    return m

def m_box_new_uninit(I, f, a, st, t):
    I.tmp += 1
    key = ('H', I.tmp)
    st = st.copy()
    st.cells[key] = UNDEF
    return Ptr(leaf((key, ()))), st

def m_box_into_vec(I, f, a, st, t):
    v = I.load(st, a[0])
    for _ in range(6):
        if type(v) is Agg and v.ty is None and len([x for x in v.f if x is not UNDEF]) == 1 and any(type(x) is Agg and x.ty is None for x in v.f):
            v = [x for x in v.f if x is not UNDEF][0]
    if type(v) is not Agg:
        return NotImplemented
    p = EMPTY
    for x in v.f:
        p = p.push((TRUE, x))
    if I.is_bytes(t['dty']):
        return append(I, Buf(EMPTY, num(0)), v), st
    return VecV(None, p, num(len(v.f))), st

def m_into_vec(I, f, a, st, t):
    v = I.load(st, a[0])
    if type(v) is Sym:
        v = I.expand(v)
    if type(v) in (View, Blob, VecV, Buf):
        return v, st
    if type(v) is Agg and v.ty is None:
        if I.is_bytes(t['dty']):
            return append(I, Buf(EMPTY, num(0)), v), st
        p = EMPTY
        for x in v.f:
            p = p.push((TRUE, x))
        return VecV(None, p, num(len(v.f))), st
    return NotImplemented

def m_drop(I, f, a, st, t):
    ti = (t.get('atys') or [None])[0]
    if ti is not None and I.has_dtor(ti):
        key = ('T', len(I.frames), 'drop', len(I.stack))
        st = st.copy()
        st.cells[key] = a[0]
        st = I.drop(st, leaf((key, ())), ti)
    return UNIT, st

def m_nop(I, f, a, st, t):
    return UNIT, st

def m_fn_call(I, f, a, st, t):
    """FnOnce/FnMut/Fn::call* on a closure or function item"""
    c = a[0]
    args = I.load(st, a[1]) if len(a) > 1 else UNIT
    if type(args) is Sym:
        args = I.expand(args)
    if type(args) is not Agg:
        return NotImplemented
    v = c
    for _ in range(4):
        if type(v) is Ptr:
            v = I.read_loc(st, v.node)
    if type(v) is Agg and v.ty is not None and I.types[v.ty]['k'] in ('closure', 'fndef'):
        return I.call_closure(c, list(args.f), st)
    return NotImplemented

def m_box_new(I, f, a, st, t):
    return a[0], st

def m_from(I, f, a, st, t):
    """From/Into between byte and text containers: the content is unchanged"""
    ti = t['dty']
    if I.is_bytes(ti):
        v = I.load(st, a[0])
        if type(v) is Sym:
            v = I.expand(v)
        if type(v) in (View, Blob, Buf):
            return v, st
        if type(v) is Agg and v.ty is None:
            return append(I, Buf(EMPTY, num(0)), v), st
    return NotImplemented

def m_starts_with(I, f, a, st, t):
    v, w = window(I, st, a[0]), window(I, st, a[1])
    if type(v) is not View or type(w) is not View or w.rem().const() is None or not w.src.startswith('lit:'):
        return NotImplemented
    n = w.rem().const()
    g = I.cmp('Ge', v.rem(), num(n))
    return and_(g, eq_views(I, View(v.src, v.pos, lin.add(v.pos, num(n))), w)), st

def m_leading_zeros(I, f, a, st, t):
    return NotImplemented

# ------------------------------------------------------------------ dispatch
def table(I):
    cache = {}
    def lookup(f):
        if f.get('local'):
            return m_fn_call if FN_TRAIT.search(f['decl']) else None
        k = (f['decl'], f.get('path'))
        if k not in cache:
            cache[k] = find(f)
        return cache[k]
    return lookup

def byte_size(I, ti):
    t = I.types[ti]
    if t['k'] == 'array':
        n = byte_size(I, t['inner'])
        return None if n is None or type(t.get('n')) is not int else n * t['n']
    return {'uint': t.get('bits', 0) // 8, 'int': t.get('bits', 0) // 8, 'bool': 1, 'char': 4}.get(t['k']) or None

def m_size_of(I, f, a, st, t):
    n = byte_size(I, f['targs'][0]) if f.get('targs') else None
    return NotImplemented if n is None else (num(n), st)

def m_size_of_val(I, f, a, st, t):
    n = byte_size(I, f['targs'][0]) if f.get('targs') else None
    if n is None and a and f.get('targs') and I.is_bytes(f['targs'][0]):
        return m_len(I, f, a, st, t)
    return NotImplemented if n is None else (num(n), st)

def find(f):
    d = f['decl']
    p = f.get('path') or d
    name = d.split('::')[-1]
    if f.get('crate') == 'mqtt_bytes_v5' and f.get('key'):
        return None
    def dec(*pre):
        return any(d.startswith(x) for x in pre)
    if dec('bytes::Buf::'):
        return {'advance': m_advance, 'get_u8': getter(1), 'get_u16': getter(2), 'get_u32': getter(4), 'get_u64': getter(8),
                'get_uint': m_get_uint, 'get_u16_le': getter_le(2), 'get_u32_le': getter_le(4),
                'remaining': m_len, 'has_remaining': m_has_remaining, 'chunk': ret_pointer, 'copy_to_bytes': m_split_to,
                'copy_to_slice': m_copy_to_slice}.get(name)
    if dec('bytes::BufMut::', 'bytes::BytesMut::', 'bytes::Bytes::', 'bytes::bytes::', 'bytes::bytes_mut::'):
        return {'put_u8': putter(1), 'put_u16': putter(2), 'put_u32': putter(4), 'put_u64': putter(8), 'put_u16_le': putter(2, True), 'put_u32_le': putter(4, True),
                'put_uint': m_put_uint, 'put_slice': m_put_slice, 'extend_from_slice': m_put_slice, 'put': m_put_slice, 'put_bytes': m_put_bytes,
                'new': m_new_bytes if 'BytesMut' in d else lambda I, f, a, st, t: (empty_view(), st),
                'with_capacity': m_with_capacity_bytes, 'reserve': m_reserve, 'freeze': ret_value, 'split_to': m_split_to, 'split_off': m_split_off,
                'split': m_split, 'truncate': m_truncate, 'clear': m_clear, 'len': m_len, 'is_empty': m_is_empty,
                'copy_from_slice': ret_value, 'from_static': ret_value, 'slice': m_slice_range, 'from_owner': ret_value}.get(name)
    if dec('std::ops::Deref::', 'std::ops::DerefMut::', 'std::convert::AsRef::', 'std::convert::AsMut::', 'std::borrow::Borrow::', 'std::borrow::BorrowMut::'):
        if 'thiserror' in d:
            return None
        return ret_pointer
    if d in ('std::mem::size_of', 'std::intrinsics::size_of'):
        return m_size_of
    if d in ('std::mem::size_of_val', 'std::intrinsics::size_of_val'):
        return m_size_of_val
    if dec('std::clone::Clone::clone'):
        return m_clone
    if dec('std::cmp::PartialEq::eq'):
        return m_eq
    if dec('std::cmp::PartialEq::ne'):
        return m_ne
    if dec('std::default::Default::default'):
        return m_default
    if dec('std::convert::From::from', 'std::convert::Into::into'):
        return m_from
    if dec('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into'):
        return m_array_try_from if 'array' in p or '[' in p else None
    if dec('std::string::ToString::to_string', 'std::borrow::ToOwned::to_owned', 'std::string::SpecToString'):
        return m_from
    if dec('std::borrow::Cow'):
        return {'into_owned': ret_value, 'to_mut': ret_pointer}.get(name)
    if dec('core::str::<impl str>::', 'std::str::<impl str>::', 'std::str::', 'core::str::', 'std::string::String::', 'alloc::str::'):
        return {'len': m_len, 'is_empty': m_is_empty, 'as_bytes': ret_pointer, 'as_str': ret_pointer, 'from_utf8': m_from_utf8,
                'from_utf8_unchecked': ret_value_or_ptr, 'into_bytes': ret_value, 'into_boxed_str': ret_value, 'to_owned': ret_value,
                'new': m_new_string, 'with_capacity': m_with_capacity_string, 'push_str': m_put_slice, 'into_string': ret_value, 'to_string': ret_value,
                'from_utf8_lossy': lossy, 'trim': lossy, 'trim_end': lossy, 'trim_start': lossy, 'to_lowercase': lossy, 'to_uppercase': lossy,
                'to_ascii_lowercase': lossy, 'to_ascii_uppercase': lossy, 'trim_matches': lossy, 'trim_end_matches': lossy, 'starts_with': m_starts_with, 'eq_ignore_ascii_case': m_eq_fold,
                'get': m_get, 'bytes': m_iter, 'as_ptr': None, 'from_utf8_lossy_owned': lossy}.get(name)
    if dec('std::slice::Iter', 'core::slice::iter', 'std::slice::iter') and name in ('as_slice', 'as_ref', 'len'):
        return m_len if name == 'len' else m_iter_as_slice
    if dec('core::slice::<impl [T]>::', 'std::slice::<impl [T]>::', 'core::slice::<impl [u8]>::', 'alloc::slice::', 'std::slice::'):
        if 'into_vec' in name:
            return m_into_vec
        if name == 'to_vec' and 'ConvertVec' in d:
            return ret_value
        return {'len': m_len, 'is_empty': m_is_empty, 'iter': m_iter, 'get': m_get, 'first': m_first, 'last': m_last, 'split_at': m_split_at,
                'to_vec': ret_value, 'into_vec': m_into_vec, 'repeat': m_repeat, 'copy_from_slice': m_copy_from_slice, 'clone_from_slice': m_copy_from_slice,
                'starts_with': m_starts_with, 'as_ref': ret_pointer, 'eq_ignore_ascii_case': m_eq_fold, 'contains': m_contains,
                'split_first': split_end(True), 'split_last': split_end(False), 'to_owned': ret_value,
                'reverse': list_op('reverse'), 'sort': list_op('sort'), 'sort_unstable': list_op('sort')}.get(name)
    if dec('std::vec::Vec::') or dec('std::vec::Vec<'):
        return {'new': m_vec_new, 'with_capacity': m_vec_with_capacity, 'push': m_vec_push, 'len': m_len, 'is_empty': m_is_empty,
                'as_slice': ret_pointer, 'as_mut_slice': ret_pointer, 'extend_from_slice': m_put_slice_vec, 'reserve': m_reserve, 'truncate': m_truncate,
                'clear': m_clear, 'into_boxed_slice': ret_value, 'dedup': list_op('dedup'), 'insert': m_insert,
                'retain': m_retain, 'append': m_vec_append, 'shrink_to_fit': m_nop, 'shrink_to': m_nop}.get(name)
    if dec('std::iter::IntoIterator::into_iter'):
        if 'std::vec::Vec' in p or 'IntoIterator for &' in p or 'array' in p or '[T; N]' in p:
            return m_into_iter_vec
        return None
    if dec('std::iter::FromIterator::from_iter'):
        return m_collect_vec
    if dec('std::iter::Extend::extend'):
        return m_extend
    if dec('std::iter::ExactSizeIterator::len'):
        return m_len
    if dec('std::iter::DoubleEndedIterator::'):
        return {'next_back': next_of(True)}.get(name)
    if dec('std::iter::Iterator::'):
        return {'next': next_of(False), 'find': finder('bool', True), 'find_map': finder('some', False), 'position': m_position, 'last': m_last_item, 'fold': m_fold, 'sum': m_sum, 'count': m_count, 'for_each': m_for_each, 'any': quant(True, 'any'),
                'all': quant(False, 'all'), 'try_for_each': m_try_for_each, 'try_fold': m_try_fold}.get(name)
    if dec('std::ops::Index::', 'std::ops::IndexMut::'):
        return m_index
    if dec('std::mem::replace', 'core::mem::replace'):
        return m_replace
    if dec('std::mem::take', 'core::mem::take'):
        return m_take
    if dec('std::mem::swap', 'core::mem::swap'):
        return m_swap
    if dec('std::mem::drop', 'core::mem::drop'):
        return m_drop
    if dec('std::mem::forget', 'std::intrinsics::cold_path', 'std::hint::assert_unchecked', 'std::intrinsics::assume', 'std::ptr::drop_in_place'):
        return m_nop
    if dec('std::cmp::min', 'std::cmp::Ord::min', 'core::cmp::min'):
        return minmax('Le')
    if dec('std::cmp::max', 'std::cmp::Ord::max', 'core::cmp::max'):
        return minmax('Gt')
    m = re.match(r'(?:core|std)::num::<impl [ui](?:8|16|32|64|128|size)>::(\w+)$', d)
    if m:
        n = m.group(1)
        r = {'from_be_bytes': from_bytes(False), 'from_le_bytes': from_bytes(True), 'to_be_bytes': to_bytes(False), 'to_le_bytes': to_bytes(True)}.get(n)
        if r:
            return r
        mm = re.match(r'(checked|saturating|wrapping|overflowing)_(add|sub|mul|shl|shr)$', n)
        if mm and mm.group(2) in ('add', 'sub', 'mul'):
            return arith_model(mm.group(1), mm.group(2).capitalize())
        mm = re.match(r'(?:(checked|saturating|wrapping|overflowing)_)?pow$', n)
        if mm:
            return pow_model(mm.group(1))
        if n in ('leading_zeros', 'ilog2', 'checked_ilog2', 'trailing_zeros', 'count_ones', 'is_power_of_two', 'next_power_of_two'):
            return bits_model(n)
        return None
    if d.endswith('Box::<T>::new_uninit'):
        return m_box_new_uninit
    if 'box_assume_init_into_vec_unsafe' in d:
        return m_box_into_vec
    if dec('std::boxed::Box::<T>::new'):
        return m_box_new
    if dec('std::boxed::Box'):
        return {'into_string': ret_value, 'into_vec': m_into_vec, 'as_ref': ret_pointer}.get(name)
    if FN_TRAIT.search(d):
        return m_fn_call
    return None

def ret_value_or_ptr(I, f, a, st, t):
    if type(a[0]) is Ptr:
        return ret_pointer(I, f, a, st, t)
    return a[0], st

def m_new_string(I, f, a, st, t):
    return Buf(EMPTY, num(0)), st

def m_with_capacity_string(I, f, a, st, t):
    alloc(I, st, int_of(I, st, a[0]), 1)
    return Buf(EMPTY, num(0)), st

def m_put_slice_vec(I, f, a, st, t):
    node, v = I.target(st, a[0])
    s = I.load(st, a[1])
    if type(s) is Sym:
        s = I.expand(s)
    if type(v) is VecV and not (v.base is None and v.push is EMPTY and type(s) in (View, Blob, Buf)):
        if type(s) is Agg and s.ty is None:
            p = v.push
            for x in s.f:
                p = p.push((TRUE, x))
            st = st.copy()
            I.write_loc(st, node, VecV(v.base, p, lin.add(v.len, num(len(s.f)))))
            return UNIT, st
        if type(s) is VecV and v.base is None and v.push is EMPTY:
            st = st.copy()
            I.write_loc(st, node, s)
            return UNIT, st
        return NotImplemented
    return m_put_slice(I, f, a, st, t)
