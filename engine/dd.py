"""Multi-valued, multi-terminal decision diagrams with hash-consing.

A node is a leaf (var is None) or tests one integer variable: its edges partition the variable's
domain into sets of integer intervals.  Used for path guards (leaves True/False), for values of
small finite type (leaves ints / variant numbers / pointers) and for guarded coefficients."""
BIG = 1 << 80

# ---------------------------------------------------------------- interval sets
def iset(*ivs):
    r = []
    for lo, hi in sorted(ivs):
        if lo > hi:
            continue
        if r and lo <= r[-1][1] + 1:
            if hi > r[-1][1]:
                r[-1] = (r[-1][0], hi)
        else:
            r.append((lo, hi))
    return tuple(r)

def iand(a, b):
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
        hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
        if lo <= hi:
            r.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(r)

def ior(a, b):
    return iset(*(a + b))

def inot(a, dom=((-BIG, BIG),)):
    r = []
    for lo, hi in dom:
        cur = lo
        for l, h in a:
            if h < cur or l > hi:
                continue
            if l > cur:
                r.append((cur, l - 1))
            cur = max(cur, h + 1)
        if cur <= hi:
            r.append((cur, hi))
    return tuple(r)

def isize(a):
    return sum(h - l + 1 for l, h in a)

def ifmt(a):
    return '{' + ','.join(str(l) if l == h else '%s..%s' % ('-inf' if l <= -BIG else l, 'inf' if h >= BIG else h) for l, h in a) + '}'

# ---------------------------------------------------------------- variables
class Var:
    __slots__ = ('name', 'key', 'dom', 'meta')
    def __repr__(self):
        return self.name

VARS = {}
def var(name, lo, hi, rank=5, meta=None, key=None):
    v = VARS.get(name)
    if v is None:
        v = Var()
        v.name = name
        v.key = (rank, key if key is not None else name, name)
        v.dom = ((lo, hi),)
        v.meta = meta
        VARS[name] = v
    return v

# ---------------------------------------------------------------- nodes
class Node:
    __slots__ = ('id', 'var', 'edges', 'val', '_vars')
    def __repr__(self):
        return 'N%d' % self.id if self.var else 'L(%r)' % (self.val,)

_uniq = {}
_count = 0
def leaf(val):
    global _count
    k = ('leaf', type(val), val)
    n = _uniq.get(k)
    if n is None:
        n = Node()
        n.id = _count
        _count += 1
        n.var = None
        n.edges = ()
        n.val = val
        n._vars = frozenset()
        _uniq[k] = n
    return n

def _first(e):
    return e[0][0][0]

def mk(v, edges):
    """edges: list of (iset, node) partitioning v.dom; the sets are in normal form"""
    global _count
    es = None
    if len(edges) == 2:
        (s, n), (s2, n2) = edges
        if not s:
            return n2
        if not s2 or n is n2:
            return n
        es = ((s, n), (s2, n2)) if s[0][0] < s2[0][0] else ((s2, n2), (s, n))
    else:
        by = {}
        for e in edges:
            s, n = e
            if not s:
                continue
            i = n.id
            o = by.get(i)
            if o is None:
                by[i] = e
            elif type(o) is tuple:
                by[i] = [n, o[0] + s]
            else:
                o[1] += s
        if len(by) == 1:
            e = next(iter(by.values()))
            return e[1] if type(e) is tuple else e[0]
        es = tuple(sorted([e if type(e) is tuple else (iset(*e[1]), e[0]) for e in by.values()], key=_first))
    k = (v.name, tuple([(s, n.id) for s, n in es]))
    n = _uniq.get(k)
    if n is None:
        n = Node()
        n.id = _count
        _count += 1
        n.var = v
        n.edges = es
        n.val = None
        n._vars = None
        _uniq[k] = n
    return n

TRUE = leaf(True)
FALSE = leaf(False)

def test(v, s):
    """guard: v in s"""
    s = iand(iset(*s) if len(s) > 1 else s, v.dom)
    return mk(v, [(s, TRUE), (inot(s, v.dom), FALSE)]) if s else FALSE

_memo = {}
def apply(opname, op, a, b):
    """op on leaf values; memoised per opname"""
    key = (opname, a.id, b.id)
    r = _memo.get(key)
    if r is not None:
        return r
    if a.var is None and b.var is None:
        r = leaf(op(a.val, b.val))
    else:
        if b.var is None or (a.var is not None and a.var.key < b.var.key):
            r = mk(a.var, [(s, apply(opname, op, n, b)) for s, n in a.edges])
        elif a.var is None or b.var.key < a.var.key:
            r = mk(b.var, [(s, apply(opname, op, a, n)) for s, n in b.edges])
        else:
            es = []
            for s, n in a.edges:
                for s2, n2 in b.edges:
                    x = iand(s, s2)
                    if x:
                        es.append((x, apply(opname, op, n, n2)))
            r = mk(a.var, es)
    _memo[key] = r
    return r

def plus(a, b):
    """sum of two integer valued diagrams"""
    av, bv = a.var, b.var
    if av is None:
        if a.val == 0 and type(a.val) is int:
            return b
        if bv is None:
            return leaf(a.val + b.val)
    if bv is None and b.val == 0 and type(b.val) is int:
        return a
    i, j = a.id, b.id
    key = ('+', i, j) if i < j else ('+', j, i)
    r = _memo.get(key)
    if r is not None:
        return r
    if av is bv:
        es = []
        for s, n in a.edges:
            for s2, n2 in b.edges:
                x = s if s is s2 else iand(s, s2)
                if x:
                    es.append((x, plus(n, n2)))
        r = mk(av, es)
    elif bv is None or (av is not None and av.key < bv.key):
        r = mk(av, [(s, plus(n, b)) for s, n in a.edges])
    else:
        r = mk(bv, [(s, plus(a, n)) for s, n in b.edges])
    _memo[key] = r
    return r

def map_leaves(opname, fn, a):
    key = (opname, a.id)
    r = _memo.get(key)
    if r is None:
        if a.var is None:
            r = leaf(fn(a.val))
        else:
            r = mk(a.var, [(s, map_leaves(opname, fn, n)) for s, n in a.edges])
        _memo[key] = r
    return r

def map_leaves_raw(fn, a, memo=None):
    """map_leaves without a cross-call memo (fn may be a fresh closure)"""
    if memo is None:
        memo = {}
    r = memo.get(a.id)
    if r is None:
        if a.var is None:
            r = leaf(fn(a.val))
        else:
            r = mk(a.var, [(s, map_leaves_raw(fn, n, memo)) for s, n in a.edges])
        memo[a.id] = r
    return r

def bind_leaves(fn, a, memo=None):
    """replace each leaf by a node fn(val)"""
    if memo is None:
        memo = {}
    r = memo.get(a.id)
    if r is None:
        if a.var is None:
            r = fn(a.val)
        else:
            r = FALSE
            parts = [(s, bind_leaves(fn, n, memo)) for s, n in a.edges]
            r = parts[0][1]
            for s, n in parts[1:]:
                r = ite(test(a.var, s), n, r)
        memo[a.id] = r
    return r

def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return _and(a, b)

def _and(a, b):
    key = ('&', a.id, b.id)
    r = _memo.get(key)
    if r is not None:
        return r
    if a.var is not None and (b.var is None or a.var.key < b.var.key):
        r = mk(a.var, [(s, and_(n, b)) for s, n in a.edges])
    elif a.var is None or b.var.key < a.var.key:
        r = mk(b.var, [(s, and_(a, n)) for s, n in b.edges])
    else:
        es = []
        for s, n in a.edges:
            for s2, n2 in b.edges:
                x = iand(s, s2)
                if x:
                    es.append((x, and_(n, n2)))
        r = mk(a.var, es)
    _memo[key] = r
    return r

def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    return map_leaves('!', lambda v: not v, a)

def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return not_(and_(not_(a), not_(b)))

def implies(a, b):
    return and_(a, not_(b)) is FALSE

def iff(a, b):
    return a is b

def ite(g, a, b):
    if g is TRUE or a is b:
        return a
    if g is FALSE:
        return b
    key = ('?', g.id, a.id, b.id)
    r = _memo.get(key)
    if r is not None:
        return r
    vs = [n.var for n in (g, a, b) if n.var is not None]
    v = min(vs, key=lambda x: x.key)
    def parts(n):
        return n.edges if n.var is v else ((v.dom, n),)
    es = []
    for s, x in parts(g):
        for s2, y in parts(a):
            i = iand(s, s2)
            if not i:
                continue
            for s3, z in parts(b):
                j = iand(i, s3)
                if j:
                    es.append((j, ite(x, y, z)))
    r = mk(v, es)
    _memo[key] = r
    return r

def exists(a, pred):
    """existentially quantify the variables satisfying pred (guards only)"""
    memo = {}
    def go(n):
        if n.var is None:
            return n
        r = memo.get(n.id)
        if r is None:
            if pred(n.var):
                r = FALSE
                for _, c in n.edges:
                    r = or_(r, go(c))
            else:
                r = FALSE
                for s, c in n.edges:
                    r = or_(r, and_(test(n.var, s), go(c)))
            memo[n.id] = r
        return r
    return go(a)

def restrict(f, c):
    """simplify f assuming guard c (value outside c is arbitrary)"""
    if c is TRUE or f.var is None or c is FALSE:
        return f
    key = ('restrict', f.id, c.id)
    r = _memo.get(key)
    if r is not None:
        return r
    if c.var is not None and c.var.key < f.var.key:
        d = FALSE
        for _, n in c.edges:
            d = or_(d, n)
        r = restrict(f, d)
    elif c.var is f.var:
        es = []
        dropped = ()
        for s, n in f.edges:
            for s2, n2 in c.edges:
                x = iand(s, s2)
                if not x:
                    continue
                if n2 is FALSE:
                    dropped = dropped + x
                else:
                    es.append((x, restrict(n, n2)))
        if dropped:
            # give the don't-care part to the child covering most of the care set
            by = {}
            for s, n in es:
                by[n.id] = (by.get(n.id, (0, n))[0] + isize(s), n)
            best = max(by.values(), key=lambda t: (t[0], -t[1].id))[1]
            es.append((dropped, best))
        r = mk(f.var, es)
    else:
        r = mk(f.var, [(s, restrict(n, c)) for s, n in f.edges])
    _memo[key] = r
    return r

def cofactor(f, v, s):
    """f with variable v limited to s, v then quantified out (union of edges meeting s; guards)"""
    return exists(and_(f, test(v, s)), lambda x: x is v)

def values(g, v):
    """interval set of the values of variable v in some assignment satisfying g"""
    memo = {}
    dom = v.dom
    def go(n):
        if n.var is None:
            return dom if n.val else ()
        if n.var.key > v.key:
            return dom
        r = memo.get(n.id)
        if r is None:
            r = ()
            for s, m in n.edges:
                if n.var is v:
                    if m is not FALSE:
                        r = ior(r, s)
                else:
                    r = ior(r, go(m))
                if r == dom:
                    break
            memo[n.id] = r
        return r
    return go(g)

def leaves(a, limit=None):
    """set of leaf values"""
    out = {}
    seen = set()
    stack = [a]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.var is None:
            out[(type(n.val), n.val)] = n.val
            if limit and len(out) > limit:
                break
        else:
            for _, c in n.edges:
                stack.append(c)
    return list(out.values())

def leaf_guards(a):
    """list of (value, guard) for a diagram"""
    return [(v, when(a, v)) for v in sorted(leaves(a), key=repr)]

def when(a, val):
    return map_leaves(('=', type(val), val), lambda x: type(x) is type(val) and x == val, a)

def support(a):
    if a._vars is None:
        seen = set()
        vs = set()
        stack = [a]
        while stack:
            n = stack.pop()
            if n.id in seen or n.var is None:
                continue
            seen.add(n.id)
            if n._vars is not None:
                vs |= n._vars
                continue
            vs.add(n.var)
            for _, c in n.edges:
                stack.append(c)
        a._vars = frozenset(vs)
    return a._vars

def size(a):
    seen = set()
    stack = [a]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        for _, c in n.edges:
            stack.append(c)
    return len(seen)

def sample(a, want=True):
    """one satisfying assignment {var: iset} of guard a, for diagnostics"""
    out = []
    n = a
    memo = {}
    def sat(n):
        if n.var is None:
            return n.val == want
        r = memo.get(n.id)
        if r is None:
            r = any(sat(c) for _, c in n.edges)
            memo[n.id] = r
        return r
    while n.var is not None:
        for s, c in n.edges:
            if sat(c):
                out.append((n.var, s))
                n = c
                break
        else:
            return None
    return out

def fmt_guard(a, limit=6):
    s = sample(a)
    if s is None:
        return 'false'
    parts = ['%s in %s' % (v.name, ifmt(x)) for v, x in s]
    if len(parts) > limit:
        parts = parts[:limit] + ['... (%d more)' % (len(parts) - limit)]
    return ' & '.join(parts) or 'always'
