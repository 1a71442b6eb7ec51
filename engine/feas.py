"""Is a guard satisfiable?  Decision diagrams treat every linear form as an independent variable; this
walks the diagram with interval propagation over the atoms of those forms and drops contradictory paths."""
from math import gcd
import dd, lin
from dd import TRUE, FALSE, BIG, iand, and_, or_, not_
from lin import Lin, ATOMS

LIMIT = 20000       # nodes visited before giving up (the guard then counts as satisfiable)

class Box:
    __slots__ = ('d', 'forms', 'path', 'lazy')
    def __init__(self):
        self.path = TRUE    # conjunction of the tests taken
        self.lazy = []      # (form with guarded coefficients, lo, hi)
        self.d = {}         # atom name -> (lo, hi)
        self.forms = []     # (Lin with constant coefficients, lo, hi)
    def copy(self):
        b = Box()
        b.d = dict(self.d)
        b.forms = list(self.forms)
        b.path = self.path
        b.lazy = list(self.lazy)
        return b
    def get(self, k):
        r = self.d.get(k)
        if r is None:
            a = ATOMS[k]
            r = (a.lo, a.hi)
        return r

def plain_form(a, depth=0):
    """list of (Lin plain, offset) equal to the atom's meaning, when linear"""
    return a

def base_terms(f):
    return [(k, n.val) for k, n in f.t.items() if k != lin.ONE], (f.t[lin.ONE].val if lin.ONE in f.t else 0)

def propagate(b):
    for _ in range(12):
        ch = False
        for k in {k for f, lo, hi in b.forms for k in f.t if k != lin.ONE and ATOMS[k].kind == 'sum'}:
            # n rounds of a term within [tl, th]
            term, idx, n = ATOMS[k].args
            if not n.plain():
                continue
            nl = nh = n.c0().val
            for j, c in base_terms(n)[0]:
                a, z = b.get(j)
                nl += min(c * a, c * z)
                nh += max(c * a, c * z)
            tl, th = lin.interval(term)
            a, z = b.get(k)
            if tl >= 0:
                na, nz = max(a, max(nl, 0) * tl), min(z, max(nh, 0) * th)
                if na > nz:
                    return False
                if (na, nz) != (a, z):
                    b.d[k] = (na, nz)
                    ch = True
        for f, lo, hi in b.forms:
            ts, c0 = base_terms(f)
            l, h = lo - c0, hi - c0
            mn = mx = 0
            iv = []
            for k, c in ts:
                a, z = b.get(k)
                x, y = (c * a, c * z) if c > 0 else (c * z, c * a)
                iv.append((x, y))
                mn += x
                mx += y
            if mn > h or mx < l:
                return False
            for (k, c), (x, y) in zip(ts, iv):
                # c*k in [l - (mx - y), h - (mn - x)]
                tl, th = l - (mx - y), h - (mn - x)
                if c > 0:
                    nl, nh = -((-tl) // c), th // c
                else:
                    nl, nh = -((th) // -c), -tl // -c if False else (-tl) // (-c)
                a, z = b.get(k)
                if nl > a or nh < z:
                    na, nz = max(a, nl), min(z, nh)
                    if na > nz:
                        return False
                    b.d[k] = (na, nz)
                    ch = True
        if not ch:
            break
    return True

def canon(f, lo, hi):
    """(key, coefficients, lo, hi) with the constant removed, smallest coefficients and a positive first one"""
    ts, c0 = base_terms(f)
    if not ts:
        return (), ts, lo - c0, hi - c0
    lo, hi = lo - c0, hi - c0
    ts.sort()
    d = 0
    for k, c in ts:
        d = gcd(d, abs(c))
    if d > 1:
        ts = [(k, c // d) for k, c in ts]
        lo, hi = -((-lo) // d), hi // d
    if ts[0][1] < 0:
        ts = [(k, -c) for k, c in ts]
        lo, hi = -hi, -lo
    return tuple(ts), ts, lo, hi

def combine(b):
    """sums and differences of forms that cancel an atom (bounded Fourier-Motzkin), identical forms intersected"""
    known = {}
    def put(ts, lo, hi):
        if not ts:
            return (lo <= 0 <= hi), False
        o = known.get(ts)
        if o is not None:
            nl, nh = max(o[0], lo), min(o[1], hi)
            if (nl, nh) == o:
                return True, False
        else:
            nl, nh = lo, hi
        known[ts] = (nl, nh)
        return nl <= nh, True
    for f, lo, hi in b.forms:
        k, _, lo, hi = canon(f, lo, hi)
        if not put(k, lo, hi)[0]:
            return False
    for rnd in range(2):
        fs = list(known.items())
        if len(fs) > 40:
            fs = fs[:40]
        changed = False
        for i in range(len(fs)):
            fi = dict(fs[i][0])
            for j in range(i):
                gj = dict(fs[j][0])
                common = [k for k in fi if k in gj]
                if not common:
                    continue
                (fl, fh), (gl, gh) = fs[i][1], fs[j][1]
                for k in common[:2]:
                    a, c = fi[k], gj[k]
                    if abs(a) != abs(c):
                        continue
                    sgn = -1 if a == c else 1
                    t = dict(fi)
                    for x, n in gj.items():
                        t[x] = t.get(x, 0) + sgn * n
                    t = {x: n for x, n in t.items() if n}
                    if len(t) > 4:
                        continue
                    lo, hi = (fl - gh, fh - gl) if sgn < 0 else (fl + gl, fh + gh)
                    L = Lin({x: dd.leaf(n) for x, n in t.items()})
                    kk, _, lo, hi = canon(L, lo, hi)
                    ok, new = put(kk, lo, hi)
                    if not ok:
                        return False
                    changed = changed or new
        if not changed:
            break
    b2 = b.copy()
    b2.forms = [(Lin({x: dd.leaf(n) for x, n in k}), lo, hi) for k, (lo, hi) in known.items()]
    return propagate(b2)

def meaning(b, a, lo, hi):
    if a.kind == 'named':
        x = a.args[0]
    elif a.kind == 'div':
        x = a.args[0]
        lo, hi = lo * a.args[1], hi * a.args[1] + a.args[1] - 1
    else:
        return
    if x.plain():
        b.forms.append((x, lo, hi))
        for k in x.t:
            if k != lin.ONE and ATOMS[k].kind == 'named':
                meaning(b, ATOMS[k], ATOMS[k].lo, ATOMS[k].hi)
    else:
        b.lazy.append((x, lo, hi))

def settle(b, count):
    """resolve the guarded forms under the tests of the finished path; is a value left"""
    ys = [(lin.restrict(x, b.path), lo, hi) for x, lo, hi in b.lazy]
    b = b.copy()
    b.lazy = []
    for i, (y, lo, hi) in enumerate(ys):
        if y.plain():
            c = y.const()
            if c is not None:
                if not lo <= c <= hi:
                    return False
            else:
                b.forms.append((y, lo, hi))
            continue
        l, h = lin.interval(y)
        if l > hi or h < lo:
            return False
        b.lazy.append((y, lo, hi))
        for z, zl, zh in ys[:i]:
            d = lin.sub(y, z)
            if d.plain():
                c = d.const()
                if c is None:
                    b.forms.append((d, lo - zh, hi - zl))
                elif not lo - zh <= c <= hi - zl:
                    return False
    if not tie(b):
        return False
    split(b)
    if not propagate(b):
        return False
    return expand(b, count)

def tie(b):
    """a variable byte integer and its bytes in one system: their equation"""
    names = {k for f, lo, hi in b.forms for k in f.t if k != lin.ONE} | set(b.d)
    vs = [k for k in names if ATOMS[k].kind == 'vbi']
    if not vs:
        return True
    used = set()
    for f, lo, hi in b.forms:
        for k in f.t:
            if k != lin.ONE:
                a = ATOMS[k]
                used.add((a.args[0] if a.kind == 'tab' else a).name)
    for k in vs:
        src, p = ATOMS[k].args
        if not any(lin.tok_name(1, src, lin.add(p, lin.num(i))) in used for i in range(4)):
            continue
        d = lin.restrict(lin.sub(lin.varint_template(src, p)[0], lin.of_atom(ATOMS[k])), b.path)
        if d.plain():
            b.forms.append((d, 0, 0))
    return True

def split(b):
    """x = c*div(x,c) + mod(x,c) for the quotients and remainders that occur"""
    todo = {k for f, lo, hi in b.forms for k in f.t if k != lin.ONE and ATOMS[k].kind in ('mod', 'div')}
    if not any(ATOMS[k].kind == 'mod' for k in todo):
        return
    done = set()
    while todo and len(done) < 12:
        k = todo.pop()
        a = ATOMS[k]
        x, c = a.args
        if (x.key, c) in done or not x.plain():
            continue
        done.add((x.key, c))
        d = lin.div(x, c)
        b.forms.append((lin.sub(x, lin.scale(d, c)), 0, c - 1))
        if a.kind == 'mod':
            b.forms.append((lin.sub(lin.sub(x, lin.scale(d, c)), lin.of_atom(a)), 0, 0))
        for f in (x, d):
            todo |= {j for j in f.t if j != lin.ONE and ATOMS[j].kind in ('mod', 'div')}

def expand(b, count):
    """case split over the tests inside the guarded forms that are left"""
    while b.lazy:
        x, lo, hi = b.lazy[0]
        y = lin.restrict(x, b.path)
        if y.plain():
            b = b.copy()
            b.lazy.pop(0)
            c = y.const()
            if c is not None:
                if not lo <= c <= hi:
                    return False
            else:
                b.forms.append((y, lo, hi))
                if not propagate(b):
                    return False
            continue
        l, h = lin.interval(y)
        if l > hi or h < lo:
            return False
        v = min((n.var for n in y.t.values() if n.var is not None), key=lambda v: v.key)
        n = [n for n in y.t.values() if n.var is v][0]
        for s, c in n.edges:
            count[0] += 1
            if count[0] > LIMIT:
                GAVE_UP[0] = True
                return True
            b2 = b.copy()
            if not constrain(b2, v, s) or not propagate(b2):
                continue
            b2.path = and_(b.path, dd.test(v, s))
            if b2.path is FALSE:
                continue
            if expand(b2, count):
                return True
        return False
    return combine(b)

def constrain(b, v, s):
    """v in interval set s (hull)"""
    lo, hi = s[0][0], s[-1][1]
    meta = v.meta
    if isinstance(meta, lin.Atom):
        a = meta
        l, h = b.get(a.name)
        l, h = max(l, lo), min(h, hi)
        if l > h:
            return False
        b.d[a.name] = (l, h)
        meaning(b, a, lo, hi)
        return True
    if isinstance(meta, Lin):
        b.forms.append((meta, lo, hi))
        x = unfold(meta)
        if x is not meta:
            (b.forms if x.plain() else b.lazy).append((x, lo, hi))
        return True
    return True

_unfold = {}
def unfold(f):
    """f with named forms replaced by what they name"""
    r = _unfold.get(f.key)
    if r is None:
        x = f
        for _ in range(6):
            ks = [k for k in x.t if k != lin.ONE and ATOMS[k].kind == 'named']
            if not ks:
                break
            for k in ks:
                x = lin.add(Lin({j: n for j, n in x.t.items() if j != k}), lin.mulnode(ATOMS[k].args[0], x.t[k]))
        r = _unfold[f.key] = f if x is f else x
    return r

WITNESS = [TRUE]    # tests on the last satisfiable path found
GAVE_UP = [False]   # the search of the last call was cut short

def feasible(g):
    WITNESS[0] = g
    GAVE_UP[0] = False
    if g is FALSE:
        return False
    if g is TRUE:
        return True
    count = [0]
    def go(n, b):
        if n is FALSE:
            return False
        count[0] += 1
        if count[0] > LIMIT:
            GAVE_UP[0] = True
            return True
        if n is TRUE:
            if settle(b, count):
                WITNESS[0] = b.path
                return True
            return False
        for s, c in n.edges:
            if c is FALSE:
                continue
            # linear forms: one interval at a time, so that holes are not filled in
            parts = [(iv,) for iv in s] if 1 < len(s) <= 4 and isinstance(n.var.meta, (Lin, lin.Atom)) and not getattr(n.var.meta, 'kind', '') == 'tok' else [s]
            for s in parts:
                b2 = b.copy()
                if not constrain(b2, n.var, s):
                    continue
                if b2.forms and not propagate(b2):
                    continue
                b2.path = and_(b.path, dd.test(n.var, s))
                if go(c, b2):
                    return True
        return False
    return go(g, Box())

def definite(g):
    """does the guard hold for some input whatever the conditions the analysis could not decide"""
    f = dd.not_(dd.exists(dd.not_(g), lin.imprecise_var))
    return feasible(f) and not GAVE_UP[0]

def first_round(loops, g):
    """g with every loop-carried value at what it is before the first round"""
    m, bs, ex = {}, {}, {}
    for L in loops:
        if L.exitvar is not None:
            ex[L.exitvar.name] = L
        for h, d in L.heads.items():
            if d['kind'] == 'lin' and d['atom'] and isinstance(d['init'], Lin):
                m[d['atom']] = d['init']
            elif d['kind'] == 'bool' and isinstance(d['init'], dd.Node):
                bs[h] = d['init']
    names = set(v.name for v in dd.support(g))
    for n in names & set(ex):
        L = ex[n]
        for j, t in enumerate(L.live):
            e = dict(L.exits)[t]
            g = and_(g, or_(or_(not_(L.entry.g), not_(dd.test(L.exitvar, ((j, j),)))), e.g))     # what is reached past the loop has no way out of it
    for _ in range(3):      # loops inside loops
        for v in dd.support(g):
            if v.name in bs:
                g = or_(and_(dd.cofactor(g, v, ((1, 1),)), bs[v.name]), and_(dd.cofactor(g, v, ((0, 0),)), not_(bs[v.name])))
    for _ in range(3):
        m = {k: lin.subst(v, m) for k, v in m.items()}
    return lin.subst_guard(g, m) if m else g

def heads_in(loops, g):
    """the loop-carried numbers, flags and ways out of a loop the guard depends on"""
    r = set()
    flags = None
    for v in dd.support(g):
        if v.meta == 'bool' or v.name.startswith('exit['):
            if flags is None:
                flags = set(h for L in loops for h, d in L.heads.items() if d['kind'] == 'bool')
                flags |= set(L.exitvar.name for L in loops if L.exitvar is not None)
            if v.name in flags:
                r.add(v.name)
        elif isinstance(v.meta, (Lin, lin.Atom)):
            r |= lin.atoms_of_kind(v.meta, 'head')
    return r

def judge(I, g, after=frozenset()):
    """None: no input satisfies the guard; otherwise (tests of one input that does, is that certain?). It is not
    when the guard rests on something the analysis lost track of, or on a state in the middle of a loop that
    may be one no run reaches. The first round is always reached; so is every state in which only the numbers
    `after` - positions, as any well-formed entry can be the next one - are other than at the start"""
    if not feasible(g):
        return None
    w = WITNESS[0]
    if GAVE_UP[0]:
        return w, False
    if lin.imprecise_guard(w):
        if not definite(g):
            return w, False
        w = WITNESS[0]
    hs = heads_in(I.rec.loops, w)
    # the way out of a loop follows from what it depends on; a counted loop runs any number of rounds
    outs = {L.exitvar.name: L for L in I.rec.loops if L.exitvar is not None}
    done = set()
    while hs & set(outs):
        n = (hs & set(outs)).pop()
        hs.discard(n)
        done.add(n)
        L = outs[n]
        for j, t in enumerate(L.live):
            if and_(w, dd.test(L.exitvar, ((j, j),))) is not FALSE:
                hs |= heads_in(I.rec.loops, dict(L.exits)[t].g) - {L.idx} - done
    hs -= after
    if hs:
        f = first_round(I.rec.loops, g)
        if not definite(f):
            return w, False
        w = WITNESS[0]
    return w, True
