"""Constructors, defaults, equality, cloning, purity."""
import dd, lin, feas, units, interp, jobs, models
from dd import TRUE, FALSE, and_, or_, not_
from lin import Lin, num
from values import *
from units import Missing

def event(I, viol, unit, item, text, g, where='', undecided=False):
    if isinstance(g, dd.Node):
        j = feas.judge(I, g)
        if j is None:
            return None
        g, undecided = j[0], undecided or not j[1]
    return {'viol': sorted(viol), 'unit': unit, 'item': item, 'text': text, 'where': where, 'fn': [], 'side': '',
            'guard': dd.fmt_guard(g, 10) if isinstance(g, dd.Node) else '', 'undecided': undecided}

# ------------------------------------------------------------------ the same value?
class Lost(Exception):
    """could not be compared; g: where they certainly differ"""
    def __init__(self, why, g=FALSE):
        Exception.__init__(self, why)
        self.g = g

def differs(I, a, b, depth=0):
    """guard under which the two values differ"""
    if depth > 12:
        raise Lost('depth')
    for _ in range(3):
        if type(a) is Sym:
            a = I.expand(a)
        if type(b) is Sym:
            b = I.expand(b)
    if same(a, b):
        return FALSE
    if type(a) is Sym and type(b) is Sym:
        raise Lost('opaque')
    if isinstance(a, Lin) and isinstance(b, Lin):
        return not_(lin.test(lin.sub(a, b), lin.EQ0))
    if type(a) is Blob or type(b) is Blob:
        xs = [(TRUE, a)] if type(a) is View else [(dd.when(a.node, v), v) for v in dd.leaves(a.node)]
        ys = [(TRUE, b)] if type(b) is View else [(dd.when(b.node, v), v) for v in dd.leaves(b.node)]
        g = FALSE
        for c, x in xs:
            for d, y in ys:
                g = or_(g, and_(and_(c, d), differs(I, x, y, depth + 1)))
        return g
    if isinstance(a, dd.Node) and isinstance(b, dd.Node):
        return or_(and_(a, not_(b)), and_(b, not_(a)))
    if type(a) is View and type(b) is View:
        ln = not_(lin.test(lin.sub(a.rem(), b.rem()), lin.EQ0))
        if a.src == b.src:
            off = not_(lin.test(lin.sub(a.pos, b.pos), lin.EQ0))
            return or_(ln, and_(off, not_(lin.test(a.rem(), lin.EQ0))))
        return or_(ln, not_(lin.test(a.rem(), lin.EQ0)))
    if type(a) is Agg and type(b) is Agg and len(a.f) == len(b.f):
        g = FALSE
        for x, y in zip(a.f, b.f):
            g = or_(g, differs(I, x, y, depth + 1))
        return g
    if type(a) is Enum and type(b) is Enum:
        g = FALSE
        for v in dd.leaves(a.discr):
            here = dd.when(a.discr, v)
            both = and_(here, dd.when(b.discr, v))
            g = or_(g, and_(here, not_(dd.when(b.discr, v))))
            if both is FALSE or not b.pay.get(v):
                continue
            if not a.pay.get(v):
                raise Lost('payload')
            for x, y in zip(a.pay[v], b.pay[v]):
                g = or_(g, and_(both, differs(I, x, y, depth + 1)))
        return g
    if type(a) is VecV and type(b) is VecV:
        ln = not_(lin.test(lin.sub(a.len, b.len), lin.EQ0))
        if a.push.n == b.push.n and vec_base(I, a) == vec_base(I, b):
            g = ln
            for (c, x), (d, y) in zip(items(a), items(b)):
                g = or_(g, or_(and_(c, not_(d)), and_(d, not_(c))))
                g = or_(g, and_(and_(c, d), differs(I, x, y, depth + 1)))
            return g
        if ln is TRUE:
            return TRUE
        k = b.len.const() if b.len.const() is not None else a.len.const()
        if k is not None and k <= 4:
            same_len = not_(ln)
            g = ln
            for i in range(k):
                if same_len is FALSE:
                    break
                try:
                    g = or_(g, and_(same_len, differs(I, I.index(a, num(i)), I.index(b, num(i)), depth + 1)))
                except Lost as x:
                    raise Lost('element %d of a list' % i, g)
            return g
        raise Lost('lists', ln)
    if type(a) in (Unknown, Undef) or type(b) in (Unknown, Undef):
        raise Lost('unknown value')
    raise Lost('%s against %s' % (type(a).__name__, type(b).__name__))

def items(v):
    return [(e[0], e[1]) for e in v.push.items()]

def vec_base(I, v):
    b = v.base
    if b is not None and b[0] == 'map' and type(b[3]) is Sym and b[3].path.endswith('[%s]' % b[2]):
        return 'sym', b[3].path[:-len(b[2]) - 2]
    if b is not None and b[0] == 'sym':
        return 'sym', b[1]
    return b

# ------------------------------------------------------------------ constructors and defaults
def elem(i):
    return ('elem', i)

# field each argument goes to, in order; every other field is neutral
NEW = {
    'connect::Login::new': ['username', 'password'],
    'publish::Publish::new': ['topic', 'qos', 'payload', 'properties'],
    'subscribe::Subscribe::new': [elem('filters'), 'properties'],
    'subscribe::Subscribe::new_many': ['filters', 'properties'],
    'subscribe::Filter::new': ['path', 'qos'],
    'unsubscribe::Unsubscribe::new': [elem('filters'), 'properties'],
    'puback::PubAck::new': ['pkid', 'properties'],
    'pubrec::PubRec::new': ['pkid', 'properties'],
    'pubrel::PubRel::new': ['pkid', 'properties'],
    'pubcomp::PubComp::new': ['pkid', 'properties'],
    'disconnect::Disconnect::new': ['reason_code'],
    'connack::ConnAckProperties::new': [],
    'connect::ConnectProperties::new': [],
    'FixedHeader::new': ['byte1', ('plus1', 'fixed_header_len'), 'remaining_len'],
}
LOWEST = {'Success', 'AtMostOnce', 'OnEverySubscribe', 'NormalDisconnection'}

def neutral(I, ti, v, depth=0):
    """guard under which the value is not absent, empty, zero, false or the lowest setting"""
    v = I.expand(v) if type(v) is Sym else v
    t = I.types[ti] if ti is not None else None
    if isinstance(v, Lin):
        return not_(lin.test(v, lin.EQ0))
    if isinstance(v, dd.Node):
        return v
    if type(v) is View:
        return not_(lin.test(v.rem(), lin.EQ0))
    if type(v) is Blob:
        g = FALSE
        for x in dd.leaves(v.node):
            g = or_(g, and_(dd.when(v.node, x), neutral(I, ti, x, depth + 1)))
        return g
    if type(v) is VecV:
        return not_(lin.test(v.len, lin.EQ0))
    if type(v) is Enum:
        vs = I.types[v.ty]['variants']
        names = [x['name'] for x in vs]
        if 'None' in names and 'Some' in names:
            return not_(dd.when(v.discr, names.index('None')))
        low = [i for i, n in enumerate(names) if n in LOWEST]
        if len(low) != 1:
            raise Lost('lowest setting of %s' % I.types[v.ty]['s'])
        return not_(dd.when(v.discr, low[0]))
    if type(v) is Agg and depth < 6:
        g = FALSE
        for x in v.f:
            g = or_(g, neutral(I, None, x, depth + 1))
        return g
    raise Lost(type(v).__name__)

def public_roots(F):
    return [r for r in F['roots'] if r['pub'] and r['reachable']]

def makers(F):
    """constructors and defaults of the crate's public types"""
    have = {r['path'] for r in public_roots(F)}
    out = []
    for p in NEW:
        if p not in have:
            raise Missing('public constructor %s' % p)
        out.append(p)
    out += sorted(p for p in have if p.endswith(' as std::default::Default>::default'))
    out += ['mqtt_string_new']
    if 'mqtt_string_new' not in have:
        raise Missing('mqtt_string_new')
    return out

def pinned(fn):
    """what stays undecided for lists of any length is tried again for lists of few elements, to find definite differences"""
    def m(F, path):
        out = fn(F, path)
        if not any(e['undecided'] for e in out['events']):
            return out
        for k in (0, 1, 2):
            interp.PIN[0] = k
            try:
                r = fn(F, path)
            finally:
                interp.PIN[0] = None
            bad = [e for e in r['events'] if not e['undecided']]
            if bad:
                for e in bad:
                    e['text'] += ' (lists of %d)' % k
                out['events'] = bad + out['events']
                break
        return out
    return m

@pinned
def make(F, path):
    run = units.run_sub(F, path)
    I = run.I
    ev, n = [], 0
    C = ('C29',)
    def add(item, text, g, und=False):
        e = event(I, C, path, item, text, g, run.f['path'], und)
        if e is not None:
            ev.append(e)
    if run.r is None:
        add('result', '%s never returns' % path, TRUE)
        return jobs.result(run, path, ev, {'C29': n})
    r = I.expand(run.r)
    g0 = run.s.g
    if path == 'mqtt_string_new':
        try:
            a = run.args[0]
            a = I.load(run.s, a) if type(a) is Ptr else a
            add('text', 'the string is not the text given', and_(g0, differs(I, r, a)))
            n += 1
        except Lost as x:
            add('text', 'could not be compared: %s' % x, None, True)
        return jobs.result(run, path, ev, {'C29': n})
    rows = {}
    if path in NEW:
        if len(NEW[path]) != run.f['argc']:
            raise Missing('arguments of %s' % path)
        for i, fld in enumerate(NEW[path]):
            rows[fld[1] if type(fld) is tuple else fld] = (fld[0] if type(fld) is tuple else '', run.args[i])
    if type(r) is not Agg:
        try:
            add('value', 'the default is not the neutral value', and_(g0, neutral(I, run.f['locals'][0], r)))
            n += 1
        except Lost as x:
            add('value', 'could not be followed: %s' % x, None, True)
        return jobs.result(run, path, ev, {'C29': n})
    fs = I.types[r.ty]['variants'][0]['fields']
    names = [x['name'] for x in fs]
    for nm in rows:
        if nm not in names:
            raise Missing('field %s set by %s' % (nm, path))
    for nm, x, fd in zip(names, r.f, fs):
        try:
            if nm in rows:
                how, a = rows[nm]
                what = 'field %s does not hold the argument' % nm
                if how == 'elem':
                    v = I.expand(x)
                    if type(v) is VecV and v.base is None and v.push.n == 1:
                        c, y = items(v)[0]
                        g = or_(not_(c), differs(I, y, a))
                    elif type(v) is VecV:
                        g = not_(lin.test(lin.sub(v.len, num(1)), lin.EQ0))
                        if g is FALSE:
                            raise Lost('list')
                    else:
                        raise Lost('list')
                elif how == 'plus1':
                    g = differs(I, x, lin.add(I.expand(a), num(1)))
                else:
                    g = differs(I, x, a)
            else:
                what = 'field %s is not left absent, empty, zero, false or lowest' % nm
                g = neutral(I, fd['ty'], x)
            add(nm, what, and_(g0, g))
            n += 1
        except Lost as e:
            add(nm, what, and_(g0, e.g))
            add(nm, 'field %s could not be followed: %s' % (nm, e), None, True)
    return jobs.result(run, path, ev, {'C29': n})

# ------------------------------------------------------------------ equality and cloning
def comparers(F, what):
    """public types compared by value"""
    suf = {'eq': ' as std::cmp::PartialEq>::eq', 'clone': ' as std::clone::Clone>::clone'}[what]
    return sorted(r['path'] for r in public_roots(F) if r['path'].endswith(suf) and r['path'].startswith('<'))

def part_equal(I, ti, a, b):
    return models.opaque(I, ti, a, b)

def classes(names):
    """eq<..> conditions -> groups of parts that are compared with one another"""
    out = {}
    for nm in names:
        if nm.startswith('eq<'):
            a, b = nm[3:-1].split('|')
            u = out.get(a, {a}) | out.get(b, {b})
            for x in u:
                out[x] = u
    return {id(u): u for u in out.values()}.values()

@pinned
def equal(F, path):
    run = units.run_sub(F, path, names=['self', 'other'], opaque_eq=True)
    I, g = run.I, run.r
    ev, n = [], 0
    C = ('C30',)
    ti = I.types[run.f['locals'][1]]['inner']
    t = I.types[ti]
    def add(item, text, g, fields=()):
        # a condition that is not one of the field comparisons may imply or contain one
        odd = [v for v in dd.support(g) if v not in known]
        if interp.PIN[0] is not None:
            # comparisons of one element with another of the same kind are covered by transitivity below
            leaves = {x for v in known if v.name.startswith('eq<') for x in v.name[3:-1].split('|')}
            odd = [v for v in odd if not (v.name.startswith('eq<') and '[' in v.name and set(v.name[3:-1].split('|')) <= leaves)]
        if interp.PIN[0] is not None and g is not FALSE:
            for u in classes([v.name for v in dd.support(g)]):
                x = models.transitive(u)
                if x is None:
                    odd += [v for v in dd.support(g) if v.name.startswith('eq<')]
                else:
                    g = and_(g, x)
        e = event(I, C, path, item, text, g, run.f['path'])
        if e is not None:
            w = feas.WITNESS[0]
            if any(any(f in v.name for f in fields) if fields else True for v in odd):
                e['undecided'] = True
            ev.append(e)
    if not isinstance(g, dd.Node):
        raise Missing('result of %s' % path)
    enum = t['kind'] == 'enum'
    known = set()
    cases = []
    if enum:
        a, b = I.expand(Sym(ti, 'self')), I.expand(Sym(ti, 'other'))
        apart = FALSE
        for i, v in enumerate(t['variants']):
            both = and_(dd.when(a.discr, i), dd.when(b.discr, i))
            apart = or_(apart, and_(dd.when(a.discr, i), not_(dd.when(b.discr, i))))
            known |= set(dd.support(both))
            cases.append((v['name'], both, [('%s.%s' % (v['name'], f['name']), f['ty']) for f in v['fields']]))
    else:
        cases.append(('', TRUE, [(f['name'], f['ty']) for f in t['variants'][0]['fields']]))
        apart = FALSE
    parts = []
    for nm, c, fs in cases:
        eqs = []
        for f, fti in fs:
            e = part_equal(I, fti, 'self.' + f, 'other.' + f)
            known |= set(dd.support(e))
            eqs.append((f, e))
        parts.append((nm, c, eqs))
    if enum:
        add('kinds', 'values of different kinds are equal', and_(apart, g))
        n += 1
    for nm, c, eqs in parts:
        allg = c
        for f, e in eqs:
            add(f, 'values with different %s are equal' % f, and_(and_(c, g), not_(e)), ('self.' + f, 'other.' + f))
            n += 1
            allg = and_(allg, e)
        add(nm or 'all', 'values with equal contents are not equal', and_(allg, not_(g)))
        n += 1
    return jobs.result(run, path, ev, {'C30': n})

@pinned
def clone(F, path):
    run = units.run_sub(F, path, names=['self'])
    I = run.I
    ev, n = [], 0
    try:
        v = I.load(run.s, run.args[0])
        e = event(I, ('C30',), path, 'clone', 'the clone differs from the original', and_(run.s.g, differs(I, run.r, v)), run.f['path'])
        if e is not None:
            ev.append(e)
        else:
            n = 1
    except Lost as x:
        ev.append(event(I, ('C30',), path, 'clone', 'could not be compared: %s' % x, None, run.f['path'], True))
    return jobs.result(run, path, ev, {'C30': n})
