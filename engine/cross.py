"""The four string-type builds side by side: which inputs are accepted, and with which error the others are refused."""
import json, os
import dd, lin, feas, units, writer, jobs, reader
from dd import TRUE, FALSE, and_, or_, not_
from lin import Lin
from values import *
from units import Missing

def outcomes(run):
    """{outcome: guard} and the values carried by each error"""
    I = run.I
    out, pay = {}, {}
    if run.r is None:
        return out, pay
    r = I.expand(run.r)
    if type(r) is not Enum:
        raise Missing('result of %s' % run.f['path'])
    acc = writer.Acc(I)
    ok, er = acc.variant(r, 'Ok'), acc.variant(r, 'Err')
    out['accepted'] = and_(run.s.g, dd.when(r.discr, ok))
    eg = and_(run.s.g, dd.when(r.discr, er))
    pl = r.pay.get(er)
    e = I.expand(pl[0]) if pl else None
    if type(e) is not Enum:
        if eg is not FALSE:
            raise Missing('error of %s' % run.f['path'])
        return out, pay
    for i, v in enumerate(I.types[e.ty]['variants']):
        g = and_(eg, dd.when(e.discr, i))
        out[v['name']] = g
        vals = [I.expand(x) if type(x) is Sym else x for x in e.pay.get(i, ())]
        if g is not FALSE and vals and all(isinstance(x, Lin) for x in vals):
            pay[v['name']] = vals
    return out, pay

def is_utf8(v):
    return isinstance(v.meta, tuple) and bool(v.meta) and v.meta[0] == 'utf8'

_priv = {}
def private(v):
    """conditions whose name means nothing in another build: loop counters, things lost track of"""
    r = _priv.get(v.name)
    if r is None:
        _priv[v.name] = False
        r = _priv[v.name] = '~' in v.name or '?' in v.name or private_value(v.meta)
    return r

def private_value(x):
    if isinstance(x, lin.Atom):
        k = ('atom', x.name)
        if k not in _priv:
            _priv[k] = False
            _priv[k] = '~' in x.name or '?' in x.name or any(private_value(y) for y in x.args)
        return _priv[k]
    if isinstance(x, Lin):
        for k, n in x.t.items():
            if any(private(v) for v in dd.support(n)) or (k != lin.ONE and private_value(lin.ATOMS[k])):
                return True
        return False
    if isinstance(x, tuple):
        return any(private_value(y) for y in x)
    return False

def valid_text(g):
    """g restricted to inputs whose strings are all valid UTF-8"""
    for v in dd.support(g):
        if is_utf8(v):
            g = dd.cofactor(g, v, ((1, 1),))
    return g

def compare(runs, unit, what):
    """runs: {config: run}"""
    ev, n = [], 0
    outs = {c: outcomes(r) for c, r in runs.items()}
    base = 'default'
    loose = {}
    for c, (o, p) in outs.items():
        for k, g in o.items():
            loose[c, k] = dd.exists(g, private)
    kinds = set(k for o, _ in outs.values() for k in o)
    def add(c, other, item, text, g):
        I = runs[c].I
        j = feas.judge(I, g)
        if j is None:
            return 1
        ev.append({'viol': ['C24'], 'unit': unit, 'item': item, 'text': text, 'where': runs[c].f['path'], 'fn': [], 'side': '',
                   'guard': dd.fmt_guard(j[0], 10), 'undecided': not j[1], 'pair': [c, other]})
        return 0
    for c in runs:
        if c == base:
            continue
        for a, b in ((base, c), (c, base)):
            text = 'binary_string' in (a, b)
            for k in sorted(kinds):
                ga = outs[a][0].get(k, FALSE)
                gb = loose.get((b, k), FALSE)
                if ga is FALSE:
                    continue
                if text:
                    if k == 'TopicNotUtf8':
                        continue
                    ga, gb = valid_text(ga), valid_text(gb)
                    if 'binary_string' == a:    # inputs whose strings are not valid text are exempt
                        gb = or_(gb, exempt(outs[b][0]))
                x = and_(ga, not_(gb))
                if x is FALSE:
                    n += 1
                    continue
                n += add(a, b, '%s: %s' % (what, k), '%s: the %s build %s what the %s build does not' % (what, a, 'accepts' if k == 'accepted' else 'refuses with ' + k, b), x)
        for k, va in outs[base][1].items():
            vb = outs[c][1].get(k)
            if vb is None or len(va) != len(vb):
                continue
            both = and_(outs[base][0][k], outs[c][0][k])
            if both is FALSE:
                continue
            for x, y in zip(va, vb):
                if x == y:
                    n += 1
                    continue
                if any(private_value(z) for z in (x, y)):
                    continue
                n += add(base, c, '%s: value of %s' % (what, k), '%s: the %s and %s builds refuse with %s carrying different values' % (what, base, c, k), reader.differ(x, y, both))
    return ev, n

def exempt(o):
    return dd.exists(o.get('TopicNotUtf8', FALSE), private)

def tagged(dir, configs):
    """the facts of each build, its loops under names of their own"""
    return {c: dict(units.facts(os.path.join(dir, c + '.json')), tag='~' + c + ':', tmp0=i * 1000000) for i, c in enumerate(configs)}

def rd(F, dir, part, configs):
    fs = tagged(dir, configs)
    runs = {c: units.run_read(f, part) for c, f in fs.items()}
    ev, n = compare(runs, part['variant'], 'decoding %s' % part['variant'])
    return total(runs, part['variant'], ev, n)

def wr(F, dir, variant, configs, split=None):
    fs = tagged(dir, configs)
    runs = {c: units.run_write(f, variant, split) for c, f in fs.items()}
    ev, n = compare(runs, variant, 'encoding %s' % variant)
    return total(runs, variant, ev, n)

def total(runs, unit, ev, n):
    rs = [jobs.result(r, unit, [], {}) for r in runs.values()]
    r = jobs.result(runs['default'], unit, ev, {'C24': n})
    r['fns'] = sorted(set(f for x in rs for f in x['fns']))
    r['calls'] = sum(x['calls'] for x in rs)
    r['loops'] = sum(x['loops'] for x in rs)
    r['notes'] = [y for x in rs for y in x['notes']][:12]
    return r
