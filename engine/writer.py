"""Compare the byte sequence the encoder builds, as a guarded value, with the MQTT 5 tables."""
import dd, lin, spec, feas
from dd import leaf, TRUE, FALSE, and_, or_, not_, implies
from lin import Lin, ATOMS, num
from values import *
import units, interp
from units import MAXVBI, Missing

NE0 = dd.inot(lin.EQ0)

BIGSET = ((MAXVBI + 1, dd.BIG),)

def eq_struct(a, b):
    """guard under which the two forms are identical term by term"""
    d = lin.sub(a, b)
    g = TRUE
    for k, n in d.t.items():
        g = and_(g, dd.map_leaves('==0', lambda v: v == 0, n))
        if g is FALSE:
            break
    return g

def eq_guard(a, b, m):
    """part of m on which a == b for sure"""
    g = and_(m, eq_struct(a, b))
    rest = and_(m, not_(g))
    if rest is FALSE:
        return g
    a2, b2 = lin.demod(lin.tidy(a, rest), rest), lin.demod(lin.tidy(b, rest), rest)
    g2 = and_(rest, eq_struct(a2, b2))
    g = or_(g, g2)
    rest = and_(rest, not_(g2))
    if rest is FALSE:
        return g
    t = lin.test(lin.sub(a2, b2), lin.EQ0)
    if implies(rest, t):
        return or_(g, rest)
    if dd.support(t) <= dd.support(rest) or a2.pure() is not None and b2.pure() is not None:
        return or_(g, and_(rest, t))
    return g

# ---------------------------------------------------------------------- symbolic access to public fields
class Acc:
    def __init__(self, I):
        self.I = I
    def tyof(self, v):
        return v.ty if type(v) in (Sym, Agg, Enum) else None
    def struct(self, v):
        t = self.I.types[self.tyof(v)]
        return t['path'].split('::')[-1]
    def field(self, v, name):
        ti = self.tyof(v)
        if ti is None:
            raise Missing('no type for field %s' % name)
        fs = self.I.types[ti]['variants'][0]['fields']
        for i, f in enumerate(fs):
            if f['name'] == name:
                x = self.I.proj(v, ('.', i))
                return self.I.expand(x) if not self.is_struct(x) else x
        raise Missing('field %s of %s' % (name, self.I.types[ti]['path']))
    def fields(self, v):
        return [f['name'] for f in self.I.types[self.tyof(v)]['variants'][0]['fields']]
    def is_struct(self, x):
        return type(x) is Sym and self.I.types[x.ty]['k'] == 'adt' and self.I.types[x.ty]['kind'] == 'struct' and self.I.types[x.ty].get('local')
    def variant(self, v, name):
        v = self.I.expand(v)
        if type(v) is not Enum:
            raise Missing('not an enum: %r' % (v,))
        for i, x in enumerate(self.I.types[v.ty]['variants']):
            if x['name'] == name:
                return i
        raise Missing('variant %s of %s' % (name, self.I.types[v.ty]['path']))
    def some(self, v):
        """(presence guard, payload)"""
        v = self.I.expand(v)
        i = self.variant(v, 'Some')
        p = v.pay.get(i)
        return dd.when(v.discr, i), (p[0] if p else None)
    def enumlin(self, v, table, default=None):
        """byte of an enum value by variant name; (Lin, guard of having a byte)"""
        v = self.I.expand(v)
        vs = self.I.types[v.ty]['variants']
        for name in table:
            nm = name[0] if isinstance(name, tuple) else name
            if nm not in [x['name'] for x in vs]:
                raise Missing('variant %s of %s' % (nm, self.I.types[v.ty]['path']))
        out = num(0)
        ok = FALSE
        for i, x in enumerate(vs):
            g = dd.when(v.discr, i)
            sub = {k[1]: b for k, b in table.items() if isinstance(k, tuple) and k[0] == x['name']}
            if sub:
                y, _ = self.enumlin(v.pay[i][0], sub)
                out = lin.ite(g, y, out)
                ok = or_(ok, g)
            elif x['name'] in table:
                out = lin.ite(g, num(table[x['name']]), out)
                ok = or_(ok, g)
        return out, ok

SIZED = ('ConnAck', 'Publish', 'PubAck', 'PubRec', 'PubRel', 'PubComp', 'Subscribe', 'SubAck', 'Unsubscribe', 'UnsubAck', 'Disconnect')

def imprecise(*xs):
    for x in xs:
        if type(x) is Lin and lin.imprecise(x):
            return True
        if isinstance(x, dd.Node) and not all(isinstance(l, bool) for l in dd.leaves(x)) and lin.imprecise_guard(x):   # guards: see feas.judge
            return True
        if type(x) is View and (x.src.startswith('?') or lin.imprecise(x.pos) or lin.imprecise(x.end)):
            return True
        if type(x) in (Unknown, Undef):
            return True
        if type(x) is Sym and x.path.startswith('?'):
            return True
    return False

class Tok:
    __slots__ = ('k', 'a', 'what', 'viol', 'to')
    def __init__(self, k, a, what, viol, to=None):
        self.k, self.a, self.what, self.viol, self.to = k, a, what, tuple(viol), to

class Prog:
    """linear token program"""
    def __init__(self):
        self.t = []
    def add(self, k, a, what, viol):
        self.t.append(Tok(k, a, what, viol))
        return len(self.t) - 1
    def int(self, w, v, what, viol):
        self.add('int', (w, v), what, viol)
    def bytes(self, v, what, viol):
        self.add('bytes', v, what, viol)
    def str(self, v, what, viol, I):
        self.add('int', (2, I.length(v)), 'length of ' + what, tuple(viol) + ('C28',))
        self.bytes(v, what, viol)
    def br(self, cond):
        """skip to patched target unless cond"""
        return self.add('br', cond, '', ())
    def jmp(self):
        return self.add('jmp', None, '', ())
    def here(self, i):
        self.t[i].to = len(self.t)

class WriteCheck:
    def __init__(self, run, unit):
        self.run, self.unit = run, unit
        self.I = run.I
        self.acc = Acc(run.I)
        self.events = []
        self.done = {}
        self.vbis = []        # (label, X, inner, guard, offset after)
        self.secends = []     # (label, guard, offset)
        self.lists = {}       # len key -> (bad guard builder, what)
        self.errconds = []    # (guard, what, viol)
        self.items = 0
        self.loopseen = []

    # -------------------------------------------------------------- reporting
    def event(self, viol, item, text, g, entry=None, imp=False, sides='w'):
        if isinstance(g, dd.Node):
            j = feas.judge(self.I, g)
            if j is None:
                return
            g, imp = j[0], imp or not j[1]
        w, fns = '', []
        if entry is not None:
            o = self.I.origin.get(id(entry))
            if o is not None:
                w, fns = o[1], o[2]
        self.events.append({'viol': sorted(set(viol)), 'unit': self.unit, 'item': item, 'text': text, 'where': w, 'fn': fns,
                            'guard': dd.fmt_guard(g, 8) if isinstance(g, dd.Node) else '', 'undecided': bool(imp), 'side': sides})

    def ok(self, *ids):
        for i in ids:
            self.done[i] = self.done.get(i, 0) + 1

    # -------------------------------------------------------------- the expected program
    def program(self):
        run, acc, I = self.run, self.acc, self.I
        v = run.variant
        P = Prog()
        pay = run.payload
        p = pay[0] if pay else None
        first = units.NIBBLE[v] * 16 + spec.FLAGS.get(v, 0)
        H = ('C19',)
        if v in ('PingReq', 'PingResp'):
            P.int(1, num(first), 'first byte', H)
            P.int(1, num(0), 'remaining length', ('C07', 'C06'))
        elif v == 'Publish':
            q, _ = acc.enumlin(acc.field(p, 'qos'), spec.QOS)
            b = lin.add(num(0x30), lin.scale(q, 2))
            for nm, bit in (('dup', 8), ('retain', 1)):
                b = lin.ite(acc.field(p, nm), lin.add(b, num(bit)), b)
            P.add('int', (1, b), 'first byte (type, DUP, QoS, RETAIN)', ('C19', 'C20', 'C14'))
            P.add('vbi', None, 'remaining length', ('C06',))
            self.strn(P, acc.field(p, 'topic'), 'topic', ('C14',))
            hasid = not_(lin.test(q, lin.EQ0))
            j = P.br(hasid)
            pk = acc.field(p, 'pkid')
            P.int(2, pk, 'packet identifier', ('C14', 'C28'))
            P.here(j)
            self.errconds.append((and_(hasid, lin.test(pk, lin.EQ0)), 'QoS above zero with packet identifier zero', ('C13',)))
            self.props(P, acc.field(p, 'properties'), 'PublishProperties')
            P.bytes(acc.field(p, 'payload'), 'payload', ('C14',))
        elif v == 'Connect':
            self.connect(P, pay)
        elif v == 'ConnAck':
            P.int(1, num(first), 'first byte', H)
            P.add('vbi', None, 'remaining length', ('C06',))
            sp = acc.field(p, 'session_present')
            P.int(1, lin.of_node(dd.map_leaves('b2i', int, sp)), 'acknowledge flags (session present)', ('C20', 'C14'))
            c, okc = acc.enumlin(acc.field(p, 'code'), spec.CODES['ConnectReturnCode'])
            P.int(1, c, 'return code', ('C18', 'C14'))
            self.errconds.append((not_(okc), 'a return code MQTT 5 does not have', ('C13',)))
            self.props(P, acc.field(p, 'properties'), 'ConnAckProperties')
        elif v in spec.ACKS:
            P.int(1, num(first), 'first byte', H)
            P.add('vbi', None, 'remaining length', ('C06', 'C27'))
            P.int(2, acc.field(p, 'pkid'), 'packet identifier', ('C14', 'C28'))
            c, okc = acc.enumlin(acc.field(p, 'reason'), spec.CODES[spec.ACKS[v]])
            has, _ = acc.some(acc.field(p, 'properties'))
            j = P.br(or_(not_(lin.test(c, lin.EQ0)), has))
            P.int(1, c, 'reason code', ('C18', 'C14'))
            self.props(P, acc.field(p, 'properties'), v + 'Properties', optional=True)
            P.here(j)
            self.short = (and_(lin.test(c, lin.EQ0), not_(has)), 2)
        elif v == 'Disconnect':
            P.int(1, num(first), 'first byte', H)
            P.add('vbi', None, 'remaining length', ('C06', 'C27'))
            c, okc = acc.enumlin(acc.field(p, 'reason_code'), spec.CODES['DisconnectReasonCode'])
            has, _ = acc.some(acc.field(p, 'properties'))
            j = P.br(or_(not_(lin.test(c, lin.EQ0)), has))
            P.int(1, c, 'reason code', ('C18', 'C14'))
            self.props(P, acc.field(p, 'properties'), 'DisconnectProperties', optional=True)
            P.here(j)
            self.short = (and_(lin.test(c, lin.EQ0), not_(has)), 0)
        elif v in ('Subscribe', 'Unsubscribe', 'SubAck', 'UnsubAck'):
            P.int(1, num(first), 'first byte', H)
            P.add('vbi', None, 'remaining length', ('C06',))
            P.int(2, acc.field(p, 'pkid'), 'packet identifier', ('C14', 'C28'))
            self.props(P, acc.field(p, 'properties'), v + 'Properties')
            name = {'Subscribe': 'filters', 'Unsubscribe': 'filters', 'SubAck': 'return_codes', 'UnsubAck': 'reasons'}[v]
            vec = acc.field(p, name)
            P.add('loop', (vec, {'Subscribe': self.filter_body, 'Unsubscribe': self.topic_body,
                                 'SubAck': self.suback_body, 'UnsubAck': self.unsuback_body}[v]), name, ('C14', 'C28'))
            if v in ('Subscribe', 'Unsubscribe'):
                self.lists[vec.len.key] = (vec, self.filter_bad if v == 'Subscribe' else self.topic_bad, name)
        P.add('end', None, 'end of packet', ())
        return P

    def strn(self, P, v, what, viol, cond=TRUE):
        P.str(v, what, viol, self.I)
        self.errconds.append((and_(cond, lin.test(self.I.length(v), ((65536, dd.BIG),))), what + ' longer than 65535 bytes', ('C13',)))

    def connect(self, P, pay):
        acc, I = self.acc, self.I
        c, will, login = pay
        P.int(1, num(0x10), 'first byte', ('C19',))
        P.add('vbi', None, 'remaining length', ('C06',))
        P.int(2, num(4), 'protocol name length', ('C28',))
        for ch in b'MQTT':
            P.int(1, num(ch), 'protocol name', ('C28',))
        P.int(1, num(5), 'protocol level', ('C28',))
        hw, w = acc.some(will)
        hl, l = acc.some(login)
        q, _ = acc.enumlin(acc.field(w, 'qos'), spec.QOS)
        user, pw = acc.field(l, 'username'), acc.field(l, 'password')
        hu = and_(hl, not_(lin.test(I.length(user), lin.EQ0)))
        hp = and_(hl, not_(lin.test(I.length(pw), lin.EQ0)))
        fl = lin.ite(acc.field(c, 'clean_start'), num(2), num(0))
        wb = lin.add(num(4), lin.scale(q, 8))
        wb = lin.ite(acc.field(w, 'retain'), lin.add(wb, num(0x20)), wb)
        fl = lin.add(fl, lin.ite(hw, wb, num(0)))
        fl = lin.add(fl, lin.ite(hu, num(0x80), num(0)))
        fl = lin.add(fl, lin.ite(hp, num(0x40), num(0)))
        P.int(1, fl, 'connect flags', ('C20', 'C14'))
        P.int(2, acc.field(c, 'keep_alive'), 'keep alive', ('C14', 'C28'))
        self.props(P, acc.field(c, 'properties'), 'ConnectProperties')
        self.strn(P, acc.field(c, 'client_id'), 'client identifier', ('C14',))
        j = P.br(hw)
        self.props(P, acc.field(w, 'properties'), 'LastWillProperties', cond=hw)
        self.strn(P, acc.field(w, 'topic'), 'will topic', ('C14',), hw)
        self.strn(P, acc.field(w, 'message'), 'will payload', ('C14',), hw)
        P.here(j)
        j = P.br(hu)
        self.strn(P, user, 'user name', ('C14',), hu)
        P.here(j)
        j = P.br(hp)
        self.strn(P, pw, 'password', ('C14',), hp)
        P.here(j)

    def props(self, P, o, section, cond=TRUE, optional=False):
        acc, I = self.acc, self.I
        has, s = acc.some(o)
        st = acc.struct(s)
        if st != section:
            raise Missing('property struct %s, expected %s' % (st, section))
        table = spec.SECTIONS[section]
        group = {}
        pres = and_(cond, has)
        for pid, name in table.items():
            wire = spec.PROPERTY_TYPES[pid][1]
            f = acc.field(s, name)
            if name in spec.MULTI:
                group[pid] = (name, wire, not_(lin.test(f.len, lin.EQ0)), f, True)
                bad = self.pair_bad if wire == 'pair' else self.vbi_bad
                self.lists[f.len.key] = (f, bad, name)
            else:
                g, x = acc.some(f)
                x = I.expand(x)
                group[pid] = (name, wire, g, x, False)
                if wire in ('str', 'bin'):
                    self.errconds.append((and_(and_(pres, g), lin.test(I.length(x), ((65536, dd.BIG),))), '%s longer than 65535 bytes' % name, ('C13',)))
                if wire == 'vbi':
                    self.errconds.append((and_(and_(pres, g), lin.test(x, BIGSET)), '%s above 268435455' % name, ('C13',)))
        unknown = set(acc.fields(s)) - set(table.values())
        if unknown:
            raise Missing('fields %s of %s have no property' % (sorted(unknown), section))
        P.add('vbi', section, section + ' length', ('C06',))
        P.add('props', (section, has, group), section, ('C15', 'C16'))
        self.optional = optional

    # element bodies
    def elem(self, vec, idx):
        return self.I.index(vec, idx)
    def pair_body(self, vec, idx):
        P = Prog()
        e = self.I.expand(self.elem(vec, idx))
        P.int(1, num(0x26), 'user property identifier', ('C16', 'C15'))
        P.str(self.I.expand(e.f[0]), 'user property name', ('C15', 'C16'), self.I)
        P.str(self.I.expand(e.f[1]), 'user property value', ('C15', 'C16'), self.I)
        P.add('end', None, 'end of user property', ())
        return P
    def pair_bad(self, vec, idx):
        e = self.I.expand(self.elem(vec, idx))
        return or_(*[lin.test(self.I.length(self.I.expand(x)), ((65536, dd.BIG),)) for x in e.f])
    def subid_body(self, vec, idx):
        P = Prog()
        P.int(1, num(0x0b), 'subscription identifier', ('C16', 'C15'))
        P.add('vbi', ('value', self.I.expand(self.elem(vec, idx))), 'subscription identifier value', ('C06', 'C15', 'C16'))
        P.add('end', None, 'end of subscription identifier', ())
        return P
    def vbi_bad(self, vec, idx):
        return lin.test(self.I.expand(self.elem(vec, idx)), BIGSET)
    def filter_body(self, vec, idx):
        P = Prog()
        acc = self.acc
        e = self.elem(vec, idx)
        P.str(acc.field(e, 'path'), 'topic filter', ('C14',), self.I)
        q, _ = acc.enumlin(acc.field(e, 'qos'), spec.QOS)
        r, _ = acc.enumlin(acc.field(e, 'retain_forward_rule'), spec.RETAIN_HANDLING)
        b = lin.add(q, lin.scale(r, 16))
        for nm, bit in (('nolocal', 4), ('preserve_retain', 8)):
            b = lin.add(b, lin.ite(acc.field(e, nm), num(bit), num(0)))
        P.int(1, b, 'subscription options', ('C20', 'C14'))
        P.add('end', None, 'end of filter', ())
        return P
    def filter_bad(self, vec, idx):
        return lin.test(self.I.length(self.acc.field(self.elem(vec, idx), 'path')), ((65536, dd.BIG),))
    def topic_body(self, vec, idx):
        P = Prog()
        P.str(self.I.expand(self.elem(vec, idx)), 'topic filter', ('C14',), self.I)
        P.add('end', None, 'end of filter', ())
        return P
    def topic_bad(self, vec, idx):
        return lin.test(self.I.length(self.I.expand(self.elem(vec, idx))), ((65536, dd.BIG),))
    def suback_body(self, vec, idx):
        return self.code_body(vec, idx, 'SubscribeReasonCode')
    def unsuback_body(self, vec, idx):
        return self.code_body(vec, idx, 'UnsubAckReason')
    def code_body(self, vec, idx, t):
        P = Prog()
        c, _ = self.acc.enumlin(self.elem(vec, idx), spec.CODES[t])
        P.int(1, c, 'reason code', ('C18', 'C14'))
        P.add('end', None, 'end of code', ())
        return P

    # -------------------------------------------------------------- matching
    def match(self, P, entries, G, what='packet', final_off=None):
        """simulate program P over guarded entries; states: key -> guard"""
        self.t = P.t
        states = {(0,): G}
        written = {}
        for g, e, off in entries:
            if e[0] == 'base':
                continue
            states = self.consume(P, states, written, e, and_(G, g), off)
        # whatever remains must reach the end
        rest = {}
        self.eps(P, states, written, final_off, final=True)
        return states

    def put(self, states, key, g):
        if g is not FALSE:
            states[key] = or_(states[key], g) if key in states else g

    def eps(self, P, states, written, off, live=TRUE, final=False):
        """advance every state (limited to live) over tokens that need no byte"""
        work = list(states)
        while work:
            key = work.pop()
            h = states.get(key, FALSE)
            m = and_(h, live)
            if m is FALSE:
                continue
            t = P.t[key[0]]
            moved = FALSE
            def go(newkey, g):
                nonlocal moved
                if g is FALSE:
                    return
                moved = or_(moved, g)
                self.put(states, newkey, g)
                work.append(newkey)
            if t.k == 'br':
                go((key[0] + 1,), and_(m, t.a))
                go((t.to,), and_(m, not_(t.a)))
            elif t.k == 'jmp':
                go((t.to,), m)
            elif t.k == 'bytes':
                cur = key[1] if len(key) > 1 else None
                w = self.cursor(t, cur)
                go((key[0] + 1,), self.empty(w, m))
            elif t.k == 'props' and len(key) == 1:
                sec, has, group = t.a
                pend = FALSE
                for pid, (nm, wire, pr, x, multi) in group.items():
                    pend = or_(pend, and_(and_(has, pr), not_(written.get((key[0], pid), FALSE))))
                e = and_(m, not_(pend))
                if e is not FALSE:
                    self.secends.append((sec, key[0], e, off))
                go((key[0] + 1,), e)
            elif t.k == 'props' and len(key) > 1 and key[1] == 'val':
                pid = key[2]
                nm, wire, pr, x, multi = t.a[2][pid]
                if wire in ('str', 'bin') and key[3] == 'data':
                    w = self.cursor2(x, key[4])
                    z = self.empty(w, m)
                    if z is not FALSE:
                        written[(key[0], pid)] = or_(written.get((key[0], pid), FALSE), z)
                    go((key[0],), z)
            elif t.k == 'loop':
                vec, body = t.a
                go((key[0] + 1,), and_(m, lin.test(vec.len, lin.EQ0)))
            if moved is not FALSE:
                left = and_(states[key], not_(moved))
                if left is FALSE:
                    del states[key]
                else:
                    states[key] = left
        if final:
            for key, h in list(states.items()):
                t = P.t[key[0]]
                if t.k == 'end':
                    continue
                if t.k == 'vbi' and len(key) == 1 and isinstance(t.a, str) and getattr(self, 'optional', False):
                    sec, has, group = P.t[key[0] + 1].a
                    h2 = and_(h, has)
                    if h2 is FALSE:
                        continue
                    h = h2
                if t.k == 'props':
                    miss = []
                    if len(key) == 1:
                        sec, has, group = t.a
                        for pid, (nm, wire, pr, x, multi) in group.items():
                            b = and_(h, and_(and_(has, pr), not_(written.get((key[0], pid), FALSE))))
                            if b is not FALSE:
                                self.event(('C15',), '%s.%s' % (sec, nm), 'property %s is set but never written' % nm, b, imp=imprecise(b))
                        continue
                self.event(set(t.viol) | {'C28'}, t.what, 'the encoding ends before %s' % t.what, h, imp=imprecise(h))
                self.lost(P, key[0], h)

    def lost(self, P, pc, h):
        """the encoding ends at token pc under h: everything the rest of the program still had to write is missing"""
        if P.t[pc].what == 'reason code' and hasattr(self, 'short'):
            b = and_(h, not_(self.short[0]))
            if b is not FALSE:
                self.event(('C27',), 'short form', 'the short form is written for a value that is not success without properties', b, imp=imprecise(b))
        reach = {pc: h}
        for i in range(pc, len(P.t)):
            g = reach.pop(i, FALSE)
            if g is FALSE:
                continue
            t = P.t[i]
            if t.k == 'end':
                break
            if t.k == 'jmp':
                reach[t.to] = or_(reach.get(t.to, FALSE), g)
                continue
            if t.k == 'br':
                b = and_(g, not_(t.a))
                if b is not FALSE:
                    reach[t.to] = or_(reach.get(t.to, FALSE), b)
                g = and_(g, t.a)
            elif i > pc:
                if t.k == 'props':
                    sec, has, group = t.a
                    for pid, (nm, wire, pr, x, multi) in group.items():
                        b = and_(g, and_(has, pr))
                        if b is not FALSE:
                            self.event(('C15',), '%s.%s' % (sec, nm), 'property %s is set but the encoding ends before it' % nm, b, imp=imprecise(b))
                elif t.k in ('int', 'bytes', 'loop') and t.viol:
                    self.event(set(t.viol), t.what, 'the encoding ends before %s' % t.what, g, imp=imprecise(g))
            if g is not FALSE:
                reach[i + 1] = or_(reach.get(i + 1, FALSE), g)

    def cursor(self, t, cur):
        return self.cursor2(t.a, cur)
    def cursor2(self, v, cur):
        if type(v) is not View:
            return v
        if cur is None:
            return v
        return View(v.src, Lin(dict(self.posmemo[cur].t)), v.end)
    posmemo = {}
    def empty(self, w, m):
        if type(w) is View:
            return and_(m, lin.cmp('Eq', w.pos, w.end))
        return FALSE

    def consume(self, P, states, written, e, live, off):
        """every state under live must accept entry e"""
        if live is FALSE:
            return states
        k = e[0]
        if k == 'loop':
            live = and_(live, not_(lin.test(e[1], lin.EQ0)))
        elif k == 'view':
            live = and_(live, not_(lin.cmp('Eq', e[1].pos, e[1].end)))
        if live is FALSE:
            return states
        if k == 'blob':
            for w in dd.leaves(e[1].node):
                e2 = ('view', w)
                o = self.I.origin.get(id(e))
                if o is not None:
                    self.I.origin[id(e2)] = (e2, o[1], o[2])
                states = self.consume(P, states, written, e2, and_(live, dd.when(e[1].node, w)), off)
            return states
        if k == 'view' and e[1].src.startswith('lit:'):
            data = bytes.fromhex(e[1].src[4:])
            a, b = e[1].pos.const(), e[1].end.const()
            if a is not None and b is not None:
                for i, ch in enumerate(data[a:b]):
                    e2 = ('int', 1, num(ch))
                    self.keep = getattr(self, 'keep', []) + [e2]
                    o = self.I.origin.get(id(e))
                    if o is not None:
                        self.I.origin[id(e2)] = (e2, o[1], o[2])
                    states = self.consume(P, states, written, e2, live, lin.add(off, num(i)))
                return states
        self.eps(P, states, written, off, live)
        new = {}
        for key, h in states.items():
            m = and_(h, live)
            if m is FALSE:
                self.put(new, key, h)
                continue
            self.put(new, key, and_(h, not_(live)))
            self.step(P, key, m, e, off, new, written)
        return new

    def step(self, P, key, m, e, off, new, written):
        t = P.t[key[0]]
        k = e[0]
        nxt = (key[0] + 1,)
        self.items += 1
        if t.k == 'int':
            w, v = t.a
            c = key[1] if len(key) > 1 else 0
            if k == 'int':
                self.int_step(P, key, m, e, off, new, written, w, v, c, nxt, (key[0],), t.what, t.viol)
                return
        elif t.k == 'vbi':
            if k == 'int' and e[1] == 1:
                want = t.a[1] if isinstance(t.a, tuple) else None
                label = t.a if isinstance(t.a, str) else None
                self.vbi_step(P, key, m, e, off, new, want, label, nxt, (key[0],), t.what, t.viol)
                return
            if k == 'int':
                self.split_int(P, key, m, e, off, new, written)
                return
        elif t.k == 'bytes':
            cur = key[1] if len(key) > 1 else None
            r = self.view_step(t.a, cur, m, e, off, t.what, t.viol)
            if r is not None:
                done, part, pk = r
                self.put(new, nxt, done)
                self.put(new, (key[0], pk), part)
                return
        elif t.k == 'props':
            if self.props_step(P, key, m, e, off, new, written, t):
                return
        elif t.k == 'loop':
            vec, body = t.a
            if k == 'loop':
                if self.loop_step(vec, body, m, e, t.what):
                    self.put(new, nxt, m)
                    return
                return
        elif t.k == 'end':
            self.event(('C28', 'C14'), 'end of packet', 'bytes are written after the last field: %s' % self.show(e), m, e, imprecise(m, *self.vals(e)))
            return
        self.event(set(t.viol) | {'C28'}, t.what, 'expected %s, the encoder writes %s' % (t.what, self.show(e)), m, e, imprecise(m, *self.vals(e)))

    def vals(self, e):
        return [x for x in e[1:] if isinstance(x, (Lin, View, Unknown, Undef, Sym))]

    def show(self, e):
        if e[0] == 'int':
            return 'u%d %s' % (8 * e[1], str(e[2])[:80])
        if e[0] == 'view':
            return 'bytes of %s' % e[1].src[:60]
        if e[0] == 'loop':
            return 'a loop over %s' % str(e[1])[:60]
        return e[0]

    def split_int(self, P, key, m, e, off, new, written):
        """an integer wider than the token it meets: byte by byte"""
        w = e[1]
        states = {key: m}
        for i in range(w):
            e2 = ('int', 1, lin.mod(lin.div(e[2], 256 ** (w - 1 - i)), 256))
            self.keep = getattr(self, 'keep', []) + [e2]
            o = self.I.origin.get(id(e))
            if o is not None:
                self.I.origin[id(e2)] = (e2, o[1], o[2])
            states = self.consume(P, states, written, e2, m, lin.add(off, num(i)))
        for k2, h in states.items():
            self.put(new, k2, h)

    def int_step(self, P, key, m, e, off, new, written, w, v, c, nxt, base, what, viol):
        left = w - c
        if e[1] > left:
            self.split_int(P, key, m, e, off, new, written)
            return
        x = v
        sh = left - e[1]
        if e[1] != w:
            x = lin.mod(lin.div(v, 256 ** sh), 256 ** e[1])
        good = eq_guard(e[2], x, m)
        bad = and_(m, not_(good))
        if bad is not FALSE:
            self.value_event(viol, what, e, x, bad, w)
        else:
            self.ok(*viol)
        # carry on on the whole of m: a wrong value does not change the framing
        if sh == 0:
            self.put(new, nxt, m)
        else:
            self.put(new, base + (c + e[1],), m)

    def value_event(self, viol, what, e, x, bad, w):
        got, want = lin.tidy(e[2], bad), lin.tidy(x, bad)
        if got.plain() and want.plain():
            bad = and_(bad, lin.test(lin.sub(got, want), NE0))      # where they do differ
        ids = set(viol)
        if what.startswith('first byte') and 'C20' in ids:
            p, q = got.pure(), want.pure()
            if p is not None and q is not None:
                hi = dd.apply('hidiff', lambda a, b: a // 16 != b // 16, p, q)
                if and_(bad, hi) is FALSE:
                    ids.discard('C19')
                elif and_(bad, not_(hi)) is FALSE:
                    ids.discard('C20')
        if ids & {'C14', 'C15'} and w > 1:
            ids.add('C28')
        # bytes swapped?
        self.event(ids, what, '%s is written as %s, expected %s' % (what, lin.fmt(got)[:100], lin.fmt(want)[:100]), bad, e,
                   imprecise(got, want, bad))

    def view_step(self, v, cur, m, e, off, what, viol):
        """-> (guard done, guard partial, position key) or None"""
        if type(v) is Blob:
            return None
        if type(v) is not View:
            return None
        if e[0] == 'loop':
            n, idx, suf, bg, rec = e[1:6]
            w = self.cursor2(v, cur)
            if len(suf) == 1 and suf[0][1][0] == 'int' and suf[0][1][1] == 1 and lin.eq_under(n, w.rem(), m):
                x = lin.tok(1, w.src, lin.add(w.pos, lin.of_atom(ATOMS[idx])))
                if lin.eq_under(suf[0][1][2], x, and_(m, bg)):
                    return m, FALSE, None
            return None
        if e[0] != 'view':
            return None
        w = self.cursor2(v, cur)
        x = e[1]
        if x.src != w.src:
            return None
        g = eq_guard(x.pos, w.pos, m)
        if and_(m, not_(g)) is not FALSE:
            self.event(set(viol) | {'C28'}, what, '%s is written from offset %s of the field, expected %s' % (what, x.pos, w.pos), and_(m, not_(g)), e, imprecise(x, m))
        full = eq_guard(x.end, w.end, m)
        part = and_(m, not_(full))
        pk = None
        if part is not FALSE:
            pk = x.end.key
            self.posmemo[pk] = x.end
        else:
            self.ok(*viol)
        return full, part, pk

    # variable byte integers -----------------------------------------------------------
    def vbi_byte(self, X, i):
        low = lin.mod(lin.div(X, 128 ** i), 128)
        return lin.ite(lin.test(X, ((128 ** (i + 1), dd.BIG),)), lin.add(low, num(128)), low)

    def candidates(self, e, i):
        """forms X whose i-th group appears in e"""
        out = []
        for k in e.t:
            if k == lin.ONE:
                continue
            at = ATOMS[k]
            if at.kind == 'tab':
                at = at.args[0]
            x = None
            if at.kind == 'mod' and at.args[1] == 128:
                x = at.args[0]
            else:
                x = lin.of_atom(at)
            if i:
                s = x.single()
                if s and s[1] == 1 and s[2] == 0 and s[0].kind == 'div' and s[0].args[1] == 128 ** i:
                    x = s[0].args[0]
                else:
                    continue
            if all(x != y for y in out):
                out.append(x)
        return out

    def unname(self, x):
        s = x.single()
        if s and s[1] == 1 and s[0].kind == 'named':
            return lin.add(s[0].args[0], num(s[2]))
        return x

    def vbi_step(self, P, key, m, e, off, new, want, label, nxt, base, what, viol):
        i = key[-2] if len(key) > len(base) else 0
        X = self.xmemo[key[-1]] if len(key) > len(base) else None
        v = lin.tidy(e[2], m)
        cands = [X] if X is not None else []
        if X is None:
            if want is not None:
                cands.append(want)
            cands += [c for c in self.candidates(v, 0) if c not in cands]
        rest = m
        for c in cands:
            g = eq_guard(v, self.vbi_byte(c, i), rest)
            # the last byte: the group is all that is left of the value
            last = and_(rest, and_(not_(g), lin.test(c, ((0, 128 ** (i + 1) - 1),))))
            if last is not FALSE:
                g = dd.or_(g, eq_guard(v, lin.div(c, 128 ** i), last))
            if g is FALSE:
                continue
            rest = and_(rest, not_(g))
            self.vbi_next(c, i, g, off, new, want, label, nxt, base, e, what, viol)
            if rest is FALSE:
                return
        if X is None:
            # a value below 128 in one byte
            small = and_(rest, lin.test(v, ((0, 127),)))
            if small is not FALSE and implies(rest, small):
                self.vbi_next(v, 0, small, off, new, want, label, nxt, base, e, what, viol)
                return
        if feas.feasible(rest):
            self.event(set(viol), what, 'byte %d of %s is %s, which is not the minimal variable byte integer of any length' % (i + 1, what, lin.fmt(v)[:100]),
                       rest, e, imprecise(v, rest))

    xmemo = {}
    def vbi_next(self, X, i, g, off, new, want, label, nxt, base, e, what, viol):
        cont = and_(g, lin.test(X, ((128 ** (i + 1), dd.BIG),)))
        done = and_(g, not_(cont))
        if cont is not FALSE:
            if i == 3:
                if feas.feasible(cont):
                    self.event(('C06', 'C13'), what, 'a value above 268435455 is written as a variable byte integer', cont, e, imprecise(X, cont))
            else:
                self.xmemo[X.key] = X
                self.put(new, base + (i + 1, X.key), cont)
        if done is not FALSE:
            self.ok('C06')
            u = self.unname(X)
            if want is not None:
                ok = eq_guard(u, want, done)
                bad = and_(done, not_(ok))
                if bad is not FALSE:
                    self.event(set(viol) - {'C06'} | {'C15'}, what, '%s is written as %s, expected %s' % (what, lin.fmt(u)[:80], lin.fmt(want)[:80]), bad, e, imprecise(u, bad))
                else:
                    self.ok('C15')
            else:
                self.vbis.append((label, u, X, done, lin.add(off, num(1)), e))
            self.put(new, nxt, done)

    # property group -------------------------------------------------------------------
    def props_step(self, P, key, m, e, off, new, written, t):
        sec, has, group = t.a
        k = e[0]
        pc = key[0]
        if len(key) == 1:
            if k == 'loop':
                for pid, (nm, wire, pr, x, multi) in group.items():
                    if multi and e[1] == x.len:
                        g = and_(m, and_(has, not_(written.get((pc, pid), FALSE))))
                        bad = and_(m, not_(g))
                        if bad is not FALSE:
                            self.event(('C15',), '%s.%s' % (sec, nm), '%s are written twice or without being set' % nm, bad, e, imprecise(bad))
                        body = self.pair_body if wire == 'pair' else self.subid_body
                        if self.loop_step(x, body, m, e, '%s.%s' % (sec, nm)):
                            self.ok('C15', 'C16')
                        written[(pc, pid)] = or_(written.get((pc, pid), FALSE), m)
                        self.put(new, (pc,), m)
                        return True
                return False
            if k != 'int':
                return False
            if e[1] > 1:
                self.split_int(P, key, m, e, off, new, written)
                return True
            v = lin.tidy(e[2], m)
            p = v.pure()
            if p is None:
                return False
            rest = m
            for pid in dd.leaves(p):
                if pid not in group:
                    continue
                nm, wire, pr, x, multi = group[pid]
                g = and_(and_(rest, dd.when(p, pid)), and_(has, pr))
                g = and_(g, not_(written.get((pc, pid), FALSE)))
                if g is FALSE or multi:
                    continue
                rest = and_(rest, not_(g))
                self.put(new, (pc, 'val', pid, 0), g)
            if rest is not FALSE:
                pend = [nm for pid, (nm, wire, pr, x, multi) in group.items()
                        if and_(rest, and_(and_(has, pr), not_(written.get((pc, pid), FALSE)))) is not FALSE]
                ids = sorted(set(dd.leaves(dd.restrict(p, rest))))
                self.event(('C16', 'C15'), sec, 'property identifier %s is written where %s is to be written' % (ids[:4], ', '.join(pend[:4]) or 'no property'),
                           rest, e, imprecise(rest, v))
            return True
        pid = key[2]
        nm, wire, pr, x, multi = group[pid]
        what = '%s.%s' % (sec, nm)
        viol = ('C15', 'C16')
        fin = lambda g: written.__setitem__((pc, pid), or_(written.get((pc, pid), FALSE), g))
        tmp = {}
        if wire in ('u8', 'u16', 'u32'):
            if k != 'int':
                return False
            w = {'u8': 1, 'u16': 2, 'u32': 4}[wire]
            self.int_step2(P, key, m, e, off, tmp, written, w, x, key[3], what, viol, (pc, 'val', pid))
        elif wire == 'vbi':
            if k != 'int':
                return False
            if e[1] > 1:
                self.split_int(P, key, m, e, off, new, written)
                return True
            kk = key if len(key) > 4 else key[:4]
            base = (pc, 'val', pid, 'vbi')
            key2 = base if len(key) == 4 else key
            self.vbi_step(P, key2, m, e, off, tmp, x, None, 'done', base, what, viol + ('C06',))
        else:
            if key[3] != 'data':
                if k != 'int':
                    return False
                self.int_step2(P, key, m, e, off, tmp, written, 2, self.I.length(x), key[3], 'length of ' + what, viol + ('C28',), (pc, 'val', pid))
                tmp = {((pc, 'val', pid, 'data', None) if q == 'done' else q): g for q, g in tmp.items()}
            else:
                r = self.view_step(x, key[4], m, e, off, what, viol)
                if r is None:
                    return False
                full, part, pk = r
                self.put(tmp, 'done', full)
                self.put(tmp, (pc, 'val', pid, 'data', pk), part)
        for q, g in tmp.items():
            if q == 'done':
                fin(g)
                self.put(new, (pc,), g)
            else:
                self.put(new, q, g)
        return True

    def int_step2(self, P, key, m, e, off, tmp, written, w, x, c, what, viol, base):
        if e[1] > w - c:
            # wider than what is left: the width is wrong
            self.event(set(viol) | {'C28'}, what, '%s is written with %d bytes, expected %d' % (what, c + e[1], w), m, e, imprecise(m))
            return
        self.int_step(P, key, m, e, off, tmp, written, w, x, c, 'done', base, what, viol)

    # loops ------------------------------------------------------------------------------
    def loop_step(self, vec, body, m, e, what):
        n, idx, suf, bg, rec = e[1:6]
        if n != vec.len:
            self.event(('C28', 'C14', 'C15'), what, 'a loop of %s rounds is written where %s rounds are expected' % (n, vec.len), m, None, imprecise(n, m))
            return False
        P = body(vec, lin.of_atom(ATOMS[idx]))
        G = and_(m, bg)
        self.loopseen.append((rec, vec))
        sub = [(g, x, o) for g, x, o in suf]
        n0 = len(self.events)
        self.match(P, sub, G, what)
        return len(self.events) == n0

    # -------------------------------------------------------------- whole-packet checks
    def check(self):
        run, I = self.run, self.I
        self.optional = False
        self.short = None
        P = self.program()
        if run.r is None:
            self.event(('C13', 'C11'), run.variant, 'encoding never returns', run.g0)
            return self
        r, s = I.expand(run.r), run.s
        B = units.buf_base()
        buf = s.cells[('R', 'buf')]
        if type(buf) is not Buf:
            self.event(('C10',), 'buffer', 'the buffer is replaced by %s' % type(buf).__name__, s.g, imp=True)
            return self
        acc = self.acc
        okg = and_(s.g, dd.when(r.discr, acc.variant(r, 'Ok')))
        errg = and_(s.g, dd.when(r.discr, acc.variant(r, 'Err')))
        self.okg, self.errg = okg, errg
        ents = buf.ents.items()
        # C10: the old contents come first, untouched and nothing depends on their length
        self.base_check(ents, buf, s.g, B)
        # the bytes
        self.match(P, ents, okg, run.variant, buf.len)
        # C07, C08
        for label, u, X, g, off, e in self.vbis:
            if label is None:
                self.length_check(('C07',), 'remaining length', u, lin.sub(buf.len, off), and_(g, okg), e)
            else:
                for sec, pc, g2, off2 in self.secends:
                    if sec == label and off2 is not None:
                        gg = and_(and_(g, g2), okg)
                        if gg is not FALSE:
                            self.length_check(('C08',), '%s length' % label, u, lin.sub(off2, off), gg, e)
        # C09
        ret = r.pay.get(acc.variant(r, 'Ok'))
        if okg is not FALSE and ret:
            v = I.expand(ret[0])
            self.length_check(('C09',), 'returned byte count', v, lin.sub(buf.len, B), okg, None)
            self.size_report(s, okg, lin.sub(buf.len, B))
        # C12
        self.failed(ents, buf, errg, B)
        # C13
        self.refusals(okg, errg)
        if self.short is not None:
            cond, n = self.short
            for label, u, X, g, off, e in self.vbis:
                if label is None:
                    gg = and_(and_(g, okg), cond)
                    if gg is not FALSE:
                        self.length_check(('C27',), 'body of the short form', lin.sub(buf.len, off), num(n), gg, e)
        return self

    def base_check(self, ents, buf, g, B):
        bname = next(iter(B.t))
        ok = True
        if not ents or ents[0][1][0] != 'base':
            self.event(('C10',), 'earlier contents', 'the earlier buffer contents are gone or no longer first', g)
            ok = False
        for i, (eg, e, off) in enumerate(ents):
            gg = and_(g, eg)
            if e[0] == 'base':
                miss = and_(g, not_(eg))
                if i or miss is not FALSE:
                    self.event(('C10',), 'earlier contents', 'earlier buffer contents are dropped or moved', miss if miss is not FALSE else gg)
                    ok = False
                continue
            if gg is FALSE:
                continue
            if e[0] == 'patch':
                idx = e[1]
                d = lin.sub(idx, B)
                lo = lin.interval(lin.tidy(d, gg))[0]
                inside = and_(gg, lin.cmp('Lt', idx, B))
                if inside is not FALSE and feas.feasible(inside):
                    self.event(('C10',), 'earlier contents', 'byte %s of the buffer is overwritten although it lies before the packet' % idx, inside, e, imprecise(idx, gg))
                    ok = False
                else:
                    self.event(('C28',), 'patched byte', 'a byte at %s is overwritten and could not be identified' % idx, gg, e, True)
                continue
            vals = []
            if e[0] == 'int':
                vals = [lin.tidy(e[2], gg)]
            elif e[0] == 'view':
                vals = [e[1].pos, e[1].end]
                if e[1].src == 'buf':
                    self.event(('C10',), 'earlier contents', 'earlier buffer contents are copied into the packet', gg, e)
                    ok = False
            for v in vals:
                if lin.mentions(v, bname):
                    self.event(('C10',), 'written bytes', 'a written byte depends on how much the buffer held before: %s' % lin.fmt(v)[:80], gg, e, imprecise(v))
                    ok = False
            if any(lin.var_mentions(x, bname) for x in dd.support(dd.restrict(eg, g))):
                self.event(('C10',), 'written bytes', 'whether a byte is written depends on how much the buffer held before', gg, e)
                ok = False
        d = lin.tidy(lin.sub(buf.len, B), g)
        if lin.mentions(d, bname):
            self.event(('C10',), 'written bytes', 'the number of bytes written depends on how much the buffer held before', g, None, imprecise(d))
            ok = False
        if ok:
            self.ok('C10')

    HARD = ('mod', 'div', 'named', 'unk', 'head', 'minmax')
    def size_report(self, s, okg, written):
        """what X::size announces for the same value"""
        run, I = self.run, self.I
        v = run.variant
        f = units.find(I.facts, '%s::%s::size' % (v.lower(), v), optional=True)
        if f is None:
            if v in SIZED:
                raise units.Missing('%s::size' % v)
            return
        if f['argc'] != 1:
            raise units.Missing('arguments of %s::size' % v)
        st = interp.State(run.g0, dict(s.cells))
        st.cells[('R', 'self')] = run.payload[0]
        arg = Ptr(leaf((('R', 'self'), ()))) if I.types[f['locals'][1]]['k'] == 'ref' else run.payload[0]
        r, s2 = I.call(f['key'], [arg], st)
        if r is None:
            self.event(('C11',), '%s::size' % v, 'size() never returns', run.g0)
            return
        r = I.expand(r) if not isinstance(r, Lin) else r
        if type(r) is not Lin:
            self.event(('C09',), '%s::size' % v, 'the announced size could not be followed', okg, imp=True)
            return
        self.length_check(('C09',), 'announced size', r, written, and_(okg, s2.g), None)

    def length_check(self, viol, what, got, want, g, e):
        if g is FALSE:
            return
        if lin.eq_under(got, want, g):
            self.ok(*viol)
            return
        bad = and_(g, not_(eq_guard(got, want, g)))
        if bad is FALSE:
            self.ok(*viol)
            return
        d = lin.tidy(lin.sub(lin.tidy(got, bad), lin.tidy(want, bad)), bad)
        dif = and_(bad, not_(lin.test(d, lin.EQ0)))
        if dif is FALSE or not feas.feasible(dif):
            self.ok(*viol)
            return
        imp = imprecise(d) or any(ATOMS[k].kind in self.HARD for k in d.atoms())
        self.event(viol, what, '%s differs from the bytes written by %s' % (what, lin.fmt(d)[:120]), dif, e, imp)

    def failed(self, ents, buf, errg, B):
        self.kinds(errg)
        if errg is FALSE:
            return
        ok = True
        for eg, e, off in ents:
            gg = and_(errg, eg)
            if e[0] == 'base':
                continue
            if e[0] == 'loop':
                gg = and_(gg, not_(lin.test(e[1], lin.EQ0)))
            if e[0] == 'view':
                gg = and_(gg, not_(lin.cmp('Eq', e[1].pos, e[1].end)))
            if gg is not FALSE and feas.feasible(gg):
                self.event(('C12',), 'buffer after a failure', 'after a failed encode the buffer keeps %s' % self.show(e), gg, e, imprecise(gg))
                ok = False
                break
        if not lin.eq_under(buf.len, B, errg):
            d = lin.tidy(lin.sub(buf.len, B), errg)
            dif = and_(errg, not_(lin.test(d, lin.EQ0)))
            if dif is not FALSE and feas.feasible(dif):
                self.event(('C12',), 'buffer after a failure', 'after a failed encode the buffer is longer than before by %s' % lin.fmt(d)[:80], dif, None, imprecise(d))
                ok = False
        if ok:
            self.ok('C12')

    def refusals(self, okg, errg):
        I = self.I
        r = self.run.r
        D = errg
        for c, what, viol in self.errconds:
            x = and_(okg, c)
            if x is not FALSE and feas.feasible(x):
                self.event(viol, what, 'encoding succeeds with %s' % what, x, None, imprecise(x))
            else:
                self.ok(*viol)
            D = and_(D, not_(c))
        # lists: a successful round means an element without defect; a failing round a defect
        for rec in I.rec.loops:
            ent = self.lists.get(rec.n.key) if rec.n is not None else None
            if ent is None:
                continue
            vec, bad, what = ent
            idx = lin.of_atom(ATOMS[rec.idx])
            b = bad(vec, idx)
            writes = any(d['kind'] == 'buf' for d in rec.heads.values())
            if writes:
                x = and_(rec.back.g, b)
                if x is not FALSE and feas.feasible(x):
                    self.event(('C13',), what, 'encoding goes on past an element of %s the wire cannot represent' % what, x, None, imprecise(x))
                else:
                    self.ok('C13')
            if rec.exitvar is None:
                continue
            for j, tgt in enumerate(rec.live):
                s = dict(rec.exits)[tgt]
                cont = lin.cmp('Lt', idx, rec.n)
                early = and_(s.g, cont)
                if early is FALSE:
                    continue
                x = and_(early, not_(b))
                # other reasons the round may have failed that are themselves refusals
                if x is not FALSE and feas.feasible(x):
                    if and_(D, dd.test(rec.exitvar, ((j, j),))) is not FALSE:
                        self.event(('C13',), what, 'encoding refuses an element of %s that the wire can represent' % what, x, None, imprecise(x))
                else:
                    self.ok('C13')
                    D = and_(D, not_(dd.test(rec.exitvar, ((j, j),))))
        for label, u, X, g, off, e in self.vbis:
            D = and_(D, not_(lin.test(X, BIGSET)))
        if D is not FALSE and feas.feasible(D):
            self.event(('C13',), 'refusals', 'encoding fails although every field is representable: %s' % self.errname(r, D), D, None, imprecise(D))
        else:
            self.ok('C13')

    def kinds(self, errg):
        """an encoder never asks for more bytes"""
        r = self.run.r
        i = self.acc.variant(r, 'Err')
        if errg is FALSE or not r.pay.get(i):
            self.ok('C03')
            return
        e = self.I.expand(r.pay[i][0])
        if type(e) is not Enum:
            return
        vs = self.I.types[e.ty]['variants']
        k = [x for x, v in enumerate(vs) if v['name'] == 'InsufficientBytes']
        if not k:
            raise Missing('the insufficient-bytes error')
        x = and_(errg, dd.when(e.discr, k[0]))
        if x is not FALSE and feas.feasible(x):
            self.event(('C03',), 'error kind', 'encoding fails with the insufficient-bytes error', x, None, imprecise(x))
        else:
            self.ok('C03')

    def errname(self, r, g):
        i = self.acc.variant(r, 'Err')
        e = r.pay.get(i)
        if not e:
            return 'error'
        e = self.I.expand(e[0])
        if type(e) is not Enum:
            return 'error'
        vs = self.I.types[e.ty]['variants']
        return ', '.join(sorted(vs[x]['name'] for x in dd.leaves(e.discr) if and_(g, dd.when(e.discr, x)) is not FALSE)[:4])
