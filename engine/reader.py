"""Compare what the decoder accepts and returns, as guarded values, with a reference reading of the frame."""
import os
import dd, lin, spec, feas
from dd import leaf, TRUE, FALSE, and_, or_, not_, implies
from lin import Lin, ATOMS, num
from values import *
import units
from units import Missing
from writer import Acc, imprecise
from interp import _comp, varint_template

EQ0 = lin.EQ0
def xor(a, b):
    return or_(and_(a, not_(b)), and_(not_(a), b))

def tok(w, p):
    return lin.tok(w, 'stream', p)

def expand_vbi(a, g):
    """variable byte integer atoms written out over their bytes"""
    out = Lin({k: n for k, n in a.t.items() if k == lin.ONE or ATOMS[k].kind != 'vbi'})
    for k, n in a.t.items():
        if k != lin.ONE and ATOMS[k].kind == 'vbi':
            src, p = ATOMS[k].args
            out = lin.add(out, lin.mulnode(varint_template(src, p)[0], n))
    return lin.restrict(out, g)

def differ(a, b, g):
    """part of g on which the integers may differ"""
    if a == b:
        return FALSE
    d = lin.restrict(lin.sub(a, b), g)
    x = and_(g, not_(lin.test(d, EQ0)))
    if x is FALSE:
        return FALSE
    if any(k != lin.ONE and ATOMS[k].kind == 'vbi' for k in d.t):
        d = expand_vbi(d, x)
        x = and_(x, not_(lin.test(d, EQ0)))
        if x is FALSE:
            return FALSE
    d2 = lin.tidy(d, x)
    if d2 != d:
        x = and_(x, not_(lin.test(d2, EQ0)))
    return x

class Sec:
    pass

class Stop(Exception):
    """no frame of this partition is well formed from here on"""

class ReadCheck:
    def __init__(self, run, unit, variant, part):
        self.run, self.unit, self.variant, self.part = run, unit, variant, part
        self.I = run.I
        self.acc = Acc(run.I)
        self.events = []
        self.done = {}
        self.items = 0
        self.undecided = []
        self.sections = 0
        self.rounds = 0
        self.reach = set()      # positions at the head of the loops

    # -------------------------------------------------------------- reporting
    def event(self, viol, item, text, g, imp=False, where='', fn='', side='r', after=False):
        if isinstance(g, dd.Node):
            j = feas.judge(self.I, g, self.reach if after else frozenset())
            if j is None:
                self.ok(*viol)
                return False
            g, imp = j[0], imp or not j[1]
        self.events.append({'viol': sorted(set(viol)), 'unit': self.unit, 'item': item, 'text': text, 'where': where or self.run.f['path'],
                            'fn': [fn] if fn else [], 'guard': dd.fmt_guard(g, int(os.environ.get('VERIF_GUARD', '8'))) if isinstance(g, dd.Node) else '', 'undecided': bool(imp), 'side': side})
        return True
    def ok(self, *ids):
        for i in ids:
            self.done[i] = self.done.get(i, 0) + 1
    def unsure(self, viol, item, text):
        self.events.append({'viol': sorted(set(viol)), 'unit': self.unit, 'item': item, 'text': text, 'where': self.run.f['path'], 'fn': [],
                            'guard': '', 'undecided': True, 'side': 'r'})

    # -------------------------------------------------------------- walker
    def start(self):
        k = self.part['k']
        self.h = 1 + k
        self.R = lin.vbi('stream', num(1))
        self.E = lin.add(num(self.h), self.R)
        self.p = num(self.h)
        self.ctx = self.K0
        self.conds = []
        self.stricts = []
        self.secs = []
        self.lists = []
        self.expect = []
        self.secno = 0
        self.dead = False
    def case(self, g):
        """restrict what follows to g"""
        self.ctx = and_(self.ctx, g)
    def cond(self, g, labels, text):
        self.conds.append((self.ctx, g, labels, text))
        self.ctx = and_(self.ctx, g)
        if and_(self.run.g0, self.ctx) is FALSE:
            raise Stop()
    def strict(self, g):
        self.stricts.append(g)
    def fits(self, p, text, more=()):
        self.cond(lin.cmp('Le', p, self.E), ('C26',) + tuple(more), '%s reaches past the frame' % text)
    def int(self, w, what, more=()):
        q = lin.add(self.p, num(w))
        self.fits(q, what, more)
        v = tok(w, self.p)
        self.p = q
        return v
    def utf8(self, w, g):
        nm = 'utf8ok[%s@%s..%s]' % (w.src, lin.fmtkey(w.pos), lin.fmtkey(w.end))
        if nm not in dd.VARS:
            for v in list(dd.VARS.values()):
                m = v.meta
                if isinstance(m, tuple) and m[0] == 'utf8' and m[1] == w.src and lin.eq_under(m[2], w.pos, g) and lin.eq_under(m[3], w.end, g):
                    return dd.test(v, ((1, 1),))
        return dd.test(dd.var(nm, 0, 1, rank=6, meta=('utf8', w.src, w.pos, w.end)), ((1, 1),))
    def text(self, ti, what, always=None):
        """two-byte length and that many bytes; the field's type decides whether they are text"""
        n = self.int(2, 'the length of ' + what)
        q = lin.add(self.p, n)
        self.fits(q, what)
        w = View('stream', self.p, q)
        self.p = q
        if self.I.is_str(ti):
            self.cond(self.utf8(w, self.ctx), ('C23',), '%s is not valid UTF-8' % what)
        return w
    def props(self, f, section):
        """property section at the current position for field value f"""
        ki = self.part.get('secs', [])
        n = self.secno
        self.secno += 1
        if n >= len(ki) or ki[n] is None:
            raise Missing('partition without the class of section %d' % n)
        k2 = ki[n]
        if k2 == 0:
            self.cond(FALSE, ('C06', 'C26', 'C22'), 'malformed length of %s' % section)
            self.dead = True
            return None
        self.fits(lin.add(self.p, num(k2)), 'the length of %s' % section)
        plen = lin.vbi('stream', self.p)
        s = Sec()
        s.name, s.at, s.start = section, self.p, lin.add(self.p, num(k2))
        s.plen, s.end = plen, lin.add(s.start, plen)
        self.fits(s.end, section, ('C22',))
        s.ctx = self.ctx
        s.present = not_(lin.test(plen, EQ0))
        self.secs.append(s)
        self.p = s.end
        return ('props', s)

    # -------------------------------------------------------------- the packets
    def tyfield(self, v, name):
        ti = v.ty
        for f in self.I.types[ti]['variants'][0]['fields']:
            if f['name'] == name:
                return f['ty']
        raise Missing('field %s of %s' % (name, self.I.types[ti]['path']))
    def optinner(self, ti):
        t = self.I.types[ti]
        return t['variants'][1]['fields'][0]['ty'] if t['k'] == 'adt' and t['path'].endswith('option::Option') else ti

    def exp(self, name, val, labels, when=TRUE):
        self.expect.append((name, val, tuple(labels), when))

    def codes(self, table, b):
        return {nm: lin.test(b, ((v, v),)) for nm, v in table.items() if not isinstance(nm, tuple)}
    def valid_code(self, table, b):
        return lin.test(b, dd.iset(*[(v, v) for v in table.values()]))
    def qosmap(self, q):
        return {nm: lin.test(q, ((v, v),)) for nm, v in spec.QOS.items()}

    def walk_cases(self, pk):
        """-> list of functions, one per shape of the body"""
        v = self.variant
        R = lin.vbi('stream', num(1))
        b0 = tok(1, num(0))
        if v == 'Publish':
            def f():
                low = lin.mod(b0, 16)
                q = lin.mod(lin.div(b0, 2), 4)
                self.cond(not_(lin.test(q, ((3, 3),))), ('C21',), 'QoS 3')
                self.exp('dup', ('bool', lin.test(lin.mod(lin.div(b0, 8), 2), ((1, 1),))), ('C20', 'C14'))
                self.exp('retain', ('bool', lin.test(lin.mod(b0, 2), ((1, 1),))), ('C20', 'C14'))
                self.exp('qos', ('enum', self.qosmap(q)), ('C20', 'C14'))
                self.exp('topic', ('bytes', self.text(self.tyfield(pk, 'topic'), 'topic')), ('C14', 'C28'))
                z = lin.test(q, EQ0)
                if implies(self.run.g0, z):
                    self.exp('pkid', ('int', num(0)), ('C14',))
                else:
                    x = self.int(2, 'packet identifier')
                    self.cond(not_(lin.test(x, EQ0)), ('C21',), 'packet identifier zero with QoS above zero')
                    self.exp('pkid', ('int', x), ('C14', 'C28'))
                self.section('properties', pk, 'PublishProperties')
                if not self.dead:
                    self.exp('payload', ('bytes', View('stream', self.p, self.E)), ('C14', 'C28'))
            return [f]
        if v == 'ConnAck':
            def f():
                fl = self.int(1, 'acknowledge flags')
                self.exp('session_present', ('bool', lin.test(lin.mod(fl, 2), ((1, 1),))), ('C20', 'C14'))
                self.strict(lin.test(fl, ((0, 1),)))
                c = self.int(1, 'return code')
                self.code('code', 'ConnectReturnCode', c)
                self.section('properties', pk, 'ConnAckProperties')
                self.strict(lin.cmp('Eq', self.p, self.E))
            return [f]
        if v in spec.ACKS:
            T = spec.ACKS[v]
            def short0():
                self.case(lin.test(R, ((0, 2),)))
                x = self.int(2, 'packet identifier')
                self.exp('pkid', ('int', x), ('C14', 'C28'))
                self.exp('reason', ('enum', {'Success': TRUE}), ('C27', 'C14'))
                self.exp('properties', ('none',), ('C27',))
            def short1():
                self.case(lin.test(R, ((3, 3),)))
                x = self.int(2, 'packet identifier')
                self.exp('pkid', ('int', x), ('C14', 'C28'))
                c = self.int(1, 'reason code')
                self.code('reason', T, c, ('C27',))
                self.exp('properties', ('none',), ('C27',))
            def full():
                self.case(lin.test(R, ((4, dd.BIG),)))
                x = self.int(2, 'packet identifier')
                self.exp('pkid', ('int', x), ('C14', 'C28'))
                c = self.int(1, 'reason code')
                self.code('reason', T, c)
                self.section('properties', pk, v + 'Properties')
                self.strict(lin.cmp('Eq', self.p, self.E))
            self.shorts = {0: 'C27', 1: 'C27'}
            return [short0, short1, full]
        if v == 'Disconnect':
            def hdr():
                self.cond(lin.test(lin.mod(b0, 16), EQ0), ('C21',), 'non-zero header flags')
            def short0():
                self.case(lin.test(R, EQ0))
                hdr()
                self.exp('reason_code', ('enum', {'NormalDisconnection': TRUE}), ('C27', 'C14'))
                self.exp('properties', ('none',), ('C27',))
            def short1():
                self.case(lin.test(R, ((1, 1),)))
                hdr()
                self.code('reason_code', 'DisconnectReasonCode', self.int(1, 'reason code'), ('C27',))
                self.exp('properties', ('none',), ('C27',))
            def full():
                self.case(lin.test(R, ((2, dd.BIG),)))
                hdr()
                self.code('reason_code', 'DisconnectReasonCode', self.int(1, 'reason code'))
                self.section('properties', pk, 'DisconnectProperties')
                self.strict(lin.cmp('Eq', self.p, self.E))
            self.shorts = {0: 'C27', 1: 'C27'}
            return [short0, short1, full]
        if v in ('Subscribe', 'Unsubscribe', 'SubAck', 'UnsubAck'):
            name = {'Subscribe': 'filters', 'Unsubscribe': 'filters', 'SubAck': 'return_codes', 'UnsubAck': 'reasons'}[v]
            def f():
                x = self.int(2, 'packet identifier')
                self.exp('pkid', ('int', x), ('C14', 'C28'))
                self.section('properties', pk, v + 'Properties')
                if self.dead:
                    return
                fv = self.acc.field(pk, name)
                self.lists.append((name, self.p, self.ctx, v))
            return [f]
        if v == 'Connect':
            return [self.connect(pk)]
        if v in ('PingReq', 'PingResp'):
            def f():
                self.strict(lin.test(R, EQ0))
            return [f]
        raise Missing('no reference for %s' % v)

    def code(self, field, T, c, also=()):
        table = spec.CODES[T]
        self.cond(self.valid_code(table, c), ('C18',), 'a byte that is no %s' % T)
        self.exp(field, ('enum', self.codes(table, c)), ('C18', 'C14') + also)
        self.codetok = c

    def section(self, field, pk, section):
        x = self.props(None, section)
        if x is not None:
            self.exp(field, x, ('C15', 'C14'))

    def connect(self, pay):
        c, willo, logino = pay
        acc = self.acc
        def f():
            n = self.int(2, 'protocol name length')
            self.cond(lin.test(n, ((4, 4),)), ('C21', 'C28'), 'protocol name of other length')
            p0 = self.p
            self.fits(lin.add(p0, num(4)), 'protocol name')
            for i, ch in enumerate(b'MQTT'):
                self.cond(lin.test(tok(1, lin.add(p0, num(i))), ((ch, ch),)), ('C21',), 'protocol name other than MQTT')
            self.p = lin.add(p0, num(4))
            self.case(self.utf8(View('stream', p0, self.p), self.ctx))      # 'MQTT' is text
            lv = self.int(1, 'protocol level')
            self.cond(lin.test(lv, ((5, 5),)), ('C21',), 'protocol level other than 5')
            fl = self.int(1, 'connect flags')
            self.strict(lin.test(lin.mod(fl, 2), EQ0))
            bit = lambda i: lin.test(lin.mod(lin.div(fl, 1 << i), 2), ((1, 1),))
            will = bit(2)
            wq = lin.mod(lin.div(fl, 8), 4)
            self.cond(or_(will, lin.test(wq, EQ0)), ('C21',), 'will QoS without a will')
            self.cond(or_(will, not_(bit(5))), ('C21',), 'will retain without a will')
            self.cond(not_(lin.test(wq, ((3, 3),))), ('C21',), 'will QoS 3')
            self.exp('0.clean_start', ('bool', bit(1)), ('C20', 'C14'))
            self.exp('0.keep_alive', ('int', self.int(2, 'keep alive')), ('C14', 'C28'))
            x = self.props(None, 'ConnectProperties')
            if x is None:
                return
            self.exp('0.properties', x, ('C15', 'C14'))
            self.exp('0.client_id', ('bytes', self.text(self.tyfield(c, 'client_id'), 'client identifier')), ('C14', 'C28'))
            W = implies(self.run.g0, will)
            if not W and and_(self.run.g0, will) is not FALSE:
                raise Missing('partition does not decide the will flag')
            if W:
                wt = self.optinner(willo.ty)
                ws = Sym(wt, 'w')
                self.exp('1', ('some',), ('C14', 'C20'))
                self.exp('1.qos', ('enum', self.qosmap(wq)), ('C20', 'C14'))
                self.exp('1.retain', ('bool', bit(5)), ('C20', 'C14'))
                x = self.props(None, 'LastWillProperties')
                if x is None:
                    return
                self.exp('1.properties', x, ('C15', 'C14'))
                self.exp('1.topic', ('bytes', self.text(self.tyfield(ws, 'topic'), 'will topic')), ('C14', 'C28'))
                self.exp('1.message', ('bytes', self.text(self.tyfield(ws, 'message'), 'will payload')), ('C14', 'C28'))
            else:
                self.exp('1', ('none',), ('C14', 'C20'))
            U = implies(self.run.g0, bit(7))
            P = implies(self.run.g0, bit(6))
            if U or P:
                ls = Sym(self.optinner(logino.ty), 'l')
                u = self.text(self.tyfield(ls, 'username'), 'user name') if U else None
                w = self.text(self.tyfield(ls, 'password'), 'password') if P else None
                some = FALSE        # credentials that are both empty become absent
                for x in (u, w):
                    if x is not None:
                        some = or_(some, lin.cmp('Lt', x.pos, x.end))
                self.exp('2', ('opt', some), ('C14', 'C20'))
                for nm, x in (('2.username', u), ('2.password', w)):
                    if x is not None:
                        self.exp(nm, ('bytes', x), ('C14', 'C28', 'C20'), some)
                    else:
                        self.exp(nm, ('empty',), ('C14', 'C20'), some)
            else:
                self.exp('2', ('none',), ('C14', 'C20'))
            self.strict(lin.cmp('Eq', self.p, self.E))
        return f

    # -------------------------------------------------------------- the check
    def check(self):
        run, I, acc = self.run, self.I, self.acc
        if run.r is None:
            self.event(('C21', 'C01'), self.variant, 'decoding never returns', run.g0)
            return self
        r, s = I.expand(run.r), run.s
        iok, ierr = acc.variant(r, 'Ok'), acc.variant(r, 'Err')
        self.okg = and_(s.g, dd.when(r.discr, iok))
        self.errg = and_(s.g, dd.when(r.discr, ierr))
        self.ms = self.no_limit(run)
        K = self.K = self.okg
        pay = r.pay.get(iok)
        pkt = I.expand(pay[0]) if pay else None
        self.err = I.expand(r.pay[ierr][0]) if r.pay.get(ierr) else None
        # field types come from the declared packet type
        pti = I.types[r.ty]['variants'][iok]['fields'][0]['ty']
        decl = I.expand(Sym(pti, 'decl'))
        vi = acc.variant(decl, self.variant)
        sh = decl.pay.get(vi)
        self.K0 = TRUE
        shape = None
        if self.variant == 'Connect':
            shape = list(sh)
        elif sh:
            shape = sh[0]
        # the packet type
        if pkt is not None and type(pkt) is Enum:
            bad = and_(K, not_(dd.when(pkt.discr, vi)))
            if bad is not FALSE:
                self.event(('C19', 'C14'), 'packet type', 'a %s frame is decoded as another packet type' % self.variant, bad)
            else:
                self.ok('C19')
            val = pkt.pay.get(vi)
        elif pkt is not None:
            self.unsure(('C19',), 'packet type', 'the decoded packet could not be followed')
            val = None
        else:
            val = None
        R = lin.vbi('stream', num(1))
        self.shorts = {}
        for i in range(len(self.mk(shape))):
            self.start()
            self.codetok = None
            fn = self.mk(shape)[i]
            self.K0 = TRUE
            self.ctx = TRUE
            try:
                fn()
            except Stop:
                self.dead = True
            self.one_case(i, val, shape)
        if self.variant not in ('PingReq', 'PingResp', 'Disconnect'):
            x = and_(K, lin.test(R, EQ0))
            if x is not FALSE and self.event(('C19', 'C26'), 'empty body', 'a %s frame with empty body is accepted' % self.variant, x):
                pass
            else:
                self.ok('C19')
        self.frame_only(K, val)
        return self

    def mk(self, shape):
        return self.walk_cases(shape)

    def no_limit(self, run):
        """guard: no size limit is given"""
        v = dd.VARS.get('max_size#')
        return dd.test(v, ((0, 0),)) if v is not None else TRUE

    def one_case(self, ci, val, shape):
        I, acc, K = self.I, self.acc, self.K
        casenames = '%s%s' % (self.variant, '' if ci == 0 else ' form %d' % ci)
        Kc = K
        # conditions
        A = self.ms
        A = and_(A, self.run.g0)
        first = None
        for ctx, g, labels, text in self.conds:
            self.items += 1
            x = and_(and_(K, ctx), not_(g))
            if x is FALSE:
                self.ok(*labels)
            elif self.event(labels, text, 'a %s frame is accepted although: %s' % (self.variant, text), x):
                pass
        ctx = self.ctx
        # sections
        secdone = self.prior = TRUE
        self.secK = {}
        self.turned = set()
        for s in self.secs:
            self.section_loop(s, and_(K, ctx), val)
            if s.loop is None:
                if s.unread is not None:
                    secdone = and_(secdone, s.unread)
                continue
            secdone = and_(secdone, or_(not_(s.present), s.finished))
            self.prior = secdone
        # lists
        listdone = TRUE
        for name, p, lctx, v in self.lists:
            listdone = and_(listdone, self.list_loop(name, p, and_(K, ctx), val, v, lctx))
        # acceptance
        A = and_(A, ctx)
        for g in self.stricts:
            A = and_(A, g)
        if self.stuck is False and not self.dead:
            A = and_(and_(A, secdone), listdone)
            if A is not FALSE:
                x = and_(A, not_(self.at_exit(K)))
                self.items += 1
                labels = {'C21'}
                if x is not FALSE:
                    if ci in self.shorts:
                        labels.add('C27')
                    if self.codetok is not None:
                        t = lin.test(self.codetok, TRUEset(self.codetok))
                        pa, px = self.support_vals(A, self.codetok), self.support_vals(x, self.codetok)
                        if pa != px:
                            labels.add('C18')
                    for s in self.secs:
                        if and_(x, not_(s.present)) is FALSE:
                            labels |= {'C15', 'C22'}
                    self.event(labels, 'acceptance', 'a well-formed %s frame is refused: %s' % (self.variant, self.errname(x)), x)
                else:
                    self.ok('C21')
                    if ci in self.shorts:
                        self.ok('C27')
                    if self.codetok is not None:
                        self.ok('C18')
        # fields
        if val is None:
            if K is not FALSE and self.variant not in ('PingReq', 'PingResp'):
                self.unsure(('C14',), 'fields', 'no decoded value')
            return
        for name, want, labels, when in self.expect:
            g = and_(and_(K, ctx), when)
            if g is FALSE:
                continue
            self.field_check(name, want, labels, g, val)

    def support_vals(self, g, c):
        s = c.single()
        if s is None:
            return None
        v = dd.VARS.get(s[0].name)
        return dd.values(g, v) if v is not None and v in dd.support(g) else None

    stuck = False
    def errname(self, g):
        e = self.err
        if type(e) is not Enum:
            return 'error'
        vs = self.I.types[e.ty]['variants']
        return ', '.join(sorted(vs[x]['name'] for x in dd.leaves(e.discr) if and_(g, dd.when(e.discr, x)) is not FALSE)[:4]) or 'error'

    # -------------------------------------------------------------- fields
    def pick(self, name, val):
        """value (unexpanded) of a dotted field of the packet's payload; options are opened"""
        parts = name.split('.')
        if self.variant == 'Connect':
            v = val[int(parts[0])]
            parts = parts[1:]
        else:
            v = val[0]
        for p in parts:
            v = self.open(v)
            v = self.rawfield(v, p)
        return v
    def open(self, v):
        e = self.I.expand(v)
        if type(e) is Enum and self.I.types[e.ty]['path'].endswith('option::Option'):
            pl = e.pay.get(1)
            if not pl:
                return None
            return pl[0]
        return v
    def rawfield(self, v, name):
        if v is None:
            return None
        ti = v.ty
        fs = self.I.types[ti]['variants'][0]['fields']
        for i, f in enumerate(fs):
            if f['name'] == name:
                if type(v) is Agg:
                    return v.f[i]
                return self.I.proj(v, ('.', i))
        raise Missing('field %s of %s' % (name, self.I.types[ti]['path']))

    def field_check(self, name, want, labels, g, val):
        self.items += 1
        nm = '%s.%s' % (self.variant, name)
        v = self.pick(name, val)
        if v is None:
            self.event(labels, nm, '%s is absent' % nm, g)
            return
        if want[0] == 'props':
            self.props_field(nm, want[1], g, v)
            return
        bad, imp, got = self.mismatch(want, v, g)
        if bad is None:
            self.unsure(labels, nm, '%s is %s' % (nm, got))
        elif bad is FALSE:
            self.ok(*labels)
        else:
            self.event(labels, nm, '%s is decoded as %s, expected %s' % (nm, got, showwant(want)), bad, imp)

    def mismatch(self, want, v, g):
        """(guard of disagreement | None when it cannot be told, imprecise, description)"""
        k = want[0]
        v = self.I.expand(v) if not isinstance(v, (Lin, dd.Node)) else v
        if type(v) is Sym:
            v = self.I.expand(v)
        if k == 'int':
            if type(v) is not Lin:
                return None, True, type(v).__name__
            d = differ(v, want[1], g)
            return d, imprecise(v), lin.fmt(lin.tidy(v, g))[:100]
        if k == 'bool':
            if not isinstance(v, dd.Node):
                return None, True, type(v).__name__
            return and_(g, xor(v, want[1])), imprecise(v), 'a condition on other bits'
        if k == 'enum':
            if type(v) is not Enum:
                return None, True, type(v).__name__
            vs = self.I.types[v.ty]['variants']
            bad = FALSE
            got = []
            for i, x in enumerate(vs):
                exp = want[1].get(x['name'], FALSE)
                b = and_(g, and_(dd.when(v.discr, i), not_(exp)))
                if b is not FALSE:
                    bad = or_(bad, b)
                    got.append(x['name'])
            for nme in want[1]:
                if nme not in [x['name'] for x in vs]:
                    raise Missing('variant %s of %s' % (nme, self.I.types[v.ty]['path']))
            return bad, imprecise(v.discr), ' or '.join(got[:3])
        if k == 'opt':
            if type(v) is not Enum:
                return None, True, type(v).__name__
            x = and_(g, xor(dd.when(v.discr, self.acc.variant(v, 'Some')), want[1]))
            return x, imprecise(v.discr), 'absent' if and_(x, want[1]) is not FALSE else 'present'
        if k in ('none', 'some'):
            if type(v) is not Enum:
                return None, True, type(v).__name__
            i = self.acc.variant(v, 'Some')
            some = dd.when(v.discr, i)
            return and_(g, some if k == 'none' else not_(some)), imprecise(v.discr), 'present' if k == 'none' else 'absent'
        if k == 'empty':
            if type(v) not in (View, Blob):
                return None, True, type(v).__name__
            n = self.I.length(v)
            return and_(g, not_(lin.test(n, EQ0))), imprecise(n), 'non-empty'
        if k == 'bytes':
            w = want[1]
            alts = [(TRUE, v)] if type(v) is View else [(dd.when(v.node, x), x) for x in dd.leaves(v.node)] if type(v) is Blob else None
            if alts is None:
                return None, True, type(v).__name__
            bad, imp, got = FALSE, False, ''
            for c, x in alts:
                gg = and_(g, c)
                if gg is FALSE:
                    continue
                if x.src != w.src:
                    if x.pos == x.end:
                        b = and_(gg, not_(lin.cmp('Eq', w.pos, w.end)))
                    else:
                        b = gg
                else:
                    b = or_(differ(x.pos, w.pos, gg), differ(x.end, w.end, gg))
                    if b is not FALSE:      # both empty?
                        b = and_(b, not_(and_(lin.cmp('Eq', w.pos, w.end), lin.cmp('Eq', x.pos, x.end))))
                if b is not FALSE:
                    bad = or_(bad, b)
                    imp = imp or imprecise(x)
                    got = 'bytes %s..%s of %s' % (lin.fmt(x.pos)[:60], lin.fmt(x.end)[:60], x.src[:30])
            return bad, imp, got
        raise Missing('expectation %s' % k)

    # -------------------------------------------------------------- loops
    def loop_toks(self, L):
        """(atom, head-substituted position) of the input integers a round looks at"""
        heads = set(d['atom'] for d in L.heads.values() if d['atom'])
        for d in L.heads.values():
            if d['kind'] == 'lin' and d['cur'].atoms():
                heads |= set(k for k in d['cur'].t if k != lin.ONE and ATOMS[k].kind == 'head')
        out = {}
        gs = [L.back.g] + [s.g for _, s in L.exits if s is not None]
        for g in gs:
            for v in dd.support(g):
                m = v.meta
                for a in tok_atoms(m):
                    p = a.args[2]
                    if any(lin.mentions(p, h) for h in heads):
                        out[a.name] = a
        return out, heads

    def init_map(self, L):
        return {d['atom']: d['init'] for d in L.heads.values() if d['kind'] == 'lin' and d['atom'] and isinstance(d['init'], Lin)}

    def at_exit(self, g):
        """g with the equalities known about the state in which loops were left"""
        for c, m in self.I.rec.eqs:
            if and_(g, c) is FALSE:
                continue
            for a, x in m.items():
                t = lin.test(lin.sub(lin.of_atom(ATOMS[a]), x), EQ0)
                g = and_(g, or_(not_(c), t))
        return g

    def find_loop(self, start, g):
        """the loop whose first round starts at position start, and the position form at the head of a round"""
        best = None
        for L in self.I.rec.loops:
            if L.back is None or and_(L.entry.g, g) is FALSE:
                # loops of other cases
                if and_(L.entry.g, self.run.g0) is FALSE:
                    continue
            toks, heads = self.loop_toks(L)
            m = self.init_map(L)
            if not m:
                continue
            for a in toks.values():
                q = lin.subst(a.args[2], m)
                if lin.eq_under(q, start, L.entry.g):
                    return L, a.args[2]
        return None

    def backval(self, L, h):
        d = L.heads[h]
        return _comp(L.back.cells.get(d['comp'][0]), d['comp'][1:])

    def backmap(self, L):
        m = {}
        for h, d in L.heads.items():
            if d['kind'] == 'lin' and d['atom']:
                b = self.backval(L, h)
                if isinstance(b, Lin) and h not in L.uni:
                    m[d['atom']] = b
        return m

    def headname(self, v):
        """the loop head a value is a plain copy of"""
        if type(v) is Sym:
            return v.path
        if type(v) is Enum:
            s = dd.support(v.discr)
            if len(s) == 1:
                n = next(iter(s)).name
                o = self.I.expand(Sym(v.ty, n[:-1])) if n.endswith('#') else None
                if o is not None and v.discr is o.discr and all(self.alike(x, y) for k in o.pay for x, y in zip(v.pay.get(k, ()), o.pay[k])):
                    return n[:-1]
        if type(v) is VecV and v.base and v.base[0] == 'head' and v.push is EMPTY:
            return v.base[1]
        if type(v) is VecV and v.base and v.base[0] == 'map' and v.push is EMPTY:
            return v.base[4]        # one entry per round, the number of rounds known
        return None

    def alike(self, a, b):
        if same(a, b):
            return True
        a = self.I.expand(a) if type(a) is Sym else a
        b = self.I.expand(b) if type(b) is Sym else b
        if type(a) is Enum and type(b) is Enum:
            return a.discr is b.discr and all(self.alike(x, y) for k in b.pay for x, y in zip(a.pay.get(k, ()), b.pay[k]))
        if type(a) is Agg and type(b) is Agg:
            return len(a.f) == len(b.f) and all(self.alike(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, dd.Node):
            return a is b
        return same(a, b)

    CHANGES = {'reverse': 'reversed', 'sort': 'sorted', 'dedup': 'stripped of repetitions', 'truncate': 'cut short'}
    def uses_front(self, v):
        if type(v) is not VecV or not v.base:
            return False
        if v.base[0] == 'ite':
            return self.uses_front(v.base[2]) or self.uses_front(v.base[3])
        return v.base[0] == 'op' and v.base[1] == 'front'
    def under(self, v, g):
        """the alternative of a list that holds under a guard"""
        while type(v) is VecV and v.base and v.base[0] == 'ite' and v.push is EMPTY:
            if and_(g, v.base[1]) is FALSE:
                v = v.base[3]
            elif and_(g, not_(v.base[1])) is FALSE:
                v = v.base[2]
            else:
                break
        return v
    def extension(self, L, h, b, g, labels, item, where, fn):
        """[(guard, entry)] a round adds to the list kept in h, or None when that has been reported"""
        b = self.under(b, g)
        if type(b) is VecV and b.base and b.base[0] == 'ite' and b.push is EMPTY:
            out = []
            for x, c in ((b.base[2], b.base[1]), (b.base[3], not_(b.base[1]))):
                r = self.extension(L, h, x, and_(g, c), labels, item, where, fn)
                if r is None:
                    return None
                out += [(and_(c, p), e) for p, e in r]
            return out
        if type(b) is VecV and b.base == ('head', h):
            return b.push.items()
        if type(b) is VecV and b.push is EMPTY and b.base and b.base[0] == 'op' and b.base[1] == 'front' and type(b.base[2]) is VecV \
                and b.base[2].base == ('head', h) and b.base[2].push is EMPTY:
            if (L, h) not in self.turned:
                self.event(labels, item, 'the entries are kept in reverse order', g, where=where, fn=fn)
            return [(TRUE, b.base[3])]
        if type(b) is VecV and b.base and b.base[0] == 'op' and b.base[1] in ('retain', 'truncate', 'dedup', 'sort', 'set') and type(b.base[2]) is VecV \
                and b.base[2].base == ('head', h) and b.base[2].push is EMPTY:
            x = and_(g, b.base[3]) if b.base[3] is not None else g
            if x is not FALSE:
                self.event(labels, item, 'what earlier rounds have stored is changed', x, where=where, fn=fn)
                return None
            return b.push.items()
        if type(b) is VecV and b.base is None:
            self.event(labels, item, 'the list is replaced instead of extended', g, where=where, fn=fn)
            return None
        self.unsure(labels, item, 'its value after a round could not be followed')
        return None
    def peel(self, v, g, labels, item, where='', fn='', L=None):
        """v with what is done to the decoded list after its loop taken off and reported"""
        v = self.I.expand(v) if type(v) is Sym else v
        if type(v) is not VecV:
            return v
        found = []
        def go(v, g, ops):
            if g is FALSE:
                return []
            if type(v) is VecV and v.base and v.base[0] == 'ite' and v.push is EMPTY:
                return go(v.base[2], and_(g, v.base[1]), ops) + go(v.base[3], and_(g, not_(v.base[1])), ops)
            if type(v) is VecV and v.base and v.base[0] == 'op' and v.push is EMPTY:
                op = v.base[1] if v.base[1] != 'truncate' or v.base[4].const() is not None else 'cut'
                return go(v.base[2], g, ops + [(op, v.base[3])])
            if type(v) is VecV and v.base and v.base[0] in ('head', 'map') and v.push is not EMPTY:
                x = FALSE
                for c, e in v.push.items():
                    x = or_(x, and_(g, c))
                return go(VecV(v.base, EMPTY, v.len), g, ops + [('push', x)])
            return [(g, v, ops)]
        alts = go(v, g, [])
        names = set(self.headname(x[1]) for x in alts)
        if len(names) != 1 or None in names or all(not ops for _, _, ops in alts):
            return v
        if all([o for o, _ in ops] == ['reverse'] for _, _, ops in alts) and L is not None:
            self.turned.add((L, next(iter(names))))
            b = self.backval(L, next(iter(names)))
            if self.uses_front(b):
                return alts[0][1]
        for gg, x, ops in alts:
            if not ops:
                continue
            if len(ops) > 1:
                self.unsure(labels, item, 'the list is changed more than once after it is decoded')
                continue
            op, c = ops[0]
            if op not in self.CHANGES and op != 'push':
                self.unsure(labels, item, 'what is done to the list after it is decoded was not followed')
                continue
            gg = and_(gg, c) if c is not None else gg
            if gg is FALSE:
                continue
            if op == 'push':
                self.event(labels, item, 'an entry that is not on the wire is added to the decoded list', gg, where=where, fn=fn, after=True)
            else:
                self.event(labels, item, 'the decoded list is %s' % self.CHANGES[op], gg, where=where, fn=fn, after=True)
        return alts[0][1]

    def peel_option(self, v, g, labels, item, heads, conds, wire, where='', fn=''):
        """the loop head a decoded property comes from when it is changed after the loop, and that change reported"""
        v = self.I.expand(v) if type(v) is Sym else v
        if type(v) is not Enum:
            return None
        names = set()
        seen = [x.name for x in dd.support(v.discr)]
        for pl in v.pay.values():
            for q in pl:
                if type(q) is Lin:
                    for k, c in q.t.items():
                        seen.append(k)
                        seen += [x.name for x in dd.support(c)]
                elif type(q) is View:
                    seen.append(q.src)
        for x in seen:
            for h in heads:
                if x.startswith(h) and x[len(h):len(h) + 1] in ('#', '.'):
                    names.add(h)
        if len(names) != 1:
            return None
        h = names.pop()
        if heads[h]['kind'] != 'enum' or type(heads[h]['cur']) is not Sym or heads[h]['cur'].ty != v.ty:
            return None
        o = self.I.expand(heads[h]['cur'])
        i = self.acc.variant(v, 'Some')
        b = o.pay[i][0] if o.pay.get(i) else None
        b = self.I.expand(b) if type(b) is Sym else b
        if type(b) is Lin and wire[0] == 'int' and wire[1].single():
            # only what is accepted on the wire can have been stored
            m = {wire[1].single()[0].name: b}
            for c, _, _ in conds:
                if not isinstance(c, tuple) and all(x.name == next(iter(m)) for x in dd.support(c)):
                    g = and_(g, or_(not_(dd.when(o.discr, i)), lin.subst_guard(c, m)))
        x = and_(g, xor(dd.when(v.discr, i), dd.when(o.discr, i)))
        if x is not FALSE:
            self.event(labels, item, 'the decoded property is %s after all have been read' % ('dropped' if and_(x, dd.when(o.discr, i)) is not FALSE else 'made up'),
                       x, imprecise(v.discr), where, fn, after=True)
        g = and_(g, and_(dd.when(v.discr, i), dd.when(o.discr, i)))
        if g is not FALSE and v.pay.get(i) and o.pay.get(i):
            a, b = v.pay[i][0], o.pay[i][0]
            a = self.I.expand(a) if type(a) is Sym else a
            b = self.I.expand(b) if type(b) is Sym else b
            if type(b) is Lin:
                w = ('int', b)
            elif type(b) is View:
                w = ('bytes', b)
            elif isinstance(b, dd.Node):
                w = ('bool', b)
            else:
                w = None
            if w is None:
                self.unsure(labels, item, 'what becomes of it after all have been read was not followed')
            else:
                self.cmp_value(labels, item, w, a, g, where, fn, after=True)
        return h

    def property_cases(self, section, X0, end, st):
        """pid -> (field, wire, id guard, [(cond, labels, text)], value, next position)"""
        idt = tok(1, X0)
        out = {}
        for pid, name in spec.SECTIONS[section].items():
            wire = spec.PROPERTY_TYPES[pid][1]
            g = lin.test(idt, ((pid, pid),))
            p = lin.add(X0, num(1))
            conds = []
            def upto(q, what):
                conds.append((lin.cmp('Le', q, end), ('C22', 'C26'), what + ' reaches past the property section'))
            def fixed(w):
                nonlocal p
                q = lin.add(p, num(w))
                upto(q, name)
                v = tok(w, p)
                p = q
                return v
            def text(istxt, what):
                nonlocal p
                n = fixed(2)
                q = lin.add(p, n)
                upto(q, what)
                w = View('stream', p, q)
                p = q
                if istxt:
                    conds.append((('utf8', w), ('C23',), what + ' is not valid UTF-8'))
                return w
            fti = self.tyfield(Sym(st, 's'), name)
            if wire in ('u8', 'u16', 'u32'):
                val = ('int', fixed({'u8': 1, 'u16': 2, 'u32': 4}[wire]))
            elif wire == 'vbi':
                tv, size, okc = varint_template('stream', p)
                conds.append((okc, ('C06',), 'malformed variable byte integer'))
                val = ('int', lin.vbi('stream', p))
                p = lin.add(p, size)
                upto(p, name)
            elif wire in ('str', 'bin'):
                val = ('bytes', text(self.I.is_str(self.optinner(fti)), name))
            elif wire == 'pair':
                et = self.I.types[self.I.types[fti]['args'][0]]['elems']
                a = text(self.I.is_str(et[0]), name + ' name')
                b = text(self.I.is_str(et[1]), name + ' value')
                val = ('pair', a, b)
            out[pid] = (name, wire, g, conds, val, p)
        return out

    def resolve(self, c, g):
        if isinstance(c, tuple):
            return self.utf8(c[1], g)
        return c

    def section_loop(self, s, K, val):
        s.loop = None
        s.unread = None
        s.finished = FALSE
        s.fields = {}
        I = self.I
        f = self.find_loop(s.start, and_(K, s.present))
        if f is None:
            x = and_(K, s.present)
            if x is not FALSE and feas.feasible(x):
                self.unsure(('C15', 'C16', 'C17', 'C22', 'C23'), s.name, 'the loop over %s could not be followed' % s.name)
            self.stuck = True
            return
        L, X0 = f
        s.loop, s.X0 = L, X0
        self.reach |= lin.atoms_of_kind(X0, 'head')
        self.sections += 1
        where, fn = L.span, L.fn
        nm = s.name
        st = None
        for i, t in enumerate(I.types):
            if t['k'] == 'adt' and t['path'].split('::')[-1] == s.name:
                st = i
        if st is None:
            raise Missing('struct %s' % s.name)
        cases = self.property_cases(s.name, X0, s.end, st)
        idt = tok(1, X0)
        allowed = dd.iset(*[(p, p) for p in cases])
        s.allowed = lin.test(idt, allowed)
        inside = lin.cmp('Lt', X0, s.end)
        atend = lin.cmp('Eq', X0, s.end)
        # everything before the section is well formed and the frame is complete
        around = and_(and_(s.ctx, self.ms), and_(and_(self.run.g0, s.present), self.prior))
        outs = [(j, t, dict(L.exits)[t]) for j, t in enumerate(L.live)]
        def ex(j):
            return dd.test(L.exitvar, ((j, j),)) if L.exitvar is not None else TRUE
        # which exits may lead to a decoded packet
        good = [j for j, t, e in outs if and_(K, and_(s.present, ex(j))) is not FALSE]
        # C22: leaving the section exactly at its end
        for j, t, e in outs:
            if j not in good:
                continue
            x = and_(self.at_exit(and_(K, and_(s.present, ex(j)))), not_(atend))
            if x is not FALSE:
                # user properties can bring the reader to any position from five bytes on
                far = and_(x, lin.cmp('Ge', X0, lin.add(s.start, num(64))))
                self.event(('C22',), nm, 'a packet is accepted although its properties do not end exactly at the declared property length',
                           far if feas.feasible(far) else x, where=where, fn=fn, after=feas.feasible(far))
            else:
                self.ok('C22')
            s.finished = or_(s.finished, ex(j))
        s.finished = and_(s.finished, atend)
        # refusals of a well-formed property
        heads = {}
        for h, d in L.heads.items():
            heads[h] = d
        fieldhead = {}
        g = and_(K, s.present)
        pv = None
        for name, want, labels, fctx in self.expect:
            if want[0] == 'props' and want[1] is s and val is not None:
                pv = self.open(self.pick(name, val))
        if pv is not None:
            for pid, (name, wire, ig, conds, v, nxt) in cases.items():
                fv = self.rawfield(pv, name)
                fg = self.at_exit(g)
                lab = ('C15', 'C16')
                h = self.headname(self.peel(fv, fg, lab, '%s.%s' % (s.name, name), where, fn, L))
                if h not in heads:
                    h = self.peel_option(fv, fg, lab, '%s.%s' % (s.name, name), heads, conds, v, where, fn)
                if h in heads:
                    fieldhead[name] = h
        s.pv = pv
        s.fieldhead = fieldhead
        G = and_(L.back.g, inside)
        backm = self.backmap(L)
        X1 = self.backpos(L, X0, backm)
        for j, t, e in outs:
            eg = and_(e.g, inside)
            # identifiers MQTT does not allow here
            x = and_(eg, not_(s.allowed))
            if j in good and x is not FALSE and feas.feasible(x):
                # still in the section with a bad identifier and on an accepting exit
                self.event(('C17',), nm, 'a property identifier MQTT 5 does not allow in %s ends the section without an error' % nm, x, where=where, fn=fn)
            elif x is not FALSE and j not in good:
                self.bad_id_error(s, j, and_(ex(j), x), x, idt, where, fn)
        x = and_(and_(G, not_(s.allowed)), self.all_unset(s, cases, st))
        if x is not FALSE:
            self.event(('C17',), nm, 'a property identifier MQTT 5 does not allow in %s is accepted' % nm, x, where=where, fn=fn)
        else:
            self.ok('C17')
        for pid, (name, wire, ig, conds, v, nxt) in cases.items():
            self.items += 1
            self.rounds += 1
            fh = fieldhead.get(name)
            base = and_(and_(inside, ig), around)
            if fh is None:
                unset = TRUE
            else:
                unset = self.unset(L, fh)
            item = '%s.%s' % (nm, name)
            # a valid property must not be refused
            vg = base
            cs = []
            for c, labels, text in conds:
                c = self.resolve(c, and_(G, ig))
                cs.append((c, labels, text))
                vg = and_(vg, c)
            for j, t, e in outs:
                x = and_(and_(e.g, vg), unset)
                if x is FALSE or not feas.feasible(x):
                    self.ok('C17')
                    continue
                if j in good:
                    self.unsure(('C15', 'C17'), item, 'the section loop is left in the middle')
                    continue
                lab = ('C17', 'C15') if wire not in ('vbi',) else ('C17', 'C15', 'C06')
                self.event(lab, item, 'a well-formed %s is refused' % name, x, where=where, fn=fn)
            # an ill-formed text must not be accepted
            gb = and_(and_(G, ig), unset)
            ctx = gb
            for c, labels, text in cs:
                if 'C22' in labels:
                    continue        # caught at the end of the section
                x = and_(ctx, not_(c))
                if x is not FALSE:
                    self.event(labels, item, 'accepted although: %s' % text, x, where=where, fn=fn)
                else:
                    self.ok(*labels)
                ctx = and_(ctx, c)
            gb = and_(L.back.g, and_(vg, unset))
            if gb is FALSE:
                continue
            # the position after it
            if X1 is not None:
                x = differ(X1, nxt, gb)
                if x is not FALSE:
                    self.event(('C22', 'C16', 'C15'), item, '%s is taken to end at %s, expected %s' % (name, lin.fmt(lin.tidy(X1, x))[:80], lin.fmt(nxt)[:80]),
                               x, imprecise(X1), where, fn)
                else:
                    self.ok('C22', 'C16')
            # the value
            if fh is None:
                continue
            self.stored(L, fh, item, wire, v, gb, where, fn)
            for n2, h2 in fieldhead.items():
                if n2 != name:
                    self.unchanged(L, h2, '%s.%s' % (nm, n2), name, gb, where, fn)
        # initial values
        for name, h in fieldhead.items():
            self.initial(L, h, '%s.%s' % (nm, name), where, fn)

    def all_unset(self, s, cases, st):
        return TRUE

    def unset(self, L, h):
        d = L.heads[h]
        if d['kind'] == 'enum':
            e = self.I.expand(d['cur'])
            if type(e) is Enum and self.I.types[e.ty]['path'].endswith('option::Option'):
                return dd.when(e.discr, 0)
        return TRUE

    def backpos(self, L, X0, backm):
        return lin.subst(X0, backm) if backm else X0

    def bad_id_error(self, s, j, exg, eg, idt, where, fn):
        """the error for an identifier that is not allowed"""
        e = self.err
        if type(e) is not Enum or self.run.s is None:
            return
        i = self.acc.variant(e, 'InvalidPropertyType')
        g = and_(and_(self.errg, exg), and_(s.present, and_(lin.cmp('Lt', s.X0, s.end), not_(s.allowed))))
        g = and_(and_(g, self.prior), and_(s.ctx, self.ms))
        if g is FALSE or not feas.feasible(g):
            return
        bad = and_(g, not_(dd.when(e.discr, i)))
        if bad is not FALSE and self.event(('C17',), s.name, 'a property identifier that is not allowed is refused with %s instead of InvalidPropertyType' % self.errname(bad),
                                           bad, where=where, fn=fn):
            return
        pl = e.pay.get(i)
        if pl:
            v = self.I.expand(pl[0])
            d = differ(v, idt, and_(g, dd.when(e.discr, i))) if type(v) is Lin else g
            if d is not FALSE:
                self.event(('C17',), s.name, 'the error names %s instead of the identifier read' % (lin.fmt(v)[:60] if type(v) is Lin else v), d, imprecise(v), where, fn)
                return
        self.ok('C17')

    def stored(self, L, h, item, wire, want, g, where, fn):
        d = L.heads[h]
        b = self.backval(L, h)
        labels = ('C15', 'C16')
        if b is None:
            self.unsure(labels, item, 'its value after a round could not be followed')
            return
        if d['kind'] == 'vec':
            it = self.extension(L, h, b, g, labels, item, where, fn)
            if it is None:
                return
            mine = [(c, e) for c, e in it if and_(g, c) is not FALSE]
            if len(mine) != 1 or and_(g, not_(mine[0][0])) is not FALSE:
                tot = FALSE
                for c, e in mine:
                    tot = or_(tot, c)
                miss = and_(g, not_(tot))
                if miss is not FALSE:
                    self.event(labels, item, 'the property is read but not stored', miss, where=where, fn=fn)
                    return
                both = FALSE
                for a in range(len(mine)):
                    for c in range(a):
                        both = or_(both, and_(g, and_(mine[a][0], mine[c][0])))
                if both is not FALSE:
                    self.event(labels, item, 'the property is stored more than once', both, where=where, fn=fn)
                    return
            for c, e in mine:
                gg = and_(g, c)
                if want[0] == 'pair':
                    e = self.I.expand(e)
                    parts = list(zip(('name', 'value'), want[1:], e.f)) if type(e) is Agg else None
                    if parts is None:
                        self.unsure(labels, item, 'the stored pair could not be followed')
                        continue
                    for nm, w, x in parts:
                        self.cmp_value(labels + ('C28',), '%s %s' % (item, nm), ('bytes', w), x, gg, where, fn)
                else:
                    self.cmp_value(labels, item, want, e, gg, where, fn)
            return
        e = self.I.expand(b)
        if type(e) is not Enum:
            self.unsure(labels, item, 'its value after a round could not be followed')
            return
        some = dd.when(e.discr, 1)
        x = and_(g, not_(some))
        if x is not FALSE and self.event(labels, item, 'the property is read but not stored', x, imprecise(e.discr), where, fn):
            return
        if not e.pay.get(1):
            return
        self.cmp_value(labels, item, want, e.pay[1][0], and_(g, some), where, fn)

    def cmp_value(self, labels, item, want, v, g, where, fn, after=False):
        bad, imp, got = self.mismatch(want, v, g)
        if bad is None:
            self.unsure(labels, item, 'the stored value is %s' % got)
        elif bad is FALSE:
            self.ok(*labels)
        else:
            self.event(labels, item, '%s is stored as %s, expected %s' % (item, got, showwant(want)), bad, imp, where, fn, after=after)

    def unchanged(self, L, h, item, other, g, where, fn):
        d = L.heads[h]
        b = self.backval(L, h)
        labels = ('C15', 'C16')
        if d['kind'] == 'vec':
            b = self.under(b, g)
            if type(b) is not VecV or b.base not in (None, ('head', h)):
                self.unsure(labels, item, 'whether reading %s changes it could not be told' % other)
            elif b.base is not None:
                for c, e in b.push.items():
                    x = and_(g, c)
                    if x is not FALSE:
                        self.event(labels, item, 'reading %s adds to %s' % (other, item), x, where=where, fn=fn)
                        return
                self.ok('C15')
            else:
                self.event(labels, item, 'reading %s replaces %s' % (other, item), g, where=where, fn=fn)
            return
        if b is d['cur'] or same(b, d['cur']):
            self.ok('C15')
            return
        e, c = self.I.expand(b), self.I.expand(d['cur'])
        if type(e) is Enum and type(c) is Enum:
            x = FALSE
            for i in set(dd.leaves(e.discr)) | set(dd.leaves(c.discr)):
                x = or_(x, and_(g, xor(dd.when(e.discr, i), dd.when(c.discr, i))))
            if x is FALSE and 1 in dd.leaves(e.discr):
                gg = and_(g, dd.when(e.discr, 1))
                if gg is not FALSE and e.pay.get(1) and c.pay.get(1):
                    a, o = self.I.expand(e.pay[1][0]), self.I.expand(c.pay[1][0])
                    if type(a) is Lin and type(o) is Lin:
                        x = differ(a, o, gg)
                    elif type(a) is View and type(o) is View and a == o:
                        x = FALSE
                    elif type(a) is Blob:
                        x = FALSE
                        for w in dd.leaves(a.node):
                            if w != o:
                                x = or_(x, and_(gg, dd.when(a.node, w)))
                    elif not same(a, o):
                        x = gg
            if x is FALSE:
                self.ok('C15')
            else:
                self.event(labels, item, 'reading %s changes %s' % (other, item), x, where=where, fn=fn)
            return
        self.unsure(labels, item, 'whether reading %s changes it could not be told' % other)

    def initial(self, L, h, item, where, fn):
        d = L.heads[h]
        i = d['init']
        if d['kind'] == 'vec':
            if type(i) is VecV and i.base is None and i.push is EMPTY:
                self.ok('C15')
            else:
                self.event(('C15',), item, 'the list does not start empty', L.entry.g, where=where, fn=fn)
            return
        e = self.I.expand(i)
        if type(e) is Enum:
            x = and_(L.entry.g, not_(dd.when(e.discr, 0)))
            if x is not FALSE:
                self.event(('C15',), item, 'the property is present before any is read', x, where=where, fn=fn)
            else:
                self.ok('C15')

    def props_field(self, nm, s, g, v):
        e = self.I.expand(v)
        if type(e) is not Enum:
            self.unsure(('C15',), nm, 'not followed')
            return
        some = dd.when(e.discr, self.acc.variant(e, 'Some'))
        x = and_(g, xor(some, s.present))
        if x is not FALSE:
            self.event(('C15', 'C14'), nm, '%s is %s although the property length is %s' % (nm, 'absent' if and_(x, some) is FALSE else 'present',
                       'not zero' if and_(x, some) is FALSE else 'zero'), x)
        else:
            self.ok('C15')
        if s.loop is None or s.pv is None:
            return
        L = s.loop
        g = and_(g, s.present)
        fs = self.I.types[s.pv.ty]['variants'][0]['fields']
        known = set(spec.SECTIONS[s.name].values())
        for f in fs:
            if f['name'] not in known:
                raise Missing('field %s of %s has no property' % (f['name'], s.name))
        for name in known:
            if name not in s.fieldhead:
                fv = self.rawfield(s.pv, name)
                item = '%s.%s' % (s.name, name)
                e = self.I.expand(fv) if not isinstance(fv, (Lin, dd.Node)) else fv
                if type(e) is Enum and and_(g, dd.when(e.discr, 1)) is FALSE or type(e) is VecV and e.base is None and e.push is EMPTY:
                    self.event(('C15', 'C17'), item, '%s is never set by the decoder' % item, g)
                else:
                    self.unsure(('C15', 'C16', 'C17'), item, 'the decoded field could not be traced to the section loop')
        seen = {}
        for name, h in s.fieldhead.items():
            if h in seen:
                self.event(('C15', 'C16'), '%s.%s' % (s.name, name), '%s and %s are decoded from the same property' % (name, seen[h]), g)
            seen[h] = name

    # -------------------------------------------------------------- lists
    def list_cases(self, v, X0):
        """conditions, expected element parts and next position for an entry at X0"""
        E = self.E
        conds = []
        p = X0
        def upto(q, what):
            conds.append((lin.cmp('Le', q, E), ('C26',), what + ' reaches past the frame'))
        if v in ('Subscribe', 'Unsubscribe'):
            q = lin.add(p, num(2))
            upto(q, 'the length of a topic filter')
            n = tok(2, p)
            p, q = q, lin.add(q, n)
            upto(q, 'a topic filter')
            w = View('stream', p, q)
            p = q
        if v == 'Subscribe':
            if self.I.is_str(self.tyfield(self.elemsym, 'path')):
                conds.append((('utf8', w), ('C23',), 'a topic filter is not valid UTF-8'))
            q = lin.add(p, num(1))
            upto(q, 'the subscription options')
            o = tok(1, p)
            p = q
            qq = lin.mod(o, 4)
            rh = lin.mod(lin.div(o, 16), 4)
            conds.append((not_(lin.test(qq, ((3, 3),))), ('C21',), 'QoS 3 in a subscription'))
            conds.append((not_(lin.test(rh, ((3, 3),))), ('C21',), 'retain handling 3'))
            parts = [('path', ('bytes', w), ('C14', 'C28')), ('qos', ('enum', self.qosmap(qq)), ('C20', 'C14')),
                     ('nolocal', ('bool', lin.test(lin.mod(lin.div(o, 4), 2), ((1, 1),))), ('C20', 'C14')),
                     ('preserve_retain', ('bool', lin.test(lin.mod(lin.div(o, 8), 2), ((1, 1),))), ('C20', 'C14')),
                     ('retain_forward_rule', ('enum', {k: lin.test(rh, ((x, x),)) for k, x in spec.RETAIN_HANDLING.items()}), ('C20', 'C14'))]
            strict = lin.test(lin.div(o, 64), EQ0)
            return conds, parts, p, strict
        if v == 'Unsubscribe':
            if self.I.is_str(self.elemsym.ty):
                conds.append((('utf8', w), ('C23',), 'a topic filter is not valid UTF-8'))
            return conds, [('', ('bytes', w), ('C14', 'C28'))], p, TRUE
        T = {'SubAck': 'SubscribeReasonCode', 'UnsubAck': 'UnsubAckReason'}[v]
        table = spec.CODES[T]
        upto(lin.add(p, num(1)), 'a code')
        b = tok(1, p)
        conds.append((self.valid_code(table, b), ('C18',), 'a byte that is no %s' % T))
        m = self.codes(table, b)
        parts = []
        nested = {k: x for k, x in table.items() if isinstance(k, tuple)}
        for (outer, inner), x in nested.items():
            g = lin.test(b, ((x, x),))
            m[outer] = or_(m.get(outer, FALSE), g)
        parts.append(('', ('enum', m), ('C18', 'C14')))
        if nested:
            parts.append(('.pay', ('enum', {k[1]: lin.test(b, ((x, x),)) for k, x in nested.items()}, 'Success'), ('C18', 'C14')))
        return conds, parts, lin.add(p, num(1)), TRUE

    def list_loop(self, name, p, K, val, v, lctx):
        I = self.I
        fv = self.rawfield(val[0], name) if val is not None else None
        vt = None
        decl = None
        f = self.find_loop(p, K)
        item = '%s.%s' % (v, name)
        if f is None or not isinstance(fv, VecV):
            if K is not FALSE:
                self.unsure(('C14', 'C18', 'C21', 'C26'), item, 'the loop over %s could not be followed' % name)
            self.stuck = True
            return TRUE
        L, X0 = f
        where, fn = L.span, L.fn
        st = self.declfield(v, name)
        self.elemsym = Sym(I.types[st]['args'][0], 'e')
        self.reach |= lin.atoms_of_kind(X0, 'head')
        conds, parts, nxt, strict = self.list_cases(v, X0)
        inside = lin.cmp('Lt', X0, self.E)
        atend = lin.cmp('Eq', X0, self.E)
        around = and_(and_(lctx, self.ms), and_(self.run.g0, self.prior))
        outs = [(j, t, dict(L.exits)[t]) for j, t in enumerate(L.live)]
        def ex(j):
            return dd.test(L.exitvar, ((j, j),)) if L.exitvar is not None else TRUE
        good = [j for j, t, e in outs if and_(K, ex(j)) is not FALSE]
        vg = and_(inside, around)
        cs = []
        for c, labels, text in conds:
            c = self.resolve(c, and_(L.back.g, vg))
            cs.append((c, labels, text))
            vg = and_(vg, c)
        fin = FALSE
        for j, t, e in outs:
            if j in good:
                x = and_(self.at_exit(and_(K, ex(j))), not_(atend))
                if x is not FALSE:
                    self.event(('C26', 'C14'), item, 'decoding stops before the end of the frame', x, where=where, fn=fn)
                else:
                    self.ok('C26')
                fin = or_(fin, ex(j))
                x = and_(e.g, and_(vg, strict))
                if x is not FALSE and feas.feasible(x):
                    self.unsure(('C14',), item, 'the list loop is left in the middle')
                continue
            x = and_(e.g, and_(vg, strict))
            if x is not FALSE:
                lab = {'C21', 'C14'}
                if v in ('SubAck', 'UnsubAck'):
                    lab.add('C18')
                self.event(lab, item, 'a well-formed entry of %s is refused' % name, x, where=where, fn=fn)
            else:
                self.ok('C21')
        ctx = and_(L.back.g, inside)
        for c, labels, text in cs:
            self.items += 1
            x = and_(ctx, not_(c))
            if x is not FALSE:
                self.event(labels, item, 'accepted although: %s' % text, x, where=where, fn=fn)
            else:
                self.ok(*labels)
            ctx = and_(ctx, c)
        gb = and_(L.back.g, vg)
        X1 = self.backpos(L, X0, self.backmap(L))
        x = differ(X1, nxt, gb)
        if x is not FALSE:
            self.event(('C14', 'C28'), item, 'an entry is taken to end at %s, expected %s' % (lin.fmt(lin.tidy(X1, x))[:80], lin.fmt(nxt)[:80]), x, imprecise(X1), where, fn)
        else:
            self.ok('C28')
        h = self.headname(self.peel(fv, self.at_exit(K), ('C14',), item, where, fn, L))
        if h not in L.heads:
            self.unsure(('C14', 'C18'), item, 'the decoded list could not be traced to its loop')
            self.stuck = True
            return TRUE
        b = self.backval(L, h)
        ini = L.heads[h]['init']
        if not (type(ini) is VecV and ini.base is None and ini.push is EMPTY):
            self.event(('C14',), item, 'the list does not start empty', L.entry.g, where=where, fn=fn)
        mine = self.extension(L, h, b, gb, ('C14',), item, where, fn)
        if mine is None:
            return fin
        mine = [(c, e) for c, e in mine if and_(gb, c) is not FALSE]
        tot = FALSE
        for c, e in mine:
            x = and_(gb, and_(tot, c))
            if x is not FALSE:
                self.event(('C14',), item, 'an entry is stored more than once', x, where=where, fn=fn)
            tot = or_(tot, c)
        x = and_(gb, not_(tot))
        if x is not FALSE:
            self.event(('C14', 'C18'), item, 'an entry is read but not stored', x, where=where, fn=fn)
        for c, e in mine:
            gg = and_(gb, c)
            for nm, want, labels in parts:
                if nm == '.pay':
                    ee = I.expand(e)
                    if type(ee) is not Enum:
                        continue
                    i = self.acc.variant(ee, want[2])
                    ok = and_(gg, dd.when(ee.discr, i))
                    if ok is not FALSE and ee.pay.get(i):
                        self.cmp_value(labels, item, want[:2], ee.pay[i][0], ok, where, fn)
                elif nm:
                    self.cmp_value(labels, '%s.%s' % (item, nm), want, self.rawfield(e, nm), gg, where, fn)
                else:
                    self.cmp_value(labels, item, want, e, gg, where, fn)
        # entries required
        ln = fv.len
        some = not_(lin.test(ln, EQ0))
        # every round stores one entry and moves on by at least a byte (both checked above)
        some = and_(some, lin.cmp('Lt', p, self.E))
        none = and_(lin.test(ln, EQ0), lin.cmp('Eq', p, self.E))
        if v != 'Unsubscribe':
            x = and_(K, none)
            if x is not FALSE:
                self.event(('C21',), item, 'a %s without entries is accepted' % v, x)
            else:
                self.ok('C21')
        return and_(and_(fin, some), atend)

    def declfield(self, v, name):
        I = self.I
        r = I.expand(self.run.r)
        pti = I.types[r.ty]['variants'][self.acc.variant(r, 'Ok')]['fields'][0]['ty']
        decl = I.expand(Sym(pti, 'decl'))
        s = decl.pay[self.acc.variant(decl, v)][0]
        return self.tyfield(s, name)

    # -------------------------------------------------------------- C04: only the frame's bytes
    def frame_only(self, K, val):
        g = and_(K, TRUE)
        if g is FALSE:
            return
        n = next(iter(self.run.N.t))
        names = [v for v in dd.support(g) if lin.var_mentions(v, n)]
        care = and_(self.run.g0, lin.cmp('Ge', self.run.N, self.E))
        # with the frame present, its acceptance must not depend on how much follows
        for v in names:
            a = dd.exists(dd.restrict(g, care), lambda x: x is v)
            if and_(and_(care, a), not_(g)) is not FALSE:
                x = and_(and_(care, a), not_(g))
                if self.event(('C04',), 'frame', 'acceptance depends on how many bytes follow the frame', x):
                    return
        self.ok('C04')

def TRUEset(c):
    lo, hi = lin.interval(c)
    return ((lo, hi),)

def tok_atoms(m, depth=0):
    """input integers inside the meaning of a guard variable"""
    if depth > 6:
        return
    if isinstance(m, lin.Atom):
        if m.kind == 'tok':
            yield m
            yield from tok_atoms(m.args[2], depth + 1)
        elif m.kind == 'vbi':
            yield from tok_atoms(m.args[1], depth + 1)
        else:
            for x in m.args:
                if isinstance(x, (Lin, lin.Atom)):
                    yield from tok_atoms(x, depth + 1)
    elif isinstance(m, Lin):
        for k in m.t:
            if k != lin.ONE:
                yield from tok_atoms(ATOMS[k], depth + 1)
    elif isinstance(m, tuple) and m and m[0] == 'utf8':
        yield from tok_atoms(m[2], depth + 1)

def showwant(w):
    if w[0] == 'int':
        return lin.fmt(w[1])[:80]
    if w[0] == 'bytes':
        return 'bytes %s..%s' % (lin.fmt(w[1].pos)[:60], lin.fmt(w[1].end)[:60])
    if w[0] == 'enum':
        return 'the code the byte names'
    if w[0] == 'bool':
        return 'its own bit'
    return w[0]
