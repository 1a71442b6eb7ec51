"""What a worker does: one abstract run and every comparison that can be made on it, as plain data."""
import dd, lin, spec, feas, units, reader, writer
from dd import TRUE, FALSE, and_, or_, not_, implies
from lin import Lin, ATOMS, num
from values import *
from units import Missing

EQ0 = lin.EQ0

def obligations(I, ids, side):
    """panics that could not be excluded"""
    ev = []
    for kind, span, fn, g, text in I.rec.obs:
        j = feas.judge(I, g)
        if j is None:
            continue
        w, sure = j
        ev.append({'viol': sorted(ids), 'unit': '', 'item': '%s %s' % (kind, text) if text else kind, 'text': 'possible panic: %s %s' % (kind, text),
                   'where': span, 'fn': [fn], 'guard': dd.fmt_guard(w, 10), 'undecided': not sure, 'side': side})
    return ev

def progress(I, side):
    """every pass of every decoding loop moves on in the input"""
    ev, n = [], 0
    for L in I.rec.loops:
        if L.back is None or L.back.g is FALSE:
            continue
        n += 1
        best = None
        for k, v in L.head.cells.items():
            b = L.back.cells.get(k)
            for x, y in movers(v, b):
                d = lin.restrict(lin.sub(y, x), L.back.g)
                stuck = and_(L.back.g, not_(lin.test(d, ((1, dd.BIG),))))
                if stuck is not FALSE:
                    stuck = and_(stuck, not_(lin.test(lin.tidy(d, stuck), ((1, dd.BIG),))))
                if stuck is FALSE or not feas.feasible(stuck):
                    best = FALSE
                    break
                if best is None or best is TRUE:
                    best = stuck
            if best is FALSE:
                break
        if best is FALSE:
            continue
        g = L.back.g if best is None else best
        und = best is None or not feas.definite(g)
        ev.append({'viol': ['C02'], 'unit': '', 'item': 'loop %s' % L.fn, 'text': 'a pass of the loop in %s may consume no input' % L.fn,
                   'where': L.span, 'fn': [L.fn], 'guard': dd.fmt_guard(g, 8), 'undecided': und, 'side': side})
    return ev, n

def movers(v, b):
    """positions in the input inside a value: (before, after)"""
    if type(v) is not type(b):
        return
    if type(v) is View:
        if v.src == b.src:
            yield v.pos, b.pos
    elif type(v) is Iter:
        if v.kind in ('slice', 'own') and v.kind == b.kind and isinstance(v.a[-2], Lin) and isinstance(b.a[-2], Lin):
            yield v.a[-2], b.a[-2]
        elif v.kind == b.kind:
            for x, y in zip(v.a, b.a):
                yield from movers(x, y)
    elif type(v) is Agg:
        for x, y in zip(v.f, b.f):
            yield from movers(x, y)
    elif type(v) is Enum:
        for i in v.pay:
            for x, y in zip(v.pay[i], b.pay.get(i, ())):
                yield from movers(x, y)

def allocations(I, n, side):
    """memory reserved in one step, against the bytes present"""
    ev = []
    for size, span, fn, g in I.rec.allocs:
        x = and_(g, not_(lin.cmp('Le', size, lin.add(n, num(64)))))
        if x is FALSE or not feas.feasible(x):
            continue
        und = not feas.definite(x) or lin.imprecise(size)
        ev.append({'viol': ['C02'], 'unit': '', 'item': 'allocation in %s' % fn, 'text': 'memory for %s is reserved without that many bytes being present' % lin.fmt(size)[:80],
                   'where': span, 'fn': [fn], 'guard': dd.fmt_guard(feas.WITNESS[0], 8), 'undecided': und, 'side': side})
    return ev, len(I.rec.allocs)

def result(run, unit, events, done, **kw):
    I = run.I
    for e in events:
        e['unit'] = unit
    r = {'events': events, 'done': done, 'checked': I.rec.checked, 'fns': sorted(I.fns[k]['path'] for k in I.rec.calls if k in I.fns),
         'calls': sum(I.rec.calls.values()), 'ext': dict(I.rec.ext), 'loops': len(I.rec.loops),
         'notes': sorted(set('%s at %s' % (n[0], n[1]) for n in I.rec.notes))[:12]}
    r.update(kw)
    return r

# ------------------------------------------------------------------ decoding a complete frame
def rd(F, part):
    v = part['variant']
    run = units.run_read(F, part)
    w = reader.ReadCheck(run, v, v, part).check()
    ev = w.events + obligations(run.I, ['C01'], 'r')
    e2, nl = progress(run.I, 'r')
    e3, na = allocations(run.I, run.N, 'r')
    s = StreamCheck(run, v, part['k'])
    s.complete()
    done = dict(w.done)
    for k, n in s.done.items():
        done[k] = done.get(k, 0) + n
    done['C01'] = done.get('C01', 0) + run.I.rec.checked
    done['C02'] = done.get('C02', 0) + nl + na
    return result(run, v, ev + e2 + e3 + s.events, done, items=w.items + s.items, sections=w.sections, rounds=w.rounds)

# ------------------------------------------------------------------ the front of the stream
class StreamCheck:
    """header handling of Packet::read and of check(): what is reported and what is taken from the stream"""
    def __init__(self, run, unit, k, of='Packet::read'):
        self.run, self.unit, self.k, self.of = run, unit, k, of
        self.I = run.I
        self.acc = writer.Acc(run.I)
        self.events, self.done, self.items = [], {}, 0
        r = self.I.expand(run.r)
        if type(r) is not Enum:
            raise Missing('result of %s' % of)
        self.r = r
        s = run.s
        self.iok, self.ierr = self.acc.variant(r, 'Ok'), self.acc.variant(r, 'Err')
        self.okg = and_(s.g, dd.when(r.discr, self.iok))
        self.errg = and_(s.g, dd.when(r.discr, self.ierr))
        pl = r.pay.get(self.ierr)
        self.err = self.I.expand(pl[0]) if pl else None
        self.R = lin.vbi('stream', num(1))
        if k:
            self.F = lin.add(num(1 + k), self.R)

    def event(self, viol, item, text, g):
        self.items += 1
        j = None if g is FALSE else feas.judge(self.I, g)
        if j is None:
            for v in viol:
                self.done[v] = self.done.get(v, 0) + 1
            return False
        w, und = j[0], not j[1]
        self.events.append({'viol': sorted(set(viol)), 'unit': self.unit, 'item': '%s: %s' % (self.of, item), 'text': text, 'where': self.run.f['path'],
                            'fn': [], 'guard': dd.fmt_guard(w, 10), 'undecided': und, 'side': 'r'})
        return True
    def unsure(self, viol, item, text):
        self.events.append({'viol': sorted(set(viol)), 'unit': self.unit, 'item': '%s: %s' % (self.of, item), 'text': text, 'where': self.run.f['path'],
                            'fn': [], 'guard': '', 'undecided': True, 'side': 'r'})

    def kind(self, name):
        """guard: refused with this error"""
        if type(self.err) is not Enum:
            return FALSE
        return and_(self.errg, dd.when(self.err.discr, self.acc.variant(self.err, name)))
    def errpay(self, name, i):
        v = self.err.pay.get(self.acc.variant(self.err, name))
        if not v:
            return None
        v = v[i]
        return self.I.expand(v) if not isinstance(v, Lin) else v

    def limit(self):
        """guard of a limit that the declared length exceeds, and the limit"""
        e = self.maxsize()
        if e is None:
            return FALSE, None
        some = dd.when(e.discr, 1)
        m = e.pay[1][0]
        m = m if isinstance(m, Lin) else self.I.expand(m)
        return and_(some, lin.cmp('Lt', m, self.R)), m
    def maxsize(self):
        f = self.run.f
        for i in range(1, f['argc'] + 1):
            ti = f['locals'][i]
            t = self.I.types[ti]
            if t['k'] == 'adt' and t['path'].endswith('option::Option'):
                return self.I.expand(Sym(ti, 'max_size'))
        return None

    def size_error(self, g):
        lim, m = self.limit()
        g = and_(g, lim)
        k = self.kind('PayloadSizeLimitExceeded')
        x = and_(g, not_(k))
        self.event(('C05',), 'size limit', 'a frame larger than the limit is not refused with the size-limit error', x)
        if k is not FALSE and and_(g, k) is not FALSE:
            for i, (nm, want) in enumerate((('declared length', self.R), ('limit', m))):
                v = self.errfield('PayloadSizeLimitExceeded', ('pkt_size', 'max')[i])
                if type(v) is not Lin:
                    self.unsure(('C05',), nm, 'the %s in the size-limit error could not be followed' % nm)
                    continue
                self.event(('C05',), nm, 'the size-limit error carries %s as the %s' % (lin.fmt(v)[:60], nm), reader.differ(v, want, and_(g, k)))
        return lim
    def errfield(self, name, field):
        i = self.acc.variant(self.err, name)
        fs = [x['name'] for x in self.I.types[self.err.ty]['variants'][i]['fields']]
        if field not in fs:
            raise Missing('field %s of %s' % (field, name))
        return self.errpay(name, fs.index(field))

    def untouched(self, g, labels=('C03',), why=''):
        v = self.run.s.cells.get(('R', 'stream'))
        self.moved(g, num(0), labels, 'the stream is changed %s' % why)
    def moved(self, g, to, labels, text):
        v = self.run.s.cells.get(('R', 'stream'))
        if v is None:
            return
        alts = [(TRUE, v)] if type(v) is View else [(dd.when(v.node, x), x) for x in dd.leaves(v.node)] if type(v) is Blob else None
        if alts is None:
            self.unsure(labels, 'stream', 'the stream could not be followed')
            return
        bad = FALSE
        for c, x in alts:
            gg = and_(g, c)
            if gg is FALSE:
                continue
            if x.src != 'stream':
                bad = or_(bad, gg)
                continue
            bad = or_(bad, or_(reader.differ(x.pos, to, gg), reader.differ(x.end, self.run.N, gg)))
        self.event(labels, 'stream', text, bad)

    # ---- the cases
    def complete(self):
        g = and_(self.run.g0, self.run.s.g)
        lim = self.size_error(g)
        self.moved(and_(g, lim), num(0), ('C05', 'C04'), 'bytes are taken from the stream although the frame exceeds the size limit')
        rest = and_(g, not_(lim))
        self.event(('C05',), 'no size limit', 'a frame within the size limit is refused for its size', and_(rest, self.kind('PayloadSizeLimitExceeded')))
        self.event(('C03',), 'complete frame', 'insufficient bytes is reported although the frame is complete', and_(rest, self.kind('InsufficientBytes')))
        self.moved(and_(rest, self.okg), self.F, ('C04',), 'decoding does not remove exactly the frame from the stream')
        self.moved(and_(rest, self.errg), self.F, ('C04',), 'a failed decode does not remove exactly the frame from the stream')

    def incomplete(self):
        """header readable, body missing"""
        g = and_(self.run.g0, self.run.s.g)
        lim = self.size_error(g)
        self.untouched(g, ('C03', 'C05'), 'although the frame is incomplete')
        self.event(('C03',), 'incomplete frame', 'an incomplete frame is decoded', and_(g, self.okg))
        rest = and_(g, not_(lim))
        k = self.kind('InsufficientBytes')
        self.event(('C03',), 'incomplete frame', 'an incomplete frame is refused with another error than insufficient bytes', and_(and_(rest, self.errg), not_(k)))
        if and_(rest, k) is not FALSE:
            v = self.errpay('InsufficientBytes', 0)
            if type(v) is not Lin:
                self.unsure(('C03',), 'shortfall', 'the shortfall could not be followed')
            else:
                self.event(('C03',), 'shortfall', 'the reported shortfall is %s instead of what is missing' % lin.fmt(v)[:60],
                           reader.differ(v, lin.sub(self.F, self.run.N), and_(rest, k)))

    def unreadable(self, most):
        """the length field is cut: at most `most` bytes are known to be missing"""
        g = and_(self.run.g0, self.run.s.g)
        self.untouched(g, ('C03',), 'although the frame is incomplete')
        self.event(('C03',), 'cut header', 'a cut fixed header is decoded', and_(g, self.okg))
        k = self.kind('InsufficientBytes')
        self.event(('C03',), 'cut header', 'a cut fixed header is refused with another error than insufficient bytes', and_(self.errg, not_(k)))
        if k is not FALSE:
            v = self.errpay('InsufficientBytes', 0)
            if type(v) is not Lin:
                self.unsure(('C03',), 'shortfall', 'the shortfall could not be followed')
            else:
                self.event(('C03',), 'shortfall', 'the reported shortfall is %s, %d to %d are missing' % (lin.fmt(v)[:60], 1, most), and_(k, not_(lin.test(v, ((1, most),)))))

    def malformed(self):
        g = and_(self.run.g0, self.run.s.g)
        self.untouched(g, ('C04',), 'although its length field is malformed')
        self.event(('C06', 'C21'), 'length field', 'a remaining length of more than four bytes is accepted', and_(g, self.okg))
        self.event(('C03',), 'length field', 'insufficient bytes is reported for a malformed length field', self.kind('InsufficientBytes'))

    def header(self):
        """check() on a complete frame"""
        g = and_(self.run.g0, self.run.s.g)
        lim = self.size_error(g)
        rest = and_(g, not_(lim))
        self.event(('C03', 'C05', 'C06'), 'complete frame', 'a complete frame within the limit is refused by the framing check', and_(rest, self.errg))
        pl = self.r.pay.get(self.iok)
        if not pl:
            return
        h = self.I.expand(pl[0])
        if type(h) is not Agg:
            self.unsure(('C06',), 'header', 'the header could not be followed')
            return
        fs = [f['name'] for f in self.I.types[h.ty]['variants'][0]['fields']]
        want = {'byte1': (lin.tok(1, 'stream', num(0)), ('C19',)), 'fixed_header_len': (num(1 + self.k), ('C06', 'C04')), 'remaining_len': (self.R, ('C06', 'C04'))}
        for i, nm in enumerate(fs):
            if nm not in want:
                continue
            v = h.f[i]
            v = self.I.expand(v) if not isinstance(v, Lin) else v
            if type(v) is not Lin:
                self.unsure(want[nm][1], nm, '%s could not be followed' % nm)
                continue
            d = reader.differ(v, want[nm][0], and_(rest, self.okg))
            self.event(want[nm][1], nm, 'the framing check reports %s as %s' % (lin.fmt(lin.tidy(v, d))[:60], nm), d)

def cont(n):
    """the first n length bytes have the continuation bit"""
    g = TRUE
    for i in range(n):
        g = and_(g, lin.test(lin.tok(1, 'stream', num(1 + i)), ((128, 255),)))
    return g

def stream_guard(case, k):
    n = units.stream_len()
    if case == 'cut':           # k bytes present
        return and_(lin.test(n, ((k, k),)), cont(max(0, k - 1)))
    if case == 'malformed':
        return and_(lin.test(n, ((5, units.MAXLEN),)), cont(4))
    g = and_(units.vbi_class(1, k), lin.test(n, ((1 + k, units.MAXLEN),)))
    need = lin.add(num(1 + k), lin.vbi('stream', num(1)))
    return and_(g, lin.cmp('Lt', n, need) if case == 'incomplete' else lin.cmp('Ge', n, need))

def st(F, case, k=None, of='Packet::read'):
    """cut, incomplete and malformed headers on Packet::read; those and complete ones on check()"""
    if of == 'Packet::read':
        run = units.run_read(F, {'pre': lambda: stream_guard(case, k)})
    else:
        def values(I, f, st):
            out = {}
            for i in range(1, f['argc'] + 1):
                t = I.types[f['locals'][i]]
                if 'Iter' in t['s']:
                    out[i - 1] = Iter('slice', View('stream', num(0), units.stream_len()), num(0), units.stream_len())
            return out
        run = units.run_sub(F, of, pre=lambda I, a: stream_guard(case, k), names=['stream', 'max_size'], values=values)
        run.N = units.stream_len()
    s = StreamCheck(run, '%s %s' % (case, k), k if case in ('incomplete', 'complete') else None, of)
    if case == 'cut':
        s.unreadable(2 if k == 0 else 1)
    elif case == 'incomplete':
        s.incomplete()
    elif case == 'malformed':
        s.malformed()
    elif of == 'Packet::read':
        s.complete()
    else:
        s.header()
    ev = obligations(run.I, ['C01'], 'r')
    e3, na = allocations(run.I, run.N, 'r')
    e2, nl = progress(run.I, 'r')
    s.done['C01'] = run.I.rec.checked
    s.done['C02'] = na + nl
    return result(run, s.unit, s.events + ev + e2 + e3, s.done, items=s.items)

def types(F, nib, k):
    """packet type numbers that do not exist"""
    run = units.run_read(F, {'nib': nib, 'k': k, 'complete': True})
    s = StreamCheck(run, 'type %d' % nib, k)
    s.complete()
    lim, _ = s.limit()
    g = and_(and_(run.g0, run.s.g), not_(lim))
    s.event(('C19',), 'packet type', 'a frame with packet type number %d is not refused with the invalid-packet-type error' % nib, and_(g, not_(s.kind('InvalidPacketType'))))
    ev = obligations(run.I, ['C01'], 'r')
    s.done['C01'] = run.I.rec.checked
    return result(run, s.unit, s.events + ev, s.done, items=s.items)

# ------------------------------------------------------------------ the other public decoders
def sub(F, path, k=None, at=0):
    """a public decoder on any bytes: no panic, bounded work"""
    def pre(I, args):
        return units.vbi_class(at, k) if k is not None else TRUE
    run = units.run_sub(F, path, pre=pre)
    ev = obligations(run.I, ['C01'], 'r')
    e2, nl = progress(run.I, 'r')
    e3, na = allocations(run.I, units.stream_len(), 'r')
    return result(run, path, ev + e2 + e3, {'C01': run.I.rec.checked, 'C02': nl + na})

def own(F, variant, part):
    """X::read(header, frame) given one complete frame of its type"""
    run = units.run_own(F, variant, part)
    ev = obligations(run.I, ['C01'], 'r')
    e2, nl = progress(run.I, 'r')
    e3, na = allocations(run.I, units.stream_len(), 'r')
    return result(run, run.f['path'], ev + e2 + e3, {'C01': run.I.rec.checked, 'C02': nl + na})

# ------------------------------------------------------------------ encoding
def wr(F, variant, split=None):
    run = units.run_write(F, variant, split)
    w = writer.WriteCheck(run, variant).check()
    ev = w.events + obligations(run.I, ['C11'], 'w')
    done = dict(w.done)
    done['C11'] = run.I.rec.checked
    return result(run, variant, ev, done, items=w.items)

def subw(F, path):
    """a public encoder of a part, on any value"""
    run = units.run_sub(F, path)
    ev = obligations(run.I, ['C11'], 'w')
    return result(run, path, ev, {'C11': run.I.rec.checked})
