"""Which abstract runs each property needs, per tier."""
import os, json
import units, simple
from units import VARIANTS, read_parts

PROPS = ['C%02d' % i for i in range(1, 31)]
ALL = list(VARIANTS)
PROPV = [v for v in ALL if v not in ('PingReq', 'PingResp')]
CODEV = ['ConnAck', 'PubAck', 'PubRec', 'PubRel', 'PubComp', 'SubAck', 'UnsubAck', 'Disconnect']
FLAGV = ['Connect', 'ConnAck', 'Publish', 'Subscribe']
ACKV = ['PubAck', 'PubRec', 'PubRel', 'PubComp', 'Disconnect']

# decoding: property -> packet types;  encoding: likewise
READ = {'C01': ALL, 'C02': ALL, 'C03': ALL, 'C04': ALL, 'C05': ALL, 'C06': ALL, 'C14': ALL, 'C15': PROPV, 'C16': PROPV, 'C17': PROPV,
        'C18': CODEV, 'C19': ALL, 'C20': FLAGV, 'C21': ALL, 'C22': PROPV, 'C23': PROPV, 'C26': ALL, 'C27': ACKV, 'C28': ALL}
WRITE = {'C06': ALL, 'C07': ALL, 'C08': PROPV, 'C09': ALL, 'C10': ALL, 'C11': ALL, 'C12': ALL, 'C13': ALL, 'C14': ALL, 'C15': PROPV,
         'C16': PROPV, 'C17': PROPV, 'C18': CODEV, 'C19': ALL, 'C20': FLAGV, 'C27': ACKV, 'C28': ALL, 'C03': ALL}
# properties on which the choice of string type bears: all four builds are analysed
STRINGS_R = {'C01', 'C14', 'C15', 'C21', 'C23', 'C26', 'C28', 'C02', 'C24'}
STRINGS_W = {'C08', 'C09', 'C11', 'C13', 'C14', 'C15', 'C24'}
STREAM = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C19', 'C21'}
OWNERS = {'C01', 'C02'}

COST = {'Connect': 10, 'ConnAck': 8, 'Subscribe': 5, 'SubAck': 3, 'Publish': 3}
WCOST = {'Connect': 70, 'ConnAck': 20, 'Publish': 6, 'SubAck': 3, 'Disconnect': 3}

def jobs(props, tier, facts):
    """[(name, facts file, function, arguments, seconds, meta)], longest first"""
    out = {}
    secs = 300 if tier == 'quick' else 3600
    def add(prop, name, cfg, fn, kw, cost):
        nm = '%s [%s]' % (name, cfg)
        j = out.get(nm)
        if j is None:
            j = out[nm] = (nm, facts[cfg], fn, kw, min(secs, 120 + 10 * cost) if tier == 'quick' else secs, {'config': cfg, 'job': name, 'props': set(), 'cost': cost})
        j[5]['props'].add(prop)
    cfgs = list(facts)
    rest = [c for c in cfgs if c != 'default']
    for p in props:
        one(p, tier, facts, cfgs, rest, add)
    js = sorted(out.values(), key=lambda j: (-j[5]['cost'], j[0]))
    # a few cheap ones of each property first, so that code the analysis is slow on does not leave a property unexamined
    first, need = set(), {p: 3 for p in props}
    for j in reversed(js):
        if any(need.get(p, 0) > 0 for p in j[5]['props']):
            first.add(j[0])
            for p in j[5]['props']:
                if p in need:
                    need[p] -= 1
    return [j for j in js if j[0] in first] + [j for j in js if j[0] not in first]

def parts(v, tier, cfg):
    if tier == 'thorough':
        if v == 'Connect':
            return read_parts(v, (1, 2, 3, 4), (1, 2, 3, 4, 0)) if cfg == 'default' else read_parts(v, (1, 2), (1, 2, 0))
        return read_parts(v)
    if cfg != 'default':
        return read_parts(v, (1,), (1, 0) if v != 'Connect' else (1,))
    if v == 'Connect':
        return read_parts(v, (2,), (1, 2, 0))
    return read_parts(v, (1, 2, 4), (1, 2, 3, 4, 0))

_W, _C, _P = 'self.Connect.1#', 'self.Connect.0.properties#', 'self.Connect.1.Some.0.properties#'
SPLITS = {'Connect': [({_W: 0}, 'no will', 3), ({_W: 1, _C: 0}, 'will, no properties', 4), ({_W: 1, _C: 1, _P: 0}, 'will without properties', 4),
                      ({_W: 1, _C: 1, _P: 1}, 'will and properties', 25)]}

def writes(v):
    for sp, nm, cost in SPLITS.get(v, [(None, '', WCOST.get(v, 1))]):
        yield 'encode %s%s' % (v, nm and ' (%s)' % nm), {'variant': v, 'split': sp}, cost

def rname(p):
    t = ['%s=%s' % (k, ','.join(map(str, x)) if isinstance(x, (list, tuple)) else x) for k, x in sorted(p.items()) if k in ('k', 'low', 'vbis', 'masks', 'notpin')]
    return 'decode %s %s' % (p['variant'], ' '.join(t))

def one(p, tier, facts, cfgs, rest, add):
    def R(vs, cs):
        for c in cs:
            for v in vs:
                for q in parts(v, tier, c):
                    add(p, rname(q), c, 'jobs.rd', {'part': q}, COST.get(v, 1) + (0 if q.get('secs') and q['secs'][-1] else -0.5))
    def W(vs, cs):
        for c in cs:
            for v in vs:
                for nm, kw, cost in writes(v):
                    if c == 'default' or tier == 'thorough' or cost < 10:
                        add(p, nm, c, 'jobs.wr', kw, cost)
    if p in READ:
        R(READ[p], cfgs if (p in STRINGS_R or tier == 'thorough') else ['default'])
    if p in WRITE:
        W(WRITE[p], cfgs if (p in STRINGS_W or tier == 'thorough') else ['default'])
    if p in STREAM:
        for of in ('Packet::read', 'check'):
            for k in range(0, 5):
                add(p, 'stream %s cut %d' % (of, k), 'default', 'jobs.st', {'case': 'cut', 'k': k, 'of': of}, 1)
            for k in range(1, 5):
                add(p, 'stream %s incomplete %d' % (of, k), 'default', 'jobs.st', {'case': 'incomplete', 'k': k, 'of': of}, 1)
                if of == 'check':
                    add(p, 'stream %s complete %d' % (of, k), 'default', 'jobs.st', {'case': 'complete', 'k': k, 'of': of}, 1)
            add(p, 'stream %s malformed' % of, 'default', 'jobs.st', {'case': 'malformed', 'of': of}, 1)
        for n in (0, 15):
            for k in (1, 2, 3, 4):
                add(p, 'type %d header %d' % (n, k), 'default', 'jobs.types', {'nib': n, 'k': k}, 1)
    if p in OWNERS:
        for v in units.OWN:
            for q in read_parts(v, (1, 2) if v != 'Connect' else (1,), (1, 2, 0) if v != 'Connect' else (1, 0)):
                add(p, 'own ' + rname(q), 'default', 'jobs.own', {'variant': v, 'part': q}, COST.get(v, 1))
        for c in (cfgs if tier == 'thorough' else ['default']):
            for path in decoders(units.facts(facts[c])):
                add(p, 'part %s' % path, c, 'jobs.sub', {'path': path}, 2)
    if p == 'C11':
        for c in cfgs:
            for path in encoders(units.facts(facts[c])):
                add(p, 'part %s' % path, c, 'jobs.subw', {'path': path}, 20 if 'Connect' in path else 3)
    if p == 'C24':
        dir = os.path.dirname(facts['default'])
        for v in ALL:
            ks = (1, 2) if tier == 'thorough' else (1,)
            k2s = (1, 2, 0) if tier == 'thorough' else ((1, 0) if v != 'Connect' else (1,))
            for q in read_parts(v, ks, k2s):
                add(p, 'builds ' + rname(q), 'default', 'cross.rd', {'dir': dir, 'part': q, 'configs': cfgs}, 4 * COST.get(v, 1))
                for c in cfgs:
                    add(p, rname(q), c, 'jobs.rd', {'part': q}, COST.get(v, 1))
            for nm, kw, cost in writes(v):
                add(p, 'builds ' + nm, 'default', 'cross.wr', dict(kw, dir=dir, configs=cfgs), 3 * cost)
                for c in cfgs:
                    add(p, nm, c, 'jobs.wr', kw, cost)
    if p == 'C25':
        for c in cfgs:
            add(p, 'purity', c, 'purity.scan', {}, 1)
    if p == 'C29':
        for c in cfgs:
            for path in simple.makers(units.facts(facts[c])):
                add(p, 'make %s' % path, c, 'simple.make', {'path': path}, 0.1)
    if p == 'C30':
        for c in cfgs:
            F = units.facts(facts[c])
            for path in simple.comparers(F, 'eq'):
                add(p, 'eq %s' % path, c, 'simple.equal', {'path': path}, 0.2)
            for path in simple.comparers(F, 'clone'):
                add(p, 'clone %s' % path, c, 'simple.clone', {'path': path}, 0.2)

def entry(F, arg):
    fn = {f['key']: f for f in F['fns']}
    out = []
    for r in F['roots']:
        f = fn.get(r['key'])
        if f is None or not r['pub'] or not r['reachable'] or ' as ' in r['path']:
            continue
        ts = [F['types'][f['locals'][i]]['s'] for i in range(1, f['argc'] + 1)]
        if arg(r['path'], ts):
            out.append(r['path'])
    return sorted(set(out))

def decoders(F):
    """public decoders of parts: anything that reads from a byte buffer it is lent, and the byte-to-enum mappings"""
    return entry(F, lambda p, ts: '&mut bytes::Bytes' in ts or p in ('qos', 'mqtt_string_new', 'FixedHeader::packet_type'))

def encoders(F):
    return entry(F, lambda p, ts: '&mut bytes::BytesMut' in ts and not p.startswith('Packet::'))

METHOD = ('Deciding step: the crate is compiled by a rustc driver that dumps the optimised-away-nothing MIR of every function reachable from the '
          'public API, for each string-type build; a flow-sensitive abstract interpreter runs over that MIR with merged states (values are linear '
          'forms over input bytes, conditions are decision diagrams over them, loops are summarised by an inductive head state), and the resulting '
          'symbolic result is compared with the MQTT 5 tables in engine/spec.py. No path is enumerated, no solver is called and no code is run.')
ASSUME = ['object lengths are at most 2^47 and counters built from them at most 2^56 (address space)',
          'the models of std and bytes in engine/models.py agree with those libraries',
          'optimisation passes of rustc preserve the analysed MIR',
          'where a value or condition could not be followed exactly the comparison is reported as undecided, never as a violation']
_R = 'Every decoder path of every packet type, split by header-length class, property-length class and selecting flags, '
_W = 'Every encoder path of every packet type, for all field values and any buffer contents, '
EXPLAIN = {
    'C01': _R + 'plus cut, incomplete and malformed headers, unknown packet types, the per-type and per-section public decoders: every assertion, index, slice, split, unwrap, subtraction and advance is shown not to fail under the path condition that reaches it.',
    'C02': _R + 'and the other public decoders: each pass of each loop is shown to advance in the input, and each allocation is bounded by the bytes present.',
    'C03': 'Headers cut after 0-4 bytes, and readable headers with a missing body, on Packet::read and check: the error kind, the shortfall as a linear form, and the unchanged stream; InsufficientBytes is unreachable on complete frames and in encoders.',
    'C04': _R + 'the stream left behind starts exactly at the end of the declared frame on success and on failure, and acceptance does not depend on bytes after it.',
    'C05': 'Limit present and exceeded, on complete and incomplete frames: the size-limit error with both numbers, nothing taken from the stream; never within the limit.',
    'C06': 'Decoded lengths and identifiers equal the variable byte integer value of the standard; encoders write exactly the minimal bytes (byte by byte, as functions of the value).',
    'C07': _W + 'the written remaining length equals, as a linear form, the bytes appended after it.',
    'C08': _W + 'each written property length equals, as a linear form, the bytes of the section that follows it.',
    'C09': _W + 'the returned count and X::size() equal the bytes appended.',
    'C10': _W + 'nothing before the packet is changed, and nothing written depends on how much was there.',
    'C11': _W + 'through Packet::write and every public per-type and per-section encoder: every panic site is shown unreachable.',
    'C12': _W + 'on every failing path the buffer has its original length and contents.',
    'C13': _W + 'the failure condition equals the disjunction of the refusals the property names.',
    'C14': 'Each decoded field outside the property section is compared with the wire position and mapping the standard gives it, and each encoded byte with the field it must come from; the trip closes when both agree with the one layout.',
    'C15': 'As C14 for every property of every section, with list order.',
    'C16': 'Each identifier written or recognised is tied to the field and wire type of the MQTT 5 table, in both directions.',
    'C17': 'For every section and each of the 256 identifier bytes: allowed identifiers continue the section loop, all others end in the invalid-property error naming the byte.',
    'C18': 'Each code byte maps to the variant of the table and back; other bytes are refused.',
    'C19': 'First byte of every encoded packet, and dispatch on the type number of every decoded one, including the two reserved numbers and empty bodies.',
    'C20': 'Every flag bit is extracted from and written to its bit position.',
    'C21': 'The acceptance condition of every packet type equals the conjunction of the standard\'s conditions: each malformed value makes it false, and nothing else does.',
    'C22': 'Acceptance implies that the properties end exactly at the declared length, and every property stays inside it.',
    'C23': 'Every decoded text field is validated as UTF-8 over exactly its bytes (or kept as bytes in the binary build) in all four builds.',
    'C24': 'The four builds are analysed side by side: acceptance and each error kind have the same condition, numbers carried by errors are equal, and any deviation from the wire tables present in one build only is reported.',
    'C25': 'Whole-crate scan of the resolved program: statics, unsafe code, thread-safety of public types, interior mutability in fields, and every resolved callee against the list of impure library functions.',
    'C26': 'Acceptance implies that every field and list element lies inside the frame, for every field of every packet type.',
    'C27': 'Short and long forms of acknowledgements and DISCONNECT: which is written under which condition, and what each decodes to.',
    'C28': 'Widths, byte order and positions of every integer, string and binary field in both directions.',
    'C29': 'Every public constructor and Default of every public type, field by field, for symbolic arguments.',
    'C30': 'Every PartialEq and Clone of every public type, against field-by-field comparison of two symbolic values.',
}
