"""Analysis units: one abstract run of one public entry point under one partition of its inputs."""
import os, sys, json, time, signal, resource, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import dd, lin, interp
from dd import leaf, TRUE, FALSE, and_, or_, not_, implies
from lin import num
from values import *
from interp import Interp, State, EngineError, MAXLEN

VARIANTS = ['Connect', 'ConnAck', 'Publish', 'PubAck', 'PubRec', 'PubRel', 'PubComp', 'Subscribe', 'SubAck',
            'Unsubscribe', 'UnsubAck', 'PingReq', 'PingResp', 'Disconnect']
NIBBLE = {v: i + 1 for i, v in enumerate(VARIANTS)}
MAXVBI = 268435455

class Missing(Exception):
    """an anchor of the analysis is gone: the check fails closed"""

def reset():
    lin.PINS.clear()

def find(F, path, optional=False):
    r = [f for f in F['fns'] if f['path'] == path]
    if len(r) == 1:
        return r[0]
    if optional and not r:
        return None
    raise Missing('%d bodies for %s' % (len(r), path))

def argnames(f):
    n = dict((l, x) for l, x in f['names'])
    return [n.get(i, 'a%d' % i) for i in range(1, f['argc'] + 1)]

N = None
def stream_len():
    return lin.sym('N', 0, MAXLEN)

def buf_base():
    return lin.sym('B', 0, MAXLEN)

def bind_args(I, F, f, st, names=None, values=None):
    """symbolic arguments; byte buffers become cells ('R', kind)"""
    out = []
    nm = names or argnames(f)
    for i in range(1, f['argc'] + 1):
        ti = f['locals'][i]
        t = F['types'][ti]
        if values and i - 1 in values:
            out.append(values[i - 1])
            continue
        inner = F['types'][t['inner']] if t['k'] == 'ref' else None
        if inner is not None and t.get('mut') and inner['s'] == 'bytes::BytesMut':
            if ('R', 'buf') not in st.cells:
                st.cells[('R', 'buf')] = Buf(EMPTY.push((TRUE, ('base', 'buf', buf_base()), num(0))), buf_base())
            out.append(Ptr(leaf((('R', 'buf'), ()))))
        elif inner is not None and t.get('mut') and inner['s'] == 'bytes::Bytes':
            st.cells[('R', 'stream')] = View('stream', num(0), stream_len())
            out.append(Ptr(leaf((('R', 'stream'), ()))))
        elif t['s'] == 'bytes::Bytes':
            out.append(View('stream', num(0), stream_len()))
        else:
            out.append(I.expand(Sym(ti, nm[i - 1])))
    return out

class Run:
    """result of one abstract run"""
    pass

def finish(I, r, s, **kw):
    x = Run()
    x.I, x.r, x.s = I, r, s
    x.__dict__.update(kw)
    return x

# ------------------------------------------------------------------ partitions
def vbi_class(pos, k):
    """the variable byte integer at a position has exactly k bytes (k=0: malformed)"""
    p = pos if isinstance(pos, lin.Lin) else num(pos)
    g = TRUE
    for i in range(4 if k == 0 else k - 1):
        g = and_(g, lin.test(lin.tok(1, 'stream', lin.add(p, num(i))), ((128, 255),)))
    if k:
        g = and_(g, lin.test(lin.tok(1, 'stream', lin.add(p, num(k - 1))), ((0, 127),)))
    return g

def vbi_value(pos, k):
    v = num(0)
    for i in range(k):
        t = lin.tok(1, 'stream', num(pos + i))
        if i < k - 1:
            t = lin.bitop('BitAnd', t, num(127), 8)
        v = lin.add(v, lin.scale(t, 128 ** i))
    return v

def mask_guard(pos, mask, val):
    return lin.test(lin.tok(1, 'stream', num(pos)), dd.iset(*[(v, v) for v in range(256) if v & mask == val]))

# ------------------------------------------------------------------ readers
def run_read(F, part):
    """Packet::read on a stream whose first byte has the given type number and flags mask.
    part: {'nib': n | None, 'low': set of low nibbles | None, 'k': header class, 'complete': bool,
           'pins': {(w, pos): value}, 'masks': [(pos, mask, val)], 'vbis': [(pos, k)]}"""
    reset()
    I = Interp(F)
    f = find(F, 'Packet::read')
    st = State(TRUE, {})
    for (w, pos), val in part.get('pins', {}).items():
        lin.PINS['u%d[stream@%d]' % (8 * w, pos)] = val
    n = stream_len()
    st.cells[('R', 'stream')] = View('stream', num(0), n)
    args = []
    for i in range(1, f['argc'] + 1):
        t = F['types'][f['locals'][i]]
        if t['k'] == 'ref':
            args.append(Ptr(leaf((('R', 'stream'), ()))))
        else:
            args.append(I.expand(Sym(f['locals'][i], 'max_size')))
    g = TRUE
    if part.get('nib') is not None:
        lows = part.get('low')
        if lows is None:
            lows = range(16)
        b = part['nib'] * 16
        g = and_(g, and_(lin.test(n, ((1, MAXLEN),)),
                         lin.test(lin.tok(1, 'stream', num(0)), dd.iset(*[(b + l, b + l) for l in lows]))))
    k = part.get('k')
    if k is not None:
        g = and_(g, vbi_class(1, k))
    for pos, mask, val in part.get('masks', ()):
        g = and_(g, mask_guard(pos, mask, val))
    for t in part.get('vbis', ()):
        g = and_(g, vbi_class(*vbi_place(t)))
    if part.get('notpin'):
        w, p = part['notpin']
        g = and_(g, not_(lin.test(symw(w, p), ((4, 4),))))
    if part.get('pre'):
        g = and_(g, part['pre']())
    st.g = g
    if part.get('complete'):
        need = lin.add(num(1 + k), lin.vbi('stream', num(1)))
        st.g = and_(and_(st.g, lin.test(n, ((1 + k, MAXLEN),))), lin.cmp('Ge', n, need))
    g0 = st.g
    r, s = I.call(f['key'], args, st)
    return finish(I, r, s, g0=g0, part=part, f=f, N=n)

def run_sub(F, path, pre=None, names=None, values=None, opaque_eq=False):
    """any other function with symbolic arguments"""
    reset()
    I = Interp(F)
    I.opaque_eq = opaque_eq
    f = find(F, path)
    st = State(TRUE, {})
    args = bind_args(I, F, f, st, names, values(I, f, st) if values else None)
    if pre is not None:
        st.g = pre(I, args)
    g0 = st.g
    r, s = I.call(f['key'], args, st)
    return finish(I, r, s, g0=g0, f=f, args=args)

def run_own(F, variant, part):
    """a packet type's own decoder, given the header and the bytes of one complete frame"""
    reset()
    I = Interp(F)
    f = find(F, OWN[variant])
    st = State(TRUE, {})
    for (w, pos), val in part.get('pins', {}).items():
        lin.PINS['u%d[stream@%d]' % (8 * w, pos)] = val
    n = stream_len()
    k, b = part['k'], part['nib'] * 16
    b1 = lin.tok(1, 'stream', num(0))
    g = and_(vbi_class(1, k), lin.test(b1, dd.iset(*[(b + l, b + l) for l in part.get('low') or range(16)])))
    for pos, mask, val in part.get('masks', ()):
        g = and_(g, mask_guard(pos, mask, val))
    for t in part.get('vbis', ()):
        g = and_(g, vbi_class(*vbi_place(t)))
    if part.get('notpin'):
        w, p = part['notpin']
        g = and_(g, not_(lin.test(symw(w, p), ((4, 4),))))
    R = lin.vbi('stream', num(1))
    d = lin.sub(n, lin.add(num(1 + k), R))
    st.g = and_(and_(g, lin.test(n, ((1 + k, MAXLEN),))), lin.test(d, ((0, 0),)))
    args, seen = [], set()
    for i in range(1, f['argc'] + 1):
        ti = f['locals'][i]
        t = F['types'][ti]
        if t['s'] == 'bytes::Bytes':
            args.append(View('stream', num(0), n))
            seen.add('b')
        elif t['k'] == 'adt' and t['path'].split('::')[-1] == 'FixedHeader':
            fs = [x['name'] for x in t['variants'][0]['fields']]
            vals = {'byte1': b1, 'fixed_header_len': num(1 + k), 'remaining_len': R}
            if set(fs) != set(vals):
                raise Missing('fields of FixedHeader')
            args.append(Agg([vals[x] for x in fs], ti))
            seen.add('h')
        else:
            raise Missing('argument %s of %s' % (t['s'], f['path']))
    g0 = st.g
    r, s = I.call(f['key'], args, st)
    return finish(I, r, s, g0=g0, part=part, f=f, N=n)

OWN = {v: '%s::%s::read' % (v.lower(), v) for v in VARIANTS if v not in ('PingReq', 'PingResp')}

# ------------------------------------------------------------------ writers
def run_write(F, variant, split=None):
    """Packet::write of one packet type into a buffer holding B bytes"""
    reset()
    I = Interp(F)
    f = find(F, 'Packet::write')
    st = State(TRUE, {})
    args = bind_args(I, F, f, st, names=['self', 'buf'])
    e = I.expand(I.load(st, args[0]))
    names = [v['name'] for v in F['types'][e.ty]['variants']]
    if variant not in names:
        raise Missing('packet variant %s' % variant)
    vi = names.index(variant)
    g = dd.when(e.discr, vi)
    for nm, val in (split or {}).items():
        g = and_(g, dd.test(dd.VARS.get(nm) or dd.var(nm, 0, 1, meta='discr', key=nm[:-1]), ((val, val),)))
    st.g = g
    r, s = I.call(f['key'], args, st)
    return finish(I, r, s, g0=g, f=f, variant=variant, self=e, payload=e.pay.get(vi, ()), vi=vi, split=split or {})

# ------------------------------------------------------------------ worker pool
class Timeout(Exception):
    pass

def _alarm(sig, frm):
    raise Timeout()

_F = {}
def facts(path):
    if path not in _F:
        _F[path] = json.load(open(path))
    return _F[path]

def work(job):
    """job: (name, facts path, function, kwargs, seconds) -> dict"""
    name, fp, fn, kw, secs = job[:5]
    import gc
    gc.disable()            # nothing built here is cyclic
    t0 = time.time()
    out = {'unit': name, 'ok': False}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(secs)))
    try:
        import importlib
        mod, fname = fn.rsplit('.', 1)
        m = importlib.import_module(mod)
        out['res'] = getattr(m, fname)(facts(fp), **kw)
        out['ok'] = True
    except Timeout:
        out['err'] = 'time limit'
    except Missing as x:
        out['missing'] = str(x)
        out['err'] = 'missing anchor: %s' % x
    except RecursionError:
        out['err'] = 'recursion limit'
    except MemoryError:
        out['err'] = 'memory limit'
    except EngineError as x:
        out['err'] = 'engine: %s' % x
    except Exception as x:
        out['err'] = 'internal: %s' % ''.join(traceback.format_exception(type(x), x, x.__traceback__)[-3:])
    finally:
        signal.alarm(0)
    out['secs'] = round(time.time() - t0, 2)
    out['mem'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    return out

def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (9 << 29, 9 << 29))

def run_jobs(jobs, procs=None):
    """jobs: list as for work(), longest first"""
    import multiprocessing as mp
    procs = procs or int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 4)
    for j in jobs:
        facts(j[1])
    if os.environ.get('VERIF_INLINE'):
        return [work(j) for j in jobs]
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, initializer=limit_memory, maxtasksperchild=1) as pool:
        return pool.map(work, jobs, chunksize=1)

# ------------------------------------------------------------------ the partitions of decoder input
PID = {'ConnAck': 2, 'PubAck': 3, 'PubRec': 3, 'PubRel': 3, 'PubComp': 3, 'Subscribe': 2, 'SubAck': 2,
       'Unsubscribe': 2, 'UnsubAck': 2, 'Disconnect': 1}       # bytes before the property section
LOWS = {0: (0, 1, 8, 9), 1: (2, 3, 10, 11), 2: (4, 5, 12, 13), 3: (6, 7, 14, 15)}

def symw(w, p):
    return lin.tok(w, 'stream', p if isinstance(p, lin.Lin) else num(p))

def read_parts(v, ks=(1, 2, 3, 4), k2s=(1, 2, 3, 4, 0)):
    """partitions of the input of Packet::read for one packet type: every header class times every property
    length class (0: malformed length), and for Publish and Connect the shapes their flags select"""
    nib = NIBBLE[v]
    out = []
    for k in ks:
        base = {'nib': nib, 'k': k, 'complete': True, 'variant': v}
        h = 1 + k
        if v in ('PingReq', 'PingResp'):
            out.append(dict(base, secs=[]))
        elif v in PID:
            for k2 in k2s:
                out.append(dict(base, vbis=[('at', h + PID[v], k2)], secs=[k2]))
        elif v == 'Publish':
            for q in (0, 1, 2):
                for k2 in k2s:
                    out.append(dict(base, low=LOWS[q], vbis=[('after', h, 0 if q == 0 else 2, k2)], secs=[k2]))
            out.append(dict(base, low=LOWS[3], secs=[1]))
        elif v == 'Connect':
            out.append(dict(base, notpin=(2, h), secs=[1, 1]))
            pins = {(2, h): 4}
            for k2 in k2s:
                at = ('at', h + 10, k2)
                if k2 == 0:
                    out.append(dict(base, pins=pins, vbis=[at], secs=[0, 0], masks=[(h + 7, 0x04, 0)]))
                    continue
                for lg in (0x00, 0x40, 0x80, 0xc0):
                    out.append(dict(base, pins=pins, vbis=[at], secs=[k2], masks=[(h + 7, 0xc4, lg)]))
                    for k3 in k2s:
                        out.append(dict(base, pins=pins, vbis=[at, ('will', h, k2, k3)], secs=[k2, k3], masks=[(h + 7, 0xc4, lg | 4)]))
    return out

def vbi_place(t):
    """position and class of a property length in a partition"""
    if t[0] == 'at':
        return num(t[1]), t[2]
    if t[0] == 'after':         # after a two byte length, that many bytes and n more
        return lin.add(lin.add(num(t[1] + 2 + t[2]), symw(2, t[1])), num(0)), t[3]
    if t[0] == 'will':          # after the CONNECT properties and the client identifier
        h, k2 = t[1], t[2]
        p = lin.add(num(h + 10 + k2), lin.vbi('stream', num(h + 10)))
        return lin.add(lin.add(p, num(2)), symw(2, p)), t[3]
    raise Missing('partition %r' % (t,))
