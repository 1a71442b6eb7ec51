"""C25: what the compiled crate may call, hold and declare (a scan of the resolved program, no runs)."""
from units import Missing

# callee prefix -> what it brings into the result; only functions whose outcome or effect is not fixed by their arguments
DENY = [
    ('std::time::Instant::now', 'the clock'), ('std::time::SystemTime::now', 'the clock'), ('std::time::Instant::elapsed', 'the clock'),
    ('std::time::SystemTime::elapsed', 'the clock'),
    ('std::env::', 'the environment'), ('core::env::', 'the environment'),
    ('std::io::_print', 'output'), ('std::io::_eprint', 'output'), ('std::io::stdin', 'input'), ('std::io::stdout', 'output'),
    ('std::io::stderr', 'output'), ('std::io::stdio', 'output'), ('std::fs::', 'the file system'), ('std::net::', 'the network'),
    ('std::os::', 'the operating system'), ('std::process::', 'processes'), ('std::thread::', 'threads'), ('std::random::', 'randomness'),
    ('std::hash::RandomState', 'randomness'), ('std::collections::hash_map::RandomState', 'randomness'), ('std::hash::random', 'randomness'),
    ('std::panic::set_hook', 'global state'), ('std::panic::take_hook', 'global state'), ('std::panicking::set_hook', 'global state'),
    ('std::alloc::set_alloc_error_hook', 'global state'), ('std::backtrace::', 'the call stack'),
    ('bytes::Bytes::is_unique', 'who else holds the buffer'),
]
HASHED = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map', 'std::collections::hash_set')
ITERATES = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'drain', 'into_keys', 'into_values', 'retain', 'next', 'extract_if')
INTERIOR = ('std::cell::', 'core::cell::', 'std::sync::atomic::', 'core::sync::atomic::', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::Once',
            'std::sync::LazyLock', 'std::sync::mpsc', 'std::sync::Condvar', 'std::sync::Barrier', 'std::sync::poison', 'std::thread::LocalKey')
# foreign types whose shared inner state is not observable through the methods used
OPAQUE = ('bytes::', 'std::sync::Arc')

def event(item, text, where='', fn=()):
    return {'viol': ['C25'], 'unit': 'crate', 'item': item, 'text': text, 'where': where, 'fn': list(fn), 'guard': '', 'undecided': False, 'side': ''}

def callee(t):
    return t.get('f') if isinstance(t.get('f'), dict) else None

def scan(F):
    ev, n = [], 0
    calls = 0
    for s in F['statics']:
        n += 1
        if s['mut'] or not s['freeze']:
            ev.append(event('static %s' % s['path'], 'static %s is mutable state shared by all calls' % s['path']))
    for u in F['unsafe']:
        ev.append(event('unsafe in %s' % u['in'], 'unsafe code (%s) in %s' % (u['what'], u['in']), u['sp'], [u['in']]))
    n += 1
    pub = 0
    for a in F['adts']:
        n += 1
        pub += bool(a['reachable'])
        if a['reachable'] and not a['send']:
            ev.append(event('type %s' % a['path'], 'public type %s cannot be sent to another thread' % a['path']))
        if a['reachable'] and not a['sync']:
            ev.append(event('type %s' % a['path'], 'public type %s cannot be shared between threads' % a['path']))
        for path, how in inner(F, a['ty'], {}):
            ev.append(event('type %s' % a['path'], '%s holds %s%s, which can change behind a shared reference' % (a['path'], path, how)))
    if pub < 20:
        raise Missing('public types: %d' % pub)
    roots = {r['key']: r for r in F['roots']}
    nf = 0
    for f in F['fns']:
        if not f['local']:
            continue
        nf += 1
        for b in [x for x in f["blocks"] or () if x]:
            for s in b['s']:
                rv = s.get('rv') or {}
                n += 1
                if rv.get('r') == 'cast' and 'Expose' in str(rv.get('kind', rv.get('k', ''))):
                    ev.append(event('address in %s' % f['path'], 'an address is turned into a number', s.get('sp', ''), [f['path']]))
                if rv.get('r') in ('tls', 'threadlocal'):
                    ev.append(event('thread local in %s' % f['path'], 'thread-local state is used', s.get('sp', ''), [f['path']]))
            t = b.get('term') or {}
            c = callee(t) if t.get('t') in ('call', 'tailcall') else None
            if c is None:
                continue
            calls += 1
            n += 1
            for p in {c.get('path') or '', c.get('decl') or ''}:
                why = denied(p)
                if why:
                    ev.append(event('call of %s' % p, '%s calls %s: the result or effect depends on %s' % (f['path'], p, why), t.get('sp', ''), [f['path']]))
                    break
    if not nf or not calls:
        raise Missing('no code')
    for path in ('Packet::write',):
        fs = [f for f in F['fns'] if f['path'] == path]
        if not fs:
            raise Missing(path)
        for f in fs:
            t = F['types'][f['locals'][1]]
            n += 1
            if t['k'] != 'ref' or t.get('mut'):
                ev.append(event(path, 'encoding takes the packet by %s instead of a shared reference' % t['s'], f['span'], [path]))
    return {'events': ev, 'done': {'C25': n}, 'checked': n, 'fns': sorted({f['path'] for f in F['fns'] if f['local']}), 'calls': calls, 'ext': {},
            'loops': 0, 'notes': [], 'items': n}

def denied(p):
    for d, why in DENY:
        if p.startswith(d) or ('<' + d) in p[:len(d) + 1]:
            return why
    if p.startswith('std::thread::LocalKey') or 'LocalKey' in p:
        return 'thread-local state'
    if any(h in p for h in HASHED) and p.split('::')[-1].split('<')[0] in ITERATES:
        return 'the random order of a hash table'
    return None

def inner(F, ti, seen, path='', depth=0):
    """interior mutability reachable inside a type through its fields"""
    if ti in seen or depth > 12:
        return
    seen[ti] = True
    t = F['types'][ti]
    k = t['k']
    if k == 'adt':
        if any(t['path'].startswith(p) for p in OPAQUE):
            return
        if any(t['path'].startswith(p) for p in INTERIOR):
            yield t['s'], (' in %s' % path if path else '')
            return
        for v in t.get('variants') or ():
            for f in v['fields']:
                yield from inner(F, f['ty'], seen, (path + '.' if path else '') + f['name'], depth + 1)
        for a in t.get('args') or ():
            if isinstance(a, int):
                yield from inner(F, a, seen, path, depth + 1)
    elif k == 'tuple':
        for e in t['elems']:
            yield from inner(F, e, seen, path, depth + 1)
    elif isinstance(t.get('inner'), int):
        yield from inner(F, t['inner'], seen, path, depth + 1)
