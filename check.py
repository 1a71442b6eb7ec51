#!/usr/bin/env python3
"""Decide one property of /repo from its compiled form: python3 check.py --property C14
(VERIF_TIER=quick|thorough).  See DESIGN.md."""
import os, re, sys
if os.environ.get('PYTHONHASHSEED') != '0':         # orders of sets decide orders of names: fix them
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, argparse, fcntl, gc, pickle, selectors, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import extract, units, plan

KNOWN = os.path.join(VERIF, 'known-findings.txt')
EVID = os.path.join(VERIF, 'evidence')

def known():
    """finding lines: `finding: property=C01 unit=<unit> item=<item> :: <what fails>`"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding:'):
                head, _, text = l[len('finding:'):].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.strip().split(' ; '))
                out.append((d, text))
    return out

def child(job, w):
    """one job in a process of its own: the result goes back through a pipe"""
    try:
        units.limit_memory()
        r = units.work(job)
    except BaseException as x:
        r = {'unit': job[0], 'ok': False, 'err': 'internal: %s' % type(x).__name__}
    try:
        data = pickle.dumps(r)
    except BaseException:
        data = pickle.dumps({'unit': job[0], 'ok': False, 'err': 'memory limit'})
    with os.fdopen(w, 'wb') as f:
        f.write(data)

def memory_left():
    """MB"""
    try:
        with open('/proc/meminfo') as f:
            for line in f:
                if line.startswith('MemAvailable:'):
                    return int(line.split()[1]) >> 10
    except OSError:
        pass
    return 1 << 20

def held(pid):
    """pages of one of the workers"""
    try:
        with open('/proc/%d/statm' % pid) as f:
            return int(f.read().split()[1])
    except (OSError, IndexError):
        return 0

def run(jobs, deadline, procs):
    """results as they come; what has not finished at the deadline is not covered"""
    for j in jobs:
        units.facts(j[1])
    gc.collect()
    gc.freeze()
    res = []
    todo = list(reversed(jobs))
    live = {}           # fd -> (pid, job, parts)
    put_off = set()     # units ended once to make room
    sel = selectors.DefaultSelector()
    try:
        while (todo or live) and time.time() < deadline:
            free = memory_left()
            if free < 2500 and len(live) > 1:
                # room is short: the biggest unit gives way and is taken up again later, with fewer beside it
                fd = max(live, key=lambda f: held(live[f][0]))
                if live[fd][1][0] not in put_off:
                    put_off.add(live[fd][1][0])
                    todo.insert(0, live[fd][1])
                    live[fd] = live[fd][:2] + (None,)
                    os.kill(live[fd][0], signal.SIGKILL)
                    procs = max(2, procs - 1)
            while todo and len(live) < procs and (free > 4000 or not live):
                job = todo.pop()
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        child(job, w)
                    except BaseException as x:
                        sys.stderr.write('%s: %r\n' % (job[0], x))
                        os._exit(1)
                    finally:
                        os._exit(0)
                os.close(w)
                live[r] = (pid, job, [])
                sel.register(r, selectors.EVENT_READ)
            for key, _ in sel.select(timeout=max(0.05, min(5.0, deadline - time.time()))):
                fd = key.fd
                data = os.read(fd, 1 << 20)
                pid, job, parts = live[fd]
                if data:
                    if parts is not None:
                        parts.append(data)
                    continue
                sel.unregister(fd)
                os.close(fd)
                del live[fd]
                _, status = os.waitpid(pid, 0)
                if parts is None:
                    continue
                try:
                    res.append(pickle.loads(b''.join(parts)))
                except Exception:
                    res.append({'unit': job[0], 'ok': False, 'err': 'the process analysing it ended early (status %d)' % status,
                                'secs': 0, 'mem': 0})
    finally:
        for fd, (pid, job, parts) in live.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
        sel.close()
    done = {r['unit'] for r in res}
    return res, sorted(j[0] for j in jobs if j[0] not in done)

def relevant(e, prop):
    return prop in e['viol']

def roundtrip(events):
    """C14 and C15 speak of encode followed by decode: if both sides of one packet type deviate at once, whether the trip
    still closes is not decided here"""
    sides = {}
    for e in events:
        sides.setdefault((e['config'], e['unit'].split(' ')[0]), set()).add(e['side'])
    for e in events:
        if len(sides[e['config'], e['unit'].split(' ')[0]] & {'r', 'w'}) == 2:
            e['undecided'] = True
            e['text'] += ' (the other direction deviates too)'
    return events

def builds_differ(events, ran):
    """C24: a deviation in one build that another build does not have"""
    by = {}
    for e in events:
        by.setdefault((e['job'], e['item'], re.sub(r'D\d+|_\d+', '', e['text']).split(':')[0][:60]), {})[e['config']] = e
    out = []
    for (job, item, _), d in by.items():
        have = ran.get(job, set())
        without = sorted(have - set(d))
        if not without:
            continue
        sure = [e for e in d.values() if not e['undecided']]
        if not sure:
            continue
        e = dict(sure[0])
        e['viol'] = ['C24']
        e['text'] = 'only in the %s build%s: %s' % (', '.join(sorted(d)), 's' if len(d) > 1 else '', e['text'])
        out.append(e)
    return out

def judge(prop, results, jobs):
    meta = {j[0]: j[5] for j in jobs}
    ev, ran = [], {}
    for r in results:
        if not r['ok']:
            continue
        m = meta[r['unit']]
        ran.setdefault(m['job'], set()).add(m['config'])
        for e in r['res']['events']:
            e['config'], e['job'] = m['config'], m['job']
            ev.append(e)
    if prop == 'C24':
        mine = [e for e in ev if 'C24' in e['viol']]
        return mine + builds_differ([e for e in ev if 'C24' not in e['viol'] and e['viol'] and e['viol'] != ['C23']], ran)
    mine = [e for e in ev if relevant(e, prop)]
    if prop in ('C14', 'C15'):
        mine = roundtrip(mine)
    return mine

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='run only units whose name contains this')
    ap.add_argument('--procs', type=int, default=int(os.environ.get('VERIF_PROCS', '0')) or os.cpu_count() or 4)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    props = plan.PROPS if a.property == 'all' else [a.property]
    budget = float(os.environ.get('VERIF_BUDGET', '0')) or (640 if a.tier == 'quick' else 3 * 3600)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(extract.BUILD, exist_ok=True)
    outdir = os.path.join(extract.BUILD, 'facts-%d' % os.getpid())
    try:
        with open(os.path.join(extract.BUILD, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            facts = extract.extract(extract.CONFIGS, outdir)
        jobs = plan.jobs(props, a.tier, facts)
        if a.only:
            jobs = [j for j in jobs if a.only in j[0]]
        results, late = run(jobs, t0 + budget, a.procs)
    except units.Missing as x:
        print('ERROR: an entry point the analysis starts from is gone: %s' % x)
        return 2
    except extract.ExtractError as x:
        print('ERROR: the crate could not be compiled for analysis:\n%s' % x)
        return 2
    finally:
        import shutil
        shutil.rmtree(outdir, ignore_errors=True)
    code = 0
    for p in props:
        code = max(code, report(p, a, jobs, results, late, seed, t0))
    return code

def report(prop, a, jobs, results, late, seed, t0):
    mine = {j[0] for j in jobs if prop in j[5]['props']}
    results = [r for r in results if r['unit'] in mine]
    late = [u for u in late if u in mine]
    events = judge(prop, results, jobs)
    sure, unsure = [], []
    for e in events:
        (unsure if e['undecided'] else sure).append(e)
    kn = known()
    listed, fresh = [], []
    for e in sure:
        hit = [t for d, t in kn if d.get('property') == prop and d.get('unit') == e['unit'] and d.get('item') == e['item']]
        (listed if hit else fresh).append((e, hit[0] if hit else ''))
    missing = [r for r in results if not r['ok'] and r.get('missing')]
    failed = [r for r in results if not r['ok'] and not r.get('missing')]
    ok = [r for r in results if r['ok']]
    done = sum(r['res']['done'].get(prop, 0) for r in ok)
    if prop == 'C24':
        done = sum(sum(r['res']['done'].values()) for r in ok)
    fns, ext = set(), {}
    calls = loops = checked = 0
    for r in ok:
        fns |= set(r['res']['fns'])
        calls += r['res']['calls']
        loops += r['res']['loops']
        checked += r['res']['checked']
        for k, v in r['res']['ext'].items():
            ext[k] = ext.get(k, 0) + v
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    def brief(e):
        return {k: e[k] for k in ('config', 'unit', 'item', 'text', 'where', 'fn', 'guard')}
    seen, viol = set(), []
    for e, _ in fresh:
        k = (e['unit'], e['item'], e['text'])
        if k not in seen:
            seen.add(k)
            viol.append(e)
    evid = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': plan.EXPLAIN[prop] + ' ' + plan.METHOD,
            'rule': plan.RULE[prop] if prop in getattr(plan, 'RULE', {}) else '',
            'units_planned': len(mine), 'units_analysed': len(ok), 'functions_analysed': len(fns), 'call_sites_entered': calls,
            'loops_solved': loops, 'panic_sites_discharged_or_reported': checked, 'comparisons_holding': done,
            'library_calls_modelled': sum(ext.values()), 'configurations': sorted({j[5]['config'] for j in jobs if j[0] in mine}),
            'functions': sorted(fns)[:400],
            'samples': sorted(r['unit'] for r in ok)[:12],
            'undecided': [brief(e) for e in unsure[:40]], 'undecided_count': len(unsure),
            'not_finished': late[:200], 'failed_units': [{'unit': r['unit'], 'why': r.get('err', '')[:400]} for r in failed + missing][:40],
            'notes': sorted({n for r in ok for n in r['res']['notes']})[:40],
            'cpu_s': round(sum(r.get('secs', 0) for r in results), 1), 'max_mem_mb': max([r.get('mem', 0) for r in results] or [0]),
        },
        'assumptions': plan.ASSUME,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    json.dump(evid, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s (%s): %d of %d units, %d functions, %d comparisons hold, %d undecided, %d not finished, %d failed, %.0f s' % (
        prop, tier, len(ok), len(mine), len(fns), done, len(unsure), len(late), len(failed) + len(missing), time.time() - t0))
    for r in (missing + failed)[:6]:
        print('  NOT ANALYSED %s: %s' % (r['unit'], r.get('err', '')[:300].replace('\n', ' ')))
    for e in unsure[:40 if a.verbose else 3]:
        print('  UNDECIDED %s [%s] %s: %s' % (e['unit'], e['config'], e['item'], e['text'][:160]))
        if a.verbose:
            print('    at %s in %s\n    when %s' % (e['where'], ' > '.join(e['fn'])[:200], e['guard'][:1500]))
    for e, t in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, t or e['text']))
    if viol:
        rp = os.path.join(EVID, prop + '.violations.json')
        json.dump([dict(brief(e), rerun='python3 check.py --property %s --only "%s"' % (prop, e['job'])) for e in viol], open(rp, 'w'), indent=1)
        for e in viol[:60 if a.verbose else 8]:
            print('  %s [%s] %s: %s\n    at %s in %s\n    when %s' % (e['unit'], e['config'], e['item'], e['text'][:300], e['where'], ' > '.join(e['fn'])[:200], e['guard'][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if not ok or not done:
        print('ERROR: nothing was decided for %s' % prop)
        return 2
    return 0

if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
