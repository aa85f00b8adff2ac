"""No library operation writes memory shared between objects, or has process-wide effects (IR effect analysis)."""
import glob, os
from concurrent.futures import ThreadPoolExecutor
from .common import *


def run(pid, repo, scratch, thorough, targets, tool):
    err = control(tool, scratch)
    if err:
        return [], [err], {}
    from props import PROPS
    units = []
    for p, s in sorted(PROPS.items()):
        for u in s.get('units', []):
            t = u[1] if len(u) > 1 else 'avx2'
            if (u[0], t) not in units:
                units.append((u[0], t))
    pid_out = [(u, os.path.join(scratch, 'eff%d.ll' % i)) for i, u in enumerate(units)]

    def one(j):
        (f, t), ll = j
        rc, out = compile_ir(os.path.join(ROOT, 'harness', f), ll, targets[t], repo)
        if rc:
            return 'compile %s for %s: %s' % (f, t, out[-800:])
        x = facts(tool, ll, repo)
        os.remove(ll)
        return x
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, pid_out))
    reps, errs, fn, glob_, seen = [], [], set(), {}, set()
    tot = {'instances': 0, 'call_sites': 0, 'stores': 0, 'indirect_calls': 0, 'reachable_functions': 0}
    for ((f, t), _), x in zip(pid_out, res):
        if isinstance(x, str):
            errs.append(x)
            continue
        fn.update(x['functions'])
        for k in tot:
            tot[k] += x['stats'][k]
        for g in x['globals']:
            k = (g['file'], g['line'])
            e = glob_.setdefault(k, {'name': g['name'], 'at': '%s:%d' % k, 'reads': 0, 'writes': 0, 'accepted': set()})
            e['reads'] += g['reads']
            e['writes'] += len(g['writes'])
            for w in g['writes']:
                if w['ok']:
                    e['accepted'].add(w['why'])
                elif (k, w['at']) not in seen:
                    seen.add((k, w['at']))
                    a, _, b = w['at'].rpartition(':')
                    reps.append(report('objects share no mutable state', a, int(b), w['in'], '%s of %s (%s:%d), which every object shares%s' % (w['what'], g['name'], g['file'], g['line'], ': ' + w['why'] if w['why'] else ''), w['chain']))
        for e in x['effects']:
            if (e['callee'], e['at']) not in seen:
                seen.add((e['callee'], e['at']))
                a, _, b = e['at'].rpartition(':')
                reps.append(report('no process-wide effect', a, int(b), e['chain'].split(' > ')[0], '%s: calls %s' % (e['kind'], e['callee']), e['chain']))
    if not errs and (len(fn) < 250 or tot['call_sites'] < 5000):
        errs.append('only %d library functions with %d call sites were found' % (len(fn), tot['call_sites']))
    for e in glob_.values():
        e['accepted'] = sorted(e['accepted'])
    cov = {'rule': 'in -O0 IR after SROA: no store, block write, atomic-free update or escape of a non-constant global defined in the library, directly or through callees, callers and pointers held in it, outside argument-less constructors/destructors of the class owning it; no call path from a library function to input, output, clock, environment, random or process-wide functions',
           'units': sorted('%s:%s' % u for u in units), 'library_functions': sorted(fn), 'library_function_count': len(fn), 'function_instances': tot['instances'], 'call_sites': tot['call_sites'], 'stores_in_library_functions': tot['stores'], 'indirect_calls': tot['indirect_calls'],
           'functions_followed': tot['reachable_functions'], 'mutable_globals': sorted(glob_.values(), key=lambda e: e['at'])[:60], 'mutable_global_count': len(glob_), 'obligation_instances': tot['call_sites'] + sum(e['writes'] for e in glob_.values())}
    return reps, errs, cov
