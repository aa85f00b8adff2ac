"""All headers together, in any order, repeatedly and for every target; nothing they define may clash between units."""
import glob, os, re
from concurrent.futures import ThreadPoolExecutor
from .common import *


def run(pid, repo, scratch, thorough, targets, tool):
    err = control(tool, scratch)
    if err:
        return [], [err], {}
    heads = sorted(os.path.basename(h) for h in glob.glob(repo + '/*.hh'))
    inc = {h: re.findall(r'^\s*#\s*include\s*"([^"]+)"', open(os.path.join(repo, h)).read(), re.M) for h in heads}
    back, todo = set(), list(inc.get('simd.hh', []))
    while todo:
        h = todo.pop()
        if h in inc and h not in back:
            back.add(h)
            todo += inc[h]
    pub = [h for h in heads if h not in back and h != 'simd.hh']
    if len(pub) < 20 or 'simd.hh' not in heads:
        return [], ['only %d public headers found' % len(pub)], {}
    pre = STD + '#include "simd.hh"\n'
    orders = {'ascending': pub, 'descending': pub[::-1], 'twice': pub + pub, 'middle out': pub[len(pub) // 2:] + pub[:len(pub) // 2]}
    jobs = []
    for t in targets:
        jobs.append((t, 'empty', STD, []))
        for n, o in orders.items():
            jobs.append((t, n, pre + ''.join('#include "%s"\n' % h for h in o) + ('#include "simd.hh"\n' if n == 'twice' else ''), []))
        for h in pub:
            jobs.append((t, 'only ' + h, pre + '#include "%s"\n' % h, []))

    def one(a):
        i, (t, n, src, fl) = a
        c = os.path.join(scratch, 'link%d.cc' % i)
        ll = c[:-3] + '.ll'
        open(c, 'w').write(src)
        rc, out = compile_ir(c, ll, targets[t], repo, fl)
        if rc:
            return out
        x = facts(tool, ll, repo)
        os.remove(ll)
        return x
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(jobs)))
    reps, errs, seen, defs, alone = [], [], set(), 0, set()
    for (t, n, _, _), x in zip(jobs, res):
        if isinstance(x, str) and n == 'empty':
            errs.append('standard headers do not compile for %s: %s' % (t, x[-300:]))
    if errs:
        return [], errs, {}
    for (t, n, _, _), x in zip(jobs, res):
        if isinstance(x, str):
            a, b, m = first_error(x, repo)
            if (a, b) not in seen:
                seen.add((a, b))
                reps.append(report('headers compile in every combination', a, b, '', m, 'unit "%s" for %s' % (n, t)))
            continue
        defs += x['stats']['definitions']
        for s in x['strong']:
            k = (s['file'], s['line'], s['name'])
            if k not in seen:
                seen.add(k)
                reps.append(report('definitions in headers can be repeated', s['file'], s['line'], s['name'], 'a definition with external linkage that is neither a template nor inline: two units including the header do not link', 'unit "%s" for %s' % (n, t)))
    cov = {'rule': 'every combination unit compiles; every function or variable a header defines has internal, inline or template linkage', 'units': ['%s: %s' % (t, n) for t, n, _, _ in jobs if not n.startswith('only')], 'headers': pub, 'backend_headers': sorted(back),
           'combination_units': len(jobs), 'definitions_examined': defs, 'obligation_instances': defs + len(jobs)}
    return reps, errs, cov
