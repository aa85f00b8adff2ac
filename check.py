#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--entry NAME] [--verbose] | --setup

Decides one property of /repo by static analysis: compiles the property's harnesses to LLVM IR
(never linked, never executed) and runs the abstract interpreter of engine/ over every entry, or
runs the property's IR/AST lint.  exit 0: held on everything analysed, 1: VIOLATION, 2: no answer.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SA_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
sys.path.insert(0, ROOT)
from props import PROPS, TARGETS
BASE = ['-std=c++17', '-O1', '-g', '-fno-exceptions', '-fno-rtti', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-w',
        '-I' + ROOT + '/harness', '-S', '-emit-llvm']


def tool(name, srcs, goal):
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(os.path.join(ROOT, 'engine', s), 'rb').read())
    d = os.path.join(ROOT, 'build')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, name + '-' + h.hexdigest()[:16])
    if not os.path.exists(out):
        with open(os.path.join(d, name + '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                r = subprocess.run(['make', '-s', '-B', '-C', os.path.join(ROOT, 'engine'), goal, 'OUT=' + out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode or not os.path.exists(out):
                    sys.stderr.write(r.stdout.decode(errors='replace')[-4000:])
                    die('the analyser does not build')
    return out


def engine():
    return tool('absint', ['interp.cpp', 'dom.cpp', 'ops.cpp', 'dom.h', 'ops.h', 'intrin.inc', 'main.inc'], 'absint')


def effects_tool():
    return tool('effects', ['effects.cpp'], 'effects')


def die(msg):
    print('ANALYSIS-ERROR:', msg)
    sys.exit(2)


def compile_one(job):
    unit, out = job
    f, target, flags = unit
    cmd = [CLANG] + BASE + TARGETS[target] + ['-I' + REPO] + [x.replace('@ROOT@', ROOT) for x in flags] + ['-o', out, os.path.join(ROOT, 'harness', f)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors='replace'), cmd


STOP = {'at': None, 'why': ''}   # time after which running entries end; moved forward by the first violation


def blank(e, why):
    return {'entry': e, 'status': 'timeout', 'why': why, 'reports': [], 'checks': {}, 'stats': {}, 'functions': [], 'lines': {}, 'notes': {}}


def run_entry(job):
    eng, ll, e, seed, maxsteps, tmo, opts = job
    cmd = [eng, ll, e, '--seed', str(seed), '--repo', REPO + '/', '--maxsteps', str(maxsteps)] + opts
    if time.time() >= STOP['at']:
        return blank(e, STOP['why'])
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    while True:
        try:
            out, err = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if time.time() < STOP['at'] and time.time() - t0 < tmo:
                continue
            p.kill()
            p.communicate()
            return blank(e, STOP['why'] if time.time() >= STOP['at'] else 'time limit of %ds' % tmo)
    try:
        return json.loads(out.decode(errors='replace').strip().split('\n')[-1])
    except Exception:
        return dict(blank(e, 'engine failed (%d): %s' % (p.returncode, err.decode(errors='replace')[-500:])), status='error')


def known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)).get('findings', []) if os.path.exists(p) else []


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        engine()
        effects_tool()
        return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, verbose = None, False
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]; i += 1
        elif a[i] == '--entry':
            only = a[i + 1]; i += 1
        elif a[i] == '--verbose':
            verbose = True
        i += 1
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PROPS[pid]
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    eng = engine()
    scratch = tempfile.mkdtemp(prefix='sa.%s.' % pid)
    try:
        code, ev = decide(pid, spec, tier, seed, eng, scratch, only, verbose)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev.update({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2)})
    ev['assumptions'] = spec.get('assume', [])
    if only is None:
        json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    return code


def decide(pid, spec, tier, seed, eng, scratch, only, verbose):
    thorough = tier == 'thorough'
    units = [(u[0], u[1] if len(u) > 1 else 'avx2', list(u[2]) if len(u) > 2 else []) for u in spec.get('units', [])]
    if thorough:
        units = [(f, t, fl + ['-DSA_TIER=1']) for f, t, fl in units]
        units += [(u[0], u[1] if len(u) > 1 else 'avx2', (list(u[2]) if len(u) > 2 else []) + ['-DSA_TIER=1']) for u in spec.get('thorough', [])]
    jobs = [(u, os.path.join(scratch, '%d.ll' % n)) for n, u in enumerate(units)]
    errors, reports, results, unanswered = [], [], [], []
    opts = []
    pool = ThreadPoolExecutor(8)
    # entries start as soon as their unit is compiled
    from concurrent.futures import as_completed
    cf = {pool.submit(compile_one, j): j for j in jobs}
    ef = {}
    tmo = 3000 if thorough else 700
    STOP.update(at=time.time() + (20000 if thorough else 780), why='time limit of the check')
    kf = known()

    def listed(r):
        return [k for k in kf if k['property'] == pid and k.get('entry') in (None, r['entry']) and k['label'] == r['label'] and k.get('func', '') in r['chain'] + r['func']]
    for f in as_completed(list(cf)):
        rc, out, cmd = f.result()
        (u, ll) = cf[f]
        if rc:
            errors.append('compile %s for %s: %s' % (u[0], u[1], out.strip()[-1500:]))
            continue
        ents = subprocess.run([eng, ll, '--list'], stdout=subprocess.PIPE).stdout.decode().split()
        if not ents:
            errors.append('%s has no entries' % u[0])
        for e in ents:
            if only and e not in (only, 'sa_check_' + only):
                continue
            ef[pool.submit(run_entry, (eng, ll, e, seed, spec.get('maxsteps', 1500000000 if thorough else 300000000), tmo, opts))] = (u, e)
    for f in as_completed(list(ef)):
        r = f.result()
        u, e = ef[f]
        r['unit'] = '%s:%s' % (u[0], u[1])
        results.append(r)
        if verbose:
            s = r['stats']
            print('%-34s %-20s %-7s mb=%s rep=%d chk=%s steps=%s joins=%s k=%s opq=%s %ss %s' % (e[9:], r['unit'], r['status'], s.get('peak_mb'), len(r['reports']), s.get('checks'), s.get('steps'), s.get('joins'), s.get('maxatoms'), s.get('opaque'), s.get('seconds'), r['why'][:300]))
        for x in r['reports']:
            if 'kinds' in spec and x['kind'] not in spec['kinds']:
                continue
            x['entry'], x['unit'] = e, r['unit']
            reports.append(x)
        if r['status'] == 'gaveup' and 'budget' in r['why']:
            reports.append({'definite': True, 'kind': 'diverges', 'label': 'terminates', 'file': '', 'line': 0, 'func': '', 'detail': r['why'], 'chain': r['why'], 'witness': '', 'entry': e, 'unit': r['unit']})
        elif r['status'] != 'ok' and not any(x['definite'] for x in r['reports'] if x['kind'] in spec.get('kinds', (x['kind'],))):
            unanswered.append('%s %s: %s %s' % (r['unit'], e, r['status'], r['why'][:600]))
        elif r['status'] == 'ok' and not sum(r['checks'].values()) and not r['reports']:
            errors.append('%s %s: no obligation was reached' % (r['unit'], e))
        if any(x['definite'] and not listed(x) for x in reports) and STOP['why'] != 'stopped after a violation':
            STOP.update(at=min(STOP['at'], time.time() + 30), why='stopped after a violation')
    pool.shutdown()
    cov = {}
    for name in spec.get('lints', []):
        import importlib
        mod = importlib.import_module('lints.' + name)
        try:
            reps, errs, c = mod.run(pid, REPO, scratch, thorough, TARGETS, effects_tool())
        except Exception as x:
            if verbose:
                raise
            reps, errs, c = [], ['lint %s failed: %r' % (name, x)], {}
        for r in reps:
            r.setdefault('unit', 'lints/%s.py' % name); r.setdefault('entry', name); r.setdefault('witness', '')
        reports += reps
        errors += errs
        cov.update(c)
        if verbose:
            print(name, {k: v for k, v in c.items() if not isinstance(v, (list, dict))})
    results.sort(key=lambda r: (r['unit'], r['entry']))
    funcs, labels, lines = set(), {}, {}
    tot = {k: 0 for k in ('steps', 'joins', 'calls', 'loads', 'stores', 'checks', 'symbols', 'opaque')}
    for r in results:
        funcs.update(r['functions'])
        for l, n in r['checks'].items():
            labels[l] = labels.get(l, 0) + n
        for k in tot:
            tot[k] += r['stats'].get(k, 0)
        for f, n in r['lines'].items():
            lines.setdefault(f, set()).update(n)
    if os.environ.get('SA_COVDUMP'):
        json.dump({f: sorted(n) for f, n in lines.items()}, open(os.environ['SA_COVDUMP'], 'w'))
    und = [r for r in reports if not r['definite']]
    definite = [r for r in reports if r['definite']]
    shown, viol = set(), []
    for r in definite:
        m = listed(r)
        if m:
            if m[0]['what'] not in shown:
                shown.add(m[0]['what'])
                print('KNOWN-FINDING: property=%s %s' % (pid, m[0]['what']))
        else:
            viol.append(r)
    if units:
        cov.update({'rule': 'abstract interpretation of the compiled IR: every obligation must hold on every abstract state that reaches it; a report needs a witness assignment that evaluates to a failure',
                    'entries': len(results), 'units': sorted({r['unit'] for r in results}), 'obligations_by_rule': labels, 'obligation_instances': sum(labels.values()),
                    'abstract_steps': tot['steps'], 'control_flow_joins': tot['joins'], 'call_sites_entered': tot['calls'], 'memory_reads_checked': tot['loads'], 'memory_writes_checked': tot['stores'],
                    'input_symbols': tot['symbols'], 'unknown_values': tot['opaque'], 'library_functions': sorted(funcs), 'library_function_count': len(funcs), 'library_lines_by_file': {f: len(n) for f, n in sorted(lines.items())}})
        if 'kinds' in spec:
            cov['obligation_instances'] = tot['loads'] + tot['stores']
            cov['rule'] = 'every memory access, branch, division and instrumented operation reached in the abstract run must be free of undefined behaviour: ' + ', '.join(spec['kinds'])
    cov['undecided'] = len(und)
    cov['undecided_list'] = [{k: r[k] for k in ('entry', 'kind', 'label', 'file', 'line', 'func', 'detail')} for r in und[:40]]
    cov['explanation'] = spec['explain']
    cov['analysis_errors'] = errors
    cov['entries_without_answer'] = unanswered
    ev = {'coverage': cov, 'violations': len(viol)}
    for r in und[:20]:
        print('UNDECIDED: %s %s [%s] %s at %s:%s %s' % (r['unit'], r['entry'], r['kind'], r['label'], r['file'], r['line'], r['detail']))
    if viol:
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, pid + '.json')
        json.dump({'property': pid, 'command': 'python3 %s/check.py %s --entry %s' % (ROOT, pid, viol[0]['entry']), 'reports': viol}, open(p, 'w'), indent=1)
        for r in viol[:5]:
            print('  %s: rule "%s" broken [%s] at %s:%s in %s: %s\n    via %s\n    input %s' % (r['entry'], r['label'], r['kind'], r['file'], r['line'], r['func'], r['detail'], r['chain'][:600], r['witness'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1, ev
    for e in unanswered:
        print('NOT-ANALYSED:', e)
    if len(unanswered) * 4 > len(results):
        errors.append('%d of %d entries gave no answer' % (len(unanswered), len(results)))
    for e in errors:
        print('ANALYSIS-ERROR:', e)
    if errors:
        return 2, ev
    print('%s: %d entries, %d obligations, %d library functions analysed, %d undecided: no violation' % (pid, len(results) - len(unanswered), cov.get('obligation_instances', 0), cov.get('library_function_count', len(funcs)), len(und)))
    return 0, ev


sys.exit(main())
