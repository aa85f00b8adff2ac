import glob, json, os, re, subprocess
CLANG = '/usr/bin/clang++-18'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ['-std=c++17', '-O0', '-g', '-fno-exceptions', '-fno-rtti', '-w', '-S', '-emit-llvm', '-I' + ROOT + '/harness']
STD = ''.join('#include <%s>\n' % h for h in 'algorithm cassert cmath cstdint cstring functional initializer_list iostream limits random utility vector'.split())


def compile_ir(src, out, target, repo, extra=()):
    r = subprocess.run([CLANG] + BASE + target + ['-I' + repo] + list(extra) + ['-o', out, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors='replace')


def facts(tool, ll, repo):
    r = subprocess.run([tool, ll, '--repo', repo.rstrip('/') + '/'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return json.loads(r.stdout.decode(errors='replace'))


def first_error(txt, repo):
    m = re.search(r'([^\s:]+):(\d+):\d+: (?:fatal )?error: (.*)', txt)
    return (os.path.basename(m.group(1)), int(m.group(2)), m.group(3)) if m else ('', 0, txt.strip()[:300])


def report(label, file, line, func, detail, chain, kind='rule'):
    return {'definite': True, 'kind': kind, 'label': label, 'file': file, 'line': line, 'func': func, 'detail': detail, 'chain': chain}


def control(tool, scratch):
    """the rules must fire on a unit that breaks each of them"""
    d = os.path.join(scratch, 'control')
    os.makedirs(d, exist_ok=True)
    open(d + '/bad.hh', 'w').write('''
template <int N> struct Coder {
	int state[N];
	static int scratch[N];
	int work(int a) { static int calls; ++calls; for (int i = 0; i < N; ++i) scratch[i] = a + i; return scratch[0]; }
	int kept(int a) { static const int first = a; return first; }
	int say(int a) { std::cerr << a; return rand(); }
};
template <int N> int Coder<N>::scratch[N];
int twice(int a) { return 2 * a; }
int counter;
''')
    open(d + '/bad.cc', 'w').write(STD + '#include "bad.hh"\nint use(Coder<3> &c, int a) { return c.work(a) + c.kept(a) + c.say(a) + twice(a) + counter; }\n')
    rc, out = compile_ir(d + '/bad.cc', d + '/bad.ll', ['-stdlib=libstdc++', '-I' + d], d)
    if rc:
        return 'control unit does not compile: ' + out[-500:]
    f = facts(tool, d + '/bad.ll', d)
    bad = [w for g in f['globals'] for w in g['writes'] if not w['ok']]
    names = {g['name'].split('::')[-1].split('(')[0] for g in f['globals'] if any(not w['ok'] for w in g['writes'])}
    if len(names) < 3:
        return 'control: shared state not recognised: %r' % names
    if not {'stream output or input', 'process-wide effect'} <= {e['kind'] for e in f['effects']}:
        return 'control: effects not recognised'
    if {s['name'] for s in f['strong']} < {'twice(int)', 'counter'}:
        return 'control: strong definitions not recognised: %r' % f['strong']
    return ''
