"""Compile-fail witnesses: programs that use parameters the templates cannot serve, or confuse field elements, must be refused;
each comes with a twin that differs only in the offending part and must be accepted."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .common import *
ALL = '*'
GF = '#include "galois_field.hh"\ntypedef CODE::GaloisField<8, 0b100011101, uint8_t> F8;\ntypedef CODE::GaloisField<8, 0b101001101, uint8_t> G8;\ntypedef CODE::GaloisField<4, 0b10011, uint8_t> F4;\n'
PF = '#include "prime_field.hh"\ntypedef CODE::PrimeField<uint32_t, 257> A;\ntypedef CODE::PrimeField<uint32_t, 65537> B;\n'
TAB = '''template <int m, int max> struct TT { static const int M = m, N = 3 * m, K = m, LINKS_MIN_CN = 2, LINKS_MAX_CN = max, LINKS_TOTAL = 7 * m - 1, DEG_MAX = 3;
static constexpr int DEG[] = {3, 0}, LEN[] = {1, 0}; static constexpr int POS[] = {0, 17, 41}; };
'''
LD = '#include "simd.hh"\n#include "ldpc_decoder.hh"\n' + TAB
V = 'F8::ValueType v(1), w(2); F8::IndexType i(1), j(2); F4::ValueType s(1); G8::ValueType o(1); F4::IndexType k(1); G8::IndexType l(1); uint8_t raw = 3; F8::ValueType x; F8::IndexType y; bool z; '


def use(body):
    return 'void use() { %s }\n' % body


# name, prelude, template of the program, refused fillings, accepted fillings, targets
W = [
    ('the polynomial of a field has the degree of the field', '#include "galois_field.hh"\n', use('static CODE::GaloisField<%s, uint8_t> f; (void)f; CODE::GaloisField<%s, uint8_t>::ValueType v(1); CODE::GaloisField<%s, uint8_t>::IndexType i(1);'), ['8, 0b10011', '4, 0b100011101', '8, 0b1100011101', '8, 0b00011101'], ['8, 0b100011101', '4, 0b10011'], None),
    ('the storage of a field element is wide enough', '#include "galois_field.hh"\n', use('static CODE::GaloisField<%s> f; (void)f; CODE::GaloisField<%s>::ValueType v(1);'), ['9, 0b1000010001, uint8_t', '16, 0b10001000000001011, uint8_t', '12, 0b1000001010011, uint8_t'], ['9, 0b1000010001, uint16_t', '16, 0b10001000000001011, uint16_t', '12, 0b1000001010011, uint16_t'], None),
    ('the polynomial of a reference field has the degree of the field', '#include "galois_field.hh"\n', use('CODE::GaloisFieldReference<%s> v(1), w(2); (void)(v * w);'), ['8, 0b10011, uint8_t', '9, 0b1000010001, uint8_t', '32, 0b100011101, uint32_t'], ['8, 0b100011101, uint8_t', '9, 0b1000010001, uint16_t'], None),
    ('values and logarithms are not confused', GF, use(V + '%s;'), ['x = v + i', 'x = i + j', 'y = v * w', 'x = i', 'y = v', 'z = v == i', 'x = i * j', 'y = i + j', 'y = i - j', 'x = v + j'],
     ['x = v + w', 'y = i * j', 'x = v * w', 'x = v', 'y = i', 'z = v == w', 'x = i * v', 'x = v * i', 'x = fma(i, v, w)'], None),
    ('elements of different fields do not mix', GF, use(V + '%s;'), ['x = v + s', 'x = v * o', 'y = i * k', 'y = i * l', 'x = v / o', 'x = i * s', 'x = fma(k, v, w)', 'x = fma(i, v, o)', 'z = v == o', 'x = o', 'y = l', 'v += o', 'v *= s', 'i *= l'], ['v += w', 'v *= w', 'i *= j', 'x = v / w', 'y = i / j', 'o += o', 's *= s'], None),
    ('plain numbers do not become field elements silently', GF, use(V + '%s;'), ['x = raw', 'v = 5', 'i = 5', 'v += raw', 'v *= 2', 'x = v + raw'], ['x = F8::ValueType(raw)', 'v = F8::ValueType(5)', 'i = F8::IndexType(5)', 'v += F8::ValueType(raw)'], None),
    ('residues of different primes do not mix', PF, use('A a(1), b(2); B c(3); bool z; %s;'), ['a = a + c', 'a = a * c', 'a += c', 'a = c', 'z = a == c', 'a = 7', 'a += 7'], ['a = a + b', 'a = a * b', 'a += b', 'z = a == b', 'a = A(7)', 'a += A(7)', 'a = a / b', 'a = a - b'], None),
    ('erasure blocks are shorter than the field is large', '#include "prime_field.hh"\n#include "cauchy_prime_field_erasure_coding.hh"\n', use('typedef CODE::PrimeField<uint32_t, 257> P; typedef CODE::PrimeField<uint32_t, 65537> Q; static CODE::CauchyPrimeFieldErasureCoding<%s> c; (void)c;'), ['P, uint8_t, 256', 'P, uint8_t, 257', 'P, uint8_t, 1000', 'Q, uint16_t, 65536', 'Q, uint16_t, 70000'], ['P, uint8_t, 255', 'P, uint8_t, 1', 'Q, uint16_t, 65535', 'Q, uint16_t, 1024'], None),
    ('bit reversal has a power of two elements', '#include "permute.hh"\n', 'void use(int *a) { CODE::BitReversalPermute<%s>(a); }\n', ['3', '12', '0', '24', '1023', '65535'], ['1', '2', '4', '16', '1024', '65536'], None),
    ('the order of an interleaver divides its size', '#include "interleave.hh"\n', 'void use(int *a, const int *b) { CODE::%s(a, b); }\n', ['Interleave<10, 3>', 'Deinterleave<10, 3>', 'Interleave<64800, 7>', 'Deinterleave<64800, 7>'], ['Interleave<12, 3>', 'Deinterleave<12, 3>', 'Interleave<64800, 8>', 'Deinterleave<1, 1>'], None),
    ('a rotation is no wider than its vector', '#include "simd.hh"\n#include "rotate.hh"\n', use('typedef SIMD<int8_t, 16> S16; typedef SIMD<int8_t, 32> S32; typedef SIMD<int16_t, 16> H16; static CODE::Rotate<%s> r; (void)r;'), ['S16, 17', 'S16, 30', 'S32, 33', 'S32, 60', 'H16, 17'], ['S16, 16', 'S16, 15', 'S32, 32', 'S32, 30', 'H16, 16', 'H16, 3'], ALL),
    ('the check matrix fits the vectors of the decoder', LD, use('static CODE::LDPCDecoder<TT<%s>, 2> d; (void)d;'), ['45 + 1, 4', '31, 4', '7, 4', '362, 4'], ['30, 4', '360, 4', '60, 4'], ALL),
    ('the check nodes fit the write mask of the decoder', LD, use('static CODE::LDPCDecoder<TT<30, %s>, 2> d; (void)d;'), ['35', '40', '67'], ['34', '4', '12'], ALL),
    ('polar decoders support lengths 32 to 2^20', '#include "simd.hh"\n#include "polar_helper.hh"\n#include "polar_encoder.hh"\n#include "polar_decoder.hh"\n', use('static CODE::PolarDecoder<%s> d; (void)d;'), ['int8_t, 4', 'int8_t, 0', 'int8_t, 21', 'int8_t, 1'], ['int8_t, 5', 'int8_t, 20', 'int8_t, 10'], ALL),
    ('polar list decoders support lengths 32 to 2^16', '#include "simd.hh"\n#include "sort.hh"\n#include "polar_helper.hh"\n#include "polar_encoder.hh"\n#include "polar_list_decoder.hh"\n', use('static CODE::PolarListDecoder<SIMD<int8_t, 16>, %s> d; (void)d;'), ['4', '0', '17', '20'], ['5', '11', '16'], None),
    ('parity-aided polar list decoders support lengths 32 to 2^16', '#include "simd.hh"\n#include "sort.hh"\n#include "polar_helper.hh"\n#include "polar_encoder.hh"\n#include "polar_parity_aided.hh"\n', use('static CODE::PolarParityDecoder<SIMD<int8_t, 16>, %s> d; (void)d;'), ['4', '0', '17', '20'], ['5', '11', '16'], None),
    ('codewords of the short block code fit an integer', '#include "short_bch_code_encoder.hh"\n#include "short_bch_code_decoder.hh"\n', use('static CODE::ShortBCHCodeDecoder<%s> d; (void)d;'), ['32, 16, 0b1000111110101111, 3', '40, 28, 0b101011100011, 2', '15, 7, 0b111010001, 4', '15, 7, 0b111010001, 0', '23, 12, 0b101011100011, -1'], ['31, 16, 0b1000111110101111, 3', '15, 7, 0b111010001, 2', '15, 11, 0b10011, 1'], None),
    ('codewords of the short block code fit an integer', '#include "short_bch_code_encoder.hh"\n', use('static CODE::ShortBCHCodeEncoder<%s> d; (void)d;'), ['32, 16, 0b1000111110101111', '40, 28, 0b101011100011'], ['31, 16, 0b1000111110101111', '23, 12, 0b101011100011'], None),
    ('vectors are reinterpreted as vectors of the same shape', '#include "simd.hh"\n', use('SIMD<int8_t, %s> b; auto c = vreinterpret<SIMD<%s>>(b); (void)c;'), [('16', 'uint8_t, 32'), ('32', 'uint8_t, 16'), ('16', 'int16_t, 8'), ('16', 'int16_t, 16'), ('24', 'uint8_t, 12'), ('24', 'uint16_t, 24')], [('16', 'uint8_t, 16'), ('32', 'uint8_t, 32'), ('24', 'uint8_t, 24'), ('5', 'uint8_t, 5')], ALL),
]


def run(pid, repo, scratch, thorough, targets, tool):
    jobs = []
    for n, pre, t, bad, good, tg in W:
        for ok, fills in ((True, good), (False, bad)):
            for f in fills:
                body = t
                if isinstance(f, tuple):
                    body = t % f
                else:
                    body = t.replace('%s', f)
                for k in (targets if tg == ALL else ['avx2']):
                    jobs.append((n, ok, f, k, STD + pre + body))

    def one(a):
        i, (n, ok, f, k, src) = a
        c = os.path.join(scratch, 'wit%d.cc' % i)
        open(c, 'w').write(src)
        r = subprocess.run([CLANG, '-std=c++17', '-fsyntax-only', '-w', '-fno-exceptions', '-fno-rtti'] + targets[k] + ['-I' + repo, c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode(errors='replace')
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(jobs)))
    reps, errs, seen = [], [], set()
    plain = {}
    for (n, ok, f, k, src), (rc, out) in zip(jobs, res):
        if rc < 0 or rc > 1:
            errs.append('the compiler failed on %s' % (f,))
        if ok and rc or not ok and not rc:
            key = (n, ok)
            if key in seen:
                continue
            seen.add(key)
            heads = re.findall(r'#include "([^"]+)"', src)
            if ok:
                a, b, m = first_error(out, repo)
                reps.append(report(n, a, b, '', 'a supported use does not compile: %s' % m, 'use %s for %s' % (f, k)))
            else:
                reps.append(report(n, heads[-1], 0, '', 'an unusable use compiles', 'use %s for %s: %s' % (f, k, src.strip().split('\n')[-1][:300])))
    cov = {'rule': 'each refused program fails to compile, its accepted twin compiles', 'witness_programs': len(jobs), 'refused_programs': sum(1 for j in jobs if not j[1]), 'rules': sorted({j[0] for j in jobs}), 'obligation_instances': len(jobs),
           'programs': ['%s %s (%s)' % ('accepts' if j[1] else 'refuses', j[2], j[3]) for j in jobs]}
    return reps, errs, cov
