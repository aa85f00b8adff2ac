"""The properties, how each is anchored, and which harness units and lints decide it."""
LIBCXX = ['-stdlib=libstdc++']
TARGETS = {
    'avx2': LIBCXX + ['-march=x86-64-v3'],
    'sse4': LIBCXX + ['-march=x86-64-v2'],
    'gen': LIBCXX + ['-march=x86-64'],
    'neon': ['-stdlib=libc++', '--target=aarch64-linux-gnu', '-march=armv8-a+crc+simd', '-idirafter', '/usr/aarch64-linux-gnu/include'],
}
PROPS = {}
ABS = 'abstract interpretation of LLVM IR (GF(2)-affine / truth-table bit domain)'
A_INST = 'template parameters and sizes are the ones instantiated in the harness; the input contents are unbounded'
A_IR = 'clang 18 IR at -O1 with strict floating-point flags represents the sources the project compiles with -O2 -ffast-math'
A_SPEC = 'the arithmetic reference in the harness states the intended mathematics'


def P(pid, title, statement, over, quant, why, files, mech, explain, units=(), lints=(), thorough=(), technique=ABS, note='', assume=(), **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, explain=explain, units=list(units), lints=list(lints),
                      thorough=list(thorough), technique=technique, note=note, assume=list(assume) or [A_INST, A_IR, A_SPEC], **kw)


P('P01', 'CRC registers equal bit-serial polynomial division for every input',
  'For every polynomial width, register content and data, updating a CRC with a byte or a wider word leaves the same register as feeding the bits one at a time, least significant first. The register follows the reflected remainder recurrence of its polynomial, reset restores the initial value, and appending the CRC to the data always brings the register to zero.',
  ['inputs'], 'every register value and every data byte/word, for each supported register type and several polynomials',
  'The test compares two known check values; the lookup tables have 256 entries and the register 2^32 states, of which it visits a handful.',
  ['crc.hh'], [('bit, byte and word update', 'crc.hh: CRC::operator()'), ('table construction', 'crc.hh: CRC::CRC')],
  'Register and data bits are symbols; the table look-up is resolved to an affine form in them, so one abstract run decides all values. Obligations: byte/16/32/64-bit updates equal the bit-serial updates, one bit update equals the recurrence, reset, and the residue.',
  [('p01_crc.cc',)])

P('P02', 'Pseudo-random generators run through their full advertised period',
  'Every xorshift generator maps its non-zero states onto each other in a single cycle of full length, so no seed-reachable state repeats early or falls to zero. Resetting reproduces the sequence of a fresh generator, copies continue identically, and every output lies between the advertised minimum and maximum.',
  ['inputs', 'histories'], 'every non-zero state (2^32 to 2^160) and every history of draws and resets',
  'A period of 2^64 or more cannot be observed by running; tests look at a few outputs.',
  ['xorshift.hh'], [('state update', 'xorshift.hh: operator()'), ('seed and reset', 'xorshift.hh: constructors, reset')],
  'One step is executed on a symbolic state; its result is extracted as a square matrix over GF(2) and the order of the matrix is computed against the factorisation of 2^n-1 (full period iff the order is maximal). For the generator with an added counter the linear part and the counter part are separated.',
  [('p02_prng.cc',)])

P('P03', 'Maximum length sequences are the recurrence of their polynomial',
  'A maximum length sequence built from a primitive polynomial visits every non-zero register state before it repeats, and each output bit satisfies the linear recurrence the polynomial defines. The built-in self-check accepts exactly the polynomials with this property, and reset restarts the sequence.',
  ['inputs', 'histories'], 'every register state, for polynomials of degree 2 to 30; all polynomials of small degree for the self-check',
  'Tests iterate one sequence once; maximality of long registers and the recurrence for every state is out of reach of iteration.',
  ['mls.hh'], [('register update', 'mls.hh: MLS::operator()'), ('self-check', 'mls.hh: MLS::bad')],
  'The register update is executed on a symbolic state and its matrix order computed; outputs are compared with the recurrence as affine forms; the self-check is executed on every polynomial of degree up to 8 and compared with the order of x.',
  [('p03_mls.cc',)])

P('P04', 'Single-bit accessors touch exactly the addressed bit',
  'Setting, toggling or reading a bit of a buffer by its position changes or returns exactly that bit in the chosen big- or little-endian numbering. Every other bit of the buffer, and every byte outside it, keeps its value.',
  ['inputs'], 'every buffer content, bit value and position',
  'The helpers have no test of their own; other tests only exercise them on matching write/read pairs, where symmetric mistakes cancel.',
  ['bitman.hh'], [('set/xor/get helpers', 'bitman.hh: set_be_bit, set_le_bit, xor_be_bit, xor_le_bit, get_be_bit, get_le_bit')],
  'Buffers are symbolic and red-zoned; the result must be bit-identical to an independent shift-and-mask model at every position, for fixed and symbolic positions, and far into a 64 KiB buffer.',
  [('p04_bitman.cc',)])

P('P05', 'A bitstream behaves as an array of bits at every offset',
  'Writing bits, bytes, words of any width or blocks at any position of a bitstream and seeking back reads the same values, moves the position by exactly the number of bits involved, and leaves every other bit of the stream unchanged. Fields are laid out least significant bit first and reads never change the content.',
  ['inputs', 'histories'], 'every stream content, value, field width, block length and bit offset, including ones crossing byte boundaries',
  'The test writes and reads one ascending pattern; unaligned and boundary-crossing combinations number in the thousands and neighbours are never checked.',
  ['bitstream.hh'], [('unaligned read/write', 'bitstream.hh: Bitstream put*/get*'), ('position', 'bitstream.hh: seek, tell')],
  'Stream content and values are symbols and the harness replays each operation on a bit-array model; after each operation the whole stream and the position must be equal to the model, for every offset and width.',
  [('p05_bitstream.cc',)])

P('P06', 'Permuters and interleavers are invertible fixed rearrangements',
  'Every interleaver, pseudo-random shuffle and bit reversal moves each array element to a place that depends only on the array size, and the inverse operation restores the original array for every content. The interleaver takes its output from equal segments in turn, bit reversal exchanges each index with its mirrored one, and repeating an operation on a fresh array gives the same arrangement.',
  ['inputs', 'histories'], 'every array content, for sizes and element types instantiated',
  'Tests run one array through forward and inverse; two inverse mistakes cancel, and duplicates or content dependence stay invisible.',
  ['interleave.hh', 'permute.hh'], [('block and convolutional interleaver', 'interleave.hh'), ('shuffle and bit reversal', 'permute.hh: FisherYatesShuffle, BitReversalPermute')],
  'Array elements are symbols; after the operation every element must be exactly one of the input symbols, all distinct, equal to the documented positions where they are documented, and restored by the inverse.',
  [('p06_permute.cc',)])

P('P07', 'Exclusive reduction combines all elements but the own one',
  'For every array of two or more elements and every associative and commutative operation, the result at each position is the combination of all elements but the one at that position. The input is not modified and nothing outside the output array is written.',
  ['inputs'], 'every content for lengths 2 to 33 and several operations',
  'The LDPC decoder exercises it only on the degrees of its tables; mistakes in rarely used lengths hide behind the correction ability of the code.',
  ['exclusive_reduce.hh'], [('prefix/suffix scheme', 'exclusive_reduce.hh: exclusive_reduce')],
  'Elements are symbols; the result must equal the exclusive xor, minimum and other reductions computed directly, as bit-level forms.',
  [('p07_reduce.cc',)])

P('P08', 'Scalar sorts return the sorted rearrangement of any input',
  'Each sorting routine leaves the elements of its input in ascending order, with nothing lost, duplicated or invented, for every content and length, and equal elements keep their order. The index-returning variant names the origin of every element, and no routine touches memory outside its arrays.',
  ['inputs'], 'every content within the symbolic widths instantiated, lengths from 1 upwards',
  'Random arrays rarely hit ties, extremes and the boundary lengths at which the algorithms switch strategy.',
  ['sort.hh'], [('insertion, merge and other sorts', 'sort.hh')],
  'Sorting networks and loops are executed on symbolic arrays (as joined abstract states); the output must be monotone, and the count of each value must be preserved; by the 0-1 principle comparator sequences are decided on bits.',
  [('p08_sort.cc',)])

P('P09', 'SIMD sorting and ordering agree with scalar sorting in every lane pattern',
  'The vector sorts return every vector in ascending order with the accompanying index vector saying where each element came from, for every content including ties and extremes. Equal elements keep their order and the argument is not modified.',
  ['inputs'], 'every lane content of the vector types instantiated',
  'Random vectors do not cover all comparator outcomes (2^16 for sixteen lanes) nor ties at the extremes.',
  ['simd_sort.hh'], [('comparator networks', 'simd_sort.hh: vsort, vorder')],
  'The comparator network is executed on symbolic 0/1 lanes (0-1 principle) and checked for sortedness, permutation and consistency of the order vector on every assignment at once.',
  [('p09_simdsort.cc',), ('p09_simdsort.cc', 'sse4'), ('p09_simdsort.cc', 'gen'), ('p09_simdsort.cc', 'neon')])

P('P10', 'Galois field arithmetic satisfies the field axioms for every element',
  'Multiplication, division, reciprocal, powers and the fused multiply-add of the table-driven and of the table-free field types agree with carry-less arithmetic modulo the defining polynomial for every pair of operands. Conversions between elements and exponents are mutually inverse, and zero is handled exactly where it is admitted.',
  ['inputs'], 'every operand pair of each field up to 256 elements; one free operand for the large fields',
  'A field of 2^16 elements has 2^32 operand pairs; the tests exercise the few that occur while coding one message.',
  ['galois_field.hh'], [('log/exp tables', 'galois_field.hh: GaloisField::Tables'), ('value and index operators', 'galois_field.hh: operator*, /, rcp, fma')],
  'Operands are symbolic; table reads become truth tables over the operand bits and the result must equal a carry-less reference product bit for bit.',
  [('p10_gf.cc',)])

P('P11', 'Prime field arithmetic is exact modulo the prime',
  'Sums, differences, products, quotients, negations, powers and reciprocals of the prime field types equal integer arithmetic modulo the prime for all operands, and results stay reduced. This includes the operands next to the prime and to powers of two, and every prime whose products fit the type.',
  ['inputs'], 'all operands modulo 257 and the small primes; one free operand against boundary operands modulo 65537; windows of operands modulo 40961, 65521, 2147483647 and 4294967291',
  'A modulus of 65537 has 2^32 operand pairs and reductions fail only at isolated operands; other primes are not tested at all.',
  ['prime_field.hh'], [('reductions', 'prime_field.hh: PrimeField operator*, +, -, rcp')],
  'Operands are symbolic bits; results are truth tables compared with plain integer arithmetic modulo the prime.',
  [('p11_pf.cc',)])

P('P12', 'BCH encoding yields systematic codewords for every message',
  'For every message, length and shortening, the parity produced together with the data forms a multiple of the generator polynomial: all prescribed powers of the primitive element are roots. The data are not altered, bits beyond the code are not touched, and the two encoder interfaces agree.',
  ['inputs'], 'every message of each instantiated code, full and shortened lengths',
  'Tests encode a few messages; linearity mistakes at table boundaries affect single message bits out of up to 65343.',
  ['bose_chaudhuri_hocquenghem_encoder.hh', 'galois_field.hh'], [('LFSR encoder', 'bose_chaudhuri_hocquenghem_encoder.hh: operator()'), ('generator polynomial', 'bose_chaudhuri_hocquenghem_encoder.hh: constructor')],
  'Message bits are symbols, parity bits come out as affine forms; the codeword polynomial is reduced modulo the generator and evaluated at the prescribed roots with independent arithmetic, and must vanish identically.',
  [('p12_bchenc.cc',)])

P('P13', 'Reed-Solomon encoding yields systematic codewords for every message',
  'For every message and shortening, data and parity symbols form a polynomial that vanishes at every prescribed consecutive power of the primitive element. The data are not altered and nothing outside the parity buffer is written.',
  ['inputs'], 'every message of each instantiated code (all symbols free for fields up to 256)',
  'Tests encode a few random messages; a wrong table entry or special case for zero feedback shows for single symbol values.',
  ['reed_solomon_encoder.hh', 'galois_field.hh'], [('LFSR encoder', 'reed_solomon_encoder.hh: operator()'), ('generator polynomial', 'reed_solomon_encoder.hh: constructor')],
  'Message symbols are symbolic; the syndromes computed with reference arithmetic must vanish identically.',
  [('p13_rsenc.cc',)])

P('P14', 'Small block encoders compute the published generator matrix for every message',
  'The Hadamard, simplex and short BCH encoders map every message to the codeword of their defining matrix or polynomial, in the documented bit order and sign convention. The generic linear encoder and the BCH generator matrix agree with the matrix product and with the BCH encoder.',
  ['inputs'], 'every message of every instantiated size',
  'Tests run a random message through encoder and decoder, where a changed bit order cancels.',
  ['hadamard_encoder.hh', 'simplex_encoder.hh', 'short_bch_code_encoder.hh', 'osd.hh', 'bose_chaudhuri_hocquenghem_encoder.hh'], [('sign tables', 'hadamard_encoder.hh, simplex_encoder.hh'), ('polynomial division', 'short_bch_code_encoder.hh'), ('matrix encoder', 'osd.hh: LinearEncoder, BoseChaudhuriHocquenghemGenerator')],
  'Messages are symbolic; each output is compared as an affine form with the matrix product.',
  [('p14_blockenc.cc',)])

P('P15', 'LDPC encoding satisfies every parity check of the table',
  'For every message the parity bits produced satisfy every parity check described by the code tables, for all table shapes. Only the parity buffer is written and encoding twice gives the same parity.',
  ['inputs', 'histories'], 'every message for table shapes covering single groups, repeated links, uneven groups and large codes',
  'The test encodes one random message with one table.',
  ['ldpc_encoder.hh'], [('accumulator encoder', 'ldpc_encoder.hh: LDPCEncoder')],
  'Message signs are symbolic; every check equation, derived from the table independently, must be satisfied identically.',
  [('p15_ldpcenc.cc',)])

P('P17', 'Reed-Solomon decoding repairs every pattern within its capability',
  'Whenever twice the number of symbol errors plus the number of marked erasures does not exceed the number of parity symbols, decoding restores data and parity exactly and returns the number of repaired symbols. This holds for every message, every set of positions and every error value, for shortened codes and repeated use of one decoder.',
  ['inputs', 'fault_sequences'], 'every message, error position pair/set and error value within the free bits of each entry; all-zero and concrete messages where positions are free',
  'There are more than 10^30 correctable patterns; the tests sample random ones, which missed isolated uncorrectable pairs (repaired, see DESIGN.md).',
  ['reed_solomon_decoder.hh', 'reed_solomon_error_correction.hh', 'galois_field.hh'], [('key equation', 'reed_solomon_error_correction.hh: algorithm'), ('roots', 'reed_solomon_error_correction.hh: LocationFinder, ArtinSchreier'), ('magnitudes', 'reed_solomon_error_correction.hh: Forney'), ('syndromes', 'reed_solomon_decoder.hh')],
  'Errors are injected as symbols (values, and in other entries positions) on top of symbolic messages; the decoded buffers must be identical to the transmitted ones and the return value must be the number of errors.',
  [('p17_rsdec.cc',)])

P('P18', 'BCH decoding repairs every pattern within reach and only reports codewords',
  'Every pattern of bit errors and marked erasures within the designed distance is repaired exactly, for every message, position and shortening, and the number of changed bits is returned. For any received word, success leaves a codeword within the designed distance and failure leaves the word as received.',
  ['inputs', 'fault_sequences'], 'all received words of the 15-bit codes; every error position combination within the free bits of the other entries',
  'Tests sample random patterns; failures of root finding depend on particular position combinations.',
  ['bose_chaudhuri_hocquenghem_decoder.hh', 'reed_solomon_error_correction.hh', 'galois_field.hh'], [('syndromes', 'bose_chaudhuri_hocquenghem_decoder.hh: compute_syndromes'), ('correction', 'bose_chaudhuri_hocquenghem_decoder.hh: operator()'), ('key equation and roots', 'reed_solomon_error_correction.hh')],
  'Received words or error positions are symbolic; decoded buffers must equal the transmitted ones; for complete word spaces the harness also proves that success implies a codeword within the radius and failure changes nothing.',
  [('p18_bchdec.cc',)])

P('P19', 'A Reed-Solomon decoder never reports success for a word it did not repair',
  'For every received word, a non-negative result means that data and parity now form a codeword which differs from the received word in at most the reported number of symbols. A negative result leaves data and parity exactly as received.',
  ['inputs', 'fault_sequences'], 'every syndrome of the small fields (all error patterns, correctable or not)',
  'Uncorrectable words are 2^n many and tests contain none; wrong successes existed (repaired, see DESIGN.md).',
  ['reed_solomon_decoder.hh', 'reed_solomon_error_correction.hh'], [('failure detection', 'reed_solomon_error_correction.hh: algorithm, LocationFinder'), ('commit of corrections', 'reed_solomon_decoder.hh: operator()')],
  'The parity is symbolic, which reaches every syndrome; after decoding the syndromes recomputed with reference arithmetic must vanish on success and the buffers must be unchanged on failure.',
  [('p19_rshonest.cc',)])

P('P20', 'Short BCH decoders return the nearest codeword within their guarantee',
  'Hard-decision decoding returns the codeword within the configured radius of the received word, and a failure when there is none. Soft-decision decoding of small codes returns the most likely codeword, or a failure on a tie; for larger codes it returns a codeword at least as likely as any that the hard-decision decoder finds when the signs of any of the least reliable values, as many as the radius, are inverted.',
  ['inputs', 'fault_sequences'], 'every message and every error position combination, for the codes instantiated',
  'Tests decode noisy random words and count failures statistically.',
  ['short_bch_code_decoder.hh'], [('syndrome table', 'short_bch_code_decoder.hh: constructor'), ('soft decision', 'short_bch_code_decoder.hh: operator()')],
  'Message and error bits are symbolic; decoded words are compared with the transmitted ones as bit-level forms.',
  [('p20_sbdec.cc',), ('p20_sbsoft.cc',)])

P('P21', 'Hadamard and simplex decoders are maximum likelihood and flag ties',
  'For every vector of soft values the decoder returns the message whose codeword has the greatest correlation with the received vector. When the greatest correlation is shared by several codewords the decoder reports a failure instead of picking one.',
  ['inputs'], 'every combination of soft values from the symbolic alphabets of each entry',
  'Tests decode noisy codewords far from ties and never compare with all codewords.',
  ['hadamard_decoder.hh', 'simplex_decoder.hh'], [('fast transform', 'hadamard_decoder.hh, simplex_decoder.hh'), ('best and next', 'hadamard_decoder.hh: operator()')],
  'Soft values are symbolic; the returned message is compared with an exhaustive correlation over all codewords written in the harness, evaluated in the same abstract domain.',
  [('p21_hadsim.cc',)])

P('P16', 'Polar encoding is the polar transform, plain, systematic and parity aided',
  'For every message, frozen set and length the plain encoder outputs the polar transform of the message placed on the unfrozen positions, and the systematic encoder outputs the codeword of the same code which carries the message on those positions. The parity-aided encoder additionally computes every scheduled parity position from the message bits since the previous one, each lane of a vector is encoded like a scalar, and nothing besides the codeword is written.',
  ['inputs'], 'every message; closed, arbitrary, empty and full frozen sets of length 2 to 1024',
  'Frozen sets and messages are exponentially many and tests use one construction with random messages.',
  ['polar_encoder.hh', 'polar_parity_aided.hh', 'polar_helper.hh'], [('plain encoder', 'polar_encoder.hh: PolarEncoder'), ('systematic encoder', 'polar_encoder.hh: PolarSysEnc'), ('parity encoder', 'polar_parity_aided.hh: PolarParityEncoder')],
  'The message is symbolic; the codeword bits must be the same affine forms as the transform computed from its definition.',
  [('p16_polarenc.cc',), ('p16_polarenc.cc', 'sse4'), ('p16_polarenc.cc', 'gen'), ('p16_polarenc.cc', 'neon')])

P('P22', 'LDPC decoding is layered min-sum, honest about success and free of history',
  'A non-negative result is returned only when all parity checks of the table hold with every bit decided, codewords are left as received without using up a trial, and the trials spent are bounded by the limit. The soft values are those of layered self-corrected offset min-sum decoding in which links of one bit block that meet in a layer take turns; isolated weak errors and erasures are repaired for every message, and a decoder that has decoded other words behaves like a new one.',
  ['inputs', 'histories', 'fault_sequences'], 'every message of small quasi-cyclic tables with several noise patterns and some unknown signs, up to ten iterations',
  'Tests measure error rates of two tables; defects of the message schedule only cost performance and depend on table structure and history (two were repaired, see DESIGN.md).',
  ['ldpc_decoder.hh', 'rotate.hh'], [('parity checks', 'ldpc_decoder.hh: bad'), ('message passing and turns', 'ldpc_decoder.hh: update'), ('table set-up', 'ldpc_decoder.hh: constructor')],
  'The message is symbolic, so all signs are affine forms over it; soft values must be identical to those of a check by check reference decoder written in the harness.',
  [('p22_ldpcdec.cc',), ('p22_ldpcdec.cc', 'gen'), ('p22_ldpcdec.cc', 'sse4'), ('p22_ldpcdec.cc', 'neon')])

P('P23', 'The polar decoder makes the decisions of successive cancellation',
  'For every frozen set and received vector without toss-ups, the fast decoder with its shortcuts for special blocks returns the decisions that bit by bit successive cancellation in the same number format makes. A noise-free word decodes to the sent message, and only the message is written.',
  ['inputs', 'fault_sequences'], 'every message at fixed noise, every combination of the unknown sign errors at fixed messages, lengths 32 to 4096',
  'Block shortcuts are chosen by the frozen set and only wrong decisions expose them; tests compare error rates at one code.',
  ['polar_decoder.hh', 'polar_helper.hh'], [('special blocks', 'polar_decoder.hh: PolarNode'), ('recursion', 'polar_decoder.hh: PolarTree')],
  'Either the message or the positions of sign errors are symbolic; each decision must be the same boolean function as in a direct recursion written in the harness.',
  [('p23_polardec.cc',), ('p23_polardec.cc', 'sse4'), ('p23_polardec.cc', 'gen'), ('p23_polardec.cc', 'neon')], maxsteps=3000000000)

P('P35', 'Polar list decoding keeps the best paths, with and without parity bits',
  'For every frozen set and received vector without toss-ups, the list decoder returns the paths that survive when after every bit only the best as many as there are lanes are kept, best first, with equal ranks exactly for equal metrics. The parity-aided decoder does so among the paths which satisfy the scheduled parity bits, and a noise-free word comes first in the list.',
  ['inputs', 'fault_sequences'], 'every message at fixed noise, every combination of the unknown sign errors at fixed messages, one to sixteen lanes, lengths 32 to 2048',
  'Tests look at error rates of one code; lanes other than the first and the back-tracing of messages are unobserved.',
  ['polar_list_decoder.hh', 'polar_parity_aided.hh', 'polar_helper.hh', 'sort.hh'], [('path extension', 'polar_list_decoder.hh: PolarListNode::rate1'), ('parity pruning', 'polar_parity_aided.hh: PolarParityNode::rate1'), ('back-tracing', 'polar_list_decoder.hh: operator()')],
  'Message or error positions are symbolic; each lane of the result must be the same boolean function as the survivors of a list decoder written in the harness which recomputes every path from scratch.',
  [('p35_polarlist.cc',), ('p35_polarlist.cc', 'sse4'), ('p35_polarlist.cc', 'gen'), ('p35_polarlist.cc', 'neon')], maxsteps=3000000000)

P('P25', 'Ordered statistics decoding returns the best codewords it can reach',
  'For every received vector and every generator matrix of full rank, the decoder returns the most likely among all codewords that differ from the received signs in at most as many of the most reliable independent positions as its order allows, and says whether it is the only one of that likelihood. The list variant returns the most likely ones of that set, each once, best first, with equal ranks exactly for equal likelihood.',
  ['inputs'], 'every sign pattern of 7- and 15-bit codes over several reliability orders, every message of codes up to 127 bits with errors',
  'Tests count frame errors of random words at low noise; lists and ambiguity flags for unlikely words are never compared with the exhaustive answer.',
  ['osd.hh', 'sort.hh'], [('reliability order and elimination', 'osd.hh: row_echelon, systematic'), ('candidate enumeration', 'osd.hh: flip, update'), ('list maintenance', 'osd.hh: OrderedStatisticsListDecoder::update')],
  'Signs are symbols over concrete reliabilities; every codeword is enumerated in the harness, and the decoded word, flag, list and ranks are compared with the exhaustive answer as truth tables. For long codes the message is symbolic.',
  [('p25_osd.cc',)])

P('P26', 'Cauchy Reed-Solomon blocks are recoverable from any sufficient subset',
  'From any selection of as many distinct encoded blocks as there are data blocks, in any order, decoding returns the original data for every content and block length. The encoder is a fixed linear map of the data and writes only the requested block.',
  ['inputs', 'fault_sequences'], 'every data content; block selections enumerated for small numbers of blocks and sampled by symbols for larger ones',
  'The number of subsets is combinatorial; tests try random ones with random data.',
  ['cauchy_reed_solomon_erasure_coding.hh', 'galois_field.hh'], [('Cauchy matrix and its inverse', 'cauchy_reed_solomon_erasure_coding.hh'), ('block multiply', 'galois_field.hh and cauchy_reed_solomon_erasure_coding.hh: mac')],
  'Data are symbolic, selections concrete or symbolic; the decoded block must equal the data bit for bit.',
  [('p26_crs.cc',), ('p26_crs.cc', 'sse4'), ('p26_crs.cc', 'gen'), ('p26_crs.cc', 'neon')])

P('P27', 'Cauchy prime-field blocks are recoverable from any sufficient subset',
  'From any selection of as many distinct encoded blocks as there are data blocks, in any order, decoding returns the original data, for every content and block length. The substitute value produced for each encoded block always fits the storage type.',
  ['inputs', 'fault_sequences'], 'every data content within the symbolic widths; block selections enumerated for small numbers of blocks',
  'The substitution of reserved values happens for rare contents which random tests do not hit.',
  ['cauchy_prime_field_erasure_coding.hh', 'prime_field.hh'], [('reserved value substitution', 'cauchy_prime_field_erasure_coding.hh: encode'), ('Cauchy matrix and its inverse', 'cauchy_prime_field_erasure_coding.hh')],
  'Data are symbolic up to the free-bit limit with the remaining values concrete and adversarially placed next to the reserved one; the decoded block must equal the data.',
  [('p27_cpf.cc',)])

P('P28', 'Vector operations act on each lane like the scalar definition',
  'Every operation of every vector type produces in each lane the value of its scalar definition applied to that lane of the operands, whichever instruction set the library was compiled for. Saturating, comparing and sign-carrying operations agree at the extreme values too, and no lane depends on another one.',
  ['inputs', 'configurations'], 'every bit of 8-bit lanes, windows of unknown bits for wider ones, finite numbers for floating point; four instruction sets and five widths per type',
  'The only backend that can be tested is the one of the machine; extreme values in odd lanes are rare.',
  ['simd.hh', 'avx2.hh', 'avx2_double.hh', 'sse4_1.hh', 'sse4_1_double.hh', 'sse4_1_triple.hh', 'sse4_1_quadruple.hh', 'neon.hh', 'neon_double.hh', 'neon_triple.hh', 'neon_quadruple.hh'], [('backend operations', 'avx2.hh, sse4_1.hh, neon.hh and their _double variants'), ('portable operations', 'simd.hh')],
  'Each operation is analysed on symbolic lanes in the IR of all four targets (AVX2, SSE4.1, portable, NEON); each lane must be the same boolean function of the operand bits as the scalar formula. 8-bit lanes are completely unknown; wider lanes have windows of unknown bits over three backgrounds.',
  [('p28_simd.cc', 'avx2'), ('p28_simd.cc', 'sse4'), ('p28_simd.cc', 'gen'), ('p28_simd.cc', 'neon')],
  assume=[A_INST, A_IR, A_SPEC, 'floating-point operands are finite; zeros of both signs are interchangeable', 'shuffle indices are in range'])

P('P24', 'Frozen sets and reliability sequences select the most reliable channels',
  'Constructing a frozen set for a length leaves as many information bits as requested, or exactly those whose erasure probability does not exceed the threshold, and no frozen bit channel is clearly more reliable than an information bit channel. A reliability sequence lists every index exactly once, least reliable first, and bits outside the set are never changed.',
  ['inputs', 'histories'], 'all old contents of the bit arrays; lengths 1 to 131072, all set sizes of the short ones, several channel parameters',
  'Tests use one length and one rate, where encoder and decoder agree on any set, good or bad.',
  ['polar_freezer.hh', 'polar_sequence.hh'], [('threshold construction', 'polar_freezer.hh: PolarFreezer'), ('best channels', 'polar_freezer.hh: PolarCodeConst0'), ('sequence', 'polar_sequence.hh: PolarSeqConst0')],
  'The construction is evaluated over symbolic old contents and red-zoned arrays for enumerated parameters; the resulting set is compared with the erasure probabilities computed index by index from their definition.',
  [('p24_frozen.cc',)])

P('P29', 'Rotation moves every lane by the requested amount',
  'Rotating a vector by any amount smaller than the width, in either direction, moves every lane that many places around and changes nothing else. Turning back restores the vector, successive turns add up, and all instruction sets agree.',
  ['inputs', 'configurations'], 'every lane content, every amount, every width of 8- and 16-bit vectors and several wider ones, four instruction sets',
  'The decoder only uses one width per code and hides a wrong lane behind its error correction; other instruction sets never run.',
  ['rotate.hh'], [('portable rotation', 'rotate.hh: Rotate'), ('shuffle tables', 'rotate.hh: Rotate<SIMD<int8_t, 16>>, Rotate<SIMD<int8_t, 32>>')],
  'Lanes are symbols; each lane of the result must be the same symbols as the source lane, for every amount and width, in the IR of all four targets.',
  [('p29_rotate.cc', 'avx2'), ('p29_rotate.cc', 'sse4'), ('p29_rotate.cc', 'gen'), ('p29_rotate.cc', 'neon')])

P('P41', 'The number helpers of the polar codes saturate and keep signs',
  'For every operand the helpers which polar encoders and decoders calculate with return the sum, the signed smaller magnitude, the magnitude, the sign and the sum with a sign applied in all number formats, plain or vector. Eight bit numbers saturate instead of wrapping around, the most negative number counts as its neighbour, and quantizing rounds to the nearest number and saturates.',
  ['inputs', 'configurations'], 'every pair of eight bit operands, 16 values per operand of wider formats, soft values from -256 to 256 in steps of an eighth; four instruction sets',
  'Decoding tests run one number format on one instruction set, and noise rarely drives numbers to the ends of their range.',
  ['polar_helper.hh'], [('plain numbers', 'polar_helper.hh: PolarHelper<TYPE>, PolarHelper<int8_t>'), ('vectors', 'polar_helper.hh: PolarHelper<SIMD<VALUE, WIDTH>>, PolarHelper<SIMD<int8_t, WIDTH>>')],
  'Operands are symbolic; the result of each helper is compared with the arithmetic definition written in the harness in wide integers, for every target.',
  [('p41_helper.cc', 'avx2'), ('p41_helper.cc', 'sse4'), ('p41_helper.cc', 'gen'), ('p41_helper.cc', 'neon')],
  assume=[A_INST, A_IR, A_SPEC, 'products are only asked for with hard decisions as one factor in the eight bit format'])

P('P31', 'Results depend on the inputs alone, not on what an object did before',
  'Encoding or decoding with an object that has processed other words before - correctable and hopeless ones, with and without erasures, other lengths, matrices, code constructions, block counts or identifiers - gives exactly the result a newly created object gives. A copy of a used object gives that result too, and asking again does not change it.',
  ['histories', 'inputs'], 'every earlier use and every input in question',
  'The tests create an object, run one kind of word through it and never compare with a fresh one, so state left over from a failed or differently sized word goes unnoticed.',
  ['reed_solomon_error_correction.hh', 'reed_solomon_decoder.hh', 'bose_chaudhuri_hocquenghem_decoder.hh', 'osd.hh', 'ldpc_decoder.hh', 'ldpc_encoder.hh', 'polar_decoder.hh', 'polar_list_decoder.hh', 'polar_parity_aided.hh', 'cauchy_reed_solomon_erasure_coding.hh', 'cauchy_prime_field_erasure_coding.hh', 'sort.hh'],
  [('syndrome, locator and evaluator buffers', 'reed_solomon_error_correction.hh'), ('message links and turn counters', 'ldpc_decoder.hh: reset, update'), ('list buffers', 'osd.hh, polar_list_decoder.hh'), ('cached matrix rows', 'cauchy_*_erasure_coding.hh: cauchy_matrix, inverse_cauchy_matrix')],
  'Each stateful class gets a past of fixed, varied uses; then a used object, its copy and a new object are run on the same partly unknown input and all outputs and return values must be equal as bit-level forms, for every value of the unknown bits.',
  [('p31_reuse.cc',)], assume=['the pasts are the ones written in the harness (10 to 12 uses per class); the input in question has the stated free bits', A_IR])

P('P32', 'Separate objects can be used at the same time and leave no trace',
  'Encoders, decoders and helpers keep all their working state in the object or in the arguments: no operation writes memory that another object or another thread also uses, apart from the tables of a Galois field, which only creating and destroying the field object change. No operation prints, reads input, consults clocks, the environment or a global random source, or changes any other process-wide state.',
  ['schedules', 'histories'], 'every interleaving of operations on different objects, and every order of using them',
  'The tests use one object in one thread each; a shared scratch buffer or a counter gives right answers there, and interference needs a particular interleaving.',
  ['galois_field.hh', 'reed_solomon_error_correction.hh', 'ldpc_decoder.hh', 'polar_decoder.hh', 'polar_list_decoder.hh', 'osd.hh', 'sort.hh', 'permute.hh'],
  [('field tables', 'galois_field.hh: GF::Tables'), ('working arrays', 'members of the decoder classes'), ('random permutations', 'permute.hh')],
  'Effect analysis over the -O0 IR of every harness unit and target: every mutable global a library header defines is followed through GEPs, callees, callers and pointers loaded from it; a write is accepted only in argument-less constructors and destructors of the class that owns it, in the guarded initialisation of a constant that does not depend on the call, on atomics and on thread-local objects. Call paths from library functions to process-wide functions are reported with the path.',
  lints=['effects'], technique='interprocedural effect analysis of LLVM IR (mutable-global write/escape tracking, who-may-call)',
  assume=['functions are analysed for the template instances of the harness units', 'memory passed in by the caller is not shared between the objects', 'code called through indirect calls is not followed'])

P('P33', 'The headers work together in any number of translation units',
  'Every header compiles together with all the others, in any order and repeatedly, for every supported instruction set. Whatever the headers define may appear in any number of translation units of one program without a clash at link time.',
  ['programs', 'configurations'], 'every selection and order of headers, number of units including them, and instruction set (AVX2, SSE4.1, portable, NEON)',
  'Every test is one translation unit that includes the few headers it needs.',
  ['bitman.hh', 'crc.hh', 'simd.hh', 'galois_field.hh', 'permute.hh', 'interleave.hh'], [('linkage of non-template functions', 'bitman.hh, crc.hh, simd.hh and the vector backends'), ('include guards', 'all headers')],
  'Units that include all public headers in several orders and twice, and each one alone, are compiled for all four targets; each definition that comes from a library header must have internal, inline or template linkage in the IR.',
  lints=['linkage'], technique='linkage analysis of LLVM IR and compile witnesses for header combinations',
  assume=['standard headers and the vector abstraction are included first, as in the tests', 'the orders compiled stand for all orders'])

UBFLAGS = ['-fsanitize=bounds,shift-exponent,integer-divide-by-zero,signed-integer-overflow,float-cast-overflow,bool,enum,return,unreachable,vla-bound,null,alignment,builtin', '-fsanitize-trap=all', '-fsanitize-ignorelist=@ROOT@/harness/ub.ignore']
P('P30', 'No operation leaves its arrays or runs into undefined behaviour',
  'Whatever the input - including uncorrectable words, extreme soft values, erasures and identifiers in any arrangement the interface allows - no operation reads or writes outside the arrays it is given or owns, decides anything on data nobody wrote, frees what it does not own or fails to terminate. No division by zero, oversized shift, signed overflow, out-of-range conversion or reading past the end of an inner array takes place on the way.',
  ['inputs', 'configurations'], 'every input of every encoder, decoder, field, stream, sorting and erasure operation',
  'An access a few bytes off or a read of stale memory gives the right answer in most runs, and the tests run without instrumentation and on a handful of words.',
  ['reed_solomon_error_correction.hh', 'bose_chaudhuri_hocquenghem_decoder.hh', 'osd.hh', 'ldpc_decoder.hh', 'polar_decoder.hh', 'polar_list_decoder.hh', 'galois_field.hh', 'bitstream.hh', 'cauchy_reed_solomon_erasure_coding.hh', 'cauchy_prime_field_erasure_coding.hh', 'sort.hh', 'short_bch_code_decoder.hh', 'simplex_decoder.hh', 'hadamard_decoder.hh'],
  [('locator and evaluator arrays', 'reed_solomon_error_correction.hh'), ('sort buffers and index permutations', 'sort.hh, osd.hh, permute.hh'), ('look-up tables', 'galois_field.hh: LOG, EXP'), ('quantisation', 'polar_helper.hh, ldpc_decoder.hh: quant')],
  'The harnesses of the other properties are compiled with undefined-behaviour instrumentation inside the library headers only; every object is red-zoned, alignment, lifetime and initialisation are tracked per byte, and every access and every instrumented branch met in the abstract run must be safe for all values of the symbolic inputs. Only these reports count here.',
  [(f, 'avx2', UBFLAGS) for f in ('p01_crc.cc', 'p02_prng.cc', 'p03_mls.cc', 'p04_bitman.cc', 'p05_bitstream.cc', 'p06_permute.cc', 'p07_reduce.cc', 'p08_sort.cc', 'p09_simdsort.cc', 'p10_gf.cc', 'p11_pf.cc', 'p12_bchenc.cc', 'p13_rsenc.cc',
                                  'p14_blockenc.cc', 'p15_ldpcenc.cc', 'p16_polarenc.cc', 'p17_rsdec.cc', 'p18_bchdec.cc', 'p19_rshonest.cc', 'p20_sbdec.cc', 'p20_sbsoft.cc', 'p21_hadsim.cc', 'p22_ldpcdec.cc', 'p23_polardec.cc', 'p24_frozen.cc', 'p25_osd.cc', 'p26_crs.cc', 'p27_cpf.cc', 'p29_rotate.cc', 'p34_fields.cc', 'p35_polarlist.cc', 'p41_helper.cc')],
  technique='abstract interpretation of LLVM IR with memory, initialisation and undefined-behaviour obligations', kinds=('memory', 'uninit', 'ub', 'unreachable', 'diverges'), maxsteps=3000000000,
  assume=[A_INST, A_IR, 'left shifts of negative numbers count as defined (C++20)', 'the caller keeps to the documented array lengths'])

P('P34', 'Galois fields of different shape live side by side',
  'Field objects of different size, generator polynomial or storage type can exist at the same time, be created and destroyed in any order, and be created again. Each keeps computing correctly in its own field as long as it exists.',
  ['histories', 'inputs'], 'every order of creating and destroying the fields of a program, every pair of elements',
  'Each test creates one field for the life of the process; interference between fields needs two of them and a particular order.',
  ['galois_field.hh'], [('table ownership', 'galois_field.hh: GF::Tables, GaloisField'), ('table look-up', 'galois_field.hh: log, exp')],
  'Fields are created, destroyed and recreated in enumerated orders over tracked memory (a use after free, a double free or a table of the wrong field is a report); after each step products and inverses of symbolic elements are compared with polynomial arithmetic of the right field.',
  [('p34_fields.cc',)])

P('P40', 'Unusable parameters and mixed-up field elements do not compile',
  'Template parameters a component cannot serve - polynomials of the wrong degree, storage too narrow, lengths out of range, sizes that do not divide, vectors too short - are refused when compiling, while the supported ones next to them are accepted. Values, logarithms, plain numbers and elements of different fields cannot be combined by accident.',
  ['programs', 'configurations'], 'every program using the components, represented by witnesses on both sides of each limit, for the instruction sets where it matters',
  'Tests are programs that compile; a limit that has been dropped or moved shows only in programs nobody has written yet.',
  ['galois_field.hh', 'prime_field.hh', 'permute.hh', 'interleave.hh', 'rotate.hh', 'ldpc_decoder.hh', 'polar_decoder.hh', 'polar_list_decoder.hh', 'polar_parity_aided.hh', 'cauchy_prime_field_erasure_coding.hh', 'short_bch_code_decoder.hh', 'short_bch_code_encoder.hh', 'simd.hh'],
  [('compile-time checks', 'static_assert at the head of each class'), ('distinct element types', 'galois_field.hh: Value, Index; prime_field.hh: PrimeField')],
  'Pairs of programs that differ only in the offending part are compiled without code generation against the current headers: the offending one has to fail, the other one has to compile.',
  lints=['witness'], technique='compile-fail witnesses', assume=['a limit is represented by parameters just inside and just outside of it'])

NA = {}


def N(pid, title, statement, over, quant, why, files, mech, reason):
    NA[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason)


N('P36', 'Iterative and soft decoders come close to the capacity of the code',
  'On a noisy channel the soft decoders for LDPC, polar, BCH and linear block codes correct most words with noise well beyond half the minimum distance. Their error rate falls as the signal-to-noise ratio rises and stays close to the known curve of the code.',
  ['inputs'], 'the distribution of channel noise', 'Tests draw a few thousand noise patterns at one or two noise levels and accept an error rate.',
  ['ldpc_decoder.hh', 'polar_list_decoder.hh', 'osd.hh', 'polar_decoder.hh'], [('message passing', 'ldpc_decoder.hh'), ('list and ordered-statistics search', 'polar_list_decoder.hh, osd.hh')],
  'An error rate is a probability over noise: it takes a measure on inputs, not a fact about every input, and no static argument in reach bounds the fraction of noise patterns a message-passing or list decoder resolves. The statements that do hold for every input (exact decisions on small codes, correction of bounded disturbances, agreement with the message-passing equations, what the result value says) are claimed in P20, P22, P23, P25 and P35.')
N('P37', 'Random sources and shuffles are statistically unbiased',
  'Outputs of the generators are equidistributed and pass the usual statistical batteries, and shuffles and random picks give every arrangement the same chance.',
  ['inputs'], 'the distribution of outputs', 'Statistical batteries need billions of draws.',
  ['xorshift.hh', 'permute.hh'], [('output functions', 'xorshift.hh'), ('shuffle', 'permute.hh')],
  'Statistical quality is a statement about distributions of long output sequences that has no decidable per-program formulation; the algebraic part (full period, exact recurrence, shuffles being permutations with in-range picks) is claimed in P02, P03 and P06.')
N('P38', 'The vector implementations are faster than the portable one',
  'Encoding and decoding time per bit stays bounded by the documented complexity, and the vectorised versions are faster than the portable version by about the number of lanes.',
  ['configurations'], 'run time on the machines in use', 'Tests print a rate and do not judge it.',
  ['avx2.hh', 'sse4_1.hh', 'neon.hh', 'simd.hh'], [('vector backends', 'avx2.hh, sse4_1.hh, neon.hh')],
  'Time on real machines depends on caches, pipelines and the optimiser; nothing in the source determines it, and instruction counts of the unoptimised program are no stand-in.')
N('P39', 'Results in floating point are accurate and do not depend on the compiler',
  'Soft values given as floating-point numbers lead to the same decisions as exact arithmetic would, whatever fast-math transformations the compiler applies.',
  ['inputs', 'configurations'], 'all floating-point inputs, optimisation levels and reassociations', 'Tests run one binary built with one set of flags.',
  ['ldpc_decoder.hh', 'polar_helper.hh', 'polar_freezer.hh', 'Makefile'], [('float instances', 'SIMD<float, N>, PolarHelper<float>'), ('-ffast-math', 'tests/Makefile')],
  'The project compiles with -ffast-math, which licenses value-changing rewrites chosen by the compiler; a source-level argument would have to bound rounding through recursions with cancellation for all such rewrites. Lane-wise agreement of the float vector operations with the scalar ones (P28) and the erasure-probability construction against its definition (P24) are claimed.')
