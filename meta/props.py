I, CF, HI, FA, SC = ['inputs'], ['inputs', 'configurations'], ['inputs', 'histories'], ['inputs', 'fault_sequences'], ['inputs', 'schedules']

prop('P01', 'Ring array primitives compute modulo 2^k, element by element',
     'For ring widths 32, 64 and 128 and arrays of any shape, layout and content, every ring array primitive (sum, difference, product, and, xor, equality, negation, shifts, bit masks, bit reversal, constants, copy, select, additive and boolean splitting, sum of a list) yields at each index exactly the specified value of the operand elements at that index, modulo 2^k. Operands that are not outputs keep their content, also when operands alias. In-place forms give the same values and write nothing outside the target.',
     I, 'every array size and content, every ring width, every shift amount and bit range, aliased or distinct operands',
     'ring_ops_test samples a few shapes and fixed ranges; values, bit ranges touching the ring width and aliasing are not covered.',
     ['mpc/utils/ring_ops.cc', 'mpc/utils/ring_ops.h'], [('element loops over typed views', 'mpc/utils/ring_ops.cc')])

prop('P02', 'Matrix product is exact for every size, stride and element type',
     'The strided matrix product writes, at row i and column j of the output, the sum over k of A[i,k]*B[k,j] in the element type\'s own arithmetic, reading and writing only the elements its sizes and strides describe.',
     I, 'every size (including empty contracting dimension), every stride combination, every integer element type including 128-bit',
     'linalg_test multiplies a handful of small matrices with fixed strides.',
     ['mpc/utils/linalg.h', 'mpc/utils/linalg.cc'], [('Eigen maps with inner and outer strides', 'mpc/utils/linalg.h')])

prop('P03', 'Half-precision values follow IEEE binary16',
     'Conversions between half precision and integers, float or double, and half-precision arithmetic, comparison, classification, rounding, sqrt and fma, give the IEEE binary16 result: rounded to nearest even, with NaN, infinities, signed zero and subnormals handled as IEEE prescribes. Elementary functions are correctly rounded, or within one unit where documented so.',
     I, 'all 2^16 half values, all 2^32 float values, all pairs of halves per operation',
     'No stable test exercises half precision; its consumers sample a few values.',
     ['core/half.h'], [('software conversions and arithmetic', 'core/half.h')])

prop('P04', 'Cost expressions evaluate exactly and print what they mean',
     'A complexity expression built from constants, variables, sums, differences, products and logarithms evaluates, for every variable binding, to the value of that expression in 64-bit unsigned arithmetic, with log the ceiling of the base-2 logarithm for operands from 1 to 2^40. A variable without a binding raises. The printed form, read with usual precedence and left association, denotes the same value.',
     I, 'every expression tree and every binding', 'cexpr_test checks five small expressions.',
     ['core/cexpr.h', 'core/cexpr.cc'], [('expression nodes', 'core/cexpr.cc')])

prop('P05', 'Snapshot files of different objects never share a path',
     'In a program snapshot the configuration, the code and each rank\'s folder, variable metadata and value chunks have pairwise distinct paths, for all ranks, variable names (non-empty, without separator) and chunk numbers. Metadata and chunks lie directly in their rank\'s folder, and a metadata file name is the variable name plus the metadata extension.',
     CF, 'all ranks, variable names and chunk numbers', 'No test looks at the dump files.',
     ['device/utils/debug_dump_constant.h', 'device/utils/debug_dump_constant.cc'], [('string composition', 'device/utils/debug_dump_constant.cc')])

prop('P06', 'Bit manipulation helpers are exact on every value',
     'Bit width, log2 floor and ceiling, and deinterleaving or interleaving the low bits of a word at a stride (including the parallel deposit and extract forms) return the bit-exact result for every value of every unsigned width they accept. Interleaving and deinterleaving with the same stride and bit count are mutually inverse.',
     I, 'every 8..128-bit value, stride and width', 'bit_utils_test checks a few constants per function.',
     ['core/bit_utils.h', 'core/bit_utils.cc'], [('bit tricks', 'core/bit_utils.h')])

prop('P07', 'Mersenne-prime field arithmetic is exact and stays reduced',
     'For the primes 2^31-1, 2^61-1 and 2^127-1, field addition, subtraction, multiplication, reduction, exponentiation and division by a non-zero element return the canonical representative in [0, p) of the mathematical result, for all reduced operands and any exponent (the additive inverse of 0 may be p). Array forms apply the scalar operation at every index and leave operands that are not outputs unchanged.',
     I, 'every pair of field elements, every array size', 'The field tests sample a few random elements.',
     ['mpc/utils/gfmp.h', 'mpc/utils/gfmp_ops.cc', 'mpc/utils/gfmp_ops.h'], [('Mersenne reduction', 'mpc/utils/gfmp.h')])

prop('P08', 'Shape, stride and index arithmetic is exact',
     'Element counts, compact strides, flattening and unflattening of indices are mutually consistent for every shape: flattening is a bijection between the index space and [0, element count), and its inverse is unflattening. Stepping an index visits positions in row-major order and ends exactly after the last, and offsets are the sum of index times stride (absent strides meaning compact ones).',
     I, 'every rank and dimension', 'shape_test samples a few shapes.',
     ['core/shape.h', 'core/shape.cc'], [('index arithmetic', 'core/shape.cc')],
     level='other', note='Every obligation is discharged for all dimensions and strides, separately for each rank up to the stated bound (bounded in rank); ranks 0 to 5; 64-bit address arithmetic is treated as mathematical.')

prop('P09', 'Array views address exactly the elements numpy semantics prescribes',
     'Slicing, transposing, reshaping, broadcasting, reversing, padding, concatenating, gathering and scattering arrays yield, at each index, the element the operation\'s mathematical definition names, for every shape, stride and offset. Views share storage with their source, copies do not, and nothing outside the addressed elements is read or written.',
     I, 'every shape, stride, slice and permutation', 'ndarray_ref_test samples a few layouts.',
     ['core/ndarray_ref.h', 'core/ndarray_ref.cc'], [('strided views', 'core/ndarray_ref.cc')],
     level='other', note='Every obligation is discharged for all dimensions and strides, separately for each rank up to the stated bound (bounded in rank); views, indexing and iterators at ranks 0 to 3, copying operations only evaluated at run time; 64-bit address arithmetic is treated as mathematical.')

prop('P10', 'Fixed-point encoding and decoding are exact up to the fraction grid',
     'Encoding a public integer or boolean into the ring keeps its value modulo 2^k, decoding restores it, and a ring narrower than the plaintext type is rejected. Encoding a float x with f fraction bits gives x*2^f truncated toward zero, saturated to [-2^(k-2), 2^(k-2)-1], and NaN gives 0; decoding gives the signed word divided by 2^f, rounded to nearest. A word whose magnitude fits the float\'s significand survives decoding and encoding again.',
     CF, 'every value of every supported plaintext type, every array size, ring width and fraction size up to k-3', 'encoding_test samples a few values per type.',
     ['core/encoding.cc', 'core/encoding.h', 'core/pt_buffer_view.h'], [('element conversion loops', 'core/encoding.cc')])

prop('P11', 'Configurations are completed once and survive their wire form',
     'Completing a runtime configuration gives every unset option its default, keeps every option the user set, is idempotent, and raises exactly when protocol or ring is missing. Configurations, compiler options and executables converted to their wire form and back have every option unchanged (the two-party section only for the protocol that uses it), and compiler options compare equal exactly when all agree.',
     ['configurations'], 'every combination of set and unset options, every ring, protocol and value', 'No stable test exercises configuration completion or conversion.',
     ['core/config.cc', 'core/config.h', 'spu.cc', 'spu.h'], [('populate', 'core/config.cc'), ('conversion', 'spu.cc')])

prop('P12', 'Type descriptions survive their textual form',
     'Every value type\'s textual form parses back to an equal type, types compare equal exactly when their class and all their parameters agree (the authenticated shares\' "tag already computed" mark is bookkeeping, not a parameter), and the stored element size agrees with the type\'s parameters. A text naming no registered class, or a type read with the wrong class, is rejected.',
     I, 'all type classes and parameter values', 'type_test samples a few types.',
     ['core/type.h', 'core/type.cc', 'core/type_util.h', 'mpc/aby3/type.h', 'mpc/semi2k/type.h', 'mpc/securenn/type.h', 'mpc/cheetah/type.h', 'mpc/spdz2k/type.h', 'mpc/ref2k/ref2k.cc', 'mpc/common/pv2k.h'], [('type objects', 'core/type.cc')])

prop('P13', 'Permutation and tiling utilities cover every element exactly once',
     'Applying a permutation moves the element at position p(i) to i, applying its inverse moves element i to p(i), inverting gives the inverse, sorting gives the stable ascending order of the signed keys, and a random permutation is the same at all holders of the seed and counter, for every length and ring. An operation that is split into tiles gives exactly the result of the unsplit operation, every element being in exactly one tile, for every shape and layout.',
     I, 'every length, shape and layout', 'permute_test samples a few sizes; no test reaches the tiling threshold.',
     ['mpc/utils/permute.h', 'mpc/utils/permute.cc', 'mpc/utils/tiling_util.h'], [('index maps', 'mpc/utils/permute.cc')])

prop('P14', 'Correlated randomness of the parties always cancels',
     'Zero-sharings generated from pairwise seeds sum (or xor) to zero across all parties at every step of every call history, common public randomness is identical at all parties, and each party\'s stream never reuses a counter.',
     HI, 'every number of parties, every call history and array size', 'prg_state_test checks a single call per kind.',
     ['mpc/common/prg_state.h', 'mpc/common/prg_state.cc'], [('seed ring and counters', 'mpc/common/prg_state.cc')])

prop('P15', 'Collective communication delivers every party\'s data in rank order',
     'Reduction returns at the designated parties the element-wise combination of all parties\' arrays, gathering returns them in rank order, rotation hands each party its neighbour\'s array, and broadcast gives everyone the root\'s array. Content, shape and element type arrive unchanged for every array layout.',
     I, 'every number of parties, layout and content', 'communicator_test samples a few shapes.',
     ['mpc/common/communicator.h', 'mpc/common/communicator.cc'], [('collectives over link', 'mpc/common/communicator.cc')])

prop('P16', 'Semi-honest additive-sharing arithmetic reconstructs the exact ring result',
     'In the n-party additive-sharing protocol every arithmetic operation on shares (public to secret, reveal, negate, add, multiply, square, matrix product, left shift, truncation up to its stated error) reconstructs to that operation on the reconstructed inputs modulo 2^k, for every sharing of the inputs and every randomness. Operands keep their shares.',
     I, 'all inputs, all sharings, all correlated randomness, 2 to 4 parties', 'Protocol tests reconstruct a few random inputs with one party count.',
     ['mpc/semi2k/arithmetic.cc', 'mpc/semi2k/arithmetic.h'], [('local share arithmetic plus Beaver triples', 'mpc/semi2k/arithmetic.cc')])

prop('P17', 'Semi-honest boolean sharing and conversions reconstruct exactly',
     'In the n-party protocol every boolean operation and every conversion between arithmetic and boolean sharings reconstructs to the specified function of the reconstructed inputs, for all sharings and randomness. Declared bit widths always cover the reconstructed value.',
     I, 'all inputs, sharings, randomness, ring widths, 2 to 4 parties', 'Protocol tests sample random inputs.',
     ['mpc/semi2k/boolean.cc', 'mpc/semi2k/conversion.cc'], [('boolean share kernels', 'mpc/semi2k/boolean.cc')])

prop('P18', 'Replicated 3-party arithmetic reconstructs the exact ring result',
     'In the replicated 3-party protocol every arithmetic operation yields shares that are consistent between neighbours and reconstruct to that operation on the reconstructed inputs modulo 2^k, for every sharing and randomness. Operands keep their shares.',
     I, 'all inputs, sharings, randomness and ring widths', 'Protocol tests sample random inputs.',
     ['mpc/aby3/arithmetic.cc', 'mpc/aby3/arithmetic.h', 'mpc/aby3/value.cc'], [('replicated share kernels', 'mpc/aby3/arithmetic.cc')])

prop('P19', 'Replicated 3-party boolean operations reconstruct exactly',
     'In the replicated 3-party protocol every boolean operation yields neighbour-consistent shares that reconstruct to that operation on the reconstructed bits, for every sharing, share width and declared bit width. No operation drops bits its result needs.',
     I, 'all inputs, sharings, randomness and share widths', 'Protocol tests sample random inputs of few widths.',
     ['mpc/aby3/boolean.cc', 'mpc/aby3/boolean.h'], [('replicated bit kernels', 'mpc/aby3/boolean.cc')])

prop('P20', 'Replicated 3-party share conversions preserve the value',
     'Converting between arithmetic and boolean replicated sharings (adder circuit, oblivious transfer, selection by width), extracting the most significant bit and testing shared values for equality give neighbour-consistent shares that reconstruct to the specified function of the inputs, for every sharing and all randomness, whichever party plays which role.',
     I, 'all inputs, sharings, randomness and ring widths', 'Protocol tests sample random inputs.',
     ['mpc/aby3/conversion.cc', 'mpc/aby3/conversion.h'], [('adder circuits on replicated bits', 'mpc/aby3/conversion.cc')])

prop('P21', 'Three-party assisted protocol reconstructs the exact ring result',
     'In the three-party protocol with an assistant, sharing, opening, addition, multiplication, matrix product, boolean operations and conversions reconstruct to the specified function of the inputs for every sharing, randomness, shape and ring width. The assistant ends with a zero word of every arithmetic result, and every result carries its declared share type. The sign of values between -2^(k-2) and 2^(k-2) is extracted exactly.',
     I, 'all inputs, sharings, randomness and ring widths', 'Protocol tests sample random inputs.',
     ['mpc/securenn/arithmetic.cc', 'mpc/securenn/boolean.cc', 'mpc/securenn/conversion.cc'], [('assisted share kernels', 'mpc/securenn/arithmetic.cc')])

prop('P22', 'Authenticated sharing keeps value and authentication tag consistent',
     'In the maliciously secure two-or-more-party protocol, every local arithmetic operation keeps the invariant that tag shares sum to the global key times the value, and the reconstructed value is the specified function of the inputs. Opening rejects whenever the checked invariant does not hold.',
     FA, 'all inputs, sharings, keys and tampered shares', 'Protocol tests only run honest executions.',
     ['mpc/spdz2k/arithmetic.cc', 'mpc/spdz2k/boolean.cc', 'mpc/spdz2k/value.cc'], [('tag arithmetic', 'mpc/spdz2k/arithmetic.cc')],
     na='The two-party authenticated protocol is not selectable by the runtime (mpc::Factory has no case for it) and its offline phase (TinyOT over oblivious transfer and lattice encryption) needs libraries that are not in this sandbox, so neither an executable replay nor a contract grounded in the real dealer is possible; its share types are covered by P12.')

prop('P24', 'Trusted-dealer correlated randomness satisfies its relation',
     'The dealer-based generator hands out triples, matrix triples, boolean triples, truncation pairs, shared random bits and permutation pairs whose shares satisfy the defining relation exactly, for every ring, shape and number of parties. Replays of a recorded session regenerate the same shares, and every fresh request draws from parts of the random streams never used before.',
     HI, 'all ring widths, shapes, party counts and call histories', 'beaver_test samples small shapes.',
     ['mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc', 'mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc', 'mpc/semi2k/beaver/beaver_impl/beaver_tfp.h', 'mpc/common/prg_tensor.h'], [('dealer adjusts the last share', 'mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc')])

prop('P25', 'Public-value and reference kernels compute the plain ring result',
     'Public, private (single owner) and plaintext-reference kernels compute, at every index, the specified ring function of their operands, with operands unchanged and the result type as declared. Comparison and right shift treat the ring value as documented (signed or unsigned). Orderings are stable, permutations and their inverses move every element exactly once, and group marks follow key changes.',
     I, 'all inputs and ring widths', 'Protocol tests sample random inputs.',
     ['mpc/common/pv2k.cc', 'mpc/ref2k/ref2k.cc'], [('kernels over ring primitives', 'mpc/common/pv2k.cc')])

prop('P26', 'Truncation errs by at most its stated bound',
     'Every truncation variant returns a value within one unit (probabilistic variants) or exactly equal (exact variants) to the arithmetic right shift of the reconstructed input, for every sharing whose input lies in the stated range.',
     I, 'all inputs in range, all sharings and randomness', 'Protocol tests compare a few random values with a tolerance.',
     ['mpc/semi2k/arithmetic.cc', 'mpc/aby3/arithmetic.cc', 'mpc/securenn/arithmetic.cc'], [('truncation with shared randomness', 'mpc/semi2k/arithmetic.cc')])

prop('P27', 'Operation dispatch keeps visibility and value',
     'The protocol-independent operation layer (hal ring operations over the mpc api: add, sub, mul, and, xor, matrix product, equality, not, negate, msb, square, shifts, truncation, bit reversal, conversions between public, private and secret) computes the same function whether an operand is public, private to one party or secret (arithmetic or boolean shares), whichever optional kernels the protocol offers, provided each kernel computes what its name says; every kernel is called only with operands of the kinds its name says, and the visibility of the result is the most restrictive of its operands (two different owners: secret).',
     CF, 'all operand kinds and values, every set of optional kernels', 'api_test samples one shape per combination and only the kernels a shipped protocol registers.',
     ['mpc/api.cc', 'mpc/ab_api.cc', 'mpc/kernel.cc', 'kernel/hal/ring.cc', 'kernel/hal/prot_wrapper.cc'], [('dispatch by visibility', 'kernel/hal/ring.cc'), ('fallback chains', 'mpc/api.cc'), ('calling convention of kernels', 'mpc/kernel.cc')])

prop('P28', 'Numeric layer gives integer, fixed-point and boolean semantics',
     'The numeric layer\'s operations on typed values (add, multiply, compare, select, cast, shift, bitwise, integer division helpers) equal the mathematical operation of the operand types on plaintext values, with implicit promotion as documented and fixed-point scale tracked. Unsupported type combinations are rejected.',
     CF, 'all operand type and visibility combinations and values', 'hal tests sample a few values.',
     ['kernel/hal/integer.cc', 'kernel/hal/fxp_base.cc', 'kernel/hal/polymorphic.cc', 'kernel/hal/type_cast.cc', 'kernel/hal/ring.cc'], [('type dispatch', 'kernel/hal/polymorphic.cc')],
     na='Every operation of the numeric layer ends in the dynamically dispatched operation layer (P27), and its fixed-point part is an approximation with no stated exact result; the contracts below it (encoding P10, kernels P16-P20, P25, P26, circuits P29) are proved, the composition through the dynamic dispatch is not.')

prop('P29', 'Shared circuits compute addition, carry and bit regrouping exactly',
     'When the gates (and, xor, shifts, constants) compute exactly, the bit circuits built from them do too: both prefix adders and the default sum of boolean shares give the sum modulo 2^n, the carry circuits give the carry out of the low n bits, and bit interleaving, de-interleaving and even/odd splitting move every bit to its place, for every operand, at every width the code accepts.',
     I, 'all operands and widths', 'Circuit tests sample random operands.',
     ['mpc/ab_api.cc', 'mpc/utils/circuits.h'], [('prefix networks over gates', 'mpc/ab_api.cc')])

prop('P30', 'Values survive serialisation and input/output',
     'A value converted to its wire form and back is equal in content, shape, type and visibility, for every chunk size. Sharing an input and reconstructing the output returns the plaintext that was put in.',
     I, 'all shapes, types and chunk sizes', 'value_test and io_test sample a few shapes.',
     ['core/value.cc', 'device/io.cc', 'mpc/semi2k/io.cc', 'mpc/aby3/io.cc', 'mpc/securenn/io.cc', 'mpc/ref2k/ref2k.cc', 'mpc/experimental/swift/io.cc'], [('chunked wire form', 'core/value.cc')])

prop('P31', 'Named variables keep the last value stored',
     'The variable table returns exactly the last value stored under a name, reports absence for names never stored or deleted, and other names are unaffected, for every history of operations.',
     HI, 'every sequence of operations', 'No test covers histories.',
     ['device/symbol_table.cc', 'device/symbol_table.h'], [('map from name to value', 'device/symbol_table.cc')])

prop('P32', 'The keyed oblivious permutation equals its reference definition',
     'The block cipher used for oblivious evaluation computes the same linear layers, key schedule and rounds in every evaluation path, and its matrices are invertible.',
     I, 'all keys and blocks', 'lowmc_test checks one vector.',
     ['mpc/utils/lowmc.cc', 'mpc/utils/lowmc_utils.h'], [('bit-sliced linear layers', 'mpc/utils/lowmc.cc')],
     na='The cipher draws its matrices from a pseudo-random stream until a rank test passes and evaluates them over word-packed bit matrices; the statement would need an uninterpreted stream together with matrix rank over GF(2), which the contract language here cannot express.')

prop('P33', 'Opened intermediate values are masked by fresh randomness',
     'Every value a semi-honest protocol opens or sends, other than declared outputs, is the sum (or xor) of a secret-dependent value and a mask that is uniformly random, unknown to the receiver and used exactly once.',
     HI, 'all inputs and operation histories', 'Correctness tests cannot observe a missing or reused mask.',
     ['mpc/semi2k/arithmetic.cc', 'mpc/aby3/arithmetic.cc', 'mpc/semi2k/boolean.cc', 'mpc/aby3/boolean.cc'], [('one-time masks', 'mpc/semi2k/arithmetic.cc')],
     na='A mask being uniformly random, unknown to the receiver and used once is a statement about distributions and knowledge, not about values computed: functional contracts cannot express it. Reuse of a stream position is decided where it is a functional fact (P06, P24).')

prop('P40', 'Compiled programs compute the same function as the source program',
     'Every optimisation and lowering step of the compiler keeps the function a program computes, for every well-formed program.',
     ['programs'], 'every program', 'Compiler tests compare fixed snippets textually.',
     ['compiler/compile.cc', 'dialect/pphlo/IR/ops.cc'], [('rewrite passes', 'compiler/core/core.cc')],
     na='The passes are MLIR rewrite patterns over generated operation classes (TableGen) and the MLIR/StableHLO libraries, none of which is in this sandbox; there is no code a verifier here could parse.')
prop('P41', 'Concurrent program execution gives the sequential result',
     'Executing independent operations of a program in parallel yields the values of sequential execution for every schedule.',
     SC, 'every schedule', 'Executor tests run a few schedules.',
     ['device/executor.cc', 'device/pphlo/pphlo_executor.cc'], [('data-flow scheduling', 'device/executor.cc')],
     na='The executor works on MLIR regions (headers absent here) and its guarantee is about thread interleavings, which sequential contracts do not express.')
prop('P42', 'Homomorphic two-party protocol reconstructs the exact ring result',
     'In the two-party protocol based on homomorphic encryption and oblivious transfer every operation reconstructs to the specified function of the inputs.',
     I, 'all inputs and randomness', 'Protocol tests sample random inputs.',
     ['mpc/cheetah/arithmetic.cc', 'mpc/cheetah/nonlinear/compare_prot.cc'], [('RLWE and OT sub-protocols', 'mpc/cheetah/arithmetic.cc')],
     na='Its kernels consist of calls into SEAL and the OT extension library, both absent; without contracts for lattice encryption nothing beyond call plumbing would be decided.')
prop('P43', 'GPU kernels agree with the CPU kernels',
     'Every accelerated kernel returns the same ring result as its CPU counterpart.',
     I, 'all inputs', 'GPU tests need a device.',
     ['cuda_support/kernels.h'], [('device kernels', 'cuda_support/kernels.h')],
     na='CUDA sources cannot be parsed or run here (no CUDA headers or device).')
