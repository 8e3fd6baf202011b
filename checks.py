"""The table of checks: harness, build variants, level and bounds per property."""
GXX, CLANG = 'g++', 'clang++'
VARIANTS = {
    # name: compiler, language mode, SIMD, iterator kind (seg: words not adjacent in memory)
    'gcc17':      [GXX, '-std=c++17', '-O2'],
    'gcc17hwy':   [GXX, '-std=c++17', '-O2', '-DBITLIB_HWY'],
    'clang20ptr': [CLANG, '-std=c++20', '-O2', '-DVF_ITER=1'],
    'gcc20hwynat':[GXX, '-std=c++20', '-O2', '-DNDEBUG', '-DBITLIB_HWY', '-march=native', '-DVF_ITER=1'],
    'gcc17ptr':   [GXX, '-std=c++17', '-O1', '-DVF_ITER=1'],
    'clang17hwy': [CLANG, '-std=c++17', '-O2', '-DBITLIB_HWY', '-march=native'],
}
REQUIRES = {'gcc17cpuP': ['popcnt'], 'gcc17cpuA2': ['avx2'], 'gcc17cpuA2only': ['avx2'], 'gcc20cpuA5': ['avx512bw', 'avx512f']}   # processor flags a variant needs
VARIANTS['gcc17seg'] = [GXX, '-std=c++17', '-O2', '-DVF_ITER=2']
VARIANTS['gcc17hwyseg'] = [GXX, '-std=c++17', '-O2', '-DBITLIB_HWY', '-DVF_ITER=2', '-DVF_SEG=136']
# word types beyond the fixed width ones: 128 bits, and the other type of 64 bits
VARIANTS['gnu17hwywide'] = [GXX, '-std=gnu++17', '-O2', '-DBITLIB_HWY', '-DVF_ONLY=128']
VARIANTS['gcc17hwyll'] = [GXX, '-std=c++17', '-O2', '-DBITLIB_HWY', '-DVF_LONGLONG', '-DVF_ONLY=64']
VARIANTS['gnu20clangwide'] = [CLANG, '-std=gnu++20', '-O2', '-DVF_ONLY=128', '-DVF_ITER=1']
WORDS = ['gnu17hwywide', 'gcc17hwyll']
VARIANTS['gnu17wide'] = [GXX, '-std=gnu++17', '-O2', '-DVF_ONLY=128']
VARIANTS['gcc20ll'] = [GXX, '-std=c++20', '-O2', '-DVF_LONGLONG', '-DVF_ONLY=64']
ALG = dict(quick=['gcc17', 'gcc17hwy', 'clang20ptr', 'gcc20hwynat', 'gcc17seg', 'gcc17hwyseg'] + WORDS,
           thorough=['gcc17', 'gcc17hwy', 'clang20ptr', 'gcc20hwynat', 'gcc17seg', 'gcc17hwyseg'] + WORDS + ['gnu20clangwide', 'gcc17ptr', 'clang17hwy'])
MC = 'explicit-state enumeration of all bounded geometries and contents on the real code against a bit-plane reference model'
CHECKS = {}
def add(id, **k): CHECKS[id] = k
for n, name in [(1, 'copy/move'), (2, 'copy_backward'), (3, 'fill'), (4, 'shift_left'), (5, 'shift_right'), (6, 'rotate'), (7, 'reverse'), (8, 'swap_ranges'), (9, 'transform (unary)'), (10, 'transform (binary)')]:
    add('C%02d' % n, src=['algo.cpp'], flags=['-DVF_PROP=%d' % n], variants=ALG, level='model_checking', technique=MC, shards=dict(quick=2, thorough=8),
        bounds='every content of 16-bit memories x every geometry; position-coded and pseudo-random contents x every geometry of memories of several words per word type; words of 8 to 128 bits and unsigned long long; long ranges at every alignment modulo 64 bytes with border-oriented positions, sizes around powers of two up to 1025 (thorough 4097) words; words of vectors, arrays and of separate blocks',
        assumptions=['little-endian machine', 'contents beyond 16 bits are those of the coded set: complete for code that routes bits without looking at them'],
        note='Exhaustive within the stated bounds, on the compiled real code in four (thorough: six) configurations; every call compared bit for bit, margins included, with an independent model. Larger sizes rest on the regularity of the word loops.')

# count: also simulated processor feature levels (bits as the library's detection reports them)
P, A2, A5 = 1 << 23, 1 << 5, 1 << 30
VARIANTS['gcc17cpu0'] = [GXX, '-std=c++17', '-O2', '-DVF_CPU=0']
VARIANTS['gcc17cpuP'] = [GXX, '-std=c++17', '-O2', '-DVF_CPU=%d' % P]
VARIANTS['gcc17cpuA2'] = [GXX, '-std=c++17', '-O2', '-DVF_CPU=%d' % (P | A2)]
VARIANTS['gcc17cpuA2only'] = [GXX, '-std=c++17', '-O2', '-DVF_CPU=%d' % A2]
VARIANTS['gcc20cpuA5'] = [GXX, '-std=c++20', '-O2', '-DBITLIB_HWY', '-DVF_CPU=%d' % (P | A2 | A5)]
CPU = ['gcc17cpu0', 'gcc17cpuP', 'gcc17cpuA2', 'gcc20cpuA5']
VARIANTS['gcc17portable'] = [GXX, '-std=c++17', '-O2', '-include', 'portable.hpp']      # without the code for x86 processors
for n, name in [(11, 'count'), (12, 'find'), (13, 'equal')]:
    add('C%02d' % n, src=['read.cpp'], flags=['-DVF_PROP=%d' % n],
        variants=ALG if n != 11 else dict(quick=CPU + ['gcc17portable', 'gcc17cpuA2only', 'clang20ptr', 'gcc20hwynat', 'gcc17seg', 'gcc17hwyseg'] + WORDS, thorough=CPU + ['gcc17portable', 'gcc17cpuA2only', 'gcc17seg', 'gcc17hwyseg', 'gcc17', 'gcc17hwy', 'clang20ptr', 'gcc20hwynat', 'gcc17ptr', 'clang17hwy'] + WORDS + ['gnu20clangwide']),
        level='model_checking', technique=MC.replace('a bit-plane reference model', 'plain-loop reference'), shards=dict(quick=2, thorough=8),
        bounds='every content of 16-bit memories x every range; structured contents (single match or difference at every place, adversarial surroundings, position-coded, pseudo-random) x every range of several words per word type; every word count across all kernel thresholds and alignments for long ranges; words of 8 to 128 bits and unsigned long long',
        assumptions=['little-endian machine'],
        note='Exhaustive within the stated bounds on the compiled real code; every answer compared with a plain loop.')

# accesses: logged loads and stores (compiler instrumentation), and guard pages on uninstrumented code
WRAP = ['-DVF_LOG', '-fsanitize=thread', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp']
VARIANTS['log17'] = [GXX, '-std=c++17', '-O1'] + WRAP
VARIANTS['log17hwyA2'] = [GXX, '-std=c++17', '-O2', '-DBITLIB_HWY', '-DVF_CPU=%d' % (P | A2)] + WRAP
VARIANTS['log20hwynat'] = [GXX, '-std=c++20', '-O2', '-DNDEBUG', '-DBITLIB_HWY', '-march=native', '-DVF_ITER=1'] + WRAP
VARIANTS['log20clang'] = [CLANG, '-std=c++20', '-O1', '-DVF_ITER=1', '-DVF_CPU=%d' % P] + WRAP
VARIANTS['log17wide'] = [CLANG, '-std=gnu++17', '-O1', '-DVF_ONLY=128', '-DVF_CPU=%d' % P] + WRAP
VARIANTS['log17portable'] = [GXX, '-std=c++17', '-O1', '-include', 'portable.hpp'] + WRAP
VARIANTS['log17seg'] = [GXX, '-std=c++17', '-O1', '-DVF_ITER=2'] + WRAP
VARIANTS['log20hwyseg'] = [CLANG, '-std=c++20', '-O1', '-DBITLIB_HWY', '-march=native', '-DVF_ITER=2', '-DVF_SEG=136'] + WRAP
REQUIRES['log17hwyA2'] = ['avx2', 'popcnt']; REQUIRES['log20clang'] = REQUIRES['log17wide'] = ['popcnt']
LOGV = ['log17', 'log17hwyA2', 'log20hwynat', 'log20clang', 'log17wide', 'log17portable', 'log17seg', 'log20hwyseg', 'gnu17hwywide']
add('C14', src=['access.cpp'], flags=[], variants=dict(quick=LOGV + ['gcc17', 'gcc17hwy', 'clang20ptr', 'gcc20hwynat'], thorough=LOGV + ['gcc17', 'gcc17hwy', 'clang20ptr', 'gcc20hwynat', 'gcc17ptr', 'clang17hwy']),
    level='model_checking', technique='explicit-state enumeration of all bounded geometries on the real code, every load and store logged and judged, and the same geometries against inaccessible and read-only pages', shards=dict(quick=2, thorough=8),
    bounds='17 operations x every geometry of 5 words of 8 bits and 3 words of the others, 128-bit words included (thorough: more words, every position up to 16 bits), empty ranges in inaccessible memory and at null included; long ranges across all vector loop thresholds at several alignments modulo 64 bytes; up to four contents',
    assumptions=['loads by masked vector instructions are not logged, but checked against guard pages'],
    note='Every access of the compiled code is judged, not only those that change something.')

# concurrency: operations in an instrumented object under a controlled scheduler
SOW = ['-fsanitize=thread', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_once']
VARIANTS['so17'] = [GXX, '-std=c++17', '-O1'] + SOW
VARIANTS['so20hwy'] = [GXX, '-std=c++20', '-O2', '-DBITLIB_HWY', '-march=native'] + SOW
VARIANTS['so20clang'] = [CLANG, '-std=c++20', '-O1'] + SOW
add('C15', src=['conc.cpp'], so='conc_ops.cpp', variants=dict(quick=['so17', 'so20hwy'], thorough=['so17', 'so20hwy', 'so20clang']), level='model_checking',
    technique='stateless exploration of the real code: two threads under a controlled scheduler, every access to shared memory a scheduling point, all schedules up to a preemption bound', shards=dict(quick=8, thorough=16),
    bounds='all pairs of 32 operations (algorithms on their own words, next to each other; reading common words; vectors of their own; queries of a common vector) x geometries x four word types; per pair all schedules with as many preemptions (1 to 4) as 1200 (thorough 60000) executions allow, and up to 6 preemptions at accesses that conflict; all variables of the library reset before each execution',
    assumptions=['two threads: interference is between pairs', 'sequentially consistent interleavings of compiled accesses; calls of memmove and the like are one access'],
    note='Every schedule is judged by results and memory of the operations run alone; data the two threads do not share cannot be reordered visibly, so the preemption bound matters only for conflicting accesses, which are explored deeper.')

VIEW = dict(quick=['gcc17', 'clang20ptr', 'gnu17wide'], thorough=['gcc17', 'clang20ptr', 'gnu17wide', 'gnu20clangwide', 'gcc20ll', 'gcc17dbg', 'gcc20hwynat'])
VARIANTS['gcc17dbg'] = [GXX, '-std=c++17', '-O0', '-D_GLIBCXX_ASSERTIONS']
MCV = 'explicit-state enumeration: every operation from every abstract state, on the real code, against integer / boolean arithmetic'
add('C16', src=['views.cpp'], flags=['-DVF_PROP=16'], variants=VIEW, level='model_checking', technique=MCV, shards=dict(quick=4, thorough=8),
    bounds='all ordered pairs of bit indices (ends included) of 2-5 words per word type, for vector, deque and pointer iterators, mutable and constant; every single step and lifecycle operation at every index also for list and forward list iterators; far jumps around every power of two up to 2^42 on never dereferenced pointers',
    assumptions=['far jumps use pointer values beyond one object, which the compilers at hand treat as integers'],
    note='The state of an iterator is its bit index, so every operation from every index covers all histories within the sequence bounds.')
add('C17', src=['views.cpp'], flags=['-DVF_PROP=17'], variants=VIEW, level='model_checking', technique=MCV, shards=dict(quick=4, thorough=8),
    bounds='all ordered pairs of bit indices (ends included) of 3-5 words per word type, mutable and constant; every way to obtain a null pointer in pairs; far jumps around every power of two up to 2^42',
    assumptions=['far jumps use pointer values beyond one object, which the compilers at hand treat as integers'],
    note='The state of a pointer is its bit index or null, so every operation from every state covers all histories within the bounds.')
add('C18', src=['views.cpp'], flags=['-DVF_PROP=18'], variants=VIEW, level='model_checking', technique=MCV, shards=dict(quick=4, thorough=8),
    bounds='every bit position of two words of each type x all 256 contents of the surrounding byte x three backgrounds; every pair of references (also of different word types, also to the same bit); all two-step histories of 20 operations; every text of up to 4 (thorough 6) characters over an alphabet of 6',
    assumptions=[], note='Exhaustive over positions, operand kinds and neighbourhood contents; against one boolean per bit.')

VARIANTS['gcc17assert'] = [GXX, '-std=c++17', '-O1', '-D_GLIBCXX_ASSERTIONS']
VARIANTS['clang20'] = [CLANG, '-std=c++20', '-O2', '-D_GLIBCXX_ASSERTIONS']
VARIANTS['gcc20'] = [GXX, '-std=c++20', '-O2']
VECB = dict(quick=['gcc17', 'clang20'], thorough=['gcc17', 'gcc17assert', 'clang20', 'gcc20', 'gcc17hwy'])
VEC = dict(quick=VECB['quick'] + ['gnu17wide'], thorough=VECB['thorough'] + ['gnu17wide', 'gnu17hwywide', 'gcc20ll', 'clang17'])
VARIANTS['clang17'] = [CLANG, '-std=c++17', '-O2']
SP = {'gnu17wide': 'wide', 'gnu17hwywide': 'wide', 'gcc20ll': 'll'}
VARIANTS['gcc17large'] = [GXX, '-std=c++17', '-O2', '-DVF_LARGE', '-DVF_SLOT=2048', '-DVF_SEQ=10000']
VARIANTS['clang20large'] = VARIANTS['clang20'] + ['-DVF_LARGE', '-DVF_SLOT=2048', '-DVF_SEQ=10000']
VARIANTS['gcc17hwylarge'] = VARIANTS['gcc17large'] + ['-DBITLIB_HWY']
VECL = dict(quick=VEC['quick'] + ['gcc17large', 'gcc17hwylarge'], thorough=VEC['thorough'] + ['gcc17large', 'gcc17hwylarge', 'clang20large'])
MCB = 'explicit-state breadth-first exploration of the real container: state captured from object bytes and owned blocks, every operation from every reachable state, monitored against a plain sequence'
for n, what in [(19, 'length, bits, returned iterators'), (22, 'checked and end access'), (23, 'every allocation of every operation made to fail'), (24, 'capacity, allocations, addresses'), (25, 'words in memory')]:
    add('C%d' % n, src=['vec.cpp'], flags=['-DVF_PROP=%d' % n], variants=VECL, space=dict(SP, gcc17large='large', gcc17hwylarge='large', clang20large='large'), level='model_checking', technique=MCB if n != 23 else MCB.replace('every operation', 'every operation with every allocation failure point'), shards=dict(quick=8, thorough=16),
        bounds='closed state space of byte containers of at most 11 bits (thorough 14; allocation failures 9 and 12), unused bits, unused words and capacity included, under an alphabet of some 200 operations per state; histories of 2-4 operations up to 34 bits (66 for wide words) and two fill patterns of fresh memory; every single operation on containers of up to three words of each type in six physical states (exact, stale bits left by erase or resize, reserved, appended); the same for sizes around 9 to 256 words at selected positions; monitored: ' + what,
        assumptions=['the behaviour of a container depends only on its object bytes and owned blocks (both are part of the state)', 'the standard library vector is trusted'],
        note='The state space up to the bound is closed under all operations, so histories of any length within it are covered; larger sizes by single operations from representative states.')
add('C20', src=['vec2.cpp'], flags=['-DVF_PROP=20'], variants=VEC, space=SP, level='model_checking', technique='explicit-state enumeration of constructor inputs and one-step continuations on the real code against a plain sequence', shards=dict(quick=8, thorough=16),
    bounds='23 constructors x every length up to 2-3 words (thorough 4) x every source offset within a word; all contents up to 8-10 bits, coded contents beyond; every text of up to 6-8 (thorough 10) characters over 0, 1, blank, x; every operation of the history alphabet from the constructed vector',
    assumptions=['contents beyond 10 bits are those of the coded set'], note='Exhaustive over constructors, lengths, offsets and continuations within the bounds.')
add('C26', src=['vec2.cpp'], flags=['-DVF_PROP=26'], variants=VEC, space=SP, level='model_checking', technique='explicit-state enumeration of vectors and sub-ranges on the real code: text against its definition, and read back', shards=dict(quick=4, thorough=16),
    bounds='all contents up to 14 bits (thorough 18) and coded contents of every length up to three words per word type, in six physical states; every sub-range of lengths up to 80 (thorough 140)',
    assumptions=[], note='Exhaustive within the bounds; the text is compared with its definition and read back.')
MC3 = 'explicit-state breadth-first exploration of the joint states of several real vectors (object bytes, allocators, blocks with owners), every operation from every state against plain sequences'
add('C21', src=['vec3.cpp'], flags=['-DVF_PROP=21'], variants=VEC, space=SP, level='model_checking', technique=MC3, shards=dict(quick=8, thorough=16),
    bounds='three vectors; all histories of 3 (thorough 4) steps from 160 start states over four word types, of 4 (5) steps with at most 9 bits and 5 (9) with at most 3 bits in bytes; copies, moves, assignments, swaps, self-assignment and modifications',
    assumptions=['the contents of a moved-from vector are unspecified; it must be consistent and usable'], note='Every step also checks ownership: no two vectors share a block, every block has one owner, moves neither allocate nor copy.')
for n_ in ('gcc17', 'clang20', 'gcc20', 'gcc17assert', 'gcc17hwy'):
    for w_ in (8, 16, 32, 64): VARIANTS['%sw%d' % (n_, w_)] = VARIANTS[n_] + ['-DVF_W=%d' % w_]
VARIANTS['gnu17w128'] = [GXX, '-std=gnu++17', '-O2', '-DVF_ONLY=128', '-DVF_W=128']
PERW = lambda l: ['%sw%d' % (n, w) for n in l for w in (8, 16, 32, 64)]
add('C27', src=['vec3.cpp'], flags=['-DVF_PROP=27'], variants={t: PERW(VECB[t]) + ['gnu17w128'] for t in VEC}, space=dict(gnu17w128='w128', **{v: v[v.rindex('w'):] for v in PERW(VECB['thorough'])}), level='model_checking', technique=MC3, shards=dict(quick=8, thorough=16),
    bounds='two vectors with distinguishable allocators, 17 combinations of propagation traits, always-equal and fresh-on-copy; all histories of 3 (thorough 4) steps from 9 start states over four word types and of 4 (6) steps with at most 9 bits in bytes',
    assumptions=['std::swap on vectors is expressed by moves, so allocators travel with move propagation'], note='Owner of every block and size of every deallocation are checked at every step.')
add('C28', src=['big.cpp'], flags=[], variants=dict(quick=['gcc17', 'gcc20hwy'], thorough=['gcc17', 'gcc20hwy', 'clang20']), level='model_checking',
    technique='explicit-state enumeration of sizes, operations and positions around the limits of 24, 31 and 32 bits on the real code, whole memory read back as runs and compared with run-list arithmetic', shards=dict(quick=16, thorough=32), parallel=8,
    bounds='sizes within 77 of 2^24, 2^31 and 2^32 bits (thorough: all word types, and algorithms at 2^34 and 2^35 bits, that is more than 2^31 and 2^32 words); 15 vector operations and 14 algorithms at positions and counts around the same limits, at the ends and in the middle; marked contents of both polarities',
    assumptions=['16 GB of free memory for eight processes'], note='Every operation is followed by a comparison of the complete memory.')
VARIANTS['gcc20hwy'] = [GXX, '-std=c++20', '-O2', '-DBITLIB_HWY']
VARIANTS['gnu17nat128'] = [GXX, '-std=gnu++17', '-O2', '-march=native', '-DVF_U128']
VARIANTS['clang20native'] = [CLANG, '-std=c++20', '-O2', '-march=native']
VARIANTS['gcc17O0'] = [GXX, '-std=c++17', '-O0', '-D_GLIBCXX_ASSERTIONS']
HELPERS = 'popcnt lzcnt tzcnt byteswap bitswap bextr pdep pext mulx addcarry subborrow shld shrd bitexch bitblend bitcmp get_word write_word padded_read is_within'.split()
add('C29', src=['words.cpp'], optional=HELPERS, flags=[], variants=dict(quick=['gcc17', 'gnu17nat128', 'clang20native'], thorough=['gcc17', 'gnu17nat128', 'clang20native', 'clang20']), level='model_checking',
    technique='explicit-state enumeration of operand words, positions and lengths on the real code against bit-by-bit definitions', shards=dict(quick=16, thorough=32),
    bounds='all operand pairs of 8-bit words and all single operands of 16-bit words with all positions and lengths; pairs of a 16-bit operand set of some 500 corner values with all values; runs of ones, their complements, single bits, alternations and pseudo-random values in all pairs for 32 and 64 bits (128 bits in one build); one in 61 of all single 32-bit operands; thorough: all pairs of 16-bit words and all single 32-bit operands',
    assumptions=['pairs of wider words are those of the operand set'], note='Portable and intrinsic implementations compared with the same definitions.')
VARIANTS['gnu17O1wide'] = [GXX, '-std=gnu++17', '-O1', '-DVF_Q128']
VARIANTS['gcc17O1'] = [GXX, '-std=c++17', '-O1']
VARIANTS['clang20O1'] = [CLANG, '-std=c++20', '-O1']
VARIANTS['gcc17dbgO1'] = [GXX, '-std=c++17', '-O1', '-D_GLIBCXX_DEBUG']
VARIANTS['gcc20O2nd'] = [GXX, '-std=c++20', '-O2', '-DNDEBUG']
add('C30', src=['stdalg.cpp'], flags=[], variants=dict(quick=['gcc17O1', 'clang20O1'], thorough=['gcc17O1', 'clang20O1', 'gcc17dbgO1', 'gcc20O2nd', 'gnu17O1wide']), level='model_checking',
    technique='explicit-state enumeration of algorithm, contents, sub-range and parameters on the real code against the same algorithm on booleans', shards=dict(quick=8, thorough=16),
    bounds='some 110 standard algorithms x every content of up to 8 bits (other word types 6; thorough 11 and 9) or every pair of contents of up to 4 and 5 bits (thorough 6 and 7) x five alignments within a word, word borders included x every position and value argument; iterators over vector, array, deque, list and forward list of words, mutable and constant; every bit outside compared',
    assumptions=['the standard library algorithms on booleans are the definition'], note='Exhaustive within the bounds.')

# undefined behaviour: the harnesses of the other properties in builds that trap on it
UB = {}
def ub(tag, cmd, jobs):
    l = []
    for src, n in jobs:
        v = 'ub%s_%s%d' % (tag, src[:-4], n); UB[v] = [src]; l.append(v)
        VARIANTS[v] = cmd + ['-DVF_PROP=%d' % n, '-DVF_FEW', '-include', 'sanitize.hpp']
    return l
UBS = ['-fsanitize=undefined,float-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=all']
J_ALG = [('algo.cpp', n) for n in range(1, 11)] + [('read.cpp', n) for n in (11, 12, 13)]
J_VIEW = [('views.cpp', n) for n in (16, 17, 18)]
J_VEC = [('vec.cpp', n) for n in (19, 22, 23)] + [('vec2.cpp', n) for n in (20, 26)] + [('vec3.cpp', 21)]
J_OTHER = [('words.cpp', 29), ('stdalg.cpp', 30)]
J_SEQ = [('vecseq.cpp', 31)]
DBG = ['-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC']
UBQ = ub('', [CLANG, '-std=c++17', '-O1', '-DVF_ITER=3'] + UBS, J_ALG) + ub('', [CLANG, '-std=c++17', '-O1'] + UBS, J_VIEW + J_VEC + J_OTHER) + ub('dbg', [GXX, '-std=c++20', '-O1'] + DBG, J_SEQ) + ub('asan', [CLANG, '-std=c++20', '-O1', '-fsanitize=address', '-DVF_SANITIZE'], J_VIEW + J_OTHER[1:])
UBT = UBQ + ub('gcc', [GXX, '-std=c++17', '-O1'] + UBS, J_ALG + J_VIEW + J_VEC + J_OTHER) + ub('hwy', [CLANG, '-std=c++20', '-O1', '-DBITLIB_HWY', '-march=native', '-DVF_ITER=1'] + UBS, J_ALG) \
    + ub('wide', [CLANG, '-std=gnu++17', '-O1', '-DVF_ONLY=128'] + UBS, J_ALG + J_VIEW + J_VEC) + ub('portable', [GXX, '-std=c++17', '-O1', '-include', 'portable.hpp'] + UBS, [('read.cpp', 11)]) \
    + ub('dbg', [GXX, '-std=c++20', '-O1'] + DBG, J_ALG + J_VIEW + J_VEC[3:5] + J_OTHER) + ub('dbg17', [CLANG, '-std=c++17', '-O1'] + DBG, J_SEQ) \
    + ub('strict', [GXX, '-std=c++20', '-O1', '-DBITLIB_HWY', '-DVF_ITER=3'], J_ALG) + ub('strictnat', [CLANG, '-std=c++17', '-O1', '-DBITLIB_HWY', '-march=native', '-DVF_ITER=3'] + UBS, J_ALG) + ub('asanvec', [GXX, '-std=c++17', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DVF_SANITIZE'], J_ALG + J_VEC)
add('C31', src=[], srcs=UB, variants=dict(quick=UBQ, thorough=UBT), space={v: v for v in UBT}, level='model_checking', technique='explicit-state enumeration of geometries, states and operations on the real code, compiled with monitors that stop at undefined behaviour', shards=dict(quick=4, thorough=8),
    bounds='the geometries, states and operations of C01-C13, C16-C23, C26, C29 and C30 with fewer contents (zeros, ones, four pseudo-random ones) and container states of up to 8 bits, in builds that stop at shifts by the width or more, signed overflow, null or misaligned access, out of bounds indices, invalid values of bool, conversions out of range, word iterators moved or dereferenced outside their sequence, and (views, standard algorithms) use of objects after their life; every operation on vectors of every length up to two words and pairs of operations on shorter ones with iterators that know whether they are valid',
    assumptions=['undefined behaviour of the kinds the compilers can monitor'], note='The monitors judge every evaluated expression of the code under test, whatever its result happens to be on this machine.')
