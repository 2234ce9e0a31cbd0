"""One entry per property: harness, number of cases per variant and tier, evidence rule."""
def V(**k): return {n.replace('_', '-'): c for n, c in k.items()}
STD_A = ['the oracles of the harness (independent models in harness/) and the sanitizer runtimes are trusted',
         'held on the executions listed under coverage, not proved for all']
PROPS = {}
def P(id, src, quick, thorough, rule, **k):
    d = dict(src=src, quick=quick, thorough=thorough, rule=rule, assumptions=STD_A)
    d.update(k)
    PROPS[id] = d
P('C04', 'h_c04.cpp', V(asan_row=60000, asan_col=60000), V(gcc_san_row=1000000, gcc_san_col=1000000, ndebug_row=2000000),
  'A case draws two operand types, shapes and small-integer or real contents, exposes them as matrix, view or cofactor view and compares every element of each operator with an independent element loop; non-trivial cases are hashed by operand contents. Element types include unsigned, short and unsigned long. Mixed element types are also drawn over their whole ranges.')
P('C02', 'h_c02.cpp', V(asan_row=40000, asan_col=40000), V(gcc_san_row=600000, gcc_san_col=600000, ndebug_row=1500000),
  'A case runs a random history of 6-24 construct/copy/move/assign/convert/resize/reshape/write/swap/destroy steps on a pool of matrices and vectors and compares every live object with its abstract model after every step; histories are hashed by their operations and final contents.')
P('C03', 'h_c03.cpp', V(asan_row=30000, asan_col=30000), V(gcc_san_row=600000, gcc_san_col=600000, ndebug_row=1500000),
  'A case opens views, nested views, row/column views, cofactor views and their combinations on a matrix, reads every element in every access form (value and address) and writes/assigns through them, comparing the whole store with the model after each write; every bound that has a default is also left out; hashed by store contents and shapes.')
P('C05', 'h_c05.cpp', V(asan_row=24000, asan_col=24000), V(gcc_san_row=400000, gcc_san_col=400000, ndebug_row=1000000),
  'A case multiplies matrices/vectors with drawn shapes (rectangular, empty, large), type mixes and operand kinds and compares each element with an independent triple loop (exact on integer-valued data, within the classical rounding bound on real data); hashed by operand contents. Signed and unsigned 64-bit integers use all of their bits (the unsigned ones modulo 2^64).')
P('C06', 'h_c06.cpp', V(asan_row=12000, asan_col=12000), V(gcc_san_row=250000, gcc_san_col=250000, ndebug_row=500000),
  'A case draws a pair of non-conforming shapes (or out-of-range index, ragged list, zero size), calls every operation that must refuse it, requires a std::exception, compares all operands with their model afterwards; ASan watches for stray accesses; hashed by operand contents and shapes.')
P('C07', 'h_c07.cpp', V(asan_row=24000, asan_col=24000), V(gcc_san_row=500000, gcc_san_col=500000, ndebug_row=1500000),
  'A case draws a tolerance, a shape and pairs of elements that are identical, inside, outside or far from the tolerance (also zero, infinities, NaN), compares matrices, views, vectors and scalars and checks each boolean against an independent definition (pairs within 10% of the bound only check that != negates ==); hashed by contents. A scenario puts the difference exactly at the bound of all_close (also a zero bound), which counts as close. 64-bit integers that differ in one bit are told apart by every comparison.')
P('C08', 'h_c08.cpp', V(asan_row=24000, asan_col=24000), V(gcc_san_row=500000, gcc_san_col=500000, ndebug_row=1000000),
  'A case draws shapes, ranges and contents and compares every element of builders, conversions, stacking, extraction, swaps and removals (matrix, view and cofactor view operands) with an independent definition; hashed by contents and ranges.')
P('C09', 'h_c09.cpp', V(asan_row=30000, ndebug_col=30000), V(gcc_san_row=500000, gcc_san_col=300000, ndebug_row=2000000),
  'A case draws bounds (increasing, decreasing, equal, zero, any magnitude), a count and a base and compares every sample with the long double definition, plus size, end points and monotonicity; hashed by arguments.')
P('C10', 'h_c10.cpp', V(asan_row=4000, asan_col=4000), V(gcc_san_row=60000, gcc_san_col=60000, ndebug_row=100000),
  'A case draws a shape, an element type and a range, calls rand_matrix/rand_vector and checks shape, bounds of every element, non-constancy and (small integer ranges) that exactly every value of the range is reached; hashed by arguments. The library seeds itself from random_device: statistical checks have false-alarm probability below 2^-40 each. Integer ranges anywhere in the type, up to the whole of it, and real ranges of any magnitude are included.')
P('C11', 'h_c11.cpp', V(asan_row=40000, asan_col=40000), V(gcc_san_row=1000000, gcc_san_col=1000000, ndebug_row=2000000),
  'A case draws a matrix (row, column, any shape, empty) with zeros, negative zeros, denormals, infinities and NaN and compares flatnonzero and find (all, first n, last n) with an independent scan in the linear order of the build; hashed by contents. The shape of an empty result is checked too.')
P('C12', 'h_c12.cpp', V(asan_row=40000, asan_col=40000), V(gcc_san_row=800000, gcc_san_col=800000, ndebug_row=2000000),
  'A case draws a vector or matrix operand (matrix, view, cofactor view, const view) with integer or real values and compares each reduction with a long double accumulation (exactly for integers, few roundings otherwise), including empty shapes and a single dominating element in any position; hashed by contents. Sums, extremes, traces and inner products of 64-bit integers beyond 2^53 are exact.')
P('C13', 'h_c13.cpp', V(asan_row=24000, asan_col=24000), V(gcc_san_row=500000, gcc_san_col=500000, ndebug_row=1000000),
  'A case draws operands (matrix, view, cofactor view, vector) and applies unary and binary functions that count their calls and record the values they visit, and every map of the library, comparing each element with the scalar function on the element; hashed by contents. Inexact fractions go through the binary maps and linear combinations, and the special maps (abs, sign, real, imag, ...) are compared bit by bit on infinities, zeros of both signs and denormals. 64-bit integers beyond 2^53 go through the maps unchanged.')
P('C14', 'h_c14.cpp', V(asan_row=30000, asan_col=30000), V(gcc_san_row=600000, gcc_san_col=600000, ndebug_row=2000000),
  'A case transposes a drawn operand (once and twice), or builds a matrix with a structure, breaks it at one drawn element (any position, real or imaginary part) in two cases out of three, and compares every predicate with its definition; hashed by contents. Integers differ by one unit near the end of their range.')
P('C15', 'h_c15.cpp', V(asan_row=24000, asan_col=24000), V(gcc_san_row=400000, gcc_san_col=400000, ndebug_row=1500000),
  'A case draws a square operand (1x1 to 16x16, real, complex or integer; random, row-scaled, sparse, zero/tiny/cancelling pivots, permuted triangular, singular, scaled by powers of two up to the ends of the exponent range; matrix, view, cofactor view) and compares its determinant with pivoted long double elimination (tolerance 64 N^2 eps times the product of the row norms) or with exact 128-bit fraction-free elimination for integers, plus row swap, transpose, product and expansion identities; hashed by contents. Determinants of orders 1-4 of 64-bit integers up to 2^61 are exact.')
P('C16', 'h_c16.cpp', V(asan_row=16000, asan_col=16000), V(gcc_san_row=300000, gcc_san_col=300000, ndebug_row=800000),
  'A case draws a well-conditioned (dominant, permuted, scaled, also until the determinant nears the ends of the exponent range) or exactly singular square operand and compares inverse and division with long double elimination, adjoint with exact integer minors and with A adj(A) = det(A) I, cofactor element by element; hashed by contents.')
P('C17', 'h_c17.cpp', V(asan_row=20000, asan_col=20000), V(gcc_san_row=400000, gcc_san_col=400000, ndebug_row=1000000),
  'A case draws a square operand with non-zero leading minors (dominant, product of triangular factors, integer) and checks exact triangularity, unit diagonal and the componentwise backward error bound |A-LU| <= c eps |L||U| in long double; hashed by contents. Data are also scaled to the ends of the exponent range.')
P('C18', 'h_c18.cpp', V(asan_row=16000, asan_col=16000), V(gcc_san_row=300000, gcc_san_col=300000, ndebug_row=800000),
  'A case draws a tall, square or wide real matrix (scaled, rank-deficient, null/unit/repeated columns, zero) and checks shapes, exact triangularity, orthogonality and the residual of each column in long double; hashed by contents. Data are also scaled to the ends of the exponent range.')
P('C19', 'h_c19.cpp', V(asan_row=16000, asan_col=16000), V(gcc_san_row=300000, gcc_san_col=300000, ndebug_row=800000),
  'A case draws a square, tall or wide well-conditioned system (or an exactly singular one) and compares the result with the long double solution, least-squares solution or minimum-norm solution; hashed by contents. Data are also scaled to the ends of the exponent range.')
P('C20', 'h_c20.cpp', V(asan_row=5000, asan_col=5000), V(gcc_san_row=80000, gcc_san_col=80000, ndebug_row=300000),
  'A case draws a real or complex square operand (random with norm from 1e-8 to 20, nilpotent, diagonal, rotation, Jordan, rank one, zero) and an accuracy from 1e-3 to 1e-10 and compares expm with a long double scaling-and-squaring Taylor exponential, tolerance 3 times the accuracy times the growth of the squaring; hashed by contents.')
P('C21', 'h_c21.cpp', V(asan_row=3000, asan_col=3000), V(gcc_san_row=60000, gcc_san_col=60000, ndebug_row=200000),
  'A case draws a continuous model with invertible A (1-4 states, 1-3 inputs and outputs, slow or fast dynamics) and a sample time and compares A and B with the long double exponential of the block matrix, C, D and the sample time exactly, plus the semigroup identity; hashed by contents. Models in other units of time (sample times from 1e-8 to 1e4) and with null input, output or feed-through matrices are included. Some sample times are negative.')
P('C22', 'h_c22.cpp', V(asan_row=10000, asan_col=10000), V(gcc_san_row=200000, gcc_san_col=200000, ndebug_row=400000),
  'A case draws an integer-valued model, inputs, an initial state, a sample time and a duration (so that every value is exact) and compares number of steps, every state, output and time stamp with an independent recurrence; long real-valued runs check the recurrence step by step; hashed by contents.')
P('C23', 'h_c23.cpp', V(asan_row=5000, asan_col=5000), V(gcc_san_row=100000, gcc_san_col=100000, ndebug_row=200000),
  'A case draws an integer-valued pair (order 1-9, 1-4 inputs, matrix/view/cofactor operands) and compares every block with exact powers, plus duality; hashed by contents. Unsigned 64-bit integers wrap.')
P('C24', 'h_c24.cpp', V(asan_row=24000, asan_col=24000), V(gcc_san_row=500000, gcc_san_col=500000, ndebug_row=1000000),
  'A case draws roots (vector, row, column) or a square matrix and compares the polynomial with exact integer or wide expansion, evaluates it at its roots, checks Cayley-Hamilton, and compares polyreduce with its definition; hashed by contents. Roots and matrices are also scaled by powers of two. Unsigned 64-bit roots wrap.')
P('C25', 'h_c25.cpp', V(asan_row=3000, asan_col=3000), V(gcc_san_row=60000, gcc_san_col=60000, ndebug_row=100000),
  'A case draws a controllable single-input system of bounded condition and real poles and compares the characteristic polynomial of A-BK, in long double, with the desired one (tolerance proportional to the condition), or an invalid request made in a child process, which must not come back with a gain; hashed by contents. Systems are also scaled by powers of two.')
P('C31', 'h_c31.cpp', V(tsan_row=1600, asan_col=1600), V(tsan_row=30000, tsan_col=30000, ndebug_row=60000),
  'A case starts 3-6 threads that run 6-14 read-only operations each (same few or random ones out of about 55) on the same constant inputs under ThreadSanitizer, compares every result, bit by bit, with the one of the operation run alone, and the inputs with their initial contents; other cases mutate separate copies in parallel. Hashed by inputs and plan; the overlapping pairs of operations that were observed are counted.',
  replay_tries=20)
P('C32', 'h_c32.cpp', V(asan_row=48000, ndebug_col=120000), V(asan_row=600000, gcc_san_col=800000, ndebug_row=3000000),
  'A case draws an operation (about 55 read-only ones, 20 modifying ones, constructions) and operands, counts its memory requests through the intercepted allocator, then repeats it failing the k-th request, for every k up to 24 requests (200 in the thorough tier; first, last and a random sample beyond), checking exception, ledger of live blocks, operands, consistency and usability of the target and the result of the repetition. Hashed by operands and operation. The object being assigned, resized or combined in place must also keep its value when a request fails.',
  ledger=True, level='fault_enumeration')


def compare_layouts(R, exes, inc, work, tier):
    """Compares the records of every pair of row-major and column-major builds of the same compiler."""
    import glob, os, math
    def load(variant):
        rec = {}
        for f in glob.glob(os.path.join(work, variant + '.*.dig')):
            for line in open(f):
                p = line.split()
                if len(p) >= 4:  # the others are written by the common main
                    rec[int(p[0])] = (p[1], p[2], p[3], [float(x) for x in p[4:]])
        return rec
    done = 0
    vals = 0
    pairs = [(a, a.replace('row', 'col')) for a in exes if 'row' in a and a.replace('row', 'col') in exes]
    for a, b in pairs:
        ra, rb = load(a), load(b)
        for i in sorted(set(ra) & set(rb)):
            x, y = ra[i], rb[i]
            done += 1
            what = x[2].split('/')[0]
            if x[2] != y[2] or x[1] != y[1] or len(x[3]) != len(y[3]):
                R.add_violation(f'{x[0]}:differs-{what}', a, i, x[0], f'{x[2]}: the results of {a} and {b} differ (case {i})')
                continue
            m = max([abs(v) for v in x[3]] + [1e-300])
            tol = 2e-3 if x[2].endswith('/f') else 1e-8
            for u, v in zip(x[3], y[3]):
                vals += 1
                if not (abs(u - v) <= tol * m or (math.isnan(u) and math.isnan(v)) or u == v):
                    R.add_violation(f'{x[0]}:differs-{what}', a, i, x[0], f'{x[2]}: {u!r} in {a} is {v!r} in {b} (case {i})')
                    break
    if pairs and not done:
        R.problems.append('no pair of records to compare')
    if not pairs:
        # The library no longer has two layouts to compare.
        return dict(compared_cases=0, note='the library has a single storage layout')
    return dict(compared_cases=done, compared_values=vals, compared_builds=pairs)


P('C33', 'h_c33.cpp', V(asan_row=60000, asan_col=60000), V(ndebug_row=1200000, ndebug_col=1200000, asan_row=200000, asan_col=200000),
  'The same case (an operation of a table of about 50 with drawn operands, a history of shape and element edits, or initialisation and file contents) runs in a row-major and in a column-major build of the same tree; both record a hash of the exact results and the rounded ones, and the records are compared case by case. Operands are rectangular too; comparisons close to the tolerance are part of the table.',
  digest=True, post=compare_layouts)
P('C34', 'h_c34.cpp', V(asan_row=12000, asan_col=12000), V(gcc_san_row=150000, gcc_san_col=150000, ndebug_row=400000),
  'A case runs a random program of 6-20 statements over 3-6 matrices; every statement evaluates a random expression tree (about 20 kinds of nodes: sums, products, scalings, transposes, stacks, views, cofactors, powers, maps, ...) whose every node is compared exactly with a model, and after each statement all the objects are; or runs 6-20 operations of the table on several inputs and runs them again in another order, and on copies, comparing the results bit by bit. Hashed by program and contents. Refused requests and unrelated operations run between the repetitions; the comparison bound must stay what it was; inputs come in neighbouring pairs that differ in a few values.')
P('C01', 'h_c01.cpp', V(asan_row=16000, asan_col=16000, valgrind_row=240), V(asan_row=200000, gcc_san_col=200000, valgrind_row=12000, ndebug_col=600000),
  'A case runs a history of 8-40 steps drawn from about 48 constructions, copies, moves, assignments, resizes, edits, views, arithmetic, refused operations and throwing callbacks on a pool of matrices and vectors, or an operation of a table of about 55; after every step each object must own a live block of the intercepted allocator, large enough and shared with nobody, every element is read, and the number of live blocks must be the number of non-empty objects; at the end all is returned. Hashed by history.',
  ledger=True, case_timeout=30)
P('C26', 'h_c26.cpp', V(asan_row=16000, asan_col=16000), V(gcc_san_row=200000, gcc_san_col=200000, ndebug_row=400000),
  'A case writes 1-6 vectors, matrices, views and cofactor views (integers at their limits, reals of any magnitude including limits and negative zero, complex; also empty) with a drawn precision into a file of its scratch directory and reads them back into objects of another, the same or empty shape, comparing shapes, values (exactly at full precision), stream state and that nothing is left; hashed by contents. Files are also written under other stream flags, and the sign of zeros is compared.')


def fuzz_reader(R, exes, inc, work, tier):
    """Coverage-guided byte sequences (libFuzzer) against the same monitors, in the thorough tier."""
    if tier != 'thorough':
        return dict(fuzzing='thorough tier only')
    import os, re, subprocess, glob
    here = os.path.dirname(os.path.abspath(__file__))
    H = os.path.join(here, 'harness')
    out = {}
    for layout, path in inc.items():
        exe = os.path.join(work, 'fuzz-' + layout)
        b = subprocess.run(['clang++', '-std=c++17', '-w', '-O1', '-g1', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all', '-DVF_FUZZ', '-DVF_LEDGER', '-fno-builtin',
                            '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free', '-I' + H, '-I' + path, os.path.join(H, 'h_c27.cpp'), '-o', exe, '-pthread'], capture_output=True, text=True)
        if b.returncode:
            return dict(fuzzing='the fuzz target does not build: ' + b.stderr[:300])
        d = os.path.join(work, 'fz-' + layout)
        os.makedirs(d + '/corpus')
        for i, s in enumerate([b'\0V 3\n1 2 3\n', b'\1M 2 2\n1 2\n3 4\n', b'\2M 1 1\n(1,2)\n', b'\3V 18446744073709551615\n', b'\4M 4294967296 4294967296\n1', b'\5V 0\n\nM 0 0\n\n']):
            open(f'{d}/corpus/{i}', 'wb').write(s)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1:quarantine_size_mb=16', UBSAN_OPTIONS='print_stacktrace=1')
        runs = 0
        ps = []
        for j in range(4):
            wd = f'{d}/w{j}'
            os.makedirs(wd)
            ps.append((wd, subprocess.Popen([exe, '-max_len=160', '-timeout=60', '-rss_limit_mb=3000', '-max_total_time=150', f'-seed={R.seed * 10 + j + 1}', '-print_final_stats=1', '../corpus'],
                                            cwd=wd, env=env, stdout=subprocess.DEVNULL, stderr=open(wd + '/err', 'w'))))
        for wd, p in ps:
            p.wait()
            err = open(wd + '/err', errors='replace').read()
            m = re.search(r'stat::number_of_executed_units:\s+(\d+)', err)
            runs += int(m.group(1)) if m else 0
            crash = [c for c in glob.glob(wd + '/*') if os.path.basename(c).startswith(('crash-', 'timeout-'))]
            for c in crash:
                m = re.search(r'VF-MONITOR (\S+)', err) or re.search(r'ERROR: \w+: ([\w-]+)', err) or re.search(r'runtime error: ([^\n]{0,60})', err)
                key = 'fuzz:' + (re.sub(r'[^A-Za-z-]+', '-', m.group(1)) if m else os.path.basename(c).split('-')[0])
                R.add_violation(key, 'fuzz-' + layout, -1, 'fuzz', 'bytes ' + open(c, 'rb').read().hex() + ' ' + err[-1500:])
        out[layout] = runs
        cov = len(glob.glob(d + '/corpus/*'))
        out[layout + '_corpus'] = cov
    return dict(fuzz_executions=out)


P('C27', 'h_c27.cpp', V(asan_row=30000, asan_col=30000), V(gcc_san_row=300000, gcc_san_col=300000, asan_row=200000),
  'A case generates a byte sequence (token grammar with negative, overflowing and absurd sizes and junk values; well-formed files cut, spliced and edited; random bytes), reads 1-3 vectors or matrices of drawn type and previous contents from the file, and checks consistency, ownership and initialisation of the storage, that a wrong type letter changes nothing, and that nothing leaks; the thorough tier adds libFuzzer on the same monitors. Hashed by bytes.',
  ledger=True, env=dict(ASAN_OPTIONS='max_allocation_size_mb=1'), post=fuzz_reader, case_timeout=60)
P('C28', 'h_c28.cpp', V(asan_row=16000, asan_col=16000), V(gcc_san_row=200000, gcc_san_col=200000, ndebug_row=600000),
  'A case prints a drawn matrix, view, cofactor view, vector, state-space model or range (integers, reals of any magnitude, infinities, complex; empty too) at a drawn precision and compares the text character by character with an independent renderer, plus flags, precision and width of the stream and the object; with other format flags every token is compared. Hashed by contents and precision. Integers have any number of digits.')
P('C29', 'h_c29.cpp', V(asan_row=800000), V(gcc_san_row=2000000, ndebug_row=6000000, asan_row=1000000),
  'A case draws a pair of component types (complex of float, double, long double on either side; integers of several widths, bool and reals) and the two operands (small exact values, or reals over 24 binary orders of magnitude; zeros, real and imaginary axes), applies the four operations and compares type and value with the textbook formulas evaluated in long double without any complex operator: exactly for exact operands, to 16 units in the last place of the common precision otherwise. Hashed by operands and types. Components of extreme magnitudes and integers beyond the precision of float are included.')
P('C30', 'h_c30.cpp', V(asan_row=9000, asan_col=9000), V(gcc_san_row=150000, gcc_san_col=150000, ndebug_row=600000, asan_row=60000),
  'A case draws a complex square matrix (dense, Hermitian, triangular, nearly triangular, rank-deficient, null columns, permutations, integers, scaled by up to 2^50; or with a prescribed well separated spectrum) in float, double or long double, runs one of the decompositions and measures in long double: unitarity, similarity residual, structure, the diagonal against the prescribed spectrum, the eigenvalue equation and norm of every vector, completeness flags and warnings. Hashed by contents. Data are also scaled to the ends of the exponent range.')
P('C35', 'h_c35.cpp', V(asan_nd_row=10000, asan_nd_col=10000, asan_row=6000), V(asan_nd_row=150000, asan_nd_col=150000, gcc_san_row=100000, gcc_san_col=100000, ndebug_row=300000),
  'A case draws a matrix (also empty, and as a view, transposed copy or cofactor view) and a position or a range outside of it (just beyond, further, 2^32, 2^63 and 2^64 away), and checks that the functions that select a row, a column or an element refuse it with a standard exception, that ranges ending beyond stop with the object and those starting beyond are empty, that views of such windows have the clipped shape and contents as operands, and that neither the operands nor the elements around a window change; the sanitizers run with assertions enabled and disabled. Hashed by contents and positions.')
P('C36', 'h_c36.cpp', V(asan_row=8000, asan_col=8000), V(gcc_san_row=100000, gcc_san_col=100000, ndebug_row=200000),
  'A case compiled with MEM_TRACE runs a random history (construction, copy, move, assignment, resize, append, swap, clear, refused requests, temporaries of the algorithms) over vectors and matrices of several element types, reads the trace of the allocations as an event log and checks after every step that the blocks it reports as live are those owned by the existing objects, and at the end that none is left. Hashed by the history.')
