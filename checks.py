"""Configuration of all checks, see DESIGN.md."""


def parts(src, n, **kw):
    return [dict(name='p%d' % i, src=src, flags=['-DPART=%d' % i], **kw) for i in range(n)]


ASSUMPTIONS = [
    'Verdicts hold for the executions observed; nothing is claimed about inputs that were not generated.',
    'clang 18 / gcc 13 on x86-64, libstdc++, C++17, no fast-math.',
    'The sanitizers and the reference models in harness/ are trusted.',
]

NOT_APPLICABLE = [
    dict(property='C39', reason='The traits are evaluated by the compiler: there is no execution to observe, a wrong trait '
         'shows up as a static type. Deciding it needs static assertions, not runtime monitoring.'),
    dict(property='C40', reason='The property is that programs are rejected by the compiler: a program that violates it never '
         'runs, so there is no execution a monitor could observe.'),
]
CHECKS = {}

CHECKS['C01'] = dict(
    parts=parts('c01.cpp', 4),
    technique='online trace monitor (snapshot model) over random reentrant programs, ASan+UBSan',
    rule='A case is a random program of add/disconnect/clear/assign/call operations executed at top level and from '
         'inside running functions; non-trivial if at least two functions ran and something was added or removed '
         'inside a call; distinct by hash of the executed operations.',
    note='Random exploration: every invocation of every call in the generated histories is compared with the '
         'snapshot model while it happens. Assurance is limited to the histories generated (nesting up to 60, up to '
         'several thousand functions); the model is trusted.',
    min_distinct=2000, min_counters={'programs_with_nested_calls': 500},
)

CB_RULE = ('A case is a random program of operations on one callback (add, +=, =, disconnect through ids, connections '
           'and copies, clear, adding empty functions, calls%s); non-trivial if at least two functions ran%s; '
           'distinct by hash of the executed operations.')
CB_NOTE = ('Random exploration: each observable result is compared with an executable reference model (trusted) while '
           'the program runs. %s')

CHECKS['C02'] = dict(
    parts=parts('c02.cpp', 7), thorough_scale=0.6,
    technique='online trace monitor over random operation histories of both callback classes, ASan+UBSan',
    rule=CB_RULE % (', never from inside of a function', ''),
    note=CB_NOTE % 'Covers up to some thousand (thorough: 100000) functions per callback.',
    min_distinct=2000,
)
CHECKS['C04'] = dict(
    parts=parts('c04.cpp', 5),
    technique='online trace monitor for disconnect/connected against a reference model, ASan+UBSan',
    rule=CB_RULE % (', for RecursiveCallback also from inside running functions', ' (bulk cases: several functions were removed)'),
    note=CB_NOTE % 'Every disconnect result and all tracked connections are compared after each removal.',
    min_distinct=2000,
)
CHECKS['C05'] = dict(
    parts=parts('c05.cpp', 5),
    technique='protocol monitor inside a recording connection id class over random reentrant programs, ASan+UBSan',
    rule=CB_RULE % (', for RecursiveCallback also from inside running functions, partly throwing', ''),
    note=CB_NOTE % 'Every set/removed/get call on an id is recorded and judged against the documented protocol.',
    min_distinct=2000,
)
CHECKS['C07'] = dict(
    parts=parts('c07.cpp', 5) + [dict(q, name='x' + q['name'][1:]) for q in parts('c07x.cpp', 5)],
    technique='fault injection (throwing functions) with online trace monitor, ASan+UBSan',
    rule=CB_RULE % (', functions throw at random points, exceptions are caught in between or pass several calls', ''),
    note=CB_NOTE % 'Exceptions of three types are injected at random invocations. In additional programs copying the '
                   'arguments, moving the results or allocating the result storage fails, in nested calls, too.',
    min_distinct=2000, min_counters={'exceptions_thrown': 3000, 'faults': 20000, 'passed_on': 1000},
)
CHECKS['C08'] = dict(
    parts=parts('c08.cpp', 7) + [dict(q, name='d' + q['name'][1:]) for q in parts('c08d.cpp', 4)],
    technique='lifetime monitor (instance tracking tokens) with AddressSanitizer/LeakSanitizer over random reentrant programs',
    rule=CB_RULE % (', for RecursiveCallback also from inside running functions', ''),
    note=CB_NOTE % 'All function objects carry tokens counting live instances and owning heap memory, so that early '
                   'destruction, double destruction and leaks are seen by the monitor or ASan/LSan.',
    min_distinct=2000, min_counters={'destructor_operations': 20000},
)
CHECKS['C09'] = dict(
    parts=parts('c09.cpp', 5), level='fault_enumeration',
    technique='allocation fault injection at every allocation of each registration, reference model, ASan+UBSan+LSan',
    rule=CB_RULE % (', every allocation made by every registration fails once before the registration succeeds', ''),
    note=CB_NOTE % 'For each registration in the random programs all allocation points are enumerated by replaced operator new.',
    min_distinct=2000, min_counters={'allocation_failures': 5000},
)



def single(src, **kw):
    return [dict(name='p0', src=src, **kw)]


O0 = dict(variants=['asan0'], variants_thorough=['asan', 'gcc-asan', 'opt'])

CHECKS['C03'] = dict(
    parts=parts('c03.cpp', 6), **O0,
    technique='runtime monitor inside the registered functions comparing arguments/results over random signatures and values, ASan+UBSan',
    rule='A case registers 1 to 200 functions of random kinds (by reference, by value and modifying, stealing, with '
         'connection parameter, function pointers, bind, ...) for one of ten signatures and calls with random values, also '
         'nested; non-trivial if at least two functions are registered; distinct by kinds and values.',
    note='Random exploration over ten signatures with by-value, reference, rvalue, move-only, polymorphic arguments; '
         'each function compares what it receives, the caller compares results.',
    min_distinct=1000, min_counters={'arguments_compared': 10000},
)
CHECKS['C06'] = dict(
    parts=single('c06.cpp'), **O0,
    technique='ownership monitor: recording connectable and real callbacks against a slot model over random operation sequences, ASan+UBSan',
    rule='A case is a random sequence of constructions, moves, swaps, assignments, disconnects, releases and '
         'destructions on six UniqueConnection slots; non-trivial if at least two connections were disconnected; '
         'distinct by hash of the operations.',
    note='Random exploration; every disconnect reaching the connectable is logged and compared with the model after '
         'each step.',
    min_distinct=1000, min_counters={'disconnects': 10000, 'released': 500, 'throwing_disconnects': 1000, 'self_moves': 500},
)
CHECKS['C10'] = dict(
    parts=single('c10.cpp'), **O0,
    technique='event log of random trees of scopes/guards/exceptions compared with a reference execution, ASan+UBSan',
    rule='A case is a random tree of nested scopes with guards of all kinds (unset, lvalue, throwing, running further '
         'scopes during unwinding), left normally, early or by exceptions; non-trivial if at least two guards '
         'ran; distinct by event log.',
    note='Random exploration; complete event logs are compared with the model.',
    min_distinct=1000, min_counters={'guards_run_during_unwinding': 3000},
)
CHECKS['C11'] = dict(
    parts=single('c11.cpp'), **O0,
    technique='instance tracking monitor over cloning through every base of 14 hierarchies, ASan+UBSan+LSan (alloc/dealloc and vptr checks)',
    rule='A case clones objects of all types of one family of hierarchies through each of their bases with random '
         'state; every (type, base, state) is one non-trivial case.',
    note='Hierarchies: single, deep, concrete roots, multiple bases, non-primary bases, move-only. Types outside '
         'these shapes (e.g. virtual inheritance) are not explored.',
    min_distinct=1000, min_counters={'failed_clones': 500},
)

CHECKS['C12'] = dict(
    parts=parts('c12.cpp', 5), **O0,
    technique='reference monitor: every span is compared with the range it was made from (addresses and contents) on exactly sized memory, ASan+UBSan',
    rule='A case builds spans of all kinds over one random range of one element type and takes sub-spans; distinct by '
         'size and random content.',
    note='Element types char, int, std::string, a padded struct, double; fixed extents 0, 1, 2, 3, 7, 64, 300; dynamic sizes up '
         'to 400 with (for small sizes all) offset/count pairs, and sparse ranges of 12 GiB. Other types and extents are not explored.',
    min_distinct=500, min_counters={'spans_checked': 50000},
)
CHECKS['C13'] = dict(
    unsigned_char=True,
    parts=parts('c13.cpp', 3) + [dict(name='x0', src='c13x.cpp', variants=['asan'], variants_thorough=['asan', 'gcc-asan', 'opt'])], **O0,
    technique='round trip monitor over random sequences of typed writes and reads with full buffer comparison after every operation, ASan+UBSan',
    rule='A case writes a random sequence of objects and ranges of about 30 types to a fixed and a dynamic buffer and reads it back '
         'three times in varying ways; non-trivial with two or more items, distinct by the written bytes.',
    note='The types are a fixed selection (integers, floats, enums, padded, packed, union, bit field and empty structs, arrays, Vec, '
         'Mat, Rect like types); sequences, contents, sizes and read styles are random. Overlapping source and destination is not explored. Allocations of dynamic buffers are made to fail.',
    min_distinct=2000, min_counters={'reads': 100000, 'failed_writes': 10000},
)
CHECKS['C14'] = dict(
    parts=parts('c14.cpp', 4) + [dict(q, name='x' + q['name'][1:], variants=['opt'], variants_thorough=['opt', 'gcc-opt']) for q in parts('c14x.cpp', 2)], **O0,
    technique='assert handler monitor (counts and throws) on exactly sized buffers, state comparison after each failed operation, ASan+UBSan',
    rule='A case is one or many (buffer size, operation size) pairs run through every operation; distinct by the sizes.',
    note='Exhaustive for buffers of 0..40 and operations of 0..48 bytes, random for larger ones, selected sizes up to 2^64-1. '
         'Handlers: throwing (all operations), default assert and an aborting function (in child processes on shared memory).',
    min_distinct=2000, min_counters={'handler_calls': 20000, 'aborted': 1000},
)
_C15 = parts('c15.cpp', 4)
for _p in _C15[2:]:
    _p.update(variants=['opt'], variants_thorough=['opt', 'gcc-opt'], release=False)
CHECKS['C15'] = dict(
    unsigned_char=True,
    parts=_C15,
    technique='reference monitor with an own utf8 encoder on exactly sized, not terminated memory, ASan+UBSan',
    rule='A case is a string (or a block of 4096 single code points) checked with all overloads; distinct by its code points.',
    note='Every code point alone, random strings up to some 100000 characters and strings with more than 2^32 characters. '
         'Invalid utf8 is outside of the property.',
    min_distinct=2000, min_counters={'accesses': 50000},
)
CHECKS['C16'] = dict(
    unsigned_char=True,
    parts=parts('c16.cpp', 2),
    technique='differential monitor of all six conversions and round trips against an own encoder on exactly sized memory, ASan+UBSan',
    rule='A case converts strings of code points in all directions; distinct by the code points.',
    note='Every code point in several contexts, random strings with byte order marks, non-characters and embedded zeros, up '
         'to 100000 code points. Invalid strings are outside of the property.',
    min_distinct=2000, min_counters={'code_points': 1000000},
)
CHECKS['C17'] = dict(
    unsigned_char=True,
    parts=parts('c17.cpp', 9), **O0,
    technique='differential monitor: every component of every result is compared bit for bit with the scalar expression, ASan+UBSan',
    rule='A case applies all operators to random vectors of one pair of value types in dimensions 1 to 8 (unary: up to 300); '
         'distinct by the operand values.',
    note='Value types: integers of all widths, float, double, long double, complex, a non-commutative matrix type, strings, durations, pointers, vectors. Values cover the whole '
         'range including infinities, nan and limits; operands with undefined scalar operation (signed overflow) are replaced.',
    min_distinct=10000, min_counters={'vectors': 50000, 'conversions': 20000, 'class_types': 8000},
)
CHECKS['C18'] = dict(
    parts=parts('c18.cpp', 4), **O0,
    technique='differential monitor against extended precision definitions with error bounds (exact for integers), ASan+UBSan',
    rule='A case computes all metric operations for random vectors of one pair of value types in dimensions 1 to 17, including parallel, opposite '
         'and almost parallel ones; distinct by the operands.',
    note='Bounds are a small multiple of the rounding error of the definition. Vectors whose squared length over- or underflows are not generated.',
    min_distinct=10000, min_counters={'angles': 100000},
)
CHECKS['C19'] = dict(
    parts=parts('c19.cpp', 6), **O0,
    technique='differential monitor: every component of every function and operator against the std:: scalar operation, bit for bit, ASan+UBSan',
    rule='A case applies all functions or operators to random vectors of one (pair of) value type(s) in dimensions 1 to 9 and 300; distinct by the operands.',
    note='Value types: int, int64, uint8, float, double, long double, complex, non-commutative type, strings where applicable; values cover the whole range of the scalar '
         'operation including nan and infinities.',
    min_distinct=10000, min_counters={'function_applications': 100000, 'comparisons': 10000, 'string_operations': 5000},
)
CHECKS['C20'] = dict(
    parts=parts('c20.cpp', 8), **O0,
    technique='differential monitor: every entry of every result against the definition, exact by construction of the operands, ASan+UBSan',
    rule='A case applies all operations to random matrices of one (pair of) value type(s) in about ten shapes; distinct by the entries.',
    note='Shapes up to 6x7 and a few large ones (40x40, 300x2, 2x300); value types int, unsigned, int64, uint8, float, double, complex and a non-commutative type. '
         'Products of general floating point values are compared up to rounding, everything else exactly.',
    min_distinct=10000, min_counters={'range_checks': 50000, 'pivots': 20000, 'products': 10000},
)
CHECKS['C21'] = dict(
    parts=parts('c21.cpp', 4), **O0,
    technique='differential monitor of echelon forms against an exact rational/integer elimination and structural checks with error bounds, ASan+UBSan',
    rule='A case brings random matrices of chosen rank in all shapes up to 6x6 into both echelon forms; distinct by the entries.',
    note='Matrices whose elimination is exactly representable are compared exactly with the unique reduced form, others with bounds.',
    min_distinct=5000, min_counters={},
)
CHECKS['C22'] = dict(
    parts=parts('c22.cpp', 5), **O0,
    technique='monitor of all promised relations of the decomposition (backward error in extended precision) and of determinants against exact 128 bit Bareiss elimination, ASan+UBSan',
    rule='A case decomposes random square matrices of one value type in dimensions 1 to 8 and computes determinants; distinct by the entries.',
    note='Integer matrices of ten structures (permutations, low rank, singular leading minors, triangular, almost equal rows, ...), all permutations up to '
         'dimension 6, all 3x3 matrices over {-1,0,1}, all 4x4 over {0,1}, dyadic and general floating point matrices. Bounds are relative to the largest entry.',
    min_distinct=10000, min_counters={'odd_permutations': 10000, 'singular': 10000, 'determinants_resolved': 5000, 'permutations': 1000},
)
CHECKS['C23'] = dict(
    parts=parts('c23.cpp', 5), **O0,
    technique='residual monitor plus comparison with an extended precision full pivoting inverse and exact adjugates, ASan+UBSan',
    rule='A case solves systems and inverts random regular matrices of one value type in dimensions 1 to 8 (permutations up to 70); distinct by the entries.',
    note='Bounds are relative to condition and size; (scaled) permutations and triangular systems with dyadic solutions are compared exactly.',
    min_distinct=10000, min_counters={'systems': 100000, 'inverses': 20000, 'triangular': 10000, 'triangular_general': 50000, 'permutations': 2000},
)
CHECKS['C24'] = dict(
    parts=parts('c24.cpp', 1), **O0,
    technique='differential monitor against an extended precision quaternion and rotation matrix model with error bounds, ASan+UBSan',
    rule='A case applies all quaternion operations to random (unit) quaternions, axes, angles and vectors of one precision; distinct by the operands.',
    note='Axis-angle rotations include axis aligned ones, multiples of 90 degrees, tiny angles and several turns; matrix conversions cover all branches '
         '(each of the four components being the largest).',
    min_distinct=5000, min_counters={'rotations': 5000, 'vectors_rotated': 10000, 'from_matrix': 5000},
)
CHECKS['C25'] = dict(
    parts=parts('c25.cpp', 1), **O0,
    technique='monitor of the path properties of slerp against its extended precision definition, ASan+UBSan',
    rule='A case interpolates between two random unit quaternions at many factors; distinct by the quaternions.',
    note='Includes equal, almost equal, orthogonal and almost opposite quaternions and both signs of each.',
    min_distinct=5000, min_counters={'close': 500, 'almost_opposite': 500, 'negative_dot': 5000},
)
CHECKS['C26'] = dict(
    parts=parts('c26.cpp', 1), **O0,
    technique='round trip monitor of euler angles (rebuild the rotation from the returned angles in extended precision), ASan+UBSan',
    rule='A case decomposes a random rotation into the angles of one of the twelve sequences; distinct by sequence and rotation.',
    note='Includes degenerate (gimbal lock) and nearly degenerate middle angles for every sequence.',
    min_distinct=5000, min_counters={'degenerate': 1000, 'near_degenerate': 1000, 'regular': 5000},
)
CHECKS['C27'] = dict(
    parts=parts('c27.cpp', 3), **O0,
    technique='differential monitor of transform matrices applied to points against the definition in extended precision, ASan+UBSan',
    rule='A case builds transform matrices from random parameters and applies them to random points; distinct by the parameters.',
    note='Covers the creating and in-place variants, different matrix sizes, bases for all directions (poles included).',
    min_distinct=5000, min_counters={'matrices': 10000, 'in_place': 5000, 'bases': 5000},
)
CHECKS['C28'] = dict(
    parts=parts('c28.cpp', 1), **O0,
    technique='monitor of the documented frame relations of look-at matrices and orientations in extended precision, ASan+UBSan',
    rule='A case builds view matrices for a random position, direction and up vector; distinct by these.',
    note='Includes axis aligned and nearly parallel up vectors.',
    min_distinct=5000, min_counters={'directions': 5000, 'orientations': 5000, 'matrices': 5000},
)
CHECKS['C29'] = dict(
    parts=parts('c29.cpp', 1), **O0,
    technique='monitor of the images of volume corners and interior points under projection matrices in extended precision, ASan+UBSan',
    rule='A case builds projection matrices from random parameters and projects the corners and random points of the view volume; distinct by the parameters.',
    note='Covers all orthographic and perspective overloads, left and right handed, both depth conventions.',
    min_distinct=5000, min_counters={'boxes': 2000, 'volumes': 2000, 'left_handed': 500, 'right_handed': 500},
)
CHECKS['C30'] = dict(
    parts=parts('c30.cpp', 4), **O0,
    technique='differential monitor of rect predicates and intersections against exact interval arithmetic, ASan+UBSan',
    rule='A case compares all predicates and the intersection of a pair of rects (also with points); distinct by the pair.',
    note='Exhaustive on small grids in 1 to 3 dimensions with all half grid points, random pairs in all interval relations in 1 to 6 dimensions, '
         'integer and floating point types including mixed ones. Real predicates only for rects with positive size.',
    min_distinct=20000, min_counters={'overlapping': 10000, 'touching': 5000, 'separate': 10000, 'rects': 5000, 'conversions': 10000},
)
CHECKS['C31'] = dict(
    parts=parts('c31.cpp', 4), **O0,
    technique='set semantics monitor: every cell between all coordinates is covered exactly as often as it should, ASan+UBSan',
    rule='A case computes the difference of a pair of rects and counts the cover of all cells; distinct by the pair.',
    note='Exhaustive on small grids in 1 to 3 dimensions, random pairs with many coinciding coordinates in 1 to 6 dimensions.',
    min_distinct=20000, min_counters={'pieces': 50000, 'cells': 100000, 'overlapping': 10000, 'covered': 1000},
)
CHECKS['C32'] = dict(
    parts=parts('c32.cpp', 2), **O0,
    technique='differential monitor against wide integer and extended precision references (thorough: all 2^32 integers), ASan+UBSan',
    rule='A case evaluates one function for one argument tuple; distinct by the arguments (blocks of integers count once).',
    note='mapUnsigned/unmapUnsigned: boundaries and a strided walk over all integers, complete when thorough; pair: all diagonals, strided.',
    min_distinct=20000, min_counters={'angles': 50000, 'mixes': 50000, 'smoothsteps': 10000, 'mapped': 1000000, 'pairs': 500000, 'clamped_min': 10000, 'clamped_max': 10000},
)
CHECKS['C33'] = dict(
    parts=parts('c33.cpp', 4), **O0,
    technique='differential monitor of approximate comparisons against the predicate in extended precision, ASan+UBSan',
    rule='A case compares values (vectors, matrices, complex numbers) with an approximation in both orders with == and !=; distinct by values and tolerance.',
    note='Differences close to the tolerance down to 2^-12 of it, every single component changed alone; values within the rounding error of the boundary and overflowing differences are left out.',
    min_distinct=20000, min_counters={'equal': 50000, 'unequal': 50000, 'vectors': 10000, 'matrices': 10000, 'complex': 5000},
)
CHECKS['C34'] = dict(
    parts=single('c34.cpp'), **O0,
    technique='differential monitor of all flag operators against integer bit operations, ASan+UBSan',
    rule='A case applies all operators to a pair of values; distinct by the pair.',
    note='All pairs for 8 bit enums (signed and unsigned), random values for the wider ones and for other storage types; scoped enums only.',
    min_distinct=60000, min_counters={'pairs': 200000},
)
CHECKS['C35'] = dict(
    parts=single('c35.cpp'), **O0,
    technique='differential monitor of conversions against the coordinate-wise cast; poisoned memory for default construction, ASan+UBSan',
    rule='A case converts random simplices of one shape to all other dimensions and precisions; distinct by shape and coordinates.',
    note='All D up to 5 and A up to D.',
    min_distinct=10000, min_counters={'reduced': 10000, 'extended': 10000, 'same_dimension': 5000, 'accesses': 10000},
)
CHECKS['C36'] = dict(
    unsigned_char=True,
    parts=single('c36.cpp'), **O0,
    technique='identity and termination monitor on exactly sized heap strings, ASan+UBSan',
    rule='A case constructs parameters from one random string in all ways; distinct by the content.',
    note='char, char16_t, char32_t; all checks with lengths up to 20000, size and termination up to 2^24, one string of more than 2^32. With embedded null characters only a terminated prefix is required.',
    min_distinct=5000, min_counters={'strings': 10000, 'empty_strings': 200, 'long_strings': 20},
)
CHECKS['C37'] = dict(
    parts=parts('c37.cpp', 4), **O0,
    technique='parse-back monitor of printed text plus stream state monitor, ASan+UBSan',
    rule='A case prints one value with random stream settings in all ways; distinct by the value.',
    note='Random precision, flags, number bases, locales, delimiters, row spacings and value widths, ordinary and extreme values.',
    min_distinct=10000, min_counters={'vectors': 10000, 'matrices': 5000, 'rects': 5000, 'approximations': 2000, 'containers': 2000, 'foreign_locales': 2000, 'other_types': 1000},
)
CHECKS['C38'] = dict(
    parts=single('c38.cpp'), release=False, variants=['tsan'], variants_thorough=['tsan', 'gcc-tsan', 'opt'],
    technique='ThreadSanitizer over seeded concurrent workloads plus comparison of result digests with single threaded runs',
    rule='A case runs 2 to 8 threads with seeded workloads on distinct objects (or const operations on shared ones) with injected delays; '
         'distinct by the observed order of task starts and ends.',
    note='Workloads cover all headers. Threads are only ordered by thread creation and joining, so that ThreadSanitizer sees every pair of '
         'conflicting accesses of the run. Schedules that were not observed are not covered for result digests.',
    min_distinct=3000, min_counters={'observed_switches': 20000, 'tasks': 40000, 'shared_uses': 10000},
)
