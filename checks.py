"""The checks: how the monitors of every property are built and run."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(VERIF, 'harness')

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
BASE = ['g++', '-std=gnu++17', '-O1', '-g0', '-w', '-ftrivial-auto-var-init=pattern']
ASAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:max_free_fill_size=1000000000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
    'LSAN_OPTIONS': 'exitcode=99',
}


def repo():
    return os.environ.get('HV_REPO', '/repo')


CLANG = ['clang++', '-std=gnu++17', '-O1', '-g0', '-w', '-idirafter', '/usr/lib/gcc/x86_64-linux-gnu/13/include', '-L/usr/lib/gcc/x86_64-linux-gnu/13']


def cpp_jobs(src, shards, quick, thorough, flags=SAN, base=BASE, tag='', env=None, libs=('-lquadmath',), eigen=True, group=None, prefix=(), post=()):
    """compile harness/<src> once per shard and run each"""

    def make(chk):
        units, jobs = [], []
        for s in shards:
            name = '%s%s_%s' % (os.path.splitext(src)[0], tag, s)
            exe = os.path.join(chk.build, name)
            cmd = list(base) + list(flags) + ['-DSHARD=%s' % s, '-I' + os.path.join(repo(), 'include')]
            cmd += ['-I/usr/include/eigen3'] if eigen else ['-DHV_NO_EIGEN']
            cmd += [os.path.join(H, src)] + list(libs) + ['-pthread', '-o', '@OUT@']
            units.append((exe, cmd))
            jobs.append({'name': name, 'cmd': list(prefix) + [exe] + list(post), 'group': group, 'env': dict(ASAN_ENV, **(env or {})), 'scale': thorough if chk.tier == 'thorough' else quick})
        return units, jobs
    return make


def combine(*makes):
    def make(chk):
        units, jobs = [], []
        for m in makes:
            u, j = m(chk)
            units += u
            jobs += j
        chk.compile_all(units)
        return jobs
    return make


PY = '/opt/vp/venv/bin/python'
PYH = os.path.join(H, 'py')
_RT = []


def asan_rt():
    if not _RT:
        _RT.append(subprocess.run(['clang', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True, text=True).stdout.strip())
    return _RT[0]


def module_units(chk, san=True):
    """the Python module, from all sources of python/src, in a directory of its own"""
    d = os.path.join(chk.build, 'module_san' if san else 'module_plain')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(repo(), 'python', 'src')
    flags = ['clang++', '-std=c++17', '-fPIC', '-g0', '-w', '-DNDEBUG', '-fvisibility=hidden', '-DHYPERJET_EXCEPTIONS', '-DHYPERJET_VERSION="0"',
             '-I' + os.path.join(repo(), 'include'), '-I/usr/include/eigen3', '-I/usr/include/python3.12', '-I' + src]
    sf = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=undefined'] if san else []
    flags += ['-O0'] + sf if san else ['-O2']
    pch = os.path.join(d, 'common.pch')
    units = [(pch, flags + ['-x', 'c++-header', os.path.join(src, 'common.h'), '-o', '@OUT@'], 0)]
    objs = []
    for f in sorted(os.listdir(src)):
        if f.endswith('.cpp'):
            o = os.path.join(d, f + '.o')
            units.append((o, flags + ['-include-pch', pch, '-c', os.path.join(src, f), '-o', '@OUT@'], 1))
            objs.append(o)
    o = os.path.join(d, 'hv_new.o')
    units.append((o, ['clang++', '-std=c++17', '-fPIC', '-O1', '-g0', '-c', os.path.join(PYH, 'hv_new.cpp'), '-o', '@OUT@'], 1))
    units.append((os.path.join(d, 'hyperjet.so'), ['clang++', '-shared', '-Wl,-Bsymbolic'] + (['-shared-libasan', '-fsanitize=address,undefined'] if san else []) + objs + [o, '-o', '@OUT@'], 2))
    return d, units


def py_jobs(src, shards, quick, thorough, tag='', env=None, san=True, names=None):
    """run harness/py/<src> with the module in <shards> processes"""

    def make(chk):
        d, units = module_units(chk, san)
        jobs = []
        for s in range(shards):
            e = {'HV_MODULE': d, 'HV_SHARD': str(s), 'HV_SHARDS': str(shards), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'LC_ALL': 'C.UTF-8',
                 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONHASHSEED': '0', 'PYTHONPATH': ''}
            if san:
                e.update({'HV_PRELOAD': asan_rt(), 'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:alloc_dealloc_mismatch=0:max_allocation_size_mb=4096:max_free_fill_size=1000000000:max_malloc_fill_size=1000000000', 'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99'})
            e.update(env or {})
            cmd = ['env'] + (['LD_PRELOAD=' + asan_rt()] if san else []) + [PY, os.path.join(PYH, src)]
            jobs.append({'name': '%s%s_%d' % (os.path.splitext(src)[0], tag, s), 'cmd': cmd, 'env': e, 'scale': thorough if chk.tier == 'thorough' else quick})
        return units, jobs
    return make


ALL = [0, 1, 2, 3, 4, 5, 6, 7]
SPLIT = [70, 71, 72, 5, 6, 0, 1, 2, 3, 4]  # the long ones first
CHECKS = {}

UNARY = ['sqrt', 'cbrt', 'reciprocal', 'pow', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'cosh', 'sinh', 'tanh', 'acosh', 'asinh', 'atanh', 'exp', 'log', 'log_base', 'log2', 'log10']
BINARY = ['add', 'sub', 'mul', 'div', 'atan2', 'hypot']

ORACLE = ['libquadmath evaluates the closed forms in 113 bit precision (self-tested against finite differences of the value functions on every run of C01)',
          'a component counts as right if it deviates from the oracle by at most 1024 machine epsilons (128 for long double) of the sum of the magnitudes of its terms, times the condition of the closed form']

CHECKS['C01'] = dict(
    title='unary functions', make=combine(cpp_jobs('c01.cpp', SPLIT, 6, 120)),
    rule='one evaluation is one jet of one type (order, scalar, size), value drawn from the domain of the function at all scales with special points, derivative data dense/sparse/integer/wide/seeded, one function, all result components compared with the quad precision chain rule; distinct counts different (type, function, parameter, data)',
    require=['op_' + u for u in UNARY] + ['oracle_points', 'far_points'], min_evaluations=100000, assumptions=ORACLE)
CHECKS['C02'] = dict(
    title='binary and ternary operations', make=combine(cpp_jobs('c02.cpp', SPLIT, 2, 40)),
    rule='one evaluation is one operation on one or more jets (or a jet and a scalar, int or floating) of one type, including operands that are the same object, all result components compared with the quad precision chain rule and the operands compared bit by bit with copies; distinct counts different (type, operation, operand data)',
    require=['op_' + b for b in BINARY] + ['op_hypot3', 'op_neg', 'same_object', 'far_points'] + ['op_%s_%s' % (v, b) for v in ('jet_scalar', 'scalar_jet') for b in BINARY[:4]],
    min_evaluations=100000, assumptions=ORACLE)
CHECKS['C03'] = dict(
    title='compound assignment', make=combine(cpp_jobs('c03.cpp', ALL, 1, 20)),
    rule='one evaluation is one compound assignment on a dense or sparse jet with another jet, the jet itself, a scalar or a reference to one of its own components, or one step of a chain; the target is compared with the quad precision chain rule of the binary operation, the returned reference with the target, the right operand with a copy',
    require=['op_%s%s_%s' % (s, b, k) for s in ('', 'sparse_') for b in BINARY[:4] for k in ('jet', 'self', 'scalar')] + ['chain_steps'],
    min_evaluations=100000, assumptions=ORACLE)
CHECKS['C04'] = dict(
    title='composed programs', make=combine(cpp_jobs('c04.cpp', ALL, 1, 20)),
    rule='one evaluation is one randomly generated program (a straight-line sequence of dense-jet operations with shared intermediates, in-place updates and constants) run on jets, every component of every intermediate compared with the quad precision chain rule with a tolerance that follows the rounding accumulated along the program, or one algebraic identity evaluated on both sides; a sample of programs is differentiated by finite differences of the plain function as well',
    require=['programs', 'identities', 'finite_difference_programs'], min_evaluations=10000,
    assumptions=ORACLE + ['programs whose rounding condition exceeds the tolerance are compared with a correspondingly wider bound'])
CHECKS['C05'] = dict(
    title='order and storage independence', make=combine(cpp_jobs('c05.cpp', ALL, 2, 40)),
    rule='one evaluation is one random program run on two kinds of jets (first against second order, static against dynamic, all variables against a subset, renumbered variables) with the common components compared',
    require=['compared_' + k for k in ('order1', 'dynamic1', 'dynamic2', 'permuted', 'permuted1', 'subset1', 'subset2', 'partial')] + ['arbitrary_seeds'], min_evaluations=5000, assumptions=ORACLE[1:])
CHECKS['C06'] = dict(
    title='packed data, accessors and matrices', make=combine(cpp_jobs('c06.cpp', ALL, 1, 20)),
    rule='one evaluation is one read or write through one accessor of one type, compared bit by bit with a mirror of the packed data laid out as documented; after a write the whole data is compared',
    require=['writes', 'matrices_read', 'matrices_into', 'matrices_written', 'built_from_parts', 'lengths'], min_evaluations=10000)
CHECKS['C07'] = dict(
    title='constructors and seeds', make=combine(cpp_jobs('c07.cpp', ALL, 3, 60)),
    rule='one evaluation is one jet made by one constructor or factory of one type, its size, data length and all components compared bit by bit with what it was asked for, including after the source or a copy was changed',
    require=['made_' + k for k in ('scalar', 'int', 'default', 'zero', 'zero_n', 'constant', 'constant_n', 'variable_n', 'variables', 'variables_array', 'data', 'list', 'empty', 'copy')], min_evaluations=10000)
CHECKS['C08'] = dict(
    title='padding and resizing', make=combine(cpp_jobs('c08.cpp', [0, 1, 2, 3, 4, 5], 4, 80)),
    rule='one evaluation is one padding or resize of a dynamic jet compared bit by bit with the embedding, one operation applied before and after padding, or one joint function of two jets padded to disjoint blocks compared with the quad precision oracle',
    require=['padded', 'commuted', 'joint_functions', 'resized'], min_evaluations=10000, assumptions=ORACLE)
CHECKS['C09'] = dict(
    title='Taylor evaluation', make=combine(cpp_jobs('c09.cpp', ALL, 3, 60)),
    rule='one evaluation is one eval call on one jet compared with the Taylor polynomial summed in quad precision, and the jet with a copy; quadratics are compared with the function itself',
    require=['eval', 'eval_at_zero', 'quadratics'], min_evaluations=10000, assumptions=ORACLE[1:])
CHECKS['C10'] = dict(
    title='refusal of incompatible sizes', make=combine(cpp_jobs('c10.cpp', [0, 1, 2, 5, 60, 70, 71, 72], 1, 20)),
    rule='one evaluation is one call with operands, lengths, sizes, indices, modes or matrices that do not fit (has to throw and leave all operands bit for bit as they were) or with ones that fit, at ordinary and non-finite values (must not throw)',
    require=['refused_' + k for k in ('add', 'sub', 'mul', 'div', 'iadd', 'isub', 'imul', 'idiv', 'atan2', 'atan2_member', 'hypot', 'hypot_member', 'hypot3_first', 'hypot3_second', 'hypot3_third', 'hypot3_member', 'hypot3_all', 'create', 'list', 'size_from_length', 'data_size', 'eval', 'set_adata', 'set_hm', 'hm_into', 'from_arrays', 'mode', 'mode_into', 'zero', 'empty', 'constant', 'variable', 'variable_index', 'resize', 'pad_left', 'pad_right')],
    min_evaluations=100000)


def fill(byte):
    return {'ASAN_OPTIONS': ASAN_ENV['ASAN_OPTIONS'] + ':max_malloc_fill_size=1000000000:malloc_fill_byte=%d' % byte}


ZERO = [x for x in BASE if 'auto-var' not in x] + ['-ftrivial-auto-var-init=zero']
C11_SHARDS = [7, 0, 60, 61, 80]
VALGRIND = ['valgrind', '-q', '--error-exitcode=99', '--leak-check=full', '--errors-for-leak-kinds=definite']
CHECKS['C11'] = dict(
    title='memory safety and defined behaviour',
    technique='compiler sanitizers (gcc and clang ASan, UBSan, LSan, libstdc++ assertions and debug mode), valgrind memcheck with definedness checks on every result, digests compared between builds whose uninitialised memory and optimisation differ',
    make=combine(
        cpp_jobs('c11.cpp', C11_SHARDS, 12, 250, flags=SAN + ['-D_GLIBCXX_ASSERTIONS'], tag='_eigen_assert', env=fill(165), group='eigen'),
        cpp_jobs('c11.cpp', C11_SHARDS, 12, 250, flags=SAN + ['-DNDEBUG'], base=ZERO, tag='_eigen_ndebug', env=fill(0), group='eigen'),
        cpp_jobs('c11.cpp', C11_SHARDS, 12, 250, flags=SAN + ['-D_GLIBCXX_DEBUG'], tag='_bare_assert', env=fill(165), eigen=False, group='bare'),
        cpp_jobs('c11.cpp', C11_SHARDS, 12, 250, flags=SAN + ['-DNDEBUG'], base=ZERO, tag='_bare_ndebug', env=fill(0), eigen=False, group='bare'),
        cpp_jobs('c11.cpp', C11_SHARDS, 12, 250, flags=['-O3', '-DNDEBUG'], base=['g++', '-std=gnu++20', '-w'], tag='_eigen_opt', group='eigen'),
        cpp_jobs('c11.cpp', [7, 0, 3, 80], 12, 250, base=CLANG, flags=SAN, tag='_clang'),
        cpp_jobs('c11.cpp', [70, 71, 0, 80], 1, 20, flags=['-DHV_VALGRIND', '-DNDEBUG', '-O1', '-g1'], base=['g++', '-std=gnu++17', '-w'], tag='_valgrind', prefix=VALGRIND)),
    rule='one evaluation is one API call of a random sequence over a pool of jets of one type, including calls that throw and are caught; distinct counts different states of the digest of everything read so far',
    note='sequences run in gcc builds {Eigen, no Eigen} x {assertions, NDEBUG} with stack and heap memory filled with different patterns, an optimised C++20 build, a clang build, and under valgrind',
    require=['results_checked', 'caught', 'digests_compared'] + ['op_' + k for k in ('unary', 'binary', 'ternary', 'scalar', 'compound', 'compound_scalar', 'factories', 'data', 'list', 'copies', 'pad', 'resize', 'eval', 'matrices', 'vectors', 'from_arrays', 'sparse_unary', 'sparse_binary', 'sparse_compound', 'sparse_copies_eval')],
    min_evaluations=100000)
CHECKS['C12'] = dict(
    title='sparse jets', make=combine(cpp_jobs('c12.cpp', [80, 81, 82], 10, 200)),
    rule='one evaluation is one operation on sparse jets with overlapping, disjoint, equal or empty name sets, or a jet and a scalar, or the same object twice, value and the partial of every name compared with the quad precision chain rule, operands compared bit by bit with copies',
    require=['op_' + u for u in UNARY] + ['op_' + b for b in BINARY] + ['op_hypot3', 'op_neg', 'same_object', 'chains', 'free_member_pairs'] + ['op_%s_%s' % (v, b) for v in ('jet_scalar', 'scalar_jet') for b in BINARY[:4]],
    min_evaluations=50000, assumptions=ORACLE)
CHECKS['C13'] = dict(
    title='names of sparse jets', make=combine(cpp_jobs('c13.cpp', [80, 81, 82], 2, 40)),
    rule='one evaluation is one result whose names (parsed from its text output, counted by size() and probed with d()) are compared with the union of the names of its operands, one order of introduction, or one eval compared with the sum over common names',
    require=['names_' + k for k in ('made', 'unary', 'binary', 'same_object', 'cancelled', 'times_zero', 'ternary', 'scalar', 'neg', 'abs', 'compound', 'compound_self', 'compound_scalar', 'after_reads', 'constant', 'variable')] + ['orders', 'eval_all', 'eval_partial', 'eval_disjoint'],
    min_evaluations=50000, assumptions=ORACLE[1:])
CHECKS['C14'] = dict(
    title='comparison and abs', make=combine(cpp_jobs('c14.cpp', ALL + [80], 3, 60), cpp_jobs('c14.cpp', [0, 70, 80], 1, 20, base=[x.replace('++17', '++20') for x in BASE], tag='_cxx20')),
    rule='one evaluation is one comparison operator in one form (jet with jet, jet with scalar, scalar with jet) at values including NaN, infinities, signed zeros, neighbours and equal values with different derivatives, compared with the same comparison of the values, or one abs compared component by component',
    require=[f + c for f in ('jet_jet', 'jet_scalar', 'scalar_jet') for c in ('==', '!=', '<', '>', '<=', '>=')] + ['nan_pairs', 'equal_pairs', 'less_pairs', 'greater_pairs', 'abs_negative', 'abs_positive', 'abs_zero', 'sorted', 'sparse_compared', 'sparse_abs', 'sparse_abs_zero'],
    min_evaluations=100000)
CHECKS['C15'] = dict(
    title='Eigen expressions', make=combine(cpp_jobs('c15.cpp', [0, 1, 100, 101, 2, 3, 103, 105, 5, 6, 106, 7, 8, 9], 3, 60)),
    rule='one evaluation is one element of the result of one Eigen expression over vectors or matrices (fixed and dynamic dimensions) of static jets, or of dynamic ones of one size, value, gradient and Hessian compared with the defining formula evaluated in quad precision together with the magnitudes of its terms',
    note='jets <2;double;{0,1,3,6,12}>, <1;double;3>, <2;float;2>, <2;long double;2>; products mixing plain and jet matrices only in fixed dimensions, since others do not compile with Eigen 3.4',
    require=['op_' + k for k in ('add', 'sub', 'neg', 'jet_times', 'times_scalar', 'over_jet', 'add_plain', 'plain_cwise', 'dot', 'dot_plain', 'cross', 'triple_product', 'norm', 'squared_norm', 'normalized', 'normalize', 'sum', 'trace2', 'determinant2', 'determinant3', 'determinant4', 'inverse3', 'mat_mat', 'mat_vec', 'plain_mat_vec', 'mat_mat_dynamic', 'norm_dynamic', 'transpose', 'bilinear3', 'mat_accumulate', 'cwise_abs', 'cwise_min', 'norm_l1', 'norm_inf', 'stable_norm', 'max_coeff', 'array_sin', 'select', 'partial_piv_lu3', 'llt3', 'triangular3', 'angle_axis', 'quaternion_11')] + ['dynamic_' + k for k in ('add', 'cwise_product', 'dot', 'norm', 'mat_mat', 'mat_mat3', 'conservative_resize', 'swap', 'block', 'determinant3')],
    min_evaluations=50000, assumptions=ORACLE)
TSAN_ENV = {'TSAN_OPTIONS': 'exitcode=99:halt_on_error=1:second_deadlock_stack=1'}
CHECKS['C16'] = dict(
    title='purity and thread safety',
    technique='ThreadSanitizer on threads evaluating const operations on shared jets, bitwise comparison with a single-threaded evaluation and with repetitions in other histories',
    make=combine(
        cpp_jobs('c16.cpp', [70, 71, 72, 80, 0, 2, 60, 61], 5, 100, flags=['-fsanitize=thread'], base=['g++', '-std=gnu++17', '-O1', '-g1', '-w'], env=TSAN_ENV, tag='_tsan'),
        cpp_jobs('c16.cpp', [7, 80, 0], 20, 400, flags=[], base=['g++', '-std=gnu++17', '-O2', '-g1', '-w'], tag='_plain')),
    rule='one evaluation is one operation on shared const jets, by one of six concurrent threads or again after other operations (also failing ones), its result compared bit by bit with the single-threaded one; in half of the cases the threads come first',
    require=['threaded_evaluations', 'repeated', 'after_change', 'threw'] + ['op_' + k for k in ('unary', 'binary', 'ternary', 'scalar', 'compare', 'text', 'eval', 'parts', 'pad', 'factory', 'throwing', 'compound')],
    min_evaluations=100000, assumptions=['interleavings are those the scheduler produces; ThreadSanitizer reports conflicting unsynchronised accesses of the observed executions whether or not they interleaved harmfully'])
PYREF = ['the reference evaluates the closed forms in 64 bit mantissa long double with numpy; a component counts as right within 1024 machine epsilons of the sum of the magnitudes of its terms, times the condition of the closed form']
CHECKS['C17'] = dict(
    title='Python operations on dense jets', make=combine(py_jobs('c17.py', 8, 6, 150)),
    technique='reference monitor on the real extension module built with ASan and UBSan: every result compared with an independent extended precision reference, operands with copies',
    rule='one evaluation is one call of one operator, method, alias, module function or numpy function on jets (or jets and numbers of several Python and numpy types) of one of the 36 classes, all components compared with the reference; distinct counts different (class, operation, operand data)',
    require=['op_' + u for u in UNARY + BINARY + ['abs', 'neg', 'square', 'hypot3', 'eval']] + ['op_scalar_' + b for b in BINARY[:4]] + ['cmp_' + s for s in ('<', '>', '<=', '>=', '==', '!=')] + ['same_object', 'inplace_scalar'] + ['scalar_' + t for t in ('float', 'int', 'bool', 'float64', 'float32', 'int64', 'ndarray')],
    min_evaluations=30000, assumptions=PYREF)
CHECKS['C23'] = dict(
    title='text output', make=combine(cpp_jobs('c23.cpp', ALL + [80], 2, 40), py_jobs('c23.py', 4, 2, 50, tag='_py')),
    rule='one evaluation is one text of one jet (streamed with some format, or to_string) compared with the text of its value and, for sparse jets, matched against exactly one term per name in any order',
    require=['written_again', 'streamed', 'to_string', 'stream_states', 'other_locales', 'sparse_streamed', 'sparse_to_string', 'terms', 'dense_repr', 'dense_str', 'sparse_repr', 'sparse_str'], min_evaluations=50000)
MALLOC = {'PYTHONMALLOC': 'malloc'}
PYTECH = ' on the real extension module built with ASan and UBSan'
PYUNARY = [u for u in UNARY if u not in ('log_base',)]
CHECKS['C18'] = dict(
    title='Python operations on sparse jets', make=combine(py_jobs('c18.py', 8, 8, 200)),
    technique='reference monitor' + PYTECH + ': the value and the partial of every name compared with an independent extended precision reference, operands with copies',
    rule='one evaluation is one call of one operator, method, alias, module function or numpy function on sparse jets (or sparse jets and numbers) with overlapping, disjoint, equal or empty name sets, or one step of a chain, compared with the reference; distinct counts different (operation, operand data)',
    require=['op_' + u for u in UNARY + BINARY + ['abs', 'neg', 'hypot3', 'eval']] + ['op_scalar_' + b for b in BINARY[:4]] + ['chain_steps', 'made', 'same_object'],
    min_evaluations=20000, assumptions=PYREF)
CHECKS['C19'] = dict(
    title='Python properties and views', make=combine(py_jobs('c19.py', 8, 2, 50, env=MALLOC)),
    technique='shadow model of random histories' + PYTECH + ', every Python object on the sanitized heap',
    rule='one evaluation is one step of a history of reads, writes, view creation and deletion, in-place operations and copies on jets of one class, all accessors and views compared bit by bit with the shadow model; distinct counts different states',
    require=['views_checked', 'answers', 'view_writes', 'view_writes_without_owner', 'owners_dropped', 'inplace', 'resized', 'readonly', 'results'] + ['matrix_form_%d' % k for k in range(6)], min_evaluations=20000)
CHECKS['C20'] = dict(
    title='copies and pickles', make=combine(py_jobs('c20.py', 8, 4, 100, env=MALLOC)),
    technique='bitwise comparison of copies and round trips, and of both sides after mutations,' + PYTECH,
    rule='one evaluation is one copy, deep copy, pickle round trip (protocols 0 to 5, alone and in containers) of one jet compared bit by bit, one mutation of either side, or one corrupted pickle that has to be refused or to give a well-formed jet',
    require=['copy', 'deepcopy', 'pickle', 'containers', 'equal_objects', 'other_process', 'corrupted', 'corrupted_refused', 'damaged', 'mutations'] + ['protocol_%d' % k for k in range(2, 6)], min_evaluations=20000)
CHECKS['C21'] = dict(
    title='hostile Python calls', make=combine(py_jobs('c21.py', 8, 2, 40, env=MALLOC)),
    technique='fuzzing of every callable' + PYTECH + ', every Python object on the sanitized heap; injected allocation failures; heap growth under repetition; snapshots of all operands before and after every call',
    rule='one evaluation is one call with arguments drawn from a hostile pool (wrong types, sizes, shapes, lengths, indices, huge and non-finite numbers, arrays of any layout, objects whose conversion raises or changes the jets), one call that must raise, one call whose k-th large allocation fails, or one measurement of the heap growth of a repeated call; distinct counts different pools of jets at the end of a sequence',
    require=['constructor', 'states', 'reentrant', 'refusals', 'raised', 'returned', 'failed_allocations', 'leak_rounds', 'results_dense', 'results_sparse', 'results_array', 'module_hypot', 'module_variables', 'module_f', 'module_d', 'module_dd', 'numpy', 'member_h', 'member_set_h', 'member_hm', 'member_set_hm', 'member_resize', 'member_pad_left', 'member_pad_right', 'member_eval', 'none_receivers', 'views_after_resize'],
    min_evaluations=40000, assumptions=['large allocations are those of at least 4096 bytes made by operator new in the module', 'misaligned arrays are not passed: pybind11 maps them to Eigen::Ref as they are'])
CHECKS['C22'] = dict(
    title='seeding and extraction in Python', make=combine(py_jobs('c22.py', 8, 4, 100)),
    technique='bitwise reference monitor' + PYTECH,
    rule='one evaluation is one call of variables with values of some type and container and an order, or one extraction with f, d or dd from a scalar, list or array of jets and numbers, compared bit by bit with the data of the jets',
    require=['seeded_order_%d' % k for k in range(3)] + ['length_%d' % k for k in range(18)] + ['orders_refused', 'extracted_f', 'extracted_d', 'extracted_dd', 'mixed'], min_evaluations=5000)
CHECKS['C25'] = dict(
    title='constructors and classes in Python', make=combine(py_jobs('c25.py', 8, 3, 80)),
    technique='bitwise reference monitor' + PYTECH,
    rule='one evaluation is one jet made by one constructor form or factory of one of the 36 classes with arguments of some Python or numpy type, compared bit by bit with what was asked for, or one static property',
    require=['statics', 'resized'], min_evaluations=20000)
CHECKS['C26'] = dict(
    title='numpy programs', make=combine(py_jobs('c26.py', 8, 4, 100)),
    technique='reference monitor' + PYTECH + ': every element of every result compared with the program evaluated element by element in extended precision with running error bounds; the same program run with all kinds of jets and with plain numbers, whose differences are compared with the derivatives',
    rule='one evaluation is one element of one result of one numpy program (ufunc, broadcast operation with arrays of jets, floats or ints, reduction, product, norm, in-place operation, comparison, sorting) over object arrays of jets of one class; distinct counts different (class, program, shape, data)',
    require=['op_' + k for k in ('ufunc', 'ufunc_positive', 'ufunc_out', 'power', 'power_half', 'binary', 'floats', 'jet_scalar', 'float_array_jet', 'sum', 'mean', 'prod', 'cumsum', 'cumprod', 'diff', 'dot', 'dot_floats', 'matmul', 'outer', 'cross', 'norm', 'trace', 'det2', 'einsum', 'kron', 'inplace', 'at', 'minmax', 'compare', 'sort', 'interp', 'reshape', 'program')] + ['elements_together', 'differences', 'curvatures'] + ['program_' + k for k in ('sum', 'reduce', 'products', 'floats', 'norm', 'cross', 'functions', 'order', 'inplace', 'solve', 'newton', 'layout', 'poly', 'mean')],
    min_evaluations=20000, assumptions=PYREF)
VALUE_SHARDS = [0, 60, 61, 5, 70, 71, 72, 80]
CHECKS['C27'] = dict(
    title='value semantics', make=combine(cpp_jobs('c27.cpp', VALUE_SHARDS, 4, 100)),
    technique='shadow model of random histories of containers of jets, ASan/UBSan with freed memory filled',
    rule='one evaluation is one jet of a container (or one copied, moved, swapped, wrapped or captured jet) compared bit by bit with its shadow after one step of a random history; distinct counts different final states of the container',
    require=['op_' + k for k in ('push_back_own', 'push_back_moved', 'insert_own', 'erase', 'assign', 'assign_self', 'assign_fresh', 'swap', 'swap_self', 'move_out_and_back', 'move_assign', 'sort', 'rotate', 'unique', 'find', 'copy_of_all', 'deque_list', 'maps', 'wrappers', 'functions', 'holder', 'negated', 'exchange', 'assign_list', 'in_place', 'change')],
    min_evaluations=100000)
CHECKS['C28'] = dict(
    title='values of plain arithmetic', make=combine(cpp_jobs('c28.cpp', VALUE_SHARDS, 1, 20), py_jobs('c28.py', 8, 8, 200, tag='_py')),
    technique='differential monitor: every operation on jets against the same operation on plain numbers, under ASan/UBSan, in C++ and on the real extension module',
    rule='one evaluation is the value of one operation on jets at ordinary, out-of-domain, infinite, NaN, zero or extreme values with arbitrary (also non-finite) derivatives, compared with the operation on the plain values; distinct counts different values',
    require=['op_' + k for k in UNARY + BINARY + ['hypot3', 'neg', 'abs', 'pow_index', 'iadd', 'isub', 'imul', 'idiv', 'arctanh', 'square', 'ratio']] + ['nan_results', 'infinite_results', 'finite_results', 'correctly_rounded', 'exact_log2', 'exact_log10', 'exact_sqrt', 'exact_hypot'],
    min_evaluations=500000, assumptions=['the functions of the standard library and of numpy are right for plain numbers', 'divisors whose reciprocal is not representable, and hypot of three values with non-finite or extreme ones, are left out'])
NOEXC = '-DHYPERJET_NO_EXCEPTIONS'
C24_SHARDS = [7, 0, 61, 80]
CHECKS['C24'] = dict(
    title='builds without exceptions',
    technique='digests of random sequences of valid calls compared between builds {exceptions, no exceptions} x {assertions, NDEBUG} under ASan/UBSan; failing calls observed in child processes',
    make=combine(
        cpp_jobs('c11.cpp', C24_SHARDS, 10, 200, flags=SAN + ['-DHV_VALID'], tag='_exc_assert', group='valid'),
        cpp_jobs('c11.cpp', C24_SHARDS, 10, 200, flags=SAN + ['-DHV_VALID', NOEXC], tag='_noexc_assert', group='valid'),
        cpp_jobs('c11.cpp', C24_SHARDS, 10, 200, flags=SAN + ['-DHV_VALID', NOEXC, '-DNDEBUG'], tag='_noexc_ndebug', group='valid'),
        cpp_jobs('c24.cpp', [70, 71, 72, 1, 61], 3, 60, flags=[], base=['g++', '-std=gnu++17', '-O1', '-g0', '-w'])),
    rule='one evaluation is one valid call of a random sequence whose digest has to be the same in every build, or one invalid call in a child process that has to stop at an assertion (or a valid one that must not)',
    require=['digests_compared', 'results_checked'] + ['stopped_' + k for k in ('add', 'sub', 'mul', 'div', 'iadd', 'isub', 'imul', 'idiv', 'atan2', 'hypot', 'hypot3', 'zero', 'empty', 'constant', 'resize', 'data_size', 'create', 'size_from_length', 'list', 'eval', 'pad_left', 'pad_right', 'variable', 'set_adata', 'mode', 'hm_into', 'set_hm', 'from_arrays', 'g', 'g_reference', 'set_g', 'h', 'h_reference', 'set_h', 'h_packed', 'static_size')],
    min_evaluations=100000)
