# Which monitors decide which property, in which configurations.
import os, shutil
SAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow',
       '-fno-sanitize-recover=all', '-DTLAPACK_CHECK_INPUT']
VARIANTS = {
    'asan': dict(cxx='clang++', cflags=SAN, ldflags=['-fsanitize=address,undefined']),
    'gasan': dict(cxx='g++', cflags=SAN, ldflags=['-fsanitize=address,undefined']),
    'fast': dict(cxx='clang++', cflags=['-O2', '-DTLAPACK_CHECK_INPUT'], ldflags=['-O2']),
    'plain': dict(cxx='clang++', cflags=['-O1', '-DTLAPACK_CHECK_INPUT'], ldflags=['-O1']),
    # __float128 needs libquadmath and the literals of GNU C++
    'quad': dict(cxx='g++', cflags=['-O1', '-std=gnu++20', '-DTLAPACK_CHECK_INPUT'], ldflags=['-O1', '-lquadmath']),
    'mt': dict(cxx='clang++', cflags=['-O0', '-g1', '-DVK_MT', '-fsanitize=thread', '-DTLAPACK_CHECK_INPUT'], ldflags=['-fsanitize=thread', '-pthread']),
}
if os.environ.get('VK_O0'):   # development only
    VARIANTS['asan']['cflags'] = ['-O0'] + SAN[1:]
# scalar types: 0 float 1 double 2 complex<float> 3 complex<double> 4 long double 5 complex<long double>
# layouts: 0 column-major 1 row-major 2 user-defined strided type
QUICK = [(0, 0), (1, 1), (2, 1), (3, 0)]
THOROUGH = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 1), (1, 2), (2, 2)]
def combos_for(u, tier):
    if os.environ.get('VK_COMBOS'):   # development only
        return [(int(x[0]), int(x[1])) for x in os.environ['VK_COMBOS'].split(',')]
    if tier == 'thorough':
        return u.get('thorough', u.get('combos', THOROUGH) if u.get('fixed') else THOROUGH)
    return u.get('combos', QUICK)

CHECKS = {
    'C01': dict(units=[dict(mod='blas1'), dict(mod='norms', fam='iamaxsp', tag='iamaxsp')]),
    'C02': dict(units=[dict(mod='scal')]),
    'C03': dict(units=[dict(mod='blas2')]),
    'C04': dict(units=[dict(mod='blas3')]),
    'C05': dict(units=[dict(mod='struct')]),
    'C06': dict(units=[dict(mod='aux')]),
    'C07': dict(units=[dict(mod='norms')]),
    'C08': dict(units=[dict(mod='refl')]),
    'C09': dict(units=[dict(mod='qr')]),
    'C10': dict(units=[dict(mod='lu', extra=dict(cflags=['-DTLAPACK_NDEBUG']))]),
    'C11': dict(units=[dict(mod='chol', extra=dict(cflags=['-DTLAPACK_NDEBUG']))]),
    'C12': dict(units=[dict(mod='hess')]),
    'C13': dict(units=[dict(mod='schur', extra=dict(cflags=['-DTLAPACK_NDEBUG']))]),
    'C14': dict(units=[dict(mod='reord')]),
    'C15': dict(units=[dict(mod='qz', extra=dict(cflags=['-DTLAPACK_NDEBUG']))]),
    'C16': dict(units=[dict(mod='greord')]),
    'C17': dict(units=[dict(mod='evec')]),
    'C18': dict(units=[dict(mod='svd')]),
    'C19': dict(units=[dict(mod='symeig')]),
    'C20': dict(units=[dict(mod='secular', combos=[(0, 0), (1, 0), (4, 0)], thorough=[(0, 0), (1, 0), (4, 0)])]),
    'C21': dict(units=[dict(mod='tikh')]),
    'C31': dict(units=[dict(mod='hetrf')]),
}

# how many times the base workload of a module runs in the quick tier of its own property
for p, k in dict(C01=120, C02=100, C03=100, C04=80, C05=70, C06=70, C07=150, C08=70, C09=12, C10=25, C11=14, C12=12, C13=4, C14=50, C15=3, C16=45, C17=15, C18=18,
                 C19=45, C20=100, C21=60, C31=60).items():
    CHECKS[p]['mult'] = dict(quick=k)

# ---- properties that range over every routine: the same workloads, judged by the monitors of that property
ALL = ['qz', 'schur', 'qr', 'hess', 'chol', 'lu', 'svd', 'evec', 'aux', 'blas1', 'blas2', 'blas3', 'scal', 'struct', 'norms', 'refl', 'reord',
       'greord', 'symeig', 'secular', 'tikh', 'hetrf']
NDEBUG = dict(cflags=['-DTLAPACK_NDEBUG'])
def unit(m, **k):
    return dict(mod=m, extra=NDEBUG if m in ('lu', 'chol', 'schur', 'qz') else {}, **k)
HEAVY = {'qz': 0.2, 'schur': 0.2, 'hess': 0.5, 'qr': 0.5, 'chol': 0.5}
# memory and footprint: every module under ASan/UBSan, scalar types and layouts rotate over the modules
_rot = [(0, 0), (3, 1), (1, 1), (2, 0)]
CHECKS['C22'] = dict(
    units=[unit(m, combos=[_rot[i % 4], _rot[(i + 2) % 4]] if m not in HEAVY else [_rot[i % 4]], thorough=THOROUGH) for i, m in enumerate(ALL)],
    kinds=['MEM', 'UB', 'ASSERT', 'FOOT', 'CONST', 'UNREF', 'CRASH', 'UNINIT', 'HANG', 'NAN'])
# the Eigen matrices: Eigen 3.4 needs the change that tlapack's README documents (std::size and Eigen::internal::size clash in C++20), made in a copy
EIGEN = '/usr/include/eigen3/Eigen'
def eigen_flags(flags):
    def gen(repo, bdir):
        d = bdir + '/eig'
        if not os.path.exists(d):
            os.makedirs(d + '/Eigen/src')
            shutil.copy(EIGEN + '/Core', d + '/Eigen/Core')
            for s in ('Core', 'misc', 'plugins'): shutil.copytree(EIGEN + '/src/' + s, d + '/Eigen/src/' + s)
            for r, _, fs in os.walk(d + '/Eigen/src'):
                for f in fs:
                    p = os.path.join(r, f)
                    t = open(p, encoding='latin1').read()
                    w = t.replace('internal::size(', 'internal::size_(')
                    if p.endswith('Core/util/Meta.h'): w = w.replace('EIGEN_CONSTEXPR Index size(const T', 'EIGEN_CONSTEXPR Index size_(const T')
                    if w != t: open(p, 'w', encoding='latin1').write(w)
        return dict(cflags=['-isystem', d] + flags)
    return gen
def eunit(m, **k):
    return dict(mod=m, tag='eig', extra=eigen_flags(['-DTLAPACK_NDEBUG'] if m in ('lu', 'chol', 'schur', 'qz') else []), **k)
HAVE_QUAD = bool(__import__('glob').glob('/usr/lib/gcc/*/*/include/quadmath.h'))
HAVE_EIGEN = os.path.exists(EIGEN + '/Core')
CHECKS['C26'] = dict(
    units=[unit(m, variant='fast', mult=HEAVY.get(m, 1), tmult=1, combos=[(1 if i % 2 else 2, 2)], thorough=[(0, 2), (1, 2), (2, 2), (3, 2)]) for i, m in enumerate(ALL)] +
          ([eunit(m, variant='fast', mult=2 * HEAVY.get(m, 1), tmult=1, combos=[((0, 3, 1, 2)[i % 4], 3 + i // 2 % 2)], thorough=[(i, j) for i in range(4) for j in (3, 4)]) for i, m in enumerate(ALL)] if HAVE_EIGEN else []) +
          # operands of one call in different layouts
          [dict(mod=m, tag='mix%d' % x, variant='fast', mult=4 * HEAVY.get(m, 1), tmult=1, extra=dict(cflags=['-DVK_MIX=%d' % x]),
                combos=[[(0, 0), (3, 1), (1, 1), (2, 0), (1, 2), (3, 2)][(i + x) % 6]], thorough=[(t, l) for t in range(4) for l in range(3)])
           for i, m in enumerate(['blas3', 'struct', 'refl', 'aux', 'qr', 'tikh', 'hess', 'evec']) for x in (1, 2, 3)],
    compile_is_property=True)
_prec = lambda m: {'qz': 0.12, 'schur': 0.12, 'hess': 0.4, 'qr': 0.4, 'chol': 0.4}.get(m, 1)
_quad = lambda m: {'schur': 0.02, 'qz': 0.02, 'qr': 0.06, 'hess': 0.1, 'svd': 0.1, 'evec': 0.08, 'symeig': 0.15, 'chol': 0.12, 'lu': 0.25, 'greord': 0.25, 'tikh': 0.3,
                   'reord': 0.3, 'hetrf': 0.3, 'secular': 0.5}.get(m, 1)
_quadC = ('blas2', 'blas3', 'aux', 'struct', 'norms', 'refl', 'chol', 'evec', 'hetrf')   # complex<__float128> in the quick tier
CHECKS['C27'] = dict(
    units=[unit(m, variant='fast', mult=_prec(m), tmult=1, shards=4 if m in HEAVY else None, combos=[(6, 0), (5 if i % 2 else 4, 1)],
                thorough=[(6, 0), (7, 1), (4, 0), (5, 1)]) for i, m in enumerate(ALL)] +
          # plugins/gnuquad.hpp
          ([unit(m, variant='quad', tag='quad', mult=_quad(m), tmult=_quad(m), shards=4 if _quad(m) < 0.1 else None, combos=[(9 if m in _quadC else 8, i % 2)],
                 thorough=[(8, 0), (8, 1), (9, 0), (9, 1)] if m not in ('qz', 'schur') else [(8, 0), (8, 1)]) for i, m in enumerate(ALL)] if HAVE_QUAD else []) +
          # plugins/eigen_bfloat16.hpp: 8 bits of precision in the exponent range of float; plugins/eigen_half.hpp: too little range for the other workloads
          ([dict(mod=m, tag='bf16', variant='fast', mult=4 * HEAVY.get(m, 1), tmult=1, extra=eigen_flags(['-DTLAPACK_NDEBUG'] if m in ('lu', 'chol', 'schur', 'qz') else []),
                 combos=[(12, i % 2)], thorough=[(12, 0), (12, 1)], **({'kinds': ['COMPILE', 'MEM', 'CRASH', 'HANG']} if m == 'qz' else {})) for i, m in enumerate(ALL)] +
           [dict(mod=m, tag='half', variant='fast', mult=0.1, tmult=0.1, extra=eigen_flags(['-DTLAPACK_NDEBUG'] if m in ('lu', 'chol', 'schur', 'qz') else []),
                 combos=[(10, i % 2)], thorough=[(10, 0), (10, 1)], kinds=['COMPILE', 'CRASH', 'HANG', 'MEM']) for i, m in enumerate(ALL)] +
           [dict(mod=m, tag='halfj', variant='fast', fam=f, mult=2, tmult=10, extra=eigen_flags([]), combos=[(10, 0)], thorough=[(10, 0), (10, 1)])
            for m, f in (('scal', 'consts'), ('tikh', 'tikh'))] if HAVE_EIGEN else []),
    compile_is_property=True)

# ---- C25: the C headers are generated from their .in files as CMake does it
def gen_headers(repo, bdir):
    rd = lambda f: open(repo + '/include/' + f).read()
    open(bdir + '/tlapack.h', 'w').write(rd('tlapack.h.in').replace('@TLAPACK_DEFINES@', '#define TLAPACK_SIZE_T size_t\n#define TLAPACK_INT_T int64_t\n'))
    open(bdir + '/tlapack_cblas.h', 'w').write(rd('tlapack_cblas.h.in').replace('@TLAPACK_CBLAS_DEFINES@', '#define CBLAS_INT int64_t\n'))
    return dict(cflags=['-O0', '-I', bdir, '-I', repo])
CHECKS['C25'] = dict(units=[dict(mod='legacy', extra=gen_headers, shards=1, combos=[(0, 0), (1, 0), (2, 0), (3, 0), (5, 0)], thorough=[(i, 0) for i in range(6)])])
# ---- C30
CHECKS['C30'] = dict(units=[dict(mod='views', combos=[(0, 0), (1, 0), (3, 0), (6, 0)], thorough=[(i, 0) for i in range(8)])] +
    ([dict(mod='eviews', extra=eigen_flags([]), combos=[(1, 3), (2, 4)], thorough=[(i, j) for i in range(4) for j in (3, 4)])] if HAVE_EIGEN else []))
# ---- C29: special values: propagation and strong zeros by a dependency model, norms, and every module on poisoned (NaN/Inf) operands for termination
_nf = ['HANG', 'CRASH', 'MEM', 'UB', 'ASSERT']
CHECKS['C29'] = dict(
    units=[dict(mod='nonfin', mult=4, combos=[(0, 0), (1, 1), (2, 0), (3, 1), (1, 2)], thorough=[(i, j) for i in range(7) for j in range(2)]),
           dict(mod='norms', variant='fast', kinds=['VALUE', 'NAN', 'HANG', 'CRASH'], combos=[(0, 0), (3, 1)])] +
          [unit(m, env={'VK_POISON': '1'}, kinds=_nf, mult=HEAVY.get(m, 1), tmult=1, combos=[_rot[(i + 1) % 4]], thorough=[(0, 0), (1, 1), (2, 0), (3, 1)]) for i, m in enumerate(ALL)])
# ---- C24: invalid calls are rejected before anything is written; check macros in each build configuration
_mac = lambda tag, fl: dict(mod='macros', tag=tag, extra=dict(cflags=fl), combos=[(1, 0), (2, 1)], thorough=[(i, i % 2) for i in range(6)])
CHECKS['C24'] = dict(units=[dict(mod='args', combos=[(0, 0), (1, 1), (2, 0), (3, 1)], thorough=[(i, j) for i in range(6) for j in range(2)]),
                            _mac('D', []), _mac('U', ['-UTLAPACK_CHECK_INPUT']), _mac('N', ['-DTLAPACK_NDEBUG']), _mac('UN', ['-UTLAPACK_CHECK_INPUT', '-DTLAPACK_NDEBUG']),
                            dict(mod='legacy', extra=gen_headers, fam='lbad', shards=1, combos=[(1, 0), (2, 0)], thorough=[(i, 0) for i in range(4)])])

# ---- C23: workspace interface
CHECKS['C23'] = dict(units=[dict(mod='work', combos=[(0, 0), (1, 1), (2, 0), (3, 1)], thorough=[(i, j) for i in range(4) for j in range(3)])])

# ---- C28: every module's cases alone (read-only operands write-protected), from 8 threads, and in groups sharing their read-only operands, under TSan
_mt = lambda m: {'qz': 0.04, 'schur': 0.03, 'hess': 0.1, 'svd': 0.15, 'evec': 0.15, 'lu': 0.15, 'chol': 0.3, 'qr': 0.3, 'work': 0.15, 'refl': 0.7, 'symeig': 0.4, 'reord': 0.4, 'greord': 0.4}.get(m, 1)
_par = ALL + ['work', 'nonfin']
CHECKS['C28'] = dict(
    units=[unit(m, variant='mt', shards=1, mult=_mt(m), tmult=2 * _mt(m), combos=[_rot[i % 4]], thorough=[(0, 0), (1, 1), (2, 0), (3, 1), (i % 4, 2)]) for i, m in enumerate(_par)] +
          [dict(mod='legacy', variant='mt', extra=gen_headers, shards=1, combos=[(1, 0), (2, 0)], thorough=[(i, 0) for i in range(4)])],
    kinds=['RACE', 'NONDET', 'ROWRITE', 'CONST'])
