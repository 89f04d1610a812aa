"""What each check builds and how many cases it runs."""
import os
EXAMPLES = '-I' + os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'examples')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1']
CONFIGS = {
    # Debug build: assertions and sanitizers on.
    'dbg': {'cxx': 'clang++', 'flags': ['-O0'] + SAN},
    # Release build, as the repository builds its examples.
    'rel': {'cxx': 'clang++', 'flags': ['-O2', '-DNDEBUG', '-ffast-math', '-fstrict-aliasing'], 'cases': 1.0},
    # 32-bit indices.
    'int32': {'cxx': 'clang++', 'flags': ['-O0', '-DNDARRAY_INT_INDICES'] + SAN, 'cases': 0.5},
    # The other compiler.
    'gcc': {'cxx': 'g++', 'flags': ['-O2', '-g1', '-fsanitize=undefined', '-fno-sanitize=pointer-overflow,vptr', '-fno-sanitize-recover=all'], 'cases': 0.5},
    # The newest standard that the library is used with.
    'cxx20': {'cxx': 'clang++', 'flags': ['-O1'] + SAN, 'last': ['-std=c++20'], 'cases': 0.5},
    'gcc20': {'cxx': 'g++', 'flags': ['-O2', '-g1', '-DNDEBUG'], 'last': ['-std=c++20'], 'cases': 0.5},
}
# C29 compiles variants of its own.
CONFIGS['variants'] = {'cxx': 'clang++', 'flags': ['-O1', '-g1']}
CONFIGS['fuzz'] = {'cxx': 'clang++', 'flags': ['-O1'] + SAN}
CHECKS = {}


def check(cid, tus, cases, rule, **kw):
    CHECKS[cid] = dict(tus=tus, cases=cases, rule=rule, configs=kw.pop('configs', ['dbg', 'rel']), **kw)


def parts(name, n):
    return [(name, ['-DPART=%d' % i]) for i in range(n)]


check('C01', parts('c01.cpp', 3), 20000, 'the shape has rank >= 1 (mapping) or the array has at least two elements (access)')
check('C02', ['c02.cpp'], 60000, 'the rank is at least 2 and at least one stride is unresolved')
check('C03', parts('c03.cpp', 3), 15000, 'the source has at least two elements and is not compact (padding, permuted or overlapping)')
check('C04', parts('c04.cpp', 4), 20000, 'an argument is an index of a dimension of extent > 1, or a window smaller than its dimension')
check('C05', ['c05.cpp'], 60000, 'the split has at least two intervals')
check('C06', parts('c06.cpp', 5), 30000, 'the shape is not empty and has at least two dimensions of extent > 1')
check('C07', parts('c07.cpp', 7), 20000, 'the array has at least two elements (for crops: and the crop is smaller than the array and not empty)')
check('C08', parts('c08.cpp', 6), 20000, 'the destination has at least two elements')
check('C09', parts('c09.cpp', 4), 25000, 'the arrays have at least two elements')
check('C10', parts('c10.cpp', 4), 20000, 'the history uses at least three kinds of operations and ends with elements alive', flags=['-std=c++17'])
check('C11', parts('c11.cpp', 6), 20000, 'the history uses at least three kinds of operations and ends with elements alive (origins: at least two elements)', flags=['-std=c++17'])
check('C12', parts('c12.cpp', 7), 15000, 'the history uses at least three kinds of operations and ends with elements alive (auto_allocators: blocks inside and outside of the buffer)', flags=['-std=c++17'])
check('C28', parts('c28.cpp', 4), 20000, 'at least one allocation of the history failed', flags=['-std=c++17'])
check('C13', parts('c13.cpp', 5), 25000, 'at least one element is kept by a reshape that changes the shape', flags=['-std=c++17'])
check('C14', parts('c14.cpp', 7), 25000, 'the view has at least two elements (of shapes: the dimensions change)', flags=['-std=c++17'])
check('C15', parts('c15.cpp', 7), 40000, 'both types are compatible with the values, or the compatibility test must answer no (differential: at least two elements)')
check('C26', ['c26.cpp'], 120000, 'the set is not empty')
check('C27', parts('c27.cpp', 2), 100000, 'the shape has at least two indices (subsets: both shapes are not empty)')
check('C18', parts('c18.cpp', 2), 3000, 'at least two ranges are longer than 1 (a single range: than 2)', configs=['dbg', 'rel', 'int32'])
check('C16', parts('c16.cpp', 6), 10000, 'the reduction has at least two iterations')
check('C17', parts('c17.cpp', 4), 20000, 'the reduction has at least two iterations')
check('C19', parts('c19.cpp', 3), 60000, 'the crop has more than one pixel and less than the image (others: more than one pixel)')
UB = ['-fsanitize=undefined', '-fno-sanitize=pointer-overflow,vptr', '-fno-sanitize-recover=all']


def variant(n, flags, cxx='clang++'):
    names = ['-D%s=%s_v%d' % (x, x, n) for x in ('nda', 'nd', 'pbt')]
    return ('c29.cpp', ['-DVARIANT=%d' % n] + names + flags, cxx)


check('C29', ['c29.cpp', variant(0, ['-O0'] + UB), variant(1, ['-O2', '-DNDEBUG', '-ffast-math', '-fstrict-aliasing']),
              variant(2, ['-O0', '-DNDARRAY_INT_INDICES'] + UB), variant(3, ['-O3', '-DNDEBUG', '-DNDARRAY_INT_INDICES', '-std=c++17']),
              variant(4, ['-O2'], 'g++'), variant(5, ['-O3', '-DNDEBUG', '-DNDARRAY_INT_INDICES', '-std=c++20'], 'g++')],
      100000, 'the program is on arrays or shapes that are not empty', configs=['variants'], thorough_configs=['variants'], fuzz=False, link=['-fsanitize=undefined'])
check('C20', ['c20.cpp'], 30, 'the program has both well-formed and ill-formed statements', configs=['dbg'], thorough_configs=['dbg'], fuzz=False, thorough_factor=12)
check('C25', parts('c25.cpp', 4), 12000, 'at least one dimension is dropped (rank conversions), the new shape is not empty (reinterpretations)', configs=['dbg', 'gcc'], thorough_configs=['dbg', 'int32', 'gcc'])
check('C21', ['c21.cpp'], 60000, 'the values are not the defaults (shapes: rank at least 2)', flags=['-std=c++17'])
check('C23', ['c23.cpp'], 100000, 'at least two operations (euclidean: the dividend is not 0 and the divisor neither 1 nor -1)')
check('C24', parts('c24.cpp', 2), 3000, 'the product is of matrices of at least two rows and columns and a reduction of at least two (convolutions: at least two products per output)', flags=[EXAMPLES])
check('C22', ['c22.cpp'], 1500, 'the input has at least two rows and columns (kernels: the value is not 0)', flags=[EXAMPLES])
