from .pbt import *
def run(ctx):
    from . import pbt
    b = [ENGINE + '/rtti_b.cpp']; N = ['-DBOOST_STATECHART_USE_NATIVE_RTTI']; S = ['-DBOOST_DISABLE_THREADS']
    pbt.run(ctx, ENGINE + '/rtti.cpp',
        [(V('builtin', flags=S), [('', 6000)]), (V('native', flags=N + S), [('', 6000)]), (V('builtin_gcc', cxx='g++', opt='-O2', flags=S + ['-DNDEBUG'], asserts=False), [('', 6000)]), (V('native_gcc', cxx='g++', opt='-O2', flags=N, libs=MT_LIBS), [('', 6000)]),
         (V('builtin_san', flags=SANF + S), [('', 300)], True)],
        'case = sequence of creating, copying and sharing events, moving two machines, and setting custom identifiers, from two translation units with 19 types (template instances, equal names in different namespaces, a local type per unit), every identity and custom identifier compared after it; '
        'non-trivial: a machine moved, two or more event objects lived and (built-in mode) several identifiers were set', extra_src=b)
