from .pbt import *
def run(ctx):
    from . import pbt
    pbt.run(ctx, ENGINE + '/life.cpp',
        [(V('mt', libs=MT_LIBS), [('', 60000)]), (V('st', flags=['-DBOOST_DISABLE_THREADS']), [('', 60000)]),
         (V('mtsan', flags=SANF, libs=MT_LIBS), [('', 5000)]), (V('native', flags=['-DBOOST_STATECHART_USE_NATIVE_RTTI', '-DNDEBUG'], asserts=False, cxx='g++', opt='-O2', libs=MT_LIBS), [('', 20000)])],
        'case = history of creating, copying, assigning, posting, deferring, sharing and dropping events of 4 types with two machines and a scheduler, with hooks that do the same; every live event object is compared with a reference model of who refers to what; '
        'non-trivial: more than one event posted, at least one shared and one copied')
