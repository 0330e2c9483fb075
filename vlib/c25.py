from .pbt import *
from . import procs
def run(ctx):
    from . import pbt
    inc = {'procs.inc': procs.gen(ctx.rng('procs'))}
    prof = '' if ctx.prop == 'C25' else 'args'
    n = 30000
    pbt.run(ctx, ENGINE + '/sched.cpp',
        [(V('mt', libs=MT_LIBS), [(prof, n)]), (V('st', flags=['-DBOOST_DISABLE_THREADS']), [(prof, n)]),
         (V('mtsan', opt='-O0', flags=SANF, libs=MT_LIBS), [(prof, n // 15)]), (V('gcc', cxx='g++', opt='-O2', flags=['-DNDEBUG'], asserts=False, libs=MT_LIBS), [(prof, n)]),
         (V('userworker', flags=['-DUSER_WORKER'], libs=MT_LIBS), [(prof, n // 3)])],
        'case = random sequence of create/initiate/event/terminate/destroy requests, work items and runs over two schedulers, with processors whose hooks create, destroy, feed, stop and throw, against a sequential model; non-trivial: hooks issued requests and a processor was destroyed or a request ignored', inc)
