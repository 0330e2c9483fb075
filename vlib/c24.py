from .pbt import *
def run(ctx):
    from . import pbt
    pbt.run(ctx, ENGINE + '/worker.cpp',
        [(V('mt', libs=MT_LIBS), [('', 60000)]), (V('st', flags=['-DBOOST_DISABLE_THREADS']), [('', 60000)]),
         (V('mtsan', flags=SANF, libs=MT_LIBS), [('', 4000)]), (V('gcc', cxx='g++', opt='-O2', flags=['-DNDEBUG'], asserts=False, libs=MT_LIBS), [('', 60000)])],
        'case = random sequence of queueing, running and terminating a fifo_worker, with items that queue, terminate, throw or run it again, against a sequential model; non-trivial: an item queued or terminated from within a run, threw, or a maximum cut a run short')
