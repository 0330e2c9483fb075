from .pbt import *
def run(ctx):
    from . import pbt
    pbt.run(ctx, ENGINE + '/conc.cpp',
        [(V('mt', opt='-O1', libs=MT_LIBS), [('', 40000), ('dfs', 150)]), (V('tsan', opt='-O1', libs=MT_LIBS, flags=['-DH_THREADS', '-fsanitize=thread', '-g1', '-DVERIF_SAN'], files=ENGINE + '/threads.cpp'), [('feed', 60)]), (V('gcc', cxx='g++', opt='-O2', libs=MT_LIBS, flags=['-DBOOST_STATECHART_USE_NATIVE_RTTI']), [('', 40000), ('dfs', 60)], True)],
        'case = up to four threads queueing items, events and termination requests at a worker or scheduler that another thread runs (waiting or not, several bounded runs), with the choice of the thread that goes on at every lock, unlock, wait, wake-up and queue allocation, spurious wake-ups included; '
        'profile dfs: all schedules with at most three preemptions of a small program (at most 4000). profile feed: the same on real threads under the thread sanitizer. non-trivial: several threads, more than eight switches, and a thread met a locked mutex or slept', extra_src=[ENGINE + '/model.cpp'])
