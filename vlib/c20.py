from .pbt import *
from .charts import topo
from .chart_checks import W
def source(ctx, f, n):
    out = ['#define H_ALLOC\n#include "h.hpp"\n']
    for i in range(n):
        kw = [dict(w=W(term=0.3, defer=1), hist=0.6, hinit=0.5, hdest=0.5), dict(w=W(term=0.5, defer=1.5), orth=0.7), dict(w=W(term=0.3, defer=1), n=(3, 5), hist=0.3, hdest=0.5)][(f + i) % 3]
        T = topo.gen(ctx.rng('chart', f, i), translator=[['none'], ['any', 'x0'], ['none', 'sel']][(f * n + i) % 3], exreact=0.4, nev=(2, 4), **kw)
        out.append(topo.emit(T, 'p%d_%d' % (f, i), alloc='h::Alloc< sc::none >'))
    return '\n'.join(out)
def run(ctx):
    from . import pbt
    ctx.level = 'fault_enumeration'
    inc = {'c%d.cpp' % f: source(ctx, f, 3) for f in range(8 if ctx.quick else 16)}
    src = lambda ed, inc: [ENGINE + '/model.cpp'] + [ed + '/' + n for n in sorted(inc)]
    S = ['-DBOOST_DISABLE_THREADS']
    pbt.run(ctx, ENGINE + '/alloc.cpp',
        [(V('st', opt='-O0', flags=S), [('', 600)]), (V('release', opt='-O0', flags=['-DNDEBUG', '-DBOOST_STATECHART_USE_NATIVE_RTTI', '-std=c++14'], asserts=False, libs=MT_LIBS), [('', 150)]), (V('sched', libs=MT_LIBS, files=ENGINE + '/schedalloc.cpp', alone=True), [('', 4000)]), (V('schedst', cxx='g++', flags=S + SANF, files=ENGINE + '/schedalloc.cpp', alone=True), [('', 1000)], True), (V('san', opt='-O0', flags=SANF + S), [('', 25)], True), (V('all', opt='-O1', flags=['-DBOOST_STATECHART_USE_NATIVE_RTTI'], libs=MT_LIBS), [('all', 60)], True)],
        'case = generated chart whose machine, states and events use one checking allocator, with a history that is run once without and then with each of its allocations failing (every one of them when there are at most 24, 24 random ones otherwise; every one up to 400 in the thorough tier), and with pairs of failures; after a failure the rest of the history is run and checked against the model of a new machine; '
        'sched: histories of requests to a scheduler whose worker, container and events have different checking allocators, each allocation failing in turn, against a sequential model; '
        'non-trivial: at least two failing state allocations and at least one failing posting or internal allocation', inc, extra_src=src)
