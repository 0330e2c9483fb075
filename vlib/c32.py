from .pbt import *
from .charts import topo
from .chart_checks import W
def chart_source(ctx, f, n):
    """the same charts as plain and as asynchronous machines"""
    out = ['#define H_ASYNC\n#include "h.hpp"\n']
    for i in range(n):
        r = ctx.rng('chart', f, i); k = '%d_%d' % (f, i)
        kw = [dict(w=W(term=0.3, defer=0.7), dterm=0.4, hist=0.5, hinit=0.5, hdest=0.5), dict(w=W(term=0.5, defer=1.5), orth=0.7, dterm=0.6), dict(w=W(term=0.3, defer=1), n=(3, 5))][(f + i) % 3]
        T = topo.gen(r, translator=['none', 'any', 'x0', 'sel', 'sel'], exreact=0.35, queries=True, nev=(2, 4), **kw)
        if (3 * f + i) % 5 == 4: T.opts['nounc'] = 1         # the library's own handler for unconsumed events
        out.append(topo.emit(T, 'p' + k, register=False) + topo.emit(T, 'a' + k, register=False, async_=True))
        out.append('static h::Sched::processor_handle mk%s(h::Sched& s) { return s.create_processor< a%s::Machine >(); }\nstatic h::IMachine* pl%s() { return new h::MachineBox< p%s::Machine >; }\n'
                   'static const char desc%s[] = R"D(%s)D";\nstatic h::RegAsync r%s(desc%s, mk%s, pl%s);\n' % (k, k, k, k, k, topo.describe(T), k, k, k, k))
    return '\n'.join(out)
def run(ctx):
    from . import pbt
    files = 8 if ctx.quick else 16
    inc = {'c%d.cpp' % f: chart_source(ctx, f, 3) for f in range(files)}
    src = lambda ed, inc: [ENGINE + '/model.cpp'] + [ed + '/' + n for n in sorted(inc)]
    pbt.run(ctx, ENGINE + '/async.cpp',
        [(V('mt', opt='-O0', libs=MT_LIBS), [('', 2500)]), (V('release', opt='-O0', flags=['-DNDEBUG', '-DBOOST_DISABLE_THREADS', '-std=c++14'], asserts=False), [('', 1500)]), (V('st', opt='-O1', cxx='g++', flags=['-DBOOST_DISABLE_THREADS', '-DBOOST_STATECHART_USE_NATIVE_RTTI']), [('', 5000)], True), (V('san', opt='-O0', flags=SANF + ['-DBOOST_DISABLE_THREADS']), [('', 250)], True)],
        'case = three asynchronous machines of generated charts under one scheduler, hooks that post, throw and queue requests at themselves and others, a random history of requests and bounded runs; every hook call, object and exception compared with plain machines given the requests in order; '
        'non-trivial: more than six states entered, several reactions, and an exception reached the caller or hooks queued requests', inc, extra_src=src)
