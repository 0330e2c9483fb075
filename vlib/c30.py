from .pbt import *
from .charts import topo
from .chart_checks import W
def source(ctx, f, n):
    out = ['#define H_MISUSE\n#include "h.hpp"\n']
    for i in range(n):
        kw = [dict(w=W(term=0.4, defer=0.7), hist=0.5, hinit=0.5, hdest=0.5), dict(w=W(term=0.5, defer=1), orth=0.7), dict(w=W(term=0.4, defer=1), n=(3, 5), hist=0.3, hdest=0.5)][(f + i) % 3]
        T = topo.gen(ctx.rng('chart', f, i), translator=[['none'], ['any', 'x0'], ['none', 'sel']][(f * n + i) % 3], exreact=0.4, queries=True, nev=(2, 4), simple=0.45, **kw)
        out.append(topo.emit(T, 'p%d_%d' % (f, i), misuse=True))
    return '\n'.join(out)
def run(ctx):
    from . import pbt
    inc = {'c%d.cpp' % f: source(ctx, f, 3) for f in range(7 if ctx.quick else 14)}
    src = lambda ed, inc: [ENGINE + '/model.cpp'] + [ed + '/' + n for n in sorted(inc)]
    S = ['-DH_MISUSE']
    pbt.run(ctx, ENGINE + '/misuse.cpp',
        [(V('st', opt='-O0', flags=S + ['-DBOOST_DISABLE_THREADS']), [('', 2000)]), (V('opt', cxx='g++', opt='-O2', flags=S + ['-DBOOST_STATECHART_USE_NATIVE_RTTI'], libs=MT_LIBS), [('', 400)], True)],
        'case = generated chart and history, run without misuse (compared with the model, no assertion may fail) and then up to six times with one misuse at a hook the history reaches; the very next thing that happens has to be an assertion; '
        'non-trivial: at least two misuses were reached and reported', inc, extra_src=src)
