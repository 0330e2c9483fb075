from .pbt import *
from .charts import topo
from .chart_checks import W
def source(ctx, f, n):
    out = ['#include "h.hpp"\n']
    for i in range(n):
        kw = [dict(w=W(term=0.3, defer=1), hist=0.6, hinit=0.5, hdest=0.5), dict(w=W(term=0.5, defer=1.5), orth=0.7), dict(w=W(term=0.3, defer=1), n=(3, 5), hist=0.3, hdest=0.5)][(f + i) % 3]
        T = topo.gen(ctx.rng('chart', f, i), translator=[['none'], ['any', 'x0'], ['none', 'sel']][(f * n + i) % 3], exreact=0.4, queries=True, nev=(2, 4), **kw)
        out.append(topo.emit(T, 'p%d_%d' % (f, i)))
    return '\n'.join(out)
TSAN = ['-fsanitize=thread', '-g1', '-DVERIF_SAN']
def run(ctx):
    from . import pbt
    inc = {'c%d.cpp' % f: source(ctx, f, 3) for f in range(7 if ctx.quick else 14)}
    src = lambda ed, inc: [ENGINE + '/model.cpp'] + [ed + '/' + n for n in sorted(inc)]
    S = ['-DH_THREADS']
    pbt.run(ctx, ENGINE + '/threads.cpp',
        [(V('tsan', opt='-O1', flags=S + TSAN, libs=MT_LIBS), [('mach', 200), ('ref', 200), ('feed', 60)]), (V('mt', opt='-O1', cxx='g++', flags=S + ['-DNDEBUG'], asserts=False, libs=MT_LIBS), [('mach', 300), ('ref', 1500), ('feed', 300)])],
        'case = (mach) two to four threads each running a machine of a generated chart through its own history with heap events common to all, compared with the model of the machine alone; (ref) threads copying, posting, deferring and dropping the same heap events; '
        '(feed) several threads feeding one to three schedulers run by further threads, events passed on from processor to processor; under the thread sanitizer and (thorough) without. non-trivial: at least two threads share objects', inc, extra_src=src)
