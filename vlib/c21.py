"""C21: the same charts and histories in many build configurations must give the same traces."""
from .charts import *
PROF = 'nomodel=1,queries=1,query=0.2,hooks=0.35,post=0.25,clear=0.15,rT=4,rD=1,rZ=1,oI=0.6,oT=0.5,oK=0.3,oC=0.3,restart=0.15,tentry=0.02,texit=0.02,tact=0.03,treact=0.03,tuncons=0.02'
RULE = 'transit+action,excunhandled,custom+uncons'
def W(**k): d = dict(tr=5, isr=1.2, term=0.6, defer=0.8, cust=4); d.update(k); return d
HIST = dict(hist=0.5, hinit=0.5, hdest=0.5, queries=True, tags=0.3, orth=0.45, action=0.6, evbase=0.06)
EXC = dict(translator=['none', 'any', 'x0', 'sel'], exreact=0.35)

class Cfg:
    def __init__(self, rtti, mt, ndebug, std, cxx, opt, form, relax):
        self.a = dict(rtti=rtti, mt=mt, ndebug=ndebug, std=std, cxx=cxx, opt=opt, form=form, relax=relax)
    def name(self):
        a = self.a
        return '%s%s_%s_c++%d_%s%s%s_%s%s' % ('native' if a['rtti'] else 'builtin', '', 'mt' if a['mt'] else 'st', a['std'], a['cxx'], a['opt'], '_ndebug' if a['ndebug'] else '', a['form'], '_relax' if a['relax'] else '')
    def build(self):
        a = self.a; f = []
        if a['rtti']: f.append('-DBOOST_STATECHART_USE_NATIVE_RTTI')
        if a['ndebug']: f.append('-DNDEBUG')
        if a['relax']: f.append('-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT')
        f.append('-std=c++%d' % a['std'])
        b = Build(self.name(), a['cxx'], f, a['opt'], threads=a['mt'], asserts=not a['ndebug'])
        return b

BASE = Cfg(0, 0, 0, 17, 'clang++', '-O0', 'list', 0)
def configs(rng, n, relax):
    """n random configurations; the first ones change a single aspect each"""
    out = []
    if not relax:
        out = [Cfg(1, 0, 0, 17, 'clang++', '-O0', 'vector', 0), Cfg(0, 1, 1, 11, 'clang++', '-O1', 'mixed', 0), Cfg(0, 0, 1, 20, 'g++', '-O2', 'list', 0), Cfg(1, 1, 0, 14, 'g++', '-O1', 'mixed', 0)]
    else:
        out = [Cfg(0, 0, 0, 17, 'clang++', '-O0', 'list', 1), Cfg(1, 1, 1, 20, 'g++', '-O2', 'vector', 1)]
    while len(out) < n:
        out.append(Cfg(rng.randrange(2), rng.randrange(2), rng.randrange(2), rng.choice([11, 14, 17, 20, 23]), rng.choice(['clang++', 'g++']), rng.choice(['-O0', '-O1', '-O2']), rng.choice(['list', 'vector', 'mixed']), 1 if relax else 0))
    return out[:n]

def make(ctx, topos, cfgs, tag):
    """compiles all configurations in one pool; returns executables"""
    jobs = []; per = []
    for ci, c in enumerate(cfgs):
        b = c.build(); d = os.path.join(ctx.dir, '%s%d' % (tag, ci)); os.makedirs(d); mine = []
        fl = [x for x in b.cflags() if x != '-std=c++17' or c.a['std'] == 17]
        for f in ('model', 'engine'):
            mine.append((ENGINE + '/%s.cpp' % f, d + '/%s.o' % f, [x if not x.startswith('-O') else '-O1' for x in fl], None, b.cxx, c))
        for i in range(len(topos)):
            src = d + '/c%d.cpp' % i
            with open(src, 'w') as f:
                f.write('#include "h.hpp"\n')
                for k in range(i, i + 1): f.write(topo.emit(topos[k], 't%d' % k, form=c.a['form']))
            mine.append((src, d + '/c%d.o' % i, fl, topos[i:i + 1], b.cxx, c))
        jobs += mine; per.append((d, b, mine))
    res = dict()
    def one(j): return j, compile1(j[0], j[1], j[2], j[4], fallback=False)
    bad = []
    for j, msg in pmap(one, sorted(jobs, key=lambda j: -int(j[5].a['opt'][2]))):
        if msg:
            if not is_diag(msg): raise CheckError('compiler failed: ' + msg[-2000:])
            bad.append((j, msg))
    if bad:
        # does not compile anywhere: not a matter of configuration
        b0 = [x for x in bad if x[0][5] is cfgs[0]]
        if b0: raise CheckError('the charts do not compile in the basic configuration: ' + first_error(b0[0][1]))
        j, msg = bad[0]
        raise Violation('does not compile in configuration %s only: %s' % (j[5].name(), first_error(msg)), dict(kind='compile', cfg=j[5].a, charts=[t.to_json() for t in (j[3] or [])], message=msg[-4000:]))
    exes = []
    for d, b, mine in per:
        r = sh([b.cxx] + b.lflags() + [j[1] for j in mine] + ['-o', d + '/eng'], 300)
        if r.returncode: raise CheckError('link: ' + r.stdout[-2000:])
        exes.append(d + '/eng')
    return exes

def traces(ctx, exes, case):
    p = ctx.dir + '/one'
    with open(p, 'w') as f: f.write(case)
    out = []
    for e in exes:
        r = sh(['timeout', '-s', 'KILL', '30', e, '--trace', p, '--prof', PROF], 60, env=ENV)
        out.append((r.returncode, r.stdout if r.returncode == 0 else ''))
    return out

def shrink(ctx, pair, case):
    lines = case.rstrip('\n').split('\n'); head, rest = lines[0], lines[1:]
    def differs(r):
        t = traces(ctx, pair, '\n'.join([head] + r) + '\n'); return t[0] != t[1]
    n = 0; sz = max(1, len(rest) // 2)
    while sz >= 1 and n < 250:
        i = 0
        while i + sz <= len(rest) and n < 250:
            r = rest[:i] + rest[i + sz:]; n += 1
            if differs(r): rest = r
            else: i += sz
        sz //= 2
    return '\n'.join([head] + rest) + '\n'

def compare(ctx, topos, cfgs, exes, cases, tag):
    seed = derive(ctx.seed, ctx.prop, tag) % (1 << 40); W_ = 8 if len(exes) < 4 else 4
    items = [(ci, w) for ci in range(len(exes)) for w in range(W_)]
    def one(it):
        ci, w = it; b = os.path.join(ctx.dir, 'h%s_%d_%d' % (tag, ci, w))
        r = sh([exes[ci], '--seed', str(seed), '--cases', str(cases), '--worker', str(w), '--secs', '300', '--prof', PROF, '--rule', RULE, '--stats', b + '.json', '--viol', b + '.v', '--uniq', b + '.uniq', '--hashes', b + '.h'], 500, env=ENV)
        return it, r, b
    res = {it: (r, b) for it, r, b in pmap(one, items)}
    rd = lambda b: open(b + '.h', 'rb').read() if os.path.exists(b + '.h') else b''
    for w in range(W_):
        r0, b0 = res[(0, w)]; h0 = rd(b0)
        for ci in range(1, len(exes)):
            r1, b1 = res[(ci, w)]; h1 = rd(b1)
            for r in (r0, r1):
                if r.returncode not in (0, 6): raise CheckError('engine exit %s %s' % (r.returncode, r.stdout[-1000:]))
            if h0 == h1: continue
            i = 0
            while h0[8 * i:8 * i + 8] == h1[8 * i:8 * i + 8]: i += 1
            case = sh([exes[0], '--seed', str(seed), '--worker', str(w), '--prof', PROF, '--dump', str(i)], 60).stdout
            pair = [exes[0], exes[ci]]
            ts = [traces(ctx, pair, case) for _ in range(3)]
            if all(a[0] != a[1] for a in ts):
                case = shrink(ctx, pair, case); t = traces(ctx, pair, case)
                ti = engine_order(topos)[int(case.split('\n')[0].split()[1])]
                raise Violation('behaviour differs between %s and %s' % (cfgs[0].name(), cfgs[ci].name()),
                    dict(kind='differ', a=cfgs[0].a, b=cfgs[ci].a, chart=topos[ti].to_json(), case=case, chart_text=topo.describe(topos[ti]), traces=[x[1][-6000:] for x in t], codes=[x[0] for x in t]))
            # differs only after the cases before it: repeat the same stream
            again = [rd(one((c, w))[2]) for c in (0, ci)]
            if again[0] != again[1]:
                raise Violation('behaviour differs between %s and %s after a series of cases' % (cfgs[0].name(), cfgs[ci].name()),
                    dict(kind='stream', a=cfgs[0].a, b=cfgs[ci].a, charts=[t.to_json() for t in topos], seed=seed, worker=w, cases=cases, index=i, tag=tag))
            raise CheckError('unstable difference')
    uniq = set()
    for w in range(W_):
        r, b = res[(0, w)]
        if not os.path.exists(b + '.json'): continue       # every configuration stopped at the same case
        s = json.load(open(b + '.json')); data = open(b + '.uniq', 'rb').read(); uniq.update(data[i:i + 8] for i in range(0, len(data), 8))
        ctx.ev += s['cases'] * len(exes); ctx.extra['ops'] = ctx.extra.get('ops', 0) + s['ops'] * len(exes)
        if w == 0 and s['samples']: ctx.samples.append(dict(case=s['samples'][0], chart=topo.describe(topos[engine_order(topos)[int(s['samples'][0].split('\n')[0].split()[1])]])))
    ctx.distinct += len(uniq)
    ctx.extra.setdefault('configurations', []); ctx.extra['configurations'] += [c.name() for c in cfgs]
    ctx.extra['charts'] = ctx.extra.get('charts', 0) + len(topos)

def run(ctx):
    ctx.rule = ('case = random chart x behaviour x history, executed in every configuration, whole traces (all hooks, objects, results, queries) compared with those of the basic configuration; '
                'evaluations count case x configuration; non-trivial: several states were left and entered with actions, an exception escaped, or custom reactions and unconsumed events occurred')
    if ctx.replay: return replay(ctx)
    m = 1 if ctx.quick else 4
    A = make_charts(ctx, [(2 * m, dict(HIST, w=W())), (2 * m, dict(HIST, w=W(), **EXC)), (1 * m, dict(w=W(tr=6), n=(9, 16), depth=5, action=0.7))])
    B = make_charts(ctx, [(1 * m, dict(HIST, w=W(), commonact=True)), (2 * m, dict(EXC, w=W(tr=6), n=(8, 14), depth=5, action=0.8, commonact=True))])
    ca = [BASE] + configs(ctx.rng('cfg'), 4 if ctx.quick else 12, False); cb = [BASE] + configs(ctx.rng('cfgr'), 2 if ctx.quick else 6, True)
    compare(ctx, A, ca, make(ctx, A, ca, 'a'), 1500 * m, 'a')
    compare(ctx, B, cb, make(ctx, B, cb, 'b'), 1500 * m, 'b')

def replay(ctx):
    d = ctx.replay
    if d['kind'] == 'compile':
        T = [topo.Topo.from_json(t) for t in d['charts']] or make_charts(ctx, [(1, {})]); make(ctx, T, [BASE, Cfg(**d['cfg'])], 'r'); print('compiles now'); return
    T = [topo.Topo.from_json(d['chart'])] if d['kind'] == 'differ' else [topo.Topo.from_json(t) for t in d['charts']]
    cfgs = [Cfg(**d['a']), Cfg(**d['b'])]; exes = make(ctx, T, cfgs, 'r')
    if d['kind'] == 'differ':
        t = traces(ctx, exes, 'topo 0\n' + d['case'].split('\n', 1)[1])
        if t[0] != t[1]: print(t[0][1][-4000:], '\n---- vs ----\n', t[1][1][-4000:], t[0][0], t[1][0]); raise Violation('still differs', d)
        return
    compare(ctx, T, cfgs, exes, d['cases'], d['tag'])
