"""C29: generated charts must compile; one-rule mutants of them must be rejected."""
import copy, json, random, re
from .common import *
import sys
sys.path.insert(0, VERIF + '/gen')
import topo

HEAD = '''#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
namespace sc = boost::statechart; namespace mpl = boost::mpl;
namespace ev { struct E0 : sc::event<E0> {}; struct E1 : sc::event<E1> {}; struct E2 : sc::event<E2> {}; struct E3 : sc::event<E3> {}; struct E4 : sc::event<E4> {}; struct E5 : sc::event<E5> {}; }
'''

def lite(T, ns, form='list'):
    """the bare chart: structure, reactions, transition actions, history clearing"""
    S = T.states; o = []; w = o.append
    ctxname, evname, destname = topo.ctxname, topo.evname, topo.destname
    acts = {}
    for s in S:
        for r in s['reacts']:
            for a in [r] + r.get('alts', []):
                if a.get('act', -1) >= 0: acts.setdefault(a['ctx'], []).append((a['act'], r['ev']))
    def seq(i, items):
        f = form if form != 'mixed' else ('list', 'vector')[i % 2]
        return 'mpl::%s< %s >' % (f, ', '.join(items)) if items else 'mpl::%s<>' % f
    w('namespace %s {' % ns); w('struct Machine;')
    for i in range(len(S)): w('struct S%d;' % i)
    w('struct Machine : sc::state_machine< Machine, S%d > {' % T.initial)
    for a, e in acts.get(-1, []): w('  void a%d(const %s &) {}' % (a, evname(e)))
    for n, (k, i, g) in enumerate(T.opts.get('mclear', [])): w('  void mc%d() { clear_%s_history< S%d, %d >(); }' % (n, ('shallow', 'deep')[k - 1], i, g))
    w('};')
    depth = lambda i: len(T.chain(i))
    for i in sorted(range(len(S)), key=lambda i: (depth(i), i)):
        s = S[i]; par = ctxname(s['parent']); reg = s.get('ctxreg', s['region'])
        ctx = par if reg == 0 and i % 3 else '%s::orthogonal< %d >' % (par, reg)
        if s['parent'] < 0 and reg == 0: ctx = par
        args = 'S%d, %s' % (i, ctx)
        if s['regions']:
            items = [destname(x) for x in s['regions']]
            if len(items) == 1 and s['regions'][0][0] == 0 and s['single']: args += ', ' + items[0]
            else: args += ', ' + seq(i, items)
        elif s['hist']: args += ', ' + seq(i, [])
        if s['hist']: args += ', sc::' + ['', 'has_shallow_history', 'has_deep_history', 'has_full_history'][s['hist']]
        base = 'sc::%s< %s >' % ('simple_state' if s['simple'] else 'state', args)
        w('struct S%d : %s {' % (i, base))
        if not s['simple']: w('  S%d(my_context c) : my_base(c) {}' % i)
        for a, e in acts.get(i, []): w('  void a%d(const %s &) {}' % (a, evname(e)))
        rl = []
        for r in s['reacts']:
            k, e = r['kind'], evname(r['ev'])
            act = lambda r: '' if r['ctx'] == -2 else ', %s, &%s::a%d' % (ctxname(r['ctx']), ctxname(r['ctx']), r['act'])
            if k == 'cust':
                rl.append('sc::custom_reaction< %s >' % e)
                w('  sc::result react(const %s &);' % e)
            else: rl.append({'tr': lambda: 'sc::transition< %s, %s%s >' % (e, destname(r['dest']), act(r)), 'isr': lambda: 'sc::in_state_reaction< %s%s >' % (e, act(r)), 'term': lambda: 'sc::termination< %s >' % e, 'defer': lambda: 'sc::deferral< %s >' % e}[k]())
        if len(rl) == 1 and s['single']: w('  typedef %s reactions;' % rl[0])
        elif rl: w('  typedef %s reactions;' % seq(i, rl))
        for n, (k, c, g) in enumerate(s.get('clear', [])): w('  void c%d();' % n)
        w('};')
    for i, s in enumerate(S):
        for r in s['reacts']:
            if r['kind'] != 'cust': continue
            w('sc::result S%d::react(const %s & e) { static int n = 0; switch (n++) {' % (i, evname(r['ev'])))
            for n, a in enumerate(r['alts']):
                w('  case %d: return transit< %s >(%s);' % (n, destname(a['dest']), '' if a['act'] < 0 else '&%s::a%d, e' % (ctxname(a['ctx']), a['act'])))
            w('  case 90: return terminate(); case 91: return forward_event(); case 92: return defer_event(); default: return discard_event(); } }')
        for n, (k, c, g) in enumerate(s.get('clear', [])): w('void S%d::c%d() { clear_%s_history< S%d, %d >(); }' % (i, n, ('shallow', 'deep')[k - 1], c, g))
    w('void go() { Machine m; m.initiate(); m.process_event(ev::E0()); m.terminate(); }')
    w('}')
    return '\n'.join(o) + '\n'

def reach(T):
    S = T.states; todo = [T.initial]; seen = set()
    def enter(s):
        for c in T.chain(s): todo.append(c)
    while todo:
        s = todo.pop()
        if s in seen: continue
        seen.add(s)
        for m, c in S[s]['regions']: enter(c)
        for r in S[s]['reacts']:
            for a in [r] + r.get('alts', []):
                if 'dest' in a: enter(a['dest'][1])
    return seen

def used(T, seen):
    """(state, region): the region's entry in the list of initial inner states is used by some way the state is entered"""
    S = T.states; out = set()
    def default(s, skip=None):
        for r, (m, c) in enumerate(S[s]['regions']):
            if r != skip and (s, r) not in out: out.add((s, r)); default(c)
    default(T.initial)
    for i in sorted(seen):
        for r in S[i]['reacts']:
            for a in [r] + r.get('alts', []):
                if 'dest' not in a: continue
                d = a['dest'][1]; lca = T.legal_dest(i, d)[0]; default(d); x = d
                while S[x]['parent'] != lca: default(S[x]['parent'], S[x]['region']); x = S[x]['parent']
    return out

def clone(T): return topo.Topo.from_json(T.to_json())

def dests(T, seen):
    """all (state, alternative or reaction) with a destination in a state that is instantiated"""
    return [(i, a) for i in sorted(seen) for r in T.states[i]['reacts'] for a in [r] + r.get('alts', []) if 'dest' in a]

# ---- one-rule mutations: each returns a description or None when the chart has no place for it
def m_swap_init(T, rng, seen):
    c = sorted(x for x in used(T, seen) if len(T.states[x[0]]['regions']) > 1)
    if not c: return None
    i, a = rng.choice(c); R = T.states[i]['regions']; b = rng.choice([x for x in range(len(R)) if x != a]); R[a], R[b] = R[b], R[a]
    return 'initial inner states of S%d listed for the wrong regions (%d and %d swapped)' % (i, a, b)
def m_dup_init(T, rng, seen):
    c = sorted(x for x in used(T, seen) if len(T.states[x[0]]['regions']) > 1)
    if not c: return None
    i, a = rng.choice(c); R = T.states[i]['regions']; b = rng.choice([x for x in range(len(R)) if x != a]); R[a] = [R[a][0] if rng.random() < .5 else 0, rng.choice(T.children(i, b))]
    return 'S%d lists a state of region %d as initial state of region %d' % (i, b, a)
def m_short_init(T, rng, seen):
    c = [i for i, s in enumerate(T.states) if len(s['regions']) > 1]
    if not c: return None
    i = rng.choice(c); T.states[i]['regions'].pop()
    return 'S%d has no longer the region in which some of its inner states reside' % i
def m_bad_region(T, rng, seen):
    c = [i for i, s in enumerate(T.states) if s['parent'] >= 0]
    if not c: return None
    d = [i for i in c if all(x[1] != i for x in T.states[T.states[i]['parent']]['regions'])]
    i = rng.choice(d or c); s = T.states[i]; n = len(T.states[s['parent']]['regions']); s['ctxreg'] = n + rng.choice([0, 0, 0, 1, 2, 5])
    return 'S%d resides in region %d, its outer state has %d' % (i, s['ctxreg'], n)
def m_top_region(T, rng, seen):
    c = T.children(-1); i = rng.choice(c); T.states[i]['ctxreg'] = rng.choice([1, 1, 2])
    return 'outermost S%d resides in region %d' % (i, T.states[i]['ctxreg'])
def m_leaf_parent(T, rng, seen):
    # an outer state loses its list of inner states altogether
    c = [i for i, s in enumerate(T.states) if s['regions']]
    if not c: return None
    i = rng.choice(c); T.states[i]['regions'] = []
    for k in T.states[i].get('x', []): pass
    return 'S%d has inner states but no list of initial inner states' % i
def m_cross(T, rng, seen):
    c = dests(T, seen); rng.shuffle(c)
    for i, a in c:
        bad = [d for d in range(len(T.states)) if not T.legal_dest(i, d)[1]]
        if bad:
            a['dest'] = [0, rng.choice(bad)]
            if a.get('ctx', -2) != -2: a['ctx'] = T.legal_dest(i, a['dest'][1])[0]
            return 'transition from S%d into S%d in a different region of their common context' % (i, a['dest'][1])
    return None
def m_hist_tr(T, rng, seen):
    c = dests(T, seen); rng.shuffle(c)
    for i, a in c:
        opts = [(m, d) for d in range(len(T.states)) for m in (1, 2) if T.states[d]['parent'] >= 0 and not T.states[T.states[d]['parent']]['hist'] & m and T.legal_dest(i, d)[1]]
        if opts:
            half = [o for o in opts if T.states[T.states[o[1]]['parent']]['hist']]
            o = rng.choice(half if half and rng.random() < .5 else opts); a['dest'] = list(o)
            if a.get('ctx', -2) != -2: a['ctx'] = T.legal_dest(i, o[1])[0]
            return 'transition from S%d to the %s history of S%d, whose outer state has none' % (i, ('shallow', 'deep')[o[0] - 1], o[1])
    return None
def m_hist_init(T, rng, seen):
    c = [(i, r, m) for i, r in sorted(used(T, seen)) for m in (1, 2) if not T.states[i]['hist'] & m]
    if not c: return None
    half = [x for x in c if T.states[x[0]]['hist']]
    i, r, m = rng.choice(half if half and rng.random() < .5 else c); T.states[i]['regions'][r][0] = m
    return 'S%d enters region %d through %s history it does not have' % (i, r, ('shallow', 'deep')[m - 1])
def m_clear(T, rng, seen):
    c = [(m, i, r) for i in range(len(T.states)) for r in range(len(T.states[i]['regions'])) for m in (1, 2) if not T.states[i]['hist'] & m]
    if not c: return None
    half = [x for x in c if T.states[x[1]]['hist']]
    x = rng.choice(half if half and rng.random() < .5 else c)
    if rng.random() < .5: T.opts['mclear'] = T.opts.get('mclear', []) + [x]
    else: s = T.states[rng.choice(sorted(seen))]; s['clear'] = s.get('clear', []) + [x]
    return '%s history of S%d, which has none, is cleared' % (('shallow', 'deep')[x[0] - 1], x[1])
def m_deep_orth(T, rng, seen):
    c = [(a, i) for i, s in enumerate(T.states) if len(s['regions']) > 1 for a in T.chain(i)[1:] if not T.states[a]['hist'] & 2]
    if not c: return None
    a, i = rng.choice(c); T.states[a]['hist'] |= 2
    return 'S%d has deep history and its inner state S%d has several regions' % (a, i)
def m_deep_orth_far(T, rng, seen):
    c = [(a, i) for i, s in enumerate(T.states) if len(s['regions']) > 1 for a in T.chain(i)[2:] if not any(T.states[x]['hist'] & 2 for x in T.chain(i)[1:])]
    if not c: return None
    a, i = rng.choice(c); T.states[a]['hist'] |= 2
    return 'S%d has deep history and the state S%d, nested deeper inside it, has several regions' % (a, i)
def m_foreign(T, rng, seen):
    c = sorted(used(T, seen))
    if not c: return None
    i, r = rng.choice(c); d = [x for x, s in enumerate(T.states) if s['parent'] != i and x != i]
    if not d: return None
    T.states[i]['regions'][r] = [0, rng.choice(d)]
    return 'the initial inner state of S%d is S%d, which is not one of its inner states' % (i, T.states[i]['regions'][r][1])
def m_initial(T, rng, seen):
    c = [i for i, s in enumerate(T.states) if s['parent'] >= 0]
    if not c: return None
    T.initial = rng.choice(c); return 'the initial state S%d of the machine is an inner state' % T.initial
MUT = dict(swap_init=m_swap_init, dup_init=m_dup_init, short_init=m_short_init, bad_region=m_bad_region, top_region=m_top_region, leaf_parent=m_leaf_parent,
           cross=m_cross, hist_tr=m_hist_tr, hist_init=m_hist_init, clear=m_clear, deep_orth=m_deep_orth, deep_orth_far=m_deep_orth_far, foreign=m_foreign, initial=m_initial)
WEIGHT = dict(swap_init=3, dup_init=2, short_init=1, bad_region=3, top_region=1, leaf_parent=1, cross=6, hist_tr=5, hist_init=4, clear=4, deep_orth=8, deep_orth_far=14, foreign=1, initial=1)

FLAGS = {'std': [], 'native': ['-DBOOST_STATECHART_USE_NATIVE_RTTI'], 'relax': ['-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT'], 'ndebug': ['-DNDEBUG', '-std=c++20'], 'nortti': ['-fno-rtti', '-DNDEBUG']}
def compile_(ctx, name, text, cfg='std', cxx='clang++'):
    p = ctx.dir + '/%s.cpp' % name
    with open(p, 'w') as f: f.write(text)
    lim = ['-ferror-limit=0', '-ftemplate-backtrace-limit=0'] if cxx == 'clang++' else ['-fmax-errors=0', '-ftemplate-backtrace-limit=0']
    r = sh([cxx, '-std=c++17', '-w', '-fsyntax-only'] + lim + FLAGS[cfg] + INC + [p], 600)
    os.remove(p)
    if r.returncode not in (0, 1): raise CheckError('compiler ended with %s: %s' % (r.returncode, r.stdout[-500:]))
    return r.returncode == 0, r.stdout

def blocks(msg):
    """error messages with their notes"""
    out = []; pre = []
    for l in msg.splitlines():
        if re.search(r': (fatal )?error:', l): out.append([l])
        elif out: out[-1].append(l)
    return ['\n'.join(b) for b in out]

def gen_chart(rng):
    k = rng.random()
    kw = dict(n=rng.choice([(3, 6), (5, 10), (8, 16), (14, 26)]), depth=rng.choice([2, 3, 4, 6, 9]), orth=rng.choice([0.1, 0.4, 0.7, 0.9]), maxreg=rng.choice([2, 3, 4, 6]), sibs=(1, rng.choice([2, 3, 4])),
              hist=rng.choice([0, 0.4, 0.8]), hinit=0.5, hdest=0.5, reacts=rng.choice([(0, 2), (1, 4), (3, 8), (8, 14)]) , nev=(3, 6), action=0.5, evbase=0.1, tops=(1, 3), w=dict(tr=5, isr=1, term=.6, defer=.6, cust=3))
    if kw['reacts'][1] > 8: kw['n'] = (3, 7)
    if rng.random() < .25: kw.update(n=(8, 16), depth=6, sibs=(1, 2), orth=0.4, hist=rng.choice([0, 0.3]))     # deep, with regions far down
    return topo.gen(rng, **kw)

def run(ctx):
    ctx.rule = ('case = generated chart (must compile) or the same chart with one rule broken at a random place (must not compile); non-trivial: every mutant, and every chart with at least 8 states, several regions or history; '
                'a mutant that seems accepted is compiled again alone, a chart that seems rejected is compiled again alone and with the second compiler')
    if ctx.replay: return replay(ctx)
    nb, per = (20, 12) if ctx.quick else (48, 12)
    def batch(b):
        rng = ctx.rng('batch', b); cfg = rng.choice(['std', 'std', 'native', 'relax', 'ndebug', 'nortti']); good, mut = [], []
        form = rng.choice(['list', 'vector', 'mixed'])
        for i in range(per):
            T = gen_chart(rng)
            sl = topo.slots(T); seen = reach(T)
            if sl:
                T.opts['mclear'] = rng.sample(sl, min(2, len(sl))); s = T.states[rng.choice(sorted(seen))]; s['clear'] = [rng.choice(sl)]
            good.append(T); names = list(MUT); k = 0
            while k < 3 and names:
                n = rng.choices(names, [WEIGHT[x] for x in names])[0]; names.remove(n)
                M = clone(T); what = MUT[n](M, rng, seen)
                if what: mut.append((n, what, M, i)); k += 1
        ok, msg = compile_(ctx, 'g%d' % b, HEAD + ''.join(lite(T, 'g%d' % i, form) for i, T in enumerate(good)), cfg)
        if not ok:
            for i, T in enumerate(good):
                o1, m1 = compile_(ctx, 'g%d_%d' % (b, i), HEAD + lite(T, 'g', form), cfg)
                if not o1:
                    o2, m2 = compile_(ctx, 'g%d_%d' % (b, i), HEAD + lite(T, 'g', form), cfg, 'g++')
                    if not o2: return ('rejected', T, cfg, form, m1, None)
            raise CheckError('a batch fails, its charts do not: ' + msg[-1500:])
        # mutants
        half = [mut[k::3] for k in range(3)]
        for hi, h in enumerate(half):
            ok, msg = compile_(ctx, 'm%d_%d' % (b, hi), HEAD + ''.join(lite(M, 'm%d' % i, form) for i, (_, _, M, _) in enumerate(h)), cfg)
            hit = set(int(x) for blk in blocks(msg) for x in re.findall(r'\bm(\d+)::', blk)[:1])
            for i, (n, what, M, g) in enumerate(h):
                if i in hit: continue
                o1, m1 = compile_(ctx, 'm%d_%d_%d' % (b, hi, i), HEAD + lite(M, 'm', form), cfg)
                if o1: return ('accepted', M, cfg, form, what, good[g])
        return (good, mut, cfg)
    res = pmap(batch, range(nb))
    for r in res:
        if r[0] == 'accepted': raise Violation('an ill-formed chart compiles: ' + r[4], dict(kind='accepted', what=r[4], cfg=r[2], form=r[3], chart=r[1].to_json(), twin=r[5].to_json(), source=HEAD + lite(r[1], 'm', r[3])))
        if r[0] == 'rejected': raise Violation('a well-formed chart does not compile: ' + '\n'.join(l for l in r[4].splitlines() if 'error' in l)[:600], dict(kind='rejected', cfg=r[2], form=r[3], chart=r[1].to_json(), source=HEAD + lite(r[1], 'g', r[3]), message=r[4][-3000:]))
    kinds = {}; seen = set()
    for good, mut, cfg in res:
        ctx.ev += len(good) + len(mut)
        for n, what, M, g in mut: kinds[n] = kinds.get(n, 0) + 1; seen.add(M.to_json())
        for T in good:
            if len(T.states) >= 8 or any(len(s['regions']) > 1 or s['hist'] for s in T.states): seen.add(T.to_json())
    ctx.distinct = len(seen); ctx.extra['mutants_by_rule'] = kinds; ctx.extra['charts'] = sum(len(r[0]) for r in res)
    for good, mut, cfg in res[:3]: ctx.samples.append(dict(config=cfg, broken=mut[0][1], chart=topo.describe(mut[0][2])))

def replay(ctx):
    d = ctx.replay; T = topo.Topo.from_json(d['chart']); ok, msg = compile_(ctx, 'r', HEAD + lite(T, 'm', d['form']), d['cfg'])
    print('compiles' if ok else msg[-2000:])
    if ok == (d['kind'] == 'accepted'): raise Violation(d.get('what', 'does not compile'), d)
