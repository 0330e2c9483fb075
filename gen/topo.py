"""Random state charts: generation, C++ emission, description for the reference model."""
import json, random

class Topo:
    """states: list of dict(parent, region, hist, simple, regions:[init], reacts:[...], tags)
       init: (mode, state) ; mode 0 plain 1 shallow 2 deep."""
    def __init__(self): self.states = []; self.nev = 4; self.translator = 'none'; self.opts = {}

    # ---- structure helpers
    def chain(self, s):
        r = []
        while s >= 0:
            r.append(s); s = self.states[s]['parent']
        return r            # s, parent, ..., outermost
    def contexts(self, s): return self.chain(s)[1:] + [-1]
    def children(self, s, r=None):
        return [i for i, x in enumerate(self.states) if x['parent'] == s and (r is None or x['region'] == r)]
    def legal_dest(self, src, dst):
        cs, cd = self.contexts(src), self.contexts(dst)
        lca = next(c for c in cs if c in cd)
        a = src if lca == cs[0] else cs[cs.index(lca) - 1]
        b = dst if lca == cd[0] else cd[cd.index(lca) - 1]
        ra, rb = self.states[a]['region'], self.states[b]['region']
        return lca, ra == rb
    def to_json(self):
        return json.dumps({'states': self.states, 'nev': self.nev, 'translator': self.translator, 'opts': self.opts, 'initial': self.initial})
    @staticmethod
    def from_json(t):
        d = json.loads(t); T = Topo(); T.states = d['states']; T.nev = d['nev']; T.translator = d['translator']; T.opts = d['opts']; T.initial = d['initial']
        T.number(); return T
    def number(self):
        """gives every reaction its action / custom ids"""
        a = c = 0
        for s in self.states:
            for r in s['reacts']:
                if r['kind'] == 'cust':
                    r['cust'] = c; c += 1
                    for alt in r['alts']:
                        alt['act'] = -1
                        if alt['ctx'] != -2: alt['act'] = a; a += 1
                else:
                    r['act'] = -1
                    if r.get('ctx', -2) != -2: r['act'] = a; a += 1
        assert a < 400 and c < 390
        self.nact, self.ncust = a, c

DEF = dict(n=(5, 10), depth=4, orth=0.45, maxreg=3, sibs=(1, 3), simple=0.3, hist=0.0, hinit=0.0, hdest=0.0, nev=(3, 5),
           w=dict(tr=5, isr=1, term=0.6, defer=0.6, cust=3), reacts=(1, 4), evbase=0.06, action=0.4, alts=(1, 3),
           translator=['none'], exreact=0.0, relaxed=False, commonact=False, single=0.3, queries=False, slots=True, deepctx=False, tops=(1, 3), histmodes=[1, 2, 3], tags=0.0, dterm=0.0, deepen=0.0)

def gen(rng, **kw):
    P = dict(DEF); P.update(kw)
    for attempt in range(200):
        T = _gen(rng, P)
        if T: return T
    raise RuntimeError('no chart')

def _gen(rng, P):
    T = Topo()
    lo, hi = P['n']; target = rng.randint(lo, hi)
    T.nev = rng.randint(*P['nev']); T.translator = rng.choice(P['translator'])
    if P['dterm'] and rng.random() < P['dterm']: T.opts['dterm'] = 1      # the machine's destructor terminates it, as the FAQ advises
    S = T.states
    def new(parent, region):
        S.append(dict(parent=parent, region=region, hist=0, simple=rng.random() < P['simple'], regions=[], reacts=[], tags=0, single=rng.random() < P['single']))
        return len(S) - 1
    for _ in range(rng.randint(*P['tops'])): new(-1, 0)
    guard = 0
    while len(S) < target and guard < 100:
        guard += 1
        # pick a childless state to make composite
        c = [i for i, s in enumerate(S) if not s['regions'] and len(T.chain(i)) < P['depth']]
        if not c: break
        # prefer deeper / earlier (initial) states
        p = rng.choice(c)
        if P['deepen'] and rng.random() < P['deepen']: p = max(c, key=lambda i: (len(T.chain(i)), rng.random()))
        nreg = 1
        inh_deep = any(S[a]['hist'] & 2 for a in T.chain(p)[1:])
        if rng.random() < P['orth'] and not inh_deep: nreg = rng.randint(2, P['maxreg'])
        if rng.random() < P['hist']: S[p]['hist'] = rng.choice(P['histmodes'])
        for r in range(nreg):
            k = rng.randint(*P['sibs'])
            ids = [new(p, r) for _ in range(k)]
            mode = 0
            if rng.random() < P['hinit']:
                if S[p]['hist'] == 1: mode = 1
                elif S[p]['hist'] == 2: mode = 2
                elif S[p]['hist'] == 3: mode = rng.choice([1, 2])
            S[p]['regions'].append([mode, rng.choice(ids)])
    if len(S) > 40: return None
    T.initial = rng.choice(T.children(-1))
    if rng.random() < 0.7:   # prefer a composite initial state
        comp = [c for c in T.children(-1) if S[c]['regions']]
        if comp: T.initial = rng.choice(comp)
    for s in S:
        if rng.random() < P['tags']: s['tags'] = rng.randint(1, 7)
    W = P['w']; kinds = list(W); weights = [W[k] for k in kinds]
    def dest(i):
        """a legal destination (mode, state)"""
        order = list(range(len(S))); rng.shuffle(order)
        if rng.random() < 0.12: order.insert(0, i)
        for d in order:
            lca, ok = T.legal_dest(i, d)
            if not ok: continue
            mode = 0
            par = S[d]['parent']
            if par >= 0 and S[par]['hist'] and rng.random() < P['hdest']:
                h = S[par]['hist']; mode = 1 if h == 1 else 2 if h == 2 else rng.choice([1, 2])
            return [mode, d], lca
        return None
    def actctx(i, lca):
        """context for a transition action: lca or outside (any from source on when relaxed), -1 machine, -2 none"""
        if rng.random() >= P['action']: return -2
        full = [i] + T.contexts(i)
        if P['commonact']: return lca
        return rng.choice(full if P['relaxed'] else full[full.index(lca):])
    for i, s in enumerate(S):
        for _ in range(rng.randint(*P['reacts'])):
            kind = rng.choices(kinds, weights)[0]
            ev = rng.randrange(T.nev)
            if rng.random() < P['evbase']: ev = -1
            elif T.translator != 'none' and rng.random() < P['exreact']:
                ev = rng.choice({'any': [22], 'x0': [20], 'sel': [20, 21]}[T.translator])
            if kind == 'cust' and any(r['kind'] == 'cust' and r['ev'] == ev for r in s['reacts']): continue
            if kind == 'tr':
                d, lca = dest(i); s['reacts'].append(dict(kind='tr', ev=ev, dest=d, ctx=actctx(i, lca)))
            elif kind == 'isr':
                ctx = -2 if rng.random() < 0.3 else rng.choice([i] + T.contexts(i))
                s['reacts'].append(dict(kind='isr', ev=ev, ctx=ctx))
            elif kind in ('term', 'defer'): s['reacts'].append(dict(kind=kind, ev=ev))
            else:
                alts = []
                for _ in range(rng.randint(*P['alts'])):
                    d, lca = dest(i); alts.append(dict(dest=d, ctx=actctx(i, lca)))
                s['reacts'].append(dict(kind='cust', ev=ev, alts=alts))
    T.opts.update(queries=P['queries'], slots=P['slots'])
    T.number()
    return T

# ------------------------------------------------------------------ emission
EVN = {20: 'ev::X0', 21: 'ev::X1', 22: 'sc::exception_thrown', -1: 'sc::event_base'}
def evname(e): return EVN[e] if e in EVN else 'ev::E%d' % e
def ctxname(c): return 'Machine' if c == -1 else 'S%d' % c
def destname(d): return ['S%d', 'sc::shallow_history< S%d >', 'sc::deep_history< S%d >'][d[0]] % d[1]

def slots(T):
    """history slots that can be cleared: (kind 1 shallow/2 deep, state, region)"""
    r = []
    for i, s in enumerate(T.states):
        for k in (1, 2):
            if s['hist'] & k:
                for g in range(len(s['regions'])): r.append((k, i, g))
    return r

def describe(T):
    o = ['nev %d' % T.nev, 'translator %s' % T.translator, 'initial %d' % T.initial] + (['dterm'] if T.opts.get('dterm') else [])
    for i, s in enumerate(T.states):
        o.append('state %d %d %d %d %d %d %s' % (i, s['parent'], s['region'], s['hist'], int(s['simple']), len(s['regions']), ' '.join('%d %d' % tuple(x) for x in s['regions'])))
    for i, s in enumerate(T.states):
        for r in s['reacts']:
            d = r.get('dest', [0, -1])
            o.append('react %d %s %d %d %d %d %d %d' % (i, r['kind'], r['ev'], d[0], d[1], r.get('ctx', -2), r.get('act', -1), r.get('cust', -1)))
            for a in r.get('alts', []):
                o.append('alt %d %d %d %d %d' % (r['cust'], a['dest'][0], a['dest'][1], a['ctx'], a['act']))
    for k, i, g in slots(T): o.append('slot %d %d %d' % (k, i, g))
    return '\n'.join(o) + '\n'

def emit(T, ns, alloc='std::allocator< sc::none >', register=True, async_=False, extra=None, form='list', split=0, misuse=False):
    S = T.states; o = []
    mis = lambda hook: 'h::misHook< Cfg >(*this, %s); ' % hook if misuse else ''
    def seq(i, items):
        f = form if form != 'mixed' else ('list', 'vector')[i % 2]
        return ('mpl::%s< %s >' % (f, ', '.join(items))) if items else 'mpl::%s<>' % f
    def one(i, s): return {'list': s['single'], 'vector': False, 'mixed': not s['single']}[form]
    w = o.append
    acts = {}          # ctx -> [(act, ev)]
    for s in S:
        for r in s['reacts']:
            if r.get('act', -1) >= 0: acts.setdefault(r['ctx'], []).append((r['act'], r['ev']))
            for a in r.get('alts', []):
                if a['act'] >= 0: acts.setdefault(a['ctx'], []).append((a['act'], r['ev']))
    # some actions are members of a base class of their context (which has to lie at or outside the common context)
    based = set()
    def maybe(i, a, kind):
        if a.get('act', -1) < 0 or a['ctx'] == -2 or (a['act'] * 7 + T.nact) % 5: return
        if kind == 'isr': based.add(a['act']); return
        full = [i] + T.contexts(i)
        if full.index(a['ctx']) >= full.index(T.legal_dest(i, a['dest'][1])[0]): based.add(a['act'])
    for i, s in enumerate(S):
        for r in s['reacts']:
            for a in [r] + r.get('alts', []): maybe(i, a, 'isr' if r['kind'] == 'isr' else 'tr')
    actcls = lambda c, a: ('B' if a in based else '') + ctxname(c)
    def emitbases():
        for c in sorted(acts):
            if any(a in based for a, e in acts[c]): w('struct B%s {' % ctxname(c)); [w('  void a%d(const %s& e);' % (a, evname(e))) for a, e in acts[c] if a in based]; w('};')
    hasbase = lambda c: ', B' + ctxname(c) if any(a in based for a, e in acts.get(c, [])) else ''
    trans = {'none': 'sc::null_exception_translator', 'any': 'sc::exception_translator<>', 'x0': 'sc::exception_translator< ev::X0 >', 'sel': 'h::SelTranslator'}[T.translator]
    w('namespace %s {' % ns)
    w('struct Cfg;')
    w('struct Machine;')
    for i in range(len(S)): w('struct S%d;' % i)
    emitbases()
    base = 'sc::asynchronous_state_machine< Machine, S%d, sc::fifo_scheduler<>, %s, %s >' if async_ else 'sc::state_machine< Machine, S%d, %s, %s >'
    base = base % (T.initial, alloc, trans)
    anyTags = any(s['tags'] for s in S)
    w('struct Machine : %s%s%s {' % (base, ', h::Tag0, h::Tag1, h::Tag2' if anyTags else '', hasbase(-1)))
    w('  typedef ns_cfg_fwd_%s Cfg;' % ns if False else '  typedef %s::Cfg Cfg;' % ns)
    w('  h::Rt* rt; int pser;'); dt = 'h::dyingTerminate(*this); ' if T.opts.get('dterm') else ''
    if async_:
        w('  Machine(my_context ctx) : %s(ctx), rt(h::cur), pser(0) { h::asyncBorn(*this); }' % base)
        w('  ~Machine() { h::cur = rt; %srt->destroying = true; h::asyncDied(*this); }' % dt)
    else:
        w('  Machine() : rt(0), pser(0) {}')
        w('  ~Machine() { if (rt) { %srt->destroying = true; } H_DYING }' % dt)
    w('  using %s::post_event;' % ('sc::state_machine< Machine, S%d, %s, %s >' % (T.initial, alloc, trans)))
    if not T.opts.get('nounc'): w('  void unconsumed_event(const sc::event_base& e) { h::unconsHook<Cfg>(*this, e); %s}' % mis('h::HK_UNCONS'))
    for a, e in acts.get(-1, []): a in based or w('  void a%d(const %s& e);' % (a, evname(e)))
    w('};')
    order = sorted(range(len(S)), key=lambda i: (len(T.chain(i)), i))
    for i in order:
        s = S[i]
        par = ctxname(s['parent'])
        ctx = par
        if s['region'] > 0 or (s['parent'] >= 0 and (i % 3 == 0)): ctx = '%s::orthogonal< %d >' % (par, s['region'])
        args = 'S%d, %s' % (i, ctx)
        if s['regions']:
            items = [destname(x) for x in s['regions']]
            if len(items) == 1 and s['regions'][0][0] == 0 and one(i, s): args += ', ' + items[0]
            else: args += ', ' + seq(i, items)
        elif s['hist']: args += ', ' + seq(i, [])
        if s['hist']: args += ', sc::' + ['', 'has_shallow_history', 'has_deep_history', 'has_full_history'][s['hist']]
        tags = ''.join(', h::Tag%d' % t for t in range(3) if s['tags'] >> t & 1)
        b = 'sc::%s< %s >' % ('simple_state' if s['simple'] else 'state', args)
        w('struct S%d : %s, h::Probe%s%s {' % (i, b, tags, hasbase(i)))
        w('  enum { stno = %d };' % i)
        for a, e in acts.get(i, []): a in based or w('  void a%d(const %s& e);' % (a, evname(e)))
        for r in s['reacts']:
            if r['kind'] == 'cust': w('  sc::result react(const %s& e);' % evname(r['ev']))
        rl = []
        for r in s['reacts']:
            k, e = r['kind'], evname(r['ev'])
            if k == 'tr':
                rl.append('sc::transition< %s, %s%s >' % (e, destname(r['dest']), '' if r['ctx'] == -2 else ', %s, &%s::a%d' % (actcls(r['ctx'], r['act']), actcls(r['ctx'], r['act']), r['act'])))
            elif k == 'isr':
                rl.append('sc::in_state_reaction< %s%s >' % (e, '' if r['ctx'] == -2 else ', %s, &%s::a%d' % (actcls(r['ctx'], r['act']), actcls(r['ctx'], r['act']), r['act'])))
            elif k == 'term': rl.append('sc::termination< %s >' % e)
            elif k == 'defer': rl.append('sc::deferral< %s >' % e)
            else: rl.append('sc::custom_reaction< %s >' % e)
        if not rl and form != 'list' and i % 2: w('  typedef %s reactions;' % seq(i, []))
        if rl:
            if len(rl) == 1 and one(i + 1, s): w('  typedef %s reactions;' % rl[0])
            else: w('  typedef %s reactions;' % seq(i + 1, rl))
        chain = T.chain(i)[1:]
        w('  int ctxh() {')
        w('    if (&this->template context< S%d >() != this) h::bad("context<self>");' % i if False else '    if (&context< S%d >() != this) h::bad("context<self>");' % i)
        w('    if (&outermost_context() != &context< Machine >() || (void*)outermost_context().rt->machine != (void*)&outermost_context() || outermost_context().rt != h::cur) h::bad("outermost_context");')
        w('    const S%d& cs = *this; if (&cs.outermost_context() != &outermost_context()) h::bad("const outermost_context");' % i)
        for c in chain: w('    if (&cs.context< S%d >() != &context< S%d >()) h::bad("const context"); if (!h::alive(context< S%d >())) h::bad("context is dead");' % (c, c, c))
        # bases of contexts: the innermost object having the base counts, also the state itself and the machine
        w('    if (&cs.context< S%d >() != this) h::bad("const context<self>");' % i)
        full = [i] + chain
        for t in range(3) if anyTags else []:
            hit = [c for c in full if S[c]['tags'] >> t & 1]
            ref = 'context< S%d >()' % hit[0] if hit else 'outermost_context()'
            w('    if (&context< h::Tag%d >() != static_cast< h::Tag%d* >(&%s)) h::bad("context<base>");' % (t, t, ref))
            w('    if (&cs.context< h::Tag%d >() != static_cast< const h::Tag%d* >(&cs.%s)) h::bad("const context<base>");' % (t, t, ref))
        w('    int x = %d;' % (i + 1))
        for c in chain: w('    x = h::mix(x, context< S%d >().pser);' % c)
        w('    return x; }')
        if misuse and s['simple']:
            sl1 = [(k, c, g) for k, c, g in slots(T)]; slot = 'clear_%s_history< S%d, %d >()' % ('shallow' if sl1[0][0] == 1 else 'deep', sl1[0][1], sl1[0][2]) if sl1 else 'post_event(e0)'
            w('  void misCtor() { H_MIS_CTOR(h::HK_ENTRY + %d, S%d, %s, %s) }' % (i, i, par, slot))
        if s['simple']: w('  S%d() : h::Probe(%d) { h::entrySimple(*this, %d); %s}' % (i, i, i, 'misCtor(); ' if misuse else ''))
        else: w('  S%d(my_context c) : my_base(c), h::Probe(%d) { h::entry< Cfg >(*this, %d, ctxh()); %s}' % (i, i, i, mis('h::HK_ENTRY + %d' % i)))
        w('  ~S%d() { %sh::dtorHook< Cfg >(*this, %d); }' % (i, 'H_MIS_DTOR(1100 + %d, S%d) ' % (i, i) if misuse else '', i))
        w('  void exit() { h::exitHook< Cfg >(*this, %d, ctxh()); %s}' % (i, mis('h::HK_EXIT + %d' % i)))
        w('};')
    sl = slots(T)
    w('struct Cfg {')
    w('  template<class X> static void clear(X& x, int slot) { switch (slot %% %d) {' % max(1, len(sl)))
    if T.opts.get('slots', True):
        for n, (k, i, g) in enumerate(sl):
            w('    case %d: x.template clear_%s_history< S%d, %d >(); break;' % (n, 'shallow' if k == 1 else 'deep', i, g))
    w('    default: break; } }')
    w('  template<class M> static void queries(const M& m, h::QCtx& q) {')
    if T.opts.get('queries'):
        for i in range(len(S)): w('    h::qDown< S%d >(m, %d, q); h::qCast< S%d >(m, %d, q);' % (i, i, i, i))
        w('    h::qTag< h::Tag0 >(m, 1, q); h::qTag< h::Tag1 >(m, 2, q); h::qTag< h::Tag2 >(m, 4, q);')
    w('  }')
    w('  template<class M> static void squeries(const M& m, h::QCtx& q) {')      # the same lookups from a state, for a few states
    if T.opts.get('queries'):
        for i in sorted(set([0, len(S) // 2, len(S) - 1])): w('    h::qDown< S%d >(m, %d, q); h::qCast< S%d >(m, %d, q);' % (i, i, i, i))
        w('    h::qTag< h::Tag0 >(m, 1, q); h::qTag< h::Tag1 >(m, 2, q);')
    w('  }')
    if misuse:
        ws = [i for i in range(len(S)) if S[i]['simple']]
        w('  static void wrongState();')
    w('  static int tags(int st) { static const int t[] = {%s}; return t[st]; }' % ', '.join(str(s['tags']) for s in S))
    w('};')
    if misuse: w(('struct WrongState : S%d { long pad[4]; }; void Cfg::wrongState() { h::arm(); new WrongState; h::missed(); }' % ws[0]) if ws else 'void Cfg::wrongState() { h::arm(); new h::WrongEv; h::missed(); }')
    hdr = len(o); cut = []
    for c, l in sorted(acts.items()):
        for a, e in l:
            cut.append(len(o))
            if a in based: w('void B%s::a%d(const %s& e) { %s& self = static_cast< %s& >(*this); h::actHook< Cfg >(self, %d, self.pser, %d, e); %s}' % (ctxname(c), a, evname(e), ctxname(c), ctxname(c), c, a, mis('h::HK_ACT + %d' % a).replace('*this', 'self')))
            else: w('void %s::a%d(const %s& e) { h::actHook< Cfg >(*this, %d, pser, %d, e); %s}' % (ctxname(c), a, evname(e), c, a, mis('h::HK_ACT + %d' % a)))
    for i, s in enumerate(S):
        for r in s['reacts']:
            if r['kind'] != 'cust': continue
            cut.append(len(o))
            w('sc::result S%d::react(const %s& e) {' % (i, evname(r['ev'])))
            w('  const h::Beh* b = h::reactHook< Cfg >(*this, %d, %d, e, ctxh());' % (i, r['cust']))
            if misuse: w('  H_MIS_REACT(h::HK_REACT + %d, %s)' % (r['cust'], destname(r['alts'][0]['dest']).replace(' ', '')))
            w('  if (!b) return discard_event();')
            w('  switch (b->res) { case \'F\': return forward_event(); case \'D\': return defer_event(); case \'Z\': return terminate();')
            w('  case \'T\': switch (b->arg %% %d) {' % max(1, len(r['alts'])))
            for n, a in enumerate(r['alts']):
                if a['act'] >= 0: w('    case %d: return transit< %s >(&%s::a%d, e);' % (n, destname(a['dest']), actcls(a['ctx'], a['act']), a['act']))
                else: w('    case %d: return transit< %s >();' % (n, destname(a['dest'])))
            w('    default: std::abort(); }')
            w('  default: return discard_event(); } }')
    if extra: w(extra)
    if split:
        cut.append(len(o)); head = '\n'.join(o[:hdr]) + '\n} // namespace\n'; parts = [[] for _ in range(split)]
        for n in range(len(cut) - 1): parts[n % split].append('\n'.join(o[cut[n]:cut[n + 1]]))
        parts = ['namespace %s {\n%s\n}\n' % (ns, '\n'.join(x)) for x in parts]; o = []; w = o.append
    else: w('} // namespace')
    if register:
        w('static h::IMachine* make_%s() { return new h::MachineBox< %s::Machine >; }' % (ns, ns))
        w('static const char desc_%s[] = R"D(%s)D";' % (ns, describe(T)))
        w('static h::RegTopo reg_%s(desc_%s, make_%s);' % (ns, ns, ns))
    if split: parts[0] += '\n'.join(o) + '\n'; return head, parts
    return '\n'.join(o) + '\n'

if __name__ == '__main__':
    import sys
    rng = random.Random(int(sys.argv[1]))
    T = gen(rng, hist=0.5, hinit=0.5, hdest=0.5)
    print('#include "h.hpp"'); print(emit(T, 't0'))
