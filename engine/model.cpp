#include "model.hpp"
#include <cassert>
#include <cstdlib>
namespace h {
const char* featNames[] = {
#define X(n) #n,
FEATS(X)
#undef X
0 };

void Desc::parse(const std::string& t) {
  std::istringstream in(t); std::string line; nact = 0; relaxed = false;
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string k; if (!(l >> k)) continue;
    if (k == "nev") l >> nev;
    else if (k == "translator") l >> translator;
    else if (k == "initial") l >> initial;
    else if (k == "dterm") dterm = true;
    else if (k == "state") {
      StateD s; int id, n, simple; l >> id >> s.parent >> s.region >> s.hist >> simple >> n; s.simple = simple;
      for (int i = 0; i < n; ++i) { int a, b; l >> a >> b; s.init.push_back(std::make_pair(a, b)); }
      assert(id == (int)st.size()); st.push_back(s);
    } else if (k == "react") {
      int sid; std::string kind; ReactD r; l >> sid >> kind >> r.ev >> r.mode >> r.dest >> r.ctx >> r.act >> r.cust;
      r.kind = kind == "tr" ? R_TR : kind == "isr" ? R_ISR : kind == "term" ? R_TERM : kind == "defer" ? R_DEFER : R_CUST;
      st[sid].reacts.push_back(r);
      if (r.act >= nact) nact = r.act + 1;
      if (r.act >= 0) { actKind.resize(std::max<size_t>(actKind.size(), r.act + 1)); actKind[r.act] = r.kind; }
      if (r.kind == R_CUST) { cust.resize(std::max<size_t>(cust.size(), r.cust + 1)); custState.resize(cust.size()); custEv.resize(cust.size()); custState[r.cust] = sid; custEv[r.cust] = r.ev; }
    } else if (k == "alt") {
      int c; Alt a; l >> c >> a.mode >> a.dest >> a.ctx >> a.act; cust.resize(std::max<size_t>(cust.size(), c + 1)); cust[c].push_back(a); if (a.act >= nact) nact = a.act + 1;
      if (a.act >= 0) { actKind.resize(std::max<size_t>(actKind.size(), a.act + 1)); actKind[a.act] = R_TR; }
    } else if (k == "slot") { Slot s; l >> s.kind >> s.st >> s.reg; slots.push_back(s); }
  }
  for (size_t i = 0; i < st.size(); ++i) { int d = 0; for (int p = st[i].parent; p >= 0; p = st[p].parent) ++d; st[i].depth = d; }
}

static int mix(int h, int s) { return (int)(((unsigned)h * 1000003u) ^ (unsigned)(s + 7)); }

void Model::reset() {
  s = MState(); s.outer = -1; s.unstable = -1; s.commonOuter = false; s.full = true; s.cnt.assign(HK_MAX, 0);
  s.serial = s.evid = 0; s.budget = 0; s.hasTrig = false; s.created = false; s.excDepth = 0; s.exitsInTr = 0; s.destroyingFlag = false; s.cleanup = false; s.total = POSTS;
}

enum { ANYTRIG = -77777 };
void Model::emitD(int st, int ser, int ctx, bool flex) {
  if (!flex) {
    if (s.destroyingFlag) emit(Rec{K_DTOR, st, ser, 0, 0, 0}); else emit(Rec{K_DTOR, st, ser, s.cleanup ? (int)ANYTRIG : trigTag(), ctx, 0});
    dtorEffects(st); return;
  }
  std::pair<int,int> k(st, ser);
  std::vector<std::pair<int,int> >::iterator i = std::find(early.begin(), early.end(), k);
  if (i != early.end()) { early.erase(i); return; }
  flexPending.push_back(k); drain();
}
void Model::drain() {
  while (pos < tr->size() && (*tr)[pos].k == K_DTOR) {
    const Rec& g = (*tr)[pos]; std::vector<std::pair<int,int> >::iterator i = std::find(flexPending.begin(), flexPending.end(), std::make_pair(g.a, g.b));
    if (i == flexPending.end()) return; flexPending.erase(i); ++pos; dtorEffects(g.a);
  }
}
void Model::emit(const Rec& r) {
  for (;;) {
    if (pos >= tr->size()) throw Mismatch{pos, r, "the implementation did less than required"};
    const Rec& g = (*tr)[pos];
    if (g == r) { ++pos; return; }
    if (r.k == K_DTOR && r.c == ANYTRIG && g.k == K_DTOR && g.a == r.a && g.b == r.b && g.d == r.d) { ++pos; return; }
    if (g.k == K_DTOR) {
      std::pair<int,int> k(g.a, g.b);
      std::vector<std::pair<int,int> >::iterator i = std::find(flexPending.begin(), flexPending.end(), k);
      if (i != flexPending.end()) { flexPending.erase(i); ++pos; dtorEffects(g.a); continue; }
      if (r.k != K_DTOR && r.k != K_RET && r.k != K_EXC && early.size() < 8) { early.push_back(k); ++pos; dtorEffects(g.a); continue; }
    }
    throw Mismatch{pos, r, "different step"};
  }
}
// what a state does while it is destroyed (not when its machine is already half destroyed): it may still post events and clear history
void Model::dtorEffects(int st) {
  if (s.destroyingFlag) return;
  if (const Beh* b = next(HK_DTOR + st)) effects(b, 5);
}
const Beh* Model::next(int hook) {
  int n = s.cnt[hook]++;
  const std::vector<Beh>& v = T[hook];
  if (v.empty()) return 0;
  return &v[n % v.size()];
}
int Model::trigTag() { return s.hasTrig ? tag(s.trig) : 0; }
int Model::ctxhOf(int st, int par) { int x = st + 1; for (int p = par; p >= 0; p = s.in[p].par) x = mix(x, s.in[p].ser); return x; }
int Model::ctxh(int i) { return ctxhOf(s.in[i].st, s.in[i].par); }

void Model::query(int where) {
  if (s.unstable != -1 || s.excDepth || where < 3) {
    // innermost states that are complete and not being exited are all listed, those being exited may be
    feat(F_query); feat(F_querymid); size_t at = pos;
    std::set<std::pair<int,int> > must, may;
    for (size_t i = 0; i < s.leaves.size(); ++i) (s.in[s.leaves[i]].exiting ? may : must).insert(std::make_pair(s.in[s.leaves[i]].st, s.in[s.leaves[i]].ser));
    if (!must.empty()) feat(F_querymidleaf);
    if (pos >= tr->size() || (*tr)[pos].k != K_NLEAF) throw Mismatch{pos, Rec{K_NLEAF,(int)must.size(),0,0,0,0}, "query group"};
    ++pos;
    for (; pos < tr->size() && (*tr)[pos].k == K_LEAF; ++pos) { std::pair<int,int> k((*tr)[pos].a, (*tr)[pos].b); if (!must.erase(k) && !may.erase(k)) throw Mismatch{at, Rec{K_NLEAF,(int)must.size(),0,0,0,0}, "a state is listed during a transition that is not active, or twice"}; }
    if (!must.empty()) throw Mismatch{at, Rec{K_LEAF, must.begin()->first, must.begin()->second, 0, 0, 0}, "an active innermost state is not listed during a transition"};
    if (pos >= tr->size() || (*tr)[pos].k != K_QUERY || (*tr)[pos].b != 0) throw Mismatch{pos, Rec{K_QUERY,1,0,0,0,0}, "lookup during a transition"};
    ++pos; return;
  }
  feat(F_query); if (s.leaves.size() > 1) feat(F_queryorth);
  emit(Rec{K_NLEAF, (int)s.leaves.size(), 0, 0, 0, 0});
  std::set<std::pair<int,int> > want;
  for (size_t i = 0; i < s.leaves.size(); ++i) want.insert(std::make_pair(s.in[s.leaves[i]].st, s.in[s.leaves[i]].ser));
  for (size_t i = 0; i < s.leaves.size(); ++i) {
    if (pos >= tr->size() || (*tr)[pos].k != K_LEAF || !want.erase(std::make_pair((*tr)[pos].a, (*tr)[pos].b)))
      throw Mismatch{pos, Rec{K_LEAF, want.begin()->first, want.begin()->second, 0, 0, 0}, "active innermost states differ"};
    ++pos;
  }
  emit(Rec{K_QUERY, 1, 0, 0, 0, 0});
}
void Model::clearSlot(int n) {
  if (D.slots.empty()) return; const Slot& sl = D.slots[n % D.slots.size()]; std::pair<int,int> k(sl.st, sl.reg);
  feat(F_clear);
  std::map<std::pair<int,int>, int>& m = sl.kind == 1 ? s.sh : s.dh;
  if (m.erase(k)) { feat(F_clearhit); s.cleared.insert(std::make_pair(sl.kind * 1000 + sl.st, sl.reg)); }
}
void Model::effects(const Beh* b, int where) {
  for (size_t i = 0; i < b->eff.size(); ++i) {
    const Eff& e = b->eff[i];
    switch (e.kind) {
      case 'p': case 'P': case 's': case 'g':
        if (s.budget > 0 && s.total > 0) {
          --s.budget; --s.total; MEv m; m.idx = e.a; m.id = e.kind == 'g' ? 40000 + e.a : s.evid++; m.posted = true; m.wasDeferred = false; m.copied = e.kind == 'p';
          if (!s.q.empty()) feat(F_posted2);
          if (s.hasTrig && s.trig.posted) feat(F_nestpost);
          if (!s.hasTrig) feat(F_postinit);
          feat(F_posted); if (where == 0) feat(F_postentry); if (where == 1) feat(F_postexit); if (where == 2) feat(F_postact); if (where == 4) feat(F_postuncons); if (where == 5) feat(F_postdtor);
          s.q.push_back(m);
        }
        break;
      case 'c': clearSlot(e.a); if (where == 5) feat(F_cleardtor); break;
      case 'q': query(where); break;
      case 'N': feat(F_nested); break;
      case 't': throw Sim{e.a, where};
      default: break;
    }
  }
}

// ---- structure
int Model::nkids(int i) { int n = 0; for (size_t r = 0; r < D.st[s.in[i].st].init.size(); ++r) if (s.in[i].kids[r] >= 0) ++n; return n; }
void Model::detach(int i) {
  int p = s.in[i].par;
  if (p >= 0) { s.in[p].kids[D.st[s.in[i].st].region] = -1; } else if (s.outer == i) s.outer = -1;
}
void Model::destroyInst(int i, bool flex) {
  Inst& x = s.in[i];
  // "If at least one deferral reaction has been triggered during the lifetime of the state
  //  then the deferred events queue is moved to the front of the posted events queue"
  if (x.defer) {
    if (!s.dq.empty()) { feat(F_release); if (s.dq.size() > 1) feat(F_release2); if (!s.q.empty()) feat(F_relfront); }
    s.q.insert(s.q.begin(), s.dq.begin(), s.dq.end()); s.dq.clear();
  } else if (!s.dq.empty()) feat(F_norelease);
  int ctx = ctxh(i);
  detach(i); x.alive = false;
  std::vector<int>::iterator p = std::find(s.leaves.begin(), s.leaves.end(), i);
  if (p != s.leaves.end()) { *p = s.leaves.back(); s.leaves.pop_back(); }   // default order only; order is arbitrary
  emitD(x.st, x.ser, ctx, flex);
}
// the state's exit action threw: it is destroyed while the exception propagates, and so is every outer state that
// is left without inner states and is not the outermost unstable one
void Model::unwound(int i) {
  while (i >= 0 && s.in[i].alive && nkids(i) == 0 && s.unstable != i) { int p = s.in[i].par; destroyInst(i, true); i = p; }
}
void Model::exitSelf(int i) {
  int par = s.in[i].par, st = s.in[i].st; s.in[i].exiting = true;
  if (s.unstable == i || s.unstable == -1) s.unstable = par;
  if (s.full) {
    ++s.exitsInTr;
    emit(Rec{K_EXIT, st, s.in[i].ser, trigTag(), ctxh(i), 0});
    try { if (const Beh* b = next(HK_EXIT + st)) effects(b, 1); }
    catch (Sim&) { int p = s.in[i].par; destroyInst(i, true); if (p >= 0) unwound(p); throw; }
    int r = D.st[st].region;
    if (par >= 0 && (D.st[s.in[par].st].hist & 1)) { s.sh[std::make_pair(s.in[par].st, r)] = st; feat(F_shsave); s.cleared.erase(std::make_pair(1000 + s.in[par].st, r)); }
    if (D.leaf(st))
      for (int y = i; s.in[y].par >= 0; y = s.in[y].par) {
        int p = s.in[y].par;
        if (D.st[s.in[p].st].hist & 2) s.dh[std::make_pair(s.in[p].st, D.st[s.in[y].st].region)] = st;
      }
  }
  destroyInst(i, false);
}
void Model::exitKids(int i) {
  if (nkids(i) > 1) feat(F_orthexit);
  if (D.st[s.in[i].st].init.size() > (size_t)nkids(i) && nkids(i) > 0) feat(F_emptyexit);
  for (int r = (int)D.st[s.in[i].st].init.size() - 1; r >= 0; --r) if (s.in[i].kids[r] >= 0) exitNode(s.in[i].kids[r]);
}
void Model::exitNode(int i) { exitKids(i); exitSelf(i); }

int Model::create(int st, int par) {
  int ser = s.serial++;
  bool simple = D.st[st].simple;
  emit(Rec{K_ENTER, st, ser, simple ? 0 : trigTag(), simple ? 0 : ctxhOf(st, par), 0});
  if (const Beh* b = next(HK_ENTRY + st)) {
    if (simple) { for (size_t i = 0; i < b->eff.size(); ++i) if (b->eff[i].kind == 't') throw Sim{b->eff[i].a, 0}; }
    else effects(b, 0);
  }
  Inst x; x.st = st; x.ser = ser; x.par = par; for (int i = 0; i < 24; ++i) x.kids[i] = -1; x.defer = false; x.alive = true; x.emptied = false; x.exiting = false;
  int i = (int)s.in.size(); s.in.push_back(x);
  int nreg = par >= 0 ? (int)D.st[s.in[par].st].init.size() : 1;
  if (par >= 0) { s.in[par].kids[D.st[st].region] = i; } else s.outer = i;
  if (D.leaf(st)) s.leaves.push_back(i);
  // stable again once the last direct inner state has been constructed
  if (s.commonOuter || (D.st[st].region == nreg - 1 && s.unstable == par)) { s.commonOuter = false; s.unstable = D.leaf(st) ? -1 : i; }
  return i;
}
void Model::enterInner(int i, int from, int to) {
  if (to - from > 1) feat(F_orthenter);
  for (int r = from; r < to; ++r) { const std::pair<int,int>& d = D.st[s.in[i].st].init[r]; enterHist(d.first, d.second, i); }
}
void Model::enterDeep(int st, int par) {
  int i = create(st, par);
  try { enterInner(i, 0, (int)D.st[st].init.size()); }
  catch (Sim&) { unwound(i); throw; }
}
void Model::enterHist(int mode, int st, int par) {
  if (mode == 0) { enterDeep(st, par); return; }
  std::pair<int,int> k(s.in[par].st, D.st[st].region);
  std::map<std::pair<int,int>, int>& m = mode == 1 ? s.sh : s.dh;
  std::map<std::pair<int,int>, int>::iterator f = m.find(k);
  if (f == m.end()) { feat(mode == 1 ? F_shdefault : F_dhdefault); if (s.cleared.count(std::make_pair(mode * 1000 + k.first, k.second))) feat(F_histafterclear); enterDeep(st, par); return; }
  int t = f->second;
  if (mode == 1) { if (t != st) feat(F_shrestore); enterDeep(t, par); return; }
  if (t != st) feat(F_dhrestore);
  std::vector<int> p; for (int x = t; x != s.in[par].st; x = D.st[x].parent) p.insert(p.begin(), x);
  enterPath(p, 0, 0, par);
}
void Model::enterPath(const std::vector<int>& p, size_t k, int mode, int par) {
  if (k + 1 == p.size()) { enterHist(mode, p[k], par); return; }
  int i = create(p[k], par);
  try {
    int n = (int)D.st[p[k]].init.size(), r = D.st[p[k + 1]].region;
    if (n > 1) feat(F_orthdest);
    enterInner(i, 0, r); enterPath(p, k + 1, mode, i); enterInner(i, r + 1, n);
  } catch (Sim&) { unwound(i); throw; }
}
int Model::findUp(int i, int st) { while (i >= 0 && s.in[i].st != st) i = s.in[i].par; return i; }

void Model::action(int ctxSt, int act, const MEv& e, int from) {
  int i = ctxSt == -1 ? -1 : findUp(from, ctxSt);
  int ser = i >= 0 ? s.in[i].ser : 0;
  feat(F_action);
  emit(Rec{K_ACT, act, ctxSt * 1000000 + ser, tag(e), trigTag(), 0});
  if (const Beh* b = next(HK_ACT + act)) effects(b, 2);
}
void Model::transit(int i, int mode, int dest, int ctx, int act, const MEv& e) {
  int st = s.in[i].st;
  std::vector<int> cs = ctxs(st), cd = ctxs(dest);
  size_t p = 0; while (std::find(cd.begin(), cd.end(), cs[p]) == cd.end()) ++p;
  int lca = cs[p]; int termSt = p == 0 ? st : cs[p - 1];
  int term = findUp(i, termSt), lcaInst = s.in[term].par;
  // coverage
  feat(F_transit); if (dest == st) feat(F_selftr); if (p > 0) feat(F_cross);
  if (std::find(cs.begin(), cs.end(), dest) != cs.end()) feat(F_toanc);
  if (std::find(cd.begin(), cd.end(), st) != cd.end()) feat(F_todesc);
  if (lcaInst >= 0 && nkids(lcaInst) > 1) feat(F_regionlocal);
  if (ctx != -2 && ctx != lca) feat(F_actouter);
  s.exitsInTr = 0;
  std::vector<int> path; for (int x = dest; ; x = D.st[x].parent) { path.insert(path.begin(), x); if (D.st[x].parent == lca) break; }
  if (path.size() > 2) feat(F_deepenter);
  MEv ev = e;
  bool done = false;
  if (D.relaxed && ctx != -2) {
    std::vector<int> full(cs); full.insert(full.begin(), st);
    size_t cpn = std::find(full.begin(), full.end(), ctx) - full.begin();
    if (cpn == 0 && D.leaf(st)) { feat(F_relaxedin); feat(F_relaxedsrc); action(ctx, act, ev, i); s.commonOuter = false; exitNode(term); s.commonOuter = true; done = true; }
    else if (cpn < p + 1) {
      feat(F_relaxedin); if (cpn == 0) feat(F_relaxedsrc); else feat(F_relaxedmid);
      int c = findUp(i, ctx);
      s.commonOuter = false; exitKids(c); s.commonOuter = true;
      action(ctx, act, ev, c);
      s.commonOuter = false; exitNode(term); s.commonOuter = true; done = true;
    }
  }
  if (!done) { s.commonOuter = false; exitNode(term); s.commonOuter = true; if (ctx != -2) action(ctx, act, ev, lcaInst); }
  if (s.exitsInTr > 2) feat(F_exitorder3);
  enterPath(path, 0, mode, lcaInst);
}
void Model::outward(int par) { while (par >= 0 && nkids(par) == 0) { int p = s.in[par].par; feat(F_termcascade); exitSelf(par); par = p; } }
void Model::termReact(int i) {
  feat(F_term);
  int par = s.in[i].par;
  if (par >= 0 && nkids(par) > 1) feat(F_termorth);
  s.commonOuter = false;
  exitNode(i); outward(par);
  if (s.outer < 0) feat(F_termall); else feat(F_emptyregion);
  s.unstable = -1;
}
enum { RR_NONE, RR_FWD, RR_DISCARD, RR_DEFER };
int Model::localReact(int i, const MEv& e) {
  const std::vector<ReactD>& L = D.st[s.in[i].st].reacts;
  for (size_t n = 0; n < L.size(); ++n) {
    const ReactD& r = L[n];
    if (r.ev != -1 && r.ev != e.idx) continue;
    if (n > 0) feat(F_listpos); if (r.ev == -1) feat(F_evbase);
    for (size_t m = n + 1; m < L.size(); ++m) if (L[m].ev == -1 || L[m].ev == e.idx) feat(F_dupmatch);
    switch (r.kind) {
      case R_TR: transit(i, r.mode, r.dest, r.ctx, r.act, e); return RR_DISCARD;
      case R_ISR: feat(F_isr); if (r.ctx != -2) action(r.ctx, r.act, e, i); return RR_DISCARD;
      case R_TERM: termReact(i); return RR_DISCARD;
      case R_DEFER: s.in[i].defer = true; return RR_DEFER;
      case R_CUST: {
        feat(F_custom);
        emit(Rec{K_REACT, r.cust, s.in[i].st * 1000000 + s.in[i].ser, tag(e), trigTag(), ctxh(i)});
        const Beh* b = next(HK_REACT + r.cust);
        if (!b) return RR_DISCARD;
        effects(b, 3);
        switch (b->res) {
          case 'F': feat(F_forward); return RR_FWD;
          case 'D': s.in[i].defer = true; return RR_DEFER;
          case 'Z': termReact(i); return RR_DISCARD;
          case 'T': { const Alt& a = D.cust[r.cust][b->arg % D.cust[r.cust].size()]; transit(i, a.mode, a.dest, a.ctx, a.act, e); return RR_DISCARD; }
          default: return RR_DISCARD;
        }
      }
    }
  }
  return RR_FWD;
}
int Model::reactFrom(int i, const MEv& e) {
  bool first = true;
  while (i >= 0) {
    int up = s.in[i].par;
    int r = localReact(i, e);
    if (r != RR_FWD) { if (!first) feat(F_outward); return r; }
    i = up; first = false;
  }
  return RR_FWD;
}
void Model::terminateImpl(bool full) {
  s.full = true;
  if (s.outer >= 0) { s.commonOuter = false; s.full = full; try { exitNode(s.outer); } catch (...) { s.full = true; throw; } s.full = true; }
  if (!s.q.empty()) feat(F_qdropped); if (!s.sh.empty() || !s.dh.empty()) feat(F_histdropped);
  s.q.clear(); s.dq.clear(); s.sh.clear(); s.dh.clear(); s.cleared.clear();
}
template<class Fn> int Model::guarded(Fn f, int leaf) {
  try { return f(); }
  catch (Sim& x) {
    int ex = -1;
    if (D.translator == "any") ex = EXT; else if (D.translator == "x0") ex = EX0;
    else if (D.translator == "sel") ex = x.k == 0 ? EX0 : x.k == 1 ? EX1 : -1;
    switch (x.where) { case 0: feat(F_excentry); break; case 1: feat(F_excexit); break; case 2: feat(F_excact); break; case 3: feat(F_excreact); break; }
    if (ex < 0) { if (D.translator != "none") feat(F_excnotranslated); throw; }
    return handle(ex, x, leaf);
  }
}
int Model::handle(int ex, const Sim& x, int leaf) {
  if (s.outer < 0) throw x;
  MEv saved = s.trig; bool had = s.hasTrig;
  MEv e; e.idx = ex; e.id = ex == EXT ? -9 : ex == EX0 ? -7 : -8; e.posted = e.wasDeferred = false;
  s.trig = e; s.hasTrig = true; s.full = false; ++s.excDepth;
  int hs = s.unstable == -1 ? leaf : s.unstable;
  feat(s.unstable == -1 ? F_excstable : F_excunstable);
  int r;
  try { r = reactFrom(hs, e); } catch (Sim&) { s.trig = saved; s.hasTrig = had; --s.excDepth; feat(F_excnested); throw; }
  s.trig = saved; s.hasTrig = had; s.full = true; --s.excDepth;
  if (r == RR_FWD) feat(F_excnoreact); if (r == RR_DEFER) feat(F_excdeferred);
  if (r != RR_DISCARD || s.unstable != -1) { if (r == RR_DISCARD) feat(F_excstillunstable); throw x; }
  feat(F_exchandled);
  return RR_DISCARD;
}
int Model::send(const MEv& e) {
  MEv saved = s.trig; bool had = s.hasTrig; s.trig = e; s.hasTrig = true;
  int res = RR_FWD;
  try {
    std::vector<int> rest = s.leaves; bool first = true;
    if (rest.size() > 2) feat(F_orthleaves3);
    while (res == RR_FWD && !rest.empty()) {
      int k = rest.size() > 1 ? choose((int)rest.size()) : 0;
      int leaf = rest[k]; rest.erase(rest.begin() + k);
      if (!first) feat(F_nextleaf); first = false;
      Model* self = this;
      res = guarded([self, leaf, &e]() { return self->reactFrom(leaf, e); }, leaf);
    }
  } catch (Sim&) { feat(F_excunhandled); s.cleanup = true; terminateImpl(false); s.cleanup = false; s.trig = saved; s.hasTrig = had; throw; }
  if (res == RR_FWD) {
    feat(F_uncons); if (s.outer < 0) feat(F_unconsterm);
    emit(Rec{K_UNCONS, e.idx, tagId(e), 0, 0, 0});
    try { if (const Beh* b = next(HK_UNCONS)) effects(b, 4); }
    catch (Sim&) { feat(F_unconsthrow); s.trig = saved; s.hasTrig = had; throw; }
  }
  s.trig = saved; s.hasTrig = had;
  return res;
}
void Model::processQueue() {
  while (!s.q.empty()) { MEv e = s.q.front(); s.q.pop_front(); if (send(e) == RR_DEFER) { feat(F_defer); if (e.wasDeferred) feat(F_redefer); e.wasDeferred = true; s.dq.push_back(e); } }
}
void Model::processEvent(const MEv& e) {
  if (send(e) == RR_DEFER) { feat(F_defer); MEv d = e; d.wasDeferred = true; if (d.stack) d.copied = true; d.stack = false; s.dq.push_back(d); }
  processQueue();
}
void Model::terminate() {
  MEv saved = s.trig; bool had = s.hasTrig; s.hasTrig = false;
  Model* self = this;
  try { guarded([self]() { self->terminateImpl(true); return (int)RR_DISCARD; }, -1); }
  catch (Sim&) { feat(F_excunhandled); s.cleanup = true; terminateImpl(false); s.cleanup = false; s.trig = saved; s.hasTrig = had; throw; }
  s.trig = saved; s.hasTrig = had;
}
void Model::initiate() {
  if (s.outer >= 0) feat(F_restartbusy);
  terminate();
  // a handled exception from an exit action may have left the machine running: those states must go
  if (s.outer >= 0) { feat(F_initrecovered); s.cleanup = true; terminateImpl(false); s.cleanup = false; }
  MEv saved = s.trig; bool had = s.hasTrig; s.hasTrig = false;
  Model* self = this;
  try { guarded([self]() { self->enterDeep(self->D.initial, -1); return (int)RR_DISCARD; }, -1); }
  catch (Sim&) { feat(F_excunhandled); s.cleanup = true; terminateImpl(false); s.cleanup = false; s.trig = saved; s.hasTrig = had; throw; }
  s.trig = saved; s.hasTrig = had;
  processQueue();
}
void Model::runOp(const Rec& op) {
  int exc = -1;
  s.budget = 10;
  try {
    switch (op.a) {
      case 'N': s.created = true; break;
      case 'I': if (s.serial > 0) feat(F_restart); initiate(); break;
      case 'T': feat(F_terminate); terminate(); break;
      case 'E': { MEv e; e.idx = op.b; e.id = op.c == 3 ? 40000 + op.b : s.evid++; e.posted = e.wasDeferred = false; e.stack = op.c == 0; processEvent(e); break; }
      case 'P': { MEv e; e.idx = op.b; e.id = op.c == 3 ? 40000 + op.b : s.evid++; e.posted = true; e.wasDeferred = false; e.copied = op.c == 0; s.q.push_back(e); break; }
      case 'C': clearSlot(op.b); break;
      case 'K':
        feat(F_destroy); if (s.outer >= 0) feat(F_destroybusy);
        if (D.dterm) { try { terminate(); } catch (Sim& x) { emit(Rec{K_EXC, x.k, 0, 0, 0, 0}); } }
        s.destroyingFlag = true; terminateImpl(false); s.created = false; s.destroyingFlag = false; break;
    }
  } catch (Sim& x) { exc = x.k; }
  if (exc >= 0) emit(Rec{K_EXC, exc, 0, 0, 0, 0}); else emit(Rec{K_RET, 0, 0, 0, 0, 0});
  // trailing destructions are not allowed; unwound ones must have happened by now
  if (!flexPending.empty()) throw Mismatch{pos, Rec{K_DTOR, flexPending[0].first, flexPending[0].second, 0, 0, 0}, "a state left during exception propagation was not destroyed"};
  if (!early.empty()) throw Mismatch{pos, Rec{K_DTOR, early[0].first, early[0].second, 0, 0, 0}, "a state was destroyed that had to stay"};
  if (op.a == 'K') return;
  emit(Rec{K_TERMD, s.outer < 0 ? 1 : 0, 0, 0, 0, 0});
  emit(Rec{K_TRIG, 0, 0, 0, 0, 0});
  emit(Rec{K_NLEAF, (int)s.leaves.size(), 0, 0, 0, 0});
  // adopt the implementation's (arbitrary) order of innermost states
  std::vector<int> ord;
  for (size_t i = 0; i < s.leaves.size(); ++i) {
    const Rec& g = pos < tr->size() ? (*tr)[pos] : Rec{0,0,0,0,0,0};
    int f = -1;
    if (g.k == K_LEAF) for (size_t j = 0; j < s.leaves.size(); ++j) if (s.in[s.leaves[j]].st == g.a && s.in[s.leaves[j]].ser == g.b && std::find(ord.begin(), ord.end(), s.leaves[j]) == ord.end()) f = s.leaves[j];
    if (f < 0) { int w = s.leaves[i]; throw Mismatch{pos, Rec{K_LEAF, s.in[w].st, s.in[w].ser, 0, 0, 0}, "active innermost states differ"}; }
    ord.push_back(f); ++pos;
  }
  s.leaves = ord;
  if (useQueries) emit(Rec{K_QUERY, 1, 0, 0, 0, 0});
}

Verdict Model::run(const std::vector<Rec>& trace, bool queries) {
  Verdict v; v.ok = true; v.inconclusive = false; v.paths = 0; v.pos = 0; v.want = v.got = Rec{0,0,0,0,0,0};
  tr = &trace; pos = 0; useQueries = queries;
  while (pos < trace.size()) {
    if (trace[pos].k != K_OP) { v.ok = false; v.pos = pos; v.got = trace[pos]; v.why = "unexpected step between operations"; v.f = s.f; return v; }
    MState save = s; size_t pos0 = pos; path.clear(); width.clear();
    bool done = false; Mismatch best = Mismatch{0, Rec{0,0,0,0,0,0}, ""}; int tries = 0;
    while (!done) {
      cp = 0; pos = pos0 + 1; flexPending.clear(); early.clear();
      ++v.paths; ++tries;
      try { runOp(trace[pos0]); done = true; }
      catch (Mismatch& m) {
        if (m.pos >= best.pos) best = m;
        s = save;
        path.resize(cp); width.resize(cp);
        while (!path.empty() && path.back() + 1 >= width.back()) { path.pop_back(); width.pop_back(); }
        if (path.empty() || tries > 20000) {
          v.ok = false; v.inconclusive = !path.empty(); v.pos = best.pos; v.want = best.want; v.why = best.why;
          v.got = best.pos < trace.size() ? trace[best.pos] : Rec{0,0,0,0,0,0}; v.f = s.f; return v;
        }
        ++path.back();
      }
    }
    if (s.in.size() > 400 && s.outer < 0) { s.in.clear(); }
  }
  v.f = s.f; return v;
}
}
