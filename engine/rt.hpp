// Runtime behind the hooks of generated charts, shared by the harnesses that run them. The includer defines h::note, h::queryMachine and h::nestedOp.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP
#include "h.hpp"
#include "model.hpp"
#include <set>
#include <unistd.h>
namespace h {
H_TL int own = 0, entryNo = 0, throwEntry = 0, postNo = 0, throwPost = 0, inPost = 0;
void note(const char* m);
H_TL Rt* cur = 0;
#ifdef H_THREADS
std::atomic<int> evLive(0);
#else
int evLive = 0;
#endif
std::vector<TopoReg>& registry() { static std::vector<TopoReg> r; return r; }
static const size_t TRACE_CAP = 3000000;
void rec(int k, int a, int b, int c, int d, int e) {
  Own o;
  cur->trace.push_back(Rec{k, a, b, c, d, e});
  if (cur->trace.size() > TRACE_CAP) { note("runaway: the operation does not end"); _exit(44); }
}
void bad(const char* why) { Own o; note(why); if (cur) cur->trace.push_back(Rec{K_BAD, 0, 0, 0, 0, 0}); }
int newSerial() { return cur->serial++; }
int newEventId() { return cur ? cur->evid++ : 0; }
void born(Probe& p, void* self) { Own o; cur->live[p.pser] = LiveObj{p.pst, self, &p}; }
void died(Probe& p) { if (!p.prt || !p.prt->live.erase(p.pser)) bad("destroyed twice or never created"); }
bool alive(const Probe& p) { if (!p.prt) return false; std::map<int, LiveObj>::iterator i = p.prt->live.find(p.pser); return i != p.prt->live.end() && i->second.probe == &p; }
Probe::~Probe() { if (prt) { std::map<int, LiveObj>::iterator i = prt->live.find(pser); if (i != prt->live.end() && i->second.probe == this) prt->live.erase(i); } canary = 0; prt = 0; }
const void* liveOf(int st, int& n) { const void* r = 0; n = 0; for (auto& x : cur->live) if (x.second.st == st) { r = x.second.addr; ++n; } return r; }
int liveTagged(int mask) { int n = 0; for (auto& x : cur->live) if (dynamic_cast<const Probe*>((const Probe*)x.second.probe)) {
    const Probe* p = (const Probe*)x.second.probe;
    if ((mask & 1 && dynamic_cast<const Tag0*>(p)) || (mask & 2 && dynamic_cast<const Tag1*>(p)) || (mask & 4 && dynamic_cast<const Tag2*>(p))) ++n; }
  return n; }
const Beh* nextBeh(int hook) { int n = cur->cnt[hook]++; const std::vector<Beh>& v = (*cur->tab)[hook]; return v.empty() ? 0 : &v[n % v.size()]; }
H_TL int viewOk = 1, viewMid = 1; H_TL std::vector<const Probe*>* view = 0; H_TL std::set<int>* reach = 0;
bool reachable(int st) { if (!reach) return true; for (auto& x : cur->live) if (x.second.st == st && reach->count(x.first)) return true; return false; }
int reachTagged(int mask) { int n = 0; for (auto& x : cur->live) if (!reach || reach->count(x.first)) if (dynamic_cast<const Probe*>((const Probe*)x.second.probe)) {
    const Probe* p = (const Probe*)x.second.probe;
    if ((mask & 1 && dynamic_cast<const Tag0*>(p)) || (mask & 2 && dynamic_cast<const Tag1*>(p)) || (mask & 4 && dynamic_cast<const Tag2*>(p))) ++n; }
  return n; }
void recQuery(IMachine* m) { std::string why; bool mid = true; bool ok = m->queries(why, &mid); if (!mid) note(why.c_str()); rec(K_QUERY, ok && viewOk ? 1 : 0, mid && viewMid ? 0 : 1); }
void recView(const std::vector<const Probe*>& v) { for (auto p : v) rec(K_LEAF, p ? p->pst : -1, p ? p->pser : -1); if (view && *view != v) viewOk = viewMid = 0; }
static std::map<int, EvPtr> sharedEvs;
EvPtr sharedEvent(int idx) {
  Own o;
  EvPtr& p = sharedEvs[idx];
  if (!p) {
    switch (idx) {
#define X(N) case N: { Rt* s = cur; cur = 0; ev::E##N* e = new ev::E##N; cur = s; e->id = 40000 + N; p = EvPtr(e); break; }
      X(0) X(1) X(2) X(3) X(4) X(5)
#undef X
    }
  }
  return p;
}
struct PostScope { PostScope(bool sh) { if (++postNo == throwPost) { if (!sh) ++cur->evid; throw std::bad_alloc(); } inPost = postNo; } ~PostScope() { inPost = 0; } };
void runEffects(const Beh* b, Sink& s) {
  Rt* mine = cur;
  for (size_t i = 0; i < b->eff.size(); ++i) {
    const Eff& e = b->eff[i];
    switch (e.kind) {
      case 'p': case 'P': case 's': case 'g': if (cur->budget > 0 && cur->total > 0) { --cur->budget; --cur->total; PostScope ps(e.kind == 'g'); s.post(e.a, e.kind == 'p' ? 0 : e.kind == 'P' ? 1 : e.kind == 's' ? 2 : 3); } break;
      case 'c': s.clear(e.a); break;
      case 'q': s.query(); break;
      case 'N': nestedOp(e.a, e.b, 0); break;
      case 't': throwExc(e.a);
      default: break;
    }
    if (cur != mine) { bad("current runtime changed"); cur = mine; }
  }
}
void runEffectsNoCtx(const Beh* b) { for (size_t i = 0; i < b->eff.size(); ++i) if (b->eff[i].kind == 't') throwExc(b->eff[i].a); }

static void observe(IMachine* m, const Desc* curDesc) {
  Own o;
  rec(K_TERMD, m->terminated() ? 1 : 0); rec(K_TRIG, m->trig());
  std::vector<const Probe*> v; m->leaves(v);
  rec(K_NLEAF, (int)v.size());
  for (size_t i = 0; i < v.size(); ++i) if (v[i]) rec(K_LEAF, v[i]->pst, v[i]->pser); else bad("state iterator refers to a foreign object");
  std::vector<std::vector<const Probe*> > ch; m->chains(ch);
  std::set<const Probe*> seen; bool ok = ch.size() == v.size();
  for (size_t i = 0; i < ch.size(); ++i) for (size_t j = 0; j < ch[i].size(); ++j) {
    if (!ch[i][j] || !alive(*ch[i][j])) { bad("outer_state_ptr chain refers to a dead object"); ok = false; break; }
    if (j > 0 && curDesc->st[ch[i][j - 1]->pst].parent != ch[i][j]->pst) { bad("outer_state_ptr is not the outer state"); ok = false; }
    if (j + 1 == ch[i].size() && curDesc->st[ch[i][j]->pst].parent != -1) { bad("outer_state_ptr chain ends early"); ok = false; }
    seen.insert(ch[i][j]);
  }
  if (ok && seen.size() != cur->live.size()) bad("live state objects are not exactly the active states");
}
} // namespace h
#endif
