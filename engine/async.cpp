// C32: the same generated chart as an asynchronous machine under a scheduler and as a plain machine driven by a few lines that execute the same requests in order.
#define H_ASYNC
#include "rt.hpp"
#include <boost/statechart/fifo_worker.hpp>
#include "pbt.hpp"
#include "casegen.hpp"
#include <deque>
namespace h {
static std::string firstNote;
void note(const char* m) { if (firstNote.empty()) firstNote = m; }
std::vector<AsyncReg>& asyncRegistry() { static std::vector<AsyncReg> r; return r; }
enum { NS = 3 };
// one request in flight
struct Side;
static Side* S = 0;
enum { RQ_BEGIN, RQ_END, RQ_N, RQ_I, RQ_T, RQ_E, RQ_K, RQ_P, RQ_STOP };
struct Req { int k, slot, gen, a, b; EvPtr e; };
struct Side {
  bool async; Rt rt[NS]; int gen[NS]; const Desc* d[NS]; int topo[NS]; int evn, budget, stops;
  std::vector<std::vector<Rec> > order;           // completed pieces, in order: which slot and how much
  std::vector<int> seq;
  // asynchronous side
  Sched* sched; Sched::processor_handle handle[NS]; std::map<Rt*, AsyncBox> box; bool noMore;
  // plain side
  std::deque<Req> q; bool stopped; std::map<int, IMachine*> live[NS];       // by generation
  int features[8];
  Side() : evn(0), budget(0), stops(0), sched(0), noMore(false), stopped(false) { for (int i = 0; i < NS; ++i) gen[i] = 0; for (int i = 0; i < 8; ++i) features[i] = 0; }
  IMachine* view(int s) { if (async) { auto i = box.find(&rt[s]); return i == box.end() ? 0 : i->second.view; } return live[s].empty() ? 0 : live[s].rbegin()->second; }
};
void asyncBornAt(Rt* rt, void*, const AsyncBox& b) {
  int k = -1; for (int i = 0; i < NS; ++i) if (rt == &S->rt[i]) k = i;
  if (k < 0) { bad("machine created outside its request"); return; }
  if (S->box.count(rt)) bad("two machines created by one request"); S->box[rt] = b; if (b.sched != S->sched) bad("my_scheduler()");
  rec(K_NOTE, 1, k);
}
void asyncDiedAt(Rt* rt) {
  cur = rt; if (!S->box.count(rt)) { bad("machine destroyed twice"); return; } delete S->box[rt].view; S->box.erase(rt); rec(K_NOTE, 2, 0);
}
void queryMachine() { int k = -1; for (int i = 0; i < NS; ++i) if (cur == &S->rt[i]) k = i; IMachine* m = S->view(k); if (!m) { bad("no machine"); return; } std::vector<const Probe*> v; m->leaves(v); recView(v); recQuery(m); }

static EvPtr mkEvent(int ev, int mode) {
  Rt* s = cur; cur = 0; EvPtr p;
  if (mode == 1) p = sharedEvent(ev);
  else switch (ev) {
#define X(N) case N: { ev::E##N* e = new ev::E##N; e->id = 20000 + S->evn++; p = EvPtr(e); break; }
    X(0) X(1) X(2) X(3) X(4) X(5)
#undef X
  }
  cur = s; return p;
}
static void begin(int slot, int k, int a) { cur = &S->rt[slot]; cur->budget = 8; S->seq.push_back(slot * 1000 + k * 10 + a % 10); rec(K_OP, k, a); }
static void end(int slot) { cur = &S->rt[slot]; rec(K_NOTE, 3, slot); if (IMachine* m = S->view(slot)) { observe(m, S->d[slot]); std::string why; rec(K_QUERY, m->queries(why)); } else if (!cur->live.empty()) bad("state objects survive their machine"); }
static const AsyncReg& reg(int slot) { return asyncRegistry()[S->topo[slot]]; }
// effect of a work item that posts or clears on the machine from outside a reaction
static void outside(int slot, int a, int b) { IMachine* m = S->view(slot); if (!m) return; if (b == 9) m->clear(a); else m->post(a % S->d[slot]->nev, b % 3); }
static void push(const Req& r) { S->q.push_back(r); }
static void request(int k, int slot, int a, int b, bool own = false, bool part = false) {
  if (!part) { if (S->budget <= 0) return; --S->budget; }
  if (k == RQ_STOP) { if (S->async) S->sched->terminate(); else { push(Req{RQ_STOP, slot, 0, 0, 0, EvPtr()}); } return; }
  int ev = a % S->d[slot]->nev;
  if (k == RQ_N) {                           // a slot has one machine: the earlier one goes first
    request(RQ_K, slot, 0, 0, false, true);
  }
  EvPtr e; if (k == RQ_E) e = mkEvent(ev, b);
  if (S->async) {
    Sched& s = *S->sched;
    s.queue_work_item([=] { begin(slot, k, a); });
    Sched::processor_handle h = S->handle[slot]; if (own) { auto i = S->box.find(cur); if (i == S->box.end()) bad("own handle"); else h = i->second.handle; }
    switch (k) {
      case RQ_N: S->handle[slot] = reg(slot).make(s); break;
      case RQ_I: s.initiate_processor(h); break;
      case RQ_T: s.terminate_processor(h); break;
      case RQ_E: s.queue_event(h, e); break;
      case RQ_K: s.destroy_processor(h); break;
      case RQ_P: s.queue_work_item([=] { outside(slot, a, b); }); break;
    }
    s.queue_work_item([=] { end(slot); });
  } else {
    if (k == RQ_N) ++S->gen[slot];
    int g = S->gen[slot]; if (own) { if (S->live[slot].empty()) bad("own"); else g = S->live[slot].rbegin()->first; }
    push(Req{RQ_BEGIN, slot, k, a, 0, EvPtr()}); push(Req{k, slot, g, a, b, e}); push(Req{RQ_END, slot, 0, 0, 0, EvPtr()});
  }
}
void nestedOp(int mi, int what, int) {
  int slot = mi % NS; bool own = cur == &S->rt[slot];
  if (what < 40) request(RQ_E, slot, what, 0, own && what % 2); else if (what < 80) request(RQ_E, slot, what - 40, 1, own); else switch (what) {
    case 100: request(RQ_I, slot, 0, 0); break; case 101: request(RQ_T, slot, 0, 0, own); break; case 102: request(RQ_N, slot, 0, 0); break; case 103: request(RQ_K, slot, 0, 0); break;
    case 104: if (S->stops++ < 1) request(RQ_STOP, slot, 0, 0); break; case 105: request(RQ_P, slot, 1, 0); break;
  }
}
static void execPlain(const Req& r) {
  std::map<int, IMachine*>& L = S->live[r.slot]; auto it = L.find(r.gen); IMachine* m = it == L.end() ? 0 : it->second;
  switch (r.k) {
    case RQ_BEGIN: begin(r.slot, r.gen, r.a); break;
    case RQ_END: end(r.slot); break;
    case RQ_N: { IMachine* x = reg(r.slot).plain(); L[r.gen] = x; x->create(); rec(K_NOTE, 1, r.slot); break; }
    case RQ_I: if (m) m->initiate(); break;
    case RQ_T: if (m) m->terminate(); break;
    case RQ_E: if (m) m->processPtr(r.e); break;
    case RQ_K: if (m) { m->destroy(); L.erase(it); delete m; } break;
    case RQ_P: outside(r.slot, r.a, r.b); break;
    case RQ_STOP: S->stopped = true; break;
  }
}
// runs up to n items (0: until empty); the exception, if any, reaches the caller
static long runPlain(long n) { long k = 0; while ((n == 0 || k < n) && !S->q.empty() && !S->stopped) { Req r = S->q.front(); S->q.pop_front(); ++k; execPlain(r); } return k; }

static std::vector<Desc> descs;
static void runAll(Side& s, const pbt::Ops& ops, const Tables& tab, std::vector<std::vector<Rec> >& tr, std::vector<int>& seq, std::vector<int>& calls) {
  S = &s; sharedEvs.clear(); cur = 0; int ev0 = evLive;
  for (int i = 0; i < NS; ++i) { s.rt[i].tab = &tab; s.rt[i].tag = i; }
  {
    std::unique_ptr<Sched> sch; if (s.async) { sch.reset(new Sched); s.sched = sch.get(); }
    if (s.async) for (int i = 0; i < NS; ++i) s.handle[i] = Sched::processor_handle();
    for (auto& o : ops) {
      if (o[0] < 2) continue;
      s.budget = 16;
      if (o[0] == 2) request(o[1], o[2] % NS, o[3], o[4]);
      else if (o[0] == 3) {
        int exc = -1; long n = -1;
        try { if (s.async) { n = o[1] ? (long)(*s.sched)(o[1]) : (long)(*s.sched)(); } else n = runPlain(o[1]); }
        catch (const Exc0&) { exc = 0; } catch (const Exc1&) { exc = 1; } catch (const Exc2&) { exc = 2; } catch (const std::exception& e) { exc = 90; } catch (...) { exc = 91; }
        calls.push_back(exc >= 0 ? -10 - exc : (int)n); calls.push_back(s.async ? s.sched->terminated() : s.stopped);
      }
    }
    // the scheduler goes, with the machines it has left; requests from their last actions would come too late
    s.budget = 0; if (s.async) sch.reset(); else { s.q.clear(); for (int i = 0; i < NS; ++i) { for (auto& x : s.live[i]) { cur = &s.rt[i]; x.second->destroy(); delete x.second; } s.live[i].clear(); } }
    if (s.async && !s.box.empty()) note("a machine survives its scheduler");
  }
  sharedEvs.clear();
  for (int i = 0; i < NS; ++i) if (!s.rt[i].live.empty()) note("state objects survive their machine");
  if (evLive != ev0) { note("event objects leaked or destroyed twice"); evLive = ev0; }
  for (int i = 0; i < NS; ++i) tr.push_back(s.rt[i].trace); seq = s.seq; S = 0; cur = 0;
}
}
using namespace h;
static void prep() { static bool done = false; if (done) return; done = true; for (auto& r : asyncRegistry()) { Desc d; d.parse(r.desc); descs.push_back(d); } }
pbt::Ops pbt::generate(Rng& r, const std::string&) {
  prep(); pbt::Ops o; int t[NS]; int same = r.p(0.6); t[0] = r.below((int)descs.size()); for (int i = 1; i < NS; ++i) t[i] = same ? t[0] : r.below((int)descs.size());
  o.push_back({0, t[0], t[1], t[2]}); double thr = r.p(0.5) ? 0.08 : 0, ph = r.p(0.3) ? 0.6 : 0.25; std::set<int> seen;
  for (int k = 0; k < NS; ++k) { const Desc& D = descs[t[k]]; if (!seen.insert(t[k]).second) continue;
    // hook tables are shared by the slots; behaviours stay meaningful because numbers are taken modulo
    genHooks(o, r, D, HookP{ph, 0.3, thr, 0.45, 0.1, 0.15, 0.15}); }
  for (int i = 0; i < NS; ++i) { o.push_back({2, RQ_N, i, 0, 0}); if (r.p(0.9)) o.push_back({2, RQ_I, i, 0, 0}); }
  int n = r.in(4, 30);
  for (int i = 0; i < n; ++i) {
    if (r.p(0.3)) { o.push_back({3, r.p(0.5) ? 0 : r.in(1, 9)}); continue; }
    int k = r.pick({0.5, 0.7, 0.6, 12, 0.5, 1.5, 0.05}); static const int ks[] = {RQ_N, RQ_I, RQ_T, RQ_E, RQ_K, RQ_P, RQ_STOP};
    o.push_back({2, ks[k], r.below(NS), r.below(6), k == 5 ? (r.p(0.2) ? 9 : r.below(3)) : r.below(2)});
    if (k == 0 && r.p(0.8)) o.push_back({2, RQ_I, o.back()[2], 0, 0});
  }
  for (int i = 0; i < 4; ++i) o.push_back({3, 0});
  return o;
}
int pbt::minArg(int k, int p) { return k == 1 || (k == 2 && p == 1) ? 1000000 : 0; }
std::string pbt::execute(const pbt::Ops& ops, const std::string&, Info& inf) {
  prep(); firstNote.clear(); Tables tab(HK_MAX); int t[NS] = {0, 0, 0};
  for (auto& o : ops) {
    if (o[0] == 0) for (int i = 0; i < NS; ++i) t[i] = o[1 + i] % (int)descs.size();
    if (o[0] == 1) parseHook(o, tab);
  }
  std::vector<std::vector<Rec> > tr[2]; std::vector<int> seq[2], calls[2];
  for (int side = 0; side < 2; ++side) { Side s; s.async = side == 1; for (int i = 0; i < NS; ++i) { s.topo[i] = t[i]; s.d[i] = &descs[t[i]]; } runAll(s, ops, tab, tr[side], seq[side], calls[side]); if (!firstNote.empty()) return std::string(side ? "asynchronous: " : "plain: ") + firstNote; }
  if (calls[0] != calls[1]) return "a call of the scheduler returned or threw something else than the plain machines' driver";
  if (seq[0] != seq[1]) return "requests were executed in another order";
  static const char* names[] = {"", "entry", "exit", "destruction", "action", "reaction", "unconsumed", "leaves", "leaf", "query", "request", "return", "exception", "bad", "terminated", "trigger", "note"};
  for (int i = 0; i < NS; ++i) { auto &a = tr[0][i], &b = tr[1][i];
    for (size_t k = 0; k < a.size() || k < b.size(); ++k) if (k >= a.size() || k >= b.size() || !(a[k] == b[k])) { char buf[200]; snprintf(buf, sizeof buf, "machine %d differs from the plain one at step %zu: plain %s %d, asynchronous %s %d", i, k, k < a.size() ? names[a[k].k] : "end", k < a.size() ? a[k].a : 0, k < b.size() ? names[b[k].k] : "end", k < b.size() ? b[k].a : 0); return buf; }
    inf.steps += a.size(); }
  int ex = 0; for (int c : calls[1]) if (c <= -10) ++ex; int nestedReq = 0, ent = 0, evs = 0; for (auto& v : tr[1]) for (auto& x : v) { if (x.k == K_ENTER) ++ent; if (x.k == K_REACT || x.k == K_ACT) ++evs; }
  int asked = 0; for (auto& o : ops) if (o[0] == 2) ++asked; nestedReq = (int)seq[1].size() - asked;
  if (ex) inf.f("exceptions"); if (nestedReq > 0) inf.f("requestsfromhooks"); if (evs) inf.f("reactions");
  inf.nontrivial = ent > 6 && evs > 1 && (ex || nestedReq > 0);
  return "";
}
