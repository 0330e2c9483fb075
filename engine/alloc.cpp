#define VERIF_OWN_NEW
// C20: allocations of generated machines are balanced, come from the given allocator only, and every single one of them may fail.
#define H_ALLOC
#include "rt.hpp"
#include "pbt.hpp"
#include <typeinfo>
#include <new>
#include "casegen.hpp"
static bool watch = false; static long foreign = 0;
void* operator new(size_t n) { if (watch && !h::own) ++foreign; return poison::get(n, true); }
void operator delete(void* p) noexcept { poison::put(p); }
void operator delete(void* p, size_t) noexcept { poison::put(p); }
namespace h {
static std::string firstNote;
void note(const char* m) { Own o; if (firstNote.empty()) firstNote = m; }
struct Block { size_t n, size; const std::type_info* t; };
static std::map<void*, Block> blocks;
struct AllocEv { int cls, no; };                 // AC_POST: no-th posting; state: no-th entry; AC_OTHER
static std::vector<AllocEv>* allocLog = 0;
static long allocNo = 0, fail1 = -1, fail2 = -1; static int fired = 0, firedClass = 0, firedNo = 0; static bool armed = false;
void* allocMem(size_t n, size_t size, const std::type_info& t, int st, bool) {
  bool counts = armed && !own; Own o;
  if (counts) {
    AllocEv a = {AC_OTHER, 0}; if (st >= 0) { a.cls = st; a.no = entryNo + 1; } else if (inPost) { a.cls = AC_POST; a.no = inPost; }
    if (allocLog) allocLog->push_back(a);
    long k = allocNo++;
    if (k == fail1 || k == fail2) { if (!fired++) { firedClass = a.cls; firedNo = a.no; } if (st >= 0) ++entryNo; throw std::bad_alloc(); }
  }
  void* p = poison::get(n * size, true); memset(p, 0xcd, n * size); blocks[p] = Block{n, size, &t}; return p;
}
void freeMem(void* p, size_t n, size_t size, const std::type_info& t) {
  Own o; std::map<void*, Block>::iterator i = blocks.find(p);
  if (i == blocks.end()) { note("memory was returned that the allocator does not own (or twice)"); return; }
  if (i->second.n != n || i->second.size != size) note("memory was returned with another size"); if (*i->second.t != t) note("memory was returned as another type");
  memset(p, 0xdd, n * size); blocks.erase(i); poison::put(p);
}
static IMachine* M = 0; static const Desc* MD = 0;
void queryMachine() { Own o; std::vector<const Probe*> v; M->leaves(v); recView(v); }
void nestedOp(int, int, int) {}
static void doOp(const h::Op& op) {
  cur->budget = 10; rec(K_OP, op.kind, op.a, op.b); int exc = -1;
  try {
    armed = op.kind != 'N' && op.kind != 'K'; watch = true;
    switch (op.kind) {
      case 'N': watch = false; M->create(); break;
      case 'I': M->initiate(); break; case 'T': M->terminate(); break; case 'E': M->process(op.a, op.b); break;
      case 'P': M->post(op.a, op.b); break; case 'C': M->clear(op.a); break; case 'K': M->destroy(); break;
    }
  }
  catch (const Exc0&) { exc = 0; } catch (const Exc1&) { exc = 1; } catch (const Exc2&) { exc = 2; } catch (const std::bad_alloc&) { exc = 3; } catch (const std::exception&) { exc = 90; } catch (...) { exc = 91; }
  watch = false; armed = false;
  if (exc >= 0) rec(K_EXC, exc); else rec(K_RET);
  if (op.kind != 'K') observe(M, MD); else if (!cur->live.empty()) bad("state objects survive their machine");
}
static std::vector<Desc> descs;
struct RunR { std::vector<Rec> trace, after; int opsDone; bool resynced, last; std::vector<AllocEv> allocs; std::string err; int fired, cls, no; bool term; bool threw; };
// plan: f1, f2 allocations that fail; te / tp: entry or posting that throws instead
static RunR runCase(const Case& c, long f1, long f2, int te, int tp, bool fresh) {
  RunR r; r.opsDone = 0; r.resynced = r.last = false; firstNote.clear(); sharedEvs.clear(); blocks.clear(); allocLog = &r.allocs; allocNo = 0; fail1 = f1; fail2 = f2; fired = 0; firedClass = 0; firedNo = 0; own = 0; foreign = 0;
  entryNo = postNo = inPost = 0; throwEntry = te; throwPost = tp; int ev0 = evLive; r.term = r.threw = false;
  Rt rt; rt.tab = &c.tab; cur = &rt; M = registry()[c.topo].make(); MD = &descs[c.topo]; doOp(Op{'N', 0, 0, 0});
  std::vector<Rec>* before = 0; std::vector<Rec> first;
  bool faulty = f1 >= 0 || te || tp;
  auto resync = [&] {
    // from here on the machine must behave like a new one
    doOp(Op{'T', 0, 0, 0});
    if (fresh || !M->terminated()) { doOp(Op{'K', 0, 0, 0}); doOp(Op{'N', 0, 0, 0}); }
    if (!rt.live.empty()) bad("state objects survive termination"); first = rt.trace; before = &first; r.resynced = true;
    rt.trace.clear(); rt.serial = rt.evid = 0; rt.total = POSTS; std::fill(rt.cnt.begin(), rt.cnt.end(), 0);
    rec(K_OP, 'N'); rec(K_RET); observe(M, MD);
  };
  for (size_t i = 0; i < c.ops.size(); ++i) {
    const Op& op = c.ops[i]; size_t t0 = rt.trace.size(); bool was = M->terminated(); (void)was;
    bool did = !faulty || r.resynced; int fired0 = fired; int e0 = entryNo, p0 = postNo;
    doOp(op); if (op.kind == 'K') doOp(Op{'N', 0, 0, 0}); (void)t0;
    bool hit = fired > fired0 || (te && e0 < te && entryNo >= te) || (tp && p0 < tp && postNo >= tp);
    if (!did && hit && (f2 < 0 || fired == 2 || f1 < 0)) {
      r.opsDone = (int)i; r.term = M->terminated(); for (size_t k = t0; k < rt.trace.size(); ++k) if (rt.trace[k].k == K_EXC && rt.trace[k].a == 3) r.threw = true;
      resync(); doOp(Op{'I', 0, 0, 0});
    }
  }
  doOp(Op{'K', 0, 0, 0}); delete M; M = 0;
  if (before) { r.trace = first; r.after = rt.trace; } else r.trace = rt.trace;
  sharedEvs.clear(); r.fired = fired; r.cls = firedClass; r.no = firedNo;
  if (!blocks.empty()) note("memory was not returned to the allocator");
  if (evLive != ev0) { note("event objects leaked or destroyed twice"); evLive = ev0; }
  if (foreign) note("memory was taken from elsewhere than the allocator");
  for (auto& x : r.trace) if (x.k == K_BAD) note("?"); r.err = firstNote; cur = 0; blocks.clear(); throwEntry = throwPost = 0; fail1 = fail2 = -1;
  return r;
}
static std::string modelCheck(const Case& c, const std::vector<Rec>& t, const char* what) { Model m(descs[c.topo], c.tab); Verdict v = m.run(t, false); if (!v.ok && !v.inconclusive) { char b[300]; snprintf(b, sizeof b, "%s: step %zu: %.150s", what, v.pos, v.why.c_str()); return b; } return ""; }
}
using namespace h;
static void prep() { static bool done = false; if (done) return; done = true; for (auto& r : registry()) { Desc d; d.parse(r.desc); d.relaxed = r.relaxed; descs.push_back(d); } }
pbt::Ops pbt::generate(Rng& r, const std::string&) {
  prep(); pbt::Ops o; int t = r.below((int)descs.size()); o.push_back({0, t, r.below(1000), r.below(2)});
  bool thr = r.p(0.3); genHooks(o, r, descs[t], HookP{r.p(0.4) ? 0.5 : 0.2, 0.5, thr ? 0.05 : 0, 0.0, 0.15, 0.0, 0.0});
  if (!r.p(0.05)) o.push_back({2, 'I', 0, 0}); int n = r.in(3, 14);
  for (int i = 0; i < n; ++i) { int k = r.pick({20, 1, 0.8, 0.5, 1.5, descs[t].slots.empty() ? 0 : 0.7}); char ch = "EITKPC"[k]; o.push_back({2, ch, r.below(k == 5 ? (int)descs[t].slots.size() : descs[t].nev), k == 0 && r.p(0.2) ? 3 : r.below(3)}); if ((k == 2 || k == 3) && r.p(0.8)) o.push_back({2, 'I', 0, 0}); }
  return o;
}
int pbt::minArg(int k, int p) { return (k == 1 && p < 1000) || (k == 2 && p == 1) ? 1000000 : 0; }
std::string pbt::execute(const pbt::Ops& ops, const std::string& prof, Info& inf) {
  prep(); Case c; int pickSeed = 0; bool fresh = false;
  for (auto& o : ops) {
    if (o[0] == 0) { c.topo = o[1] % (int)descs.size(); pickSeed = o[2]; fresh = o[3]; }
    else if (o[0] == 1) parseHook(o, c.tab);
    else { h::Op x; x.kind = (char)o[1]; x.a = o[2]; x.b = o[3]; x.m = 0; if (x.kind == 'E' || x.kind == 'P') x.a %= descs[c.topo].nev; if (x.kind == 'C') { if (descs[c.topo].slots.empty()) continue; x.a %= (int)descs[c.topo].slots.size(); } c.ops.push_back(x); }
  }
  RunR a = runCase(c, -1, -1, 0, 0, fresh); if (!a.err.empty()) return "no failure injected: " + a.err;
  std::string w = modelCheck(c, a.trace, "no failure injected"); if (!w.empty()) return w;
  long N = (long)a.allocs.size(); inf.steps += a.trace.size(); if (N == 0) return "";
  long maxk = prof == "all" ? 400 : 24; std::vector<std::pair<long, long> > plans; pbt::Rng r(pickSeed);
  if (N <= maxk) for (long k = 0; k < N; ++k) plans.push_back(std::make_pair(k, -1L)); else for (long k = 0; k < maxk; ++k) plans.push_back(std::make_pair((long)r.below((int)N), -1L));
  for (int k = 0; k < 4; ++k) { long x = r.below((int)N); plans.push_back(std::make_pair(x, x + 1 + r.below(5))); }
  bool untranslated = descs[c.topo].translator == "none"; int nState = 0, nPost = 0, nOther = 0, nHandled = 0;
  char pre[100];
  for (auto& pl : plans) {
    RunR b = runCase(c, pl.first, pl.second, 0, 0, fresh); snprintf(pre, sizeof pre, "allocation %ld%s fails: ", pl.first, pl.second >= 0 ? " and a later one" : "");
    if (!b.err.empty()) return pre + b.err; if (!b.fired) return std::string(pre) + "the run is not repeatable";
    if (b.resynced) { w = modelCheck(c, b.after, "after the failure the machine differs from a new one"); if (!w.empty()) return pre + w; }
    if (pl.second >= 0) { inf.f("double"); continue; }
    if (!b.threw) ++nHandled;
    if (untranslated && !b.threw) return std::string(pre) + "the failure does not reach the caller";
    if (untranslated && b.cls >= 0 && !b.term) return std::string(pre) + "the machine goes on although a state could not be made";
    // the failure acts exactly like a user exception thrown at the same place
    if (b.cls >= 0 || b.cls == AC_POST) {
      RunR u = runCase(c, -1, -1, b.cls >= 0 ? b.no : 0, b.cls == AC_POST ? b.no : 0, fresh); if (!u.err.empty()) return std::string(pre) + "user exception instead: " + u.err;
      if (!(u.trace == b.trace)) { size_t k = 0; while (k < u.trace.size() && k < b.trace.size() && u.trace[k] == b.trace[k]) ++k; char t[150]; snprintf(t, sizeof t, "not treated like a user exception at the same place (step %zu: %d %d instead of %d %d)", k, k < b.trace.size() ? b.trace[k].k : 0, k < b.trace.size() ? b.trace[k].a : 0, k < u.trace.size() ? u.trace[k].k : 0, k < u.trace.size() ? u.trace[k].a : 0); return std::string(pre) + t; }
      if (b.cls >= 0) ++nState; else ++nPost;
    } else ++nOther;
    inf.steps += b.trace.size();
  }
  if (nState) inf.f("statefailed"); if (nPost) inf.f("postfailed"); if (nOther) inf.f("otherfailed"); if (nHandled) inf.f("handled");
  inf.feats["failures"] += (long)plans.size(); if (N <= maxk) inf.f("everyallocationfailed");
  inf.nontrivial = nState > 1 && nPost + nOther > 0;
  return "";
}
