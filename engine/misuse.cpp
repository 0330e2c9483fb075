// C30: generated charts that break a documented rule at a chosen place: an assertion has to fire right there; without the misuse none may.
#define H_MISUSE
#define PBT_OWN_ASSERT
#include "rt.hpp"
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include "pbt.hpp"
#include "casegen.hpp"
namespace h {
struct Out { int code; char text[300]; }; static Out* out = 0;
static std::string firstNote; static bool inChild = false, isArmed = false; static int planHook = -1, planNo = 0, planKind = 0;
static std::map<int, int> calls; static std::map<int, std::vector<bool> > destroyedBy;
void note(const char* m) { Own o; if (firstNote.empty()) firstNote = m; }
static void leave(int c, const char* t) { out->code = c; snprintf(out->text, sizeof out->text, "%s", t); _exit(c); }
int wantMis(int hook) { int n = calls[hook]++; if (!inChild) destroyedBy[hook].push_back(cur->destroying); if (isArmed) leave(62, "the program went on after the misuse"); return inChild && hook == planHook && n == planNo ? planKind : 0; }
static bool allowed = false; void allow(bool a) { allowed = a; }
void arm() { isArmed = true; } void missed() { leave(62, "the misuse went unnoticed"); }
static IMachine* M = 0; static const Desc* MD = 0; static std::vector<Desc> descs;
void queryMachine() { Own o; std::vector<const Probe*> v; M->leaves(v); recView(v); recQuery(M); }
void nestedOp(int, int, int) {}
static void doOp(const h::Op& op) {
  cur->budget = 10; rec(K_OP, op.kind, op.a, op.b); int exc = -1;
  try {
    switch (op.kind) { case 'N': M->create(); break; case 'I': M->initiate(); break; case 'T': M->terminate(); break; case 'E': M->process(op.a, op.b); break; case 'P': M->post(op.a, op.b); break; case 'C': M->clear(op.a); break; case 'K': M->destroy(); cur->destroying = false; break; }
  } catch (const Exc0&) { exc = 0; } catch (const Exc1&) { exc = 1; } catch (const Exc2&) { exc = 2; } catch (const std::exception&) { exc = 90; } catch (...) { exc = 91; }
  if (isArmed) leave(62, "the operation ended after the misuse");
  if (exc >= 0) rec(K_EXC, exc); else rec(K_RET);
  if (op.kind != 'K') observe(M, MD); else if (!cur->live.empty()) bad("state objects survive their machine");
}
static void runAll(const Case& c, Rt& rt) {
  firstNote.clear(); sharedEvs.clear(); rt.tab = &c.tab; cur = &rt; calls.clear(); own = 0; entryNo = postNo = inPost = throwEntry = throwPost = 0;
  M = registry()[c.topo].make(); MD = &descs[c.topo]; doOp(h::Op{'N', 0, 0, 0});
  for (auto& op : c.ops) { doOp(op); if (op.kind == 'K') doOp(h::Op{'N', 0, 0, 0}); }
  doOp(h::Op{'K', 0, 0, 0}); delete M; M = 0; sharedEvs.clear(); cur = 0;
}
static bool simpleOf(const Case& c, int hook) { return hook < 100 && descs[c.topo].st[hook].simple; }
}
namespace boost {
void assertion_failed(char const* e, char const*, char const* file, long line) {
  if (!h::inChild) verif_assert(e, file, line);
  const char* f = strrchr(file, '/'); char b[300]; snprintf(b, sizeof b, "assertion %.120s failed at %.60s:%ld", e, f ? f + 1 : file, line); h::leave(h::isArmed ? 60 : h::allowed && std::uncaught_exceptions() > 0 ? 65 : 61, b);
}
void assertion_failed_msg(char const* e, char const*, char const* f, char const* file, long line) { assertion_failed(e, f, file, line); }
}
using namespace h;
static void prep() { static bool done = false; if (done) return; done = true; out = (Out*)mmap(0, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (auto& r : registry()) { Desc d; d.parse(r.desc); d.relaxed = r.relaxed; descs.push_back(d); } }
pbt::Ops pbt::generate(Rng& r, const std::string&) {
  prep(); pbt::Ops o; int t = r.below((int)descs.size()); o.push_back({0, t}); const Desc& D = descs[t];
  genHooks(o, r, D, HookP{r.p(0.4) ? 0.4 : 0.15, 0.4, r.p(0.2) ? 0.05 : 0, 0.0, 0.1, 0.1, 0.15});
  o.push_back({2, 'I', 0, 0}); int n = r.in(1, 14);
  for (int i = 0; i < n; ++i) { int k = r.pick({20, 1, 0.8, 0.5, 1.5, D.slots.empty() ? 0 : 0.7}); char ch = "EITKPC"[k]; o.push_back({2, ch, r.below(k == 5 ? (int)D.slots.size() : D.nev), k == 0 && r.p(0.2) ? 3 : r.below(3)}); if ((k == 2 || k == 3) && r.p(0.8)) o.push_back({2, 'I', 0, 0}); }
  int np = r.in(2, 6); for (int i = 0; i < np; ++i) o.push_back({9, r.pick({3, 2, 1.5, 2, 1}), r.below(1000), r.below(1000)});
  return o;
}
int pbt::minArg(int k, int p) { return (k == 1 && p < 1000) || (k == 2 && p == 1) || k == 9 ? 1000000 : 0; }
std::string pbt::execute(const pbt::Ops& ops, const std::string&, Info& inf) {
  prep(); Case c; std::vector<pbt::Op> plans;
  for (auto& o : ops) {
    if (o[0] == 0) c.topo = o[1] % (int)descs.size(); else if (o[0] == 1) parseHook(o, c.tab); else if (o[0] == 9) plans.push_back(o);
    else { h::Op x; x.kind = (char)o[1]; x.a = o[2]; x.b = o[3]; x.m = 0; const Desc& D = descs[c.topo]; if (x.kind == 'E' || x.kind == 'P') x.a %= D.nev; if (x.kind == 'C') { if (D.slots.empty()) continue; x.a %= (int)D.slots.size(); } c.ops.push_back(x); }
  }
  inChild = false; isArmed = false; destroyedBy.clear();
  { Rt rt; runAll(c, rt); for (auto& x : rt.trace) if (x.k == K_BAD) note("?"); if (!firstNote.empty()) return "without misuse: " + firstNote;
    Model m(descs[c.topo], c.tab); Verdict v = m.run(rt.trace, false); if (!v.ok && !v.inconclusive) return "without misuse: " + v.why; inf.steps += rt.trace.size(); }
  std::map<int, int> reached = calls; std::vector<std::vector<std::pair<int, int> > > by(5); std::set<std::string> kinds;
  for (auto& x : reached) for (int n = 0; n < x.second; ++n) {
    int hk = x.first; int cl = hk >= 1100 ? 3 : hk >= 990 ? 4 : hk >= 600 ? 0 : hk >= 100 ? 2 : simpleOf(c, hk) ? 1 : 2;
    if (cl == 3 && !destroyedBy[hk][n] && n % 4) continue;
    by[cl].push_back(std::make_pair(hk, n));
  }
  int reports = 0;
  for (auto& pl : plans) {
    int cl = pl[1] % 5; if (by[cl].empty()) continue; std::pair<int, int> at = by[cl][pl[2] % by[cl].size()]; int k = pl[3]; bool must = true;
    switch (cl) { case 0: k = 1 + k % 19; if (k > 15) k = M_ANY + k - 16; break; case 1: k = 1 + k % 19; break; case 3: k = M_DTOR + k % 4; must = destroyedBy[at.first][at.second]; break; default: k = M_ANY + k % 4; }
    fflush(0); out->code = -1; out->text[0] = 0; pid_t p = fork();
    if (p == 0) { inChild = true; planHook = at.first; planNo = at.second; planKind = k; Rt rt; runAll(c, rt); for (auto& x : rt.trace) if (x.k == K_BAD) leave(63, firstNote.c_str()); leave(0, ""); }
    int st = 0; waitpid(p, &st, 0); int code = WIFEXITED(st) ? out->code : -2; char b[600];
    static const char* const cn[] = {"reaction", "plain state constructor", "entry, exit or action", "state destructor", "unconsumed-event handler"};
    if (must && code == 60) { ++reports; char f[40]; snprintf(f, sizeof f, "misuse_%d_%d", cl, k); inf.f(f); continue; }
    if (!must && code == 0) { inf.f("harmless_destructor"); continue; }
    if (code == 65) { inf.f("exception_first"); continue; }      // the exception destroyed the result that was never returned
    if (code == 0 && cl == 0 && (k == 4 || k == 5 || k == 8 || k == 9 || k == 11 || k == 12)) { inf.f("exception_first"); continue; }     // leaving the state threw before the result existed
    snprintf(b, sizeof b, "misuse %d in a %s (hook %d, call %d): %s", k, cn[cl], at.first, at.second, code == 61 ? "an assertion failed elsewhere: " : code == 62 || code == 63 || code == 60 ? "" : code == 0 ? "not reached although the run is the same" : "crash");
    return std::string(b) + out->text;
  }
  inf.nontrivial = reports >= 2; return "";
}
