// C20: schedulers and workers with user allocators: balanced, only from there, and every allocation may fail.
#define VERIF_OWN_NEW
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/statechart/event.hpp>
#include <deque>
#include <memory>
#include <typeinfo>
#include <algorithm>
#include "pbt.hpp"
namespace sc = boost::statechart;
using namespace pbt;
static int own = 0; struct Own { Own() { ++own; } ~Own() { --own; } };
static bool watch = false; static long foreign = 0;
void* operator new(size_t n) { if (watch && !own) ++foreign; return poison::get(n, true); }
void operator delete(void* p) noexcept { poison::put(p); }
void operator delete(void* p, size_t) noexcept { poison::put(p); }
static std::string err; static void note_(const char* m) { Own o; if (err.empty()) err = m; }
struct Block { size_t n, size; const std::type_info* t; int who; };
static std::map<void*, Block> blocks; static long allocNo, failAt; static bool fired; static bool armed; static int reqNo, atReq, execNo, atExec; static bool inExec;
static void* get(size_t n, size_t size, const std::type_info& t, int who) {
  if (armed && !own) { long k = allocNo++; if (k == failAt) { fired = true; if (inExec) atExec = execNo; else atReq = reqNo; throw std::bad_alloc(); } }
  Own o; void* p = poison::get(n * size, true); blocks[p] = Block{n, size, &t, who}; return p;
}
static void put(void* p, size_t n, size_t size, const std::type_info& t, int who) {
  Own o; auto i = blocks.find(p); if (i == blocks.end()) { note_("memory was returned that the allocator does not own (or twice)"); return; }
  if (i->second.n != n || i->second.size != size) note_("memory was returned with another size"); if (*i->second.t != t) note_("memory was returned as another type"); if (i->second.who != who) note_("memory was returned to another allocator");
  blocks.erase(i); poison::put(p);
}
template<class T, int WHO> struct A {
  typedef T value_type; A() {} template<class U> A(const A<U, WHO>&) {} template<class U> struct rebind { typedef A<U, WHO> other; };
  T* allocate(size_t n) { return (T*)get(n, sizeof(T), typeid(T), WHO); }
  void deallocate(T* p, size_t n) { put(p, n, sizeof(T), typeid(T), WHO); }
  template<class U> bool operator==(const A<U, WHO>&) const { return true; } template<class U> bool operator!=(const A<U, WHO>&) const { return false; }
};
typedef A<sc::none, 1> WA; typedef A<sc::none, 2> CA; typedef A<sc::none, 3> EA;
typedef sc::fifo_scheduler<sc::fifo_worker<WA>, CA> S; typedef S::processor_handle Hd; typedef S::work_item WI;
struct Ev : sc::event<Ev, EA> { int k; Ev(int k) : k(k) {} };
struct Track { static long live; int v; Track(int v) : v(v) { ++live; } Track(const Track& o) : v(o.v) { ++live; } ~Track() { v = -5; --live; } }; long Track::live;
// requests, the same program for the library and for the model
enum { R_CREATE, R_INIT, R_TERM, R_DESTROY, R_EVENT, R_ITEM, R_STOP };
struct Req { int kind, p, a; };
static std::vector<long> lg;        // what happened
static S* sch; static std::map<int, Hd>* handles; static int nextP, budget;
static void issue(int kind, int p, int a, int self);
static void act(int k, int self) { if (budget <= 0) return; --budget; switch (k) { case 1: issue(R_EVENT, self, 0, self); break; case 2: issue(R_CREATE, 0, 2, self); break; case 3: issue(R_DESTROY, self, 0, self); break; case 4: issue(R_ITEM, 0, 1, self); issue(R_EVENT, self, 0, self); break; case 5: issue(R_STOP, 0, 0, self); break; } }
struct P : sc::event_processor<S> {
  typedef sc::event_processor<S> Base; int id; Track t;
  static void* operator new(size_t n) { Own o; return ::operator new(n); } static void operator delete(void* p) { Own o; ::operator delete(p); }
  P(my_context c, int id) : Base(c), id(id), t(id) { ++execNo; Own o; lg.push_back(1000 + id); }
  P(my_context c, int id, Track x, const Track& y) : Base(c), id(id), t(id) { ++execNo; Own o; lg.push_back(1000 + id); if (x.v != id || y.v != id + 7) note_("wrong arguments"); }
  ~P() { Own o; lg.push_back(2000 + id); if (t.v != id) note_("processor corrupted"); }
  void initiate_impl() { Own o; lg.push_back(3000 + id); } void terminate_impl() { Own o; lg.push_back(4000 + id); }
  void process_event_impl(const sc::event_base& e) { int k = static_cast<const Ev&>(e).k; { Own o; lg.push_back(5000 + id * 10 + k); } inExec = false; act(k, id); inExec = true; }
};
template<int PAD> struct Item { int id, k; Track t; char pad[PAD]; Item(int i, int k) : id(i), k(k), t(i) {} void operator()() const { if (t.v != id) note_("work item corrupted"); { Own o; lg.push_back(9000 + id); } inExec = false; if (k >= 4) act(2, -1); inExec = true; } };
struct Small { int id; void operator()() const { Own o; lg.push_back(9000 + id); } };
static Hd handleOf(int p) { Own o; auto i = handles->find(p); return i == handles->end() ? Hd() : i->second; }
static void issue(int kind, int p, int a, int) {
  int no = ++reqNo;
  switch (kind) {
    case R_CREATE: { int id = nextP++; watch = false; Hd h = a == 0 ? sch->create_processor<P>(id) : sch->create_processor<P>(id, Track(id), Track(id + 7)); watch = true; Own o; (*handles)[id] = h; break; }
    case R_INIT: sch->initiate_processor(handleOf(p)); break; case R_TERM: sch->terminate_processor(handleOf(p)); break; case R_DESTROY: sch->destroy_processor(handleOf(p)); break;
    case R_EVENT: { boost::intrusive_ptr<const sc::event_base> e(new Ev(a)); sch->queue_event(handleOf(p), e); break; }
    case R_ITEM: switch (a % 4) { case 0: { WI i(Small{no}); sch->queue_work_item(i); break; } case 1: { WI i(Item<200>(no, a), CA()); sch->queue_work_item(i); if (!i.empty()) note_("item not handed over"); break; } case 2: { const WI i(Item<60>(no, a), CA()); sch->queue_work_item(i); break; } default: sch->queue_work_item(WI(Item<1>(no, a), CA())); } break;
    case R_STOP: sch->terminate(); break;
  }
}
// ---- model: requests, with a failure at one request (nothing queued) or at one construction (processor gone again)
struct Fail {};
struct Mod {
  struct It { Req r; int no, id; }; std::deque<It> q; std::map<int, int> st; /* 1 alive 2 dead */ std::vector<long> lg; bool stopped; int nextP, req, exec, budget, fReq, fExec; std::set<int> known;
  Mod() : stopped(false), nextP(0), req(0), exec(0), budget(40), fReq(0), fExec(0) {}
  void issue(int k, int p, int a) { int no = ++req; int id = -1; if (k == R_CREATE) id = nextP++; if (no == fReq) throw Fail(); q.push_back(It{Req{k, p, a}, no, id}); if (id >= 0) known.insert(id); }
  void act(int k, int self) { if (budget <= 0) return; --budget; switch (k) { case 1: issue(R_EVENT, self, 0); break; case 2: issue(R_CREATE, 0, 2); break; case 3: issue(R_DESTROY, self, 0); break; case 4: issue(R_ITEM, 0, 1); issue(R_EVENT, self, 0); break; case 5: issue(R_STOP, 0, 0); break; } }
  bool alive(int p) { return known.count(p) && st[p] == 1; }
  void exec1(const It& i) {
    switch (i.r.kind) {
      case R_CREATE: ++exec; lg.push_back(1000 + i.id); if (exec == fExec) { st[i.id] = 2; lg.push_back(2000 + i.id); throw Fail(); } st[i.id] = 1; break;
      case R_INIT: if (alive(i.r.p)) lg.push_back(3000 + i.r.p); break; case R_TERM: if (alive(i.r.p)) lg.push_back(4000 + i.r.p); break;
      case R_DESTROY: if (alive(i.r.p)) { st[i.r.p] = 2; lg.push_back(2000 + i.r.p); } break;
      case R_EVENT: if (alive(i.r.p)) { lg.push_back(5000 + i.r.p * 10 + i.r.a); act(i.r.a, i.r.p); } break;
      case R_ITEM: lg.push_back(9000 + i.no); if (i.r.a >= 4 && i.r.a % 4) act(2, -1); break;
      case R_STOP: stopped = true; break;
    }
  }
  long run(long max) { long n = 0; while (!stopped && (!max || n < max) && !q.empty()) { It i = q.front(); q.pop_front(); exec1(i); ++n; } return n; }
  std::vector<long> destroy() { std::vector<long> r; for (auto& x : st) if (x.second == 1) r.push_back(2000 + x.first); q.clear(); st.clear(); return r; }
};
static std::string go(const Ops& ops, long fail, Mod& m, long& total) {
  std::ostringstream e; err = ""; lg.clear(); blocks.clear(); allocNo = 0; failAt = fail; fired = false; foreign = 0; own = 0; armed = watch = inExec = false; reqNo = execNo = atReq = atExec = nextP = 0; budget = 40; Track::live = 0;
  std::map<int, Hd> hs; handles = &hs; sch = new S;
  for (size_t k = 0; k <= ops.size() && err.empty(); ++k) {
    bool end = k == ops.size(); int kind = end ? 8 : ops[k][0]; long got = -1, want = -1; bool threw = false, mthrew = false; bool fired0 = fired;
    size_t l0 = lg.size(), ml0 = m.lg.size();
    if (kind == 8) { armed = false; { Own o; sch->terminated(); } delete sch; sch = 0; std::vector<long> d(lg.begin() + l0, lg.end()); std::sort(d.begin(), d.end()); std::vector<long> w = m.destroy(); if (d != w) { Own o; e << "op " << k << ": destroying the scheduler destroyed " << d.size() << " processors instead of " << w.size(); return e.str(); }
      m.lg.insert(m.lg.end(), lg.begin() + l0, lg.end()); hs.clear();
      if (!blocks.empty()) note_("memory was not returned to the allocator"); if (Track::live) note_("items, arguments or processors outlive the scheduler"); m.stopped = false; m.known.clear();
      if (end) break; sch = new S; continue; }
    armed = watch = true; inExec = kind == 7;
    try { if (kind == 7) got = (long)(*sch)((unsigned long)ops[k][1]); else issue(kind, ops[k][1], ops[k][2], -1); } catch (const std::bad_alloc&) { threw = true; } catch (...) { note_("another exception than the allocator's"); }
    armed = watch = inExec = false;
    if (fired && !fired0) { m.fReq = atReq; m.fExec = atExec ? atExec : 0; }
    try { if (kind == 7) want = m.run(ops[k][1]); else m.issue(kind, ops[k][1], ops[k][2]); } catch (const Fail&) { mthrew = true; }
    Own o;
    if (!err.empty()) break;
    if (fired && !fired0 && !threw) { e << "op " << k << ": the failure does not reach the caller"; return e.str(); }
    if (threw != mthrew) { e << "op " << k << (threw ? ": unexpected exception" : ": no exception"); return e.str(); }
    if (got != want && !threw) { e << "op " << k << ": run returned " << got << " instead of " << want; return e.str(); }
    if (std::vector<long>(lg.begin() + l0, lg.end()) != std::vector<long>(m.lg.begin() + ml0, m.lg.end())) { e << "op " << k << ": happened:"; for (size_t i = l0; i < lg.size(); ++i) e << ' ' << lg[i]; e << " expected:"; for (size_t i = ml0; i < m.lg.size(); ++i) e << ' ' << m.lg[i]; return e.str(); }
    if (sch->terminated() != m.stopped) { return "terminated() is wrong"; }
    for (auto& h : hs) if (m.st.count(h.first) && m.st[h.first] == 2 && !h.second.expired()) { e << "op " << k << ": the handle of a processor that is gone is still valid"; return e.str(); }
  }
  if (foreign) note_("memory was taken from elsewhere than the allocators");
  total = allocNo; std::string r = err; Own o; if (sch) { delete sch; sch = 0; } return r;
}
namespace pbt {
int minArg(int k, int p) { return k == 100 && p ? -1 : 0; }
Ops generate(Rng& r, const std::string&) {
  Ops o; int n = r.in(4, 22), np = 0;
  for (int i = 0; i < n; ++i) switch (r.pick({3, 2, 1, 1, 5, 2.5, 0.25, 4.5, 0.25})) {
    case 0: o.push_back(Op{R_CREATE, 0, r.below(2)}); ++np; break; case 1: o.push_back(Op{R_INIT, r.below(np + 1), 0}); break; case 2: o.push_back(Op{R_TERM, r.below(np + 1), 0}); break; case 3: o.push_back(Op{R_DESTROY, r.below(np + 1), 0}); break;
    case 4: o.push_back(Op{R_EVENT, r.below(np + 1), r.pick({3, 1.5, 1.5, 1, 1, 0.2})}); break; case 5: o.push_back(Op{R_ITEM, 0, r.below(8)}); break; case 6: o.push_back(Op{R_STOP, 0, 0}); break;
    case 7: o.push_back(Op{7, r.p(0.4) ? 0 : r.in(1, 4), 0}); break; case 8: o.push_back(Op{8, 0, 0}); break;
  }
  return o;
}
std::string execute(const Ops& in, const std::string& prof, Info& inf) {
  Ops ops; for (auto x : in) { x.resize(3); ops.push_back(x); }
  long N = 0, dummy; { Mod m; std::string w = go(ops, -1, m, N); if (!w.empty()) return "no failure injected: " + w; }
  long cap = prof == "all" ? 1000 : 60, step = N > cap ? (N + cap - 1) / cap : 1; int inrun = 0, atq = 0;
  for (long k = 0; k < N; k += step) {
    Mod m; std::string w = go(ops, k, m, dummy); if (!w.empty()) { std::ostringstream e; e << "allocation " << k << " of " << N << " fails: " << w; return e.str(); }
    if (!fired) return "the run is not repeatable";
    if (atExec) ++inrun; else ++atq; ++inf.steps;
  }
  if (inrun) inf.f("execfailed"); if (atq) inf.f("requestfailed"); inf.feats["failures"] += inrun + atq; inf.nontrivial = inrun > 0 && atq > 2;
  return "";
}
}
