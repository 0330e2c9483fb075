// C28: events, machines and schedulers used by several real threads (run under the thread sanitizer and without).
#define PBT_REPEAT 40
#include "rt.hpp"
#include "pbt.hpp"
#include "casegen.hpp"
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <thread>
#include <mutex>
#include <memory>
#include <functional>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
extern "C" const char* __tsan_default_options() { return "exitcode=47:halt_on_error=1:report_signal_unsafe=0"; }
#include <list>
// list links are changed inside libstdc++, where the sanitizer does not look: the same functions, compiled here
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* q = _M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
} }
#endif
#endif
static std::mutex noteMx; static std::string firstNote;
static void fail(const std::string& m) { std::lock_guard<std::mutex> l(noteMx); if (firstNote.empty()) firstNote = m; }
namespace h {
static H_TL IMachine* M = 0; static std::vector<Desc> descs; static H_TL const Desc* MD = 0;
void note(const char* m) { Own o; fail(m); }
void queryMachine() { Own o; std::vector<const Probe*> v; M->leaves(v); recView(v); recQuery(M); }
void nestedOp(int, int, int) {}
}
// ---------------------------------------------------------------- starting threads together
struct Barrier { std::atomic<int> n; explicit Barrier(int k) : n(k) {} void wait() { n.fetch_sub(1, std::memory_order_acq_rel); int spin = 0; while (n.load(std::memory_order_acquire) > 0) if (++spin > 200) std::this_thread::yield(); } };
static void together(const std::vector<std::function<void()> >& fs) {
  Barrier b((int)fs.size()); std::vector<std::thread> t;
  for (auto& f : fs) t.emplace_back([&b, &f] { b.wait(); try { f(); } catch (...) { fail("an unexpected exception ended a thread"); } });
  for (auto& x : t) x.join();
}
static void pause(int n) { if (n <= 0) return; if (n > 6) std::this_thread::yield(); else for (volatile int i = 0; i < n * 40; i = i + 1) {} }
// ---------------------------------------------------------------- (1) one machine per thread, common heap events
namespace h {
struct Job { Case c; std::vector<Rec> trace; std::string err; int delay; };
static void runJob(Job& j) {
  Rt rt; rt.tab = &j.c.tab; cur = &rt; own = 0; entryNo = postNo = inPost = 0; throwEntry = throwPost = 0; M = registry()[j.c.topo].make(); MD = &descs[j.c.topo];
  auto doOp = [&](const Op& op) {
    rt.budget = 10; rec(K_OP, op.kind, op.a, op.b); int exc = -1;
    try { switch (op.kind) { case 'N': M->create(); break; case 'I': M->initiate(); break; case 'T': M->terminate(); break; case 'E': M->process(op.a, op.b); break; case 'P': M->post(op.a, op.b); break; case 'C': M->clear(op.a); break; case 'K': M->destroy(); break; } }
    catch (const Exc0&) { exc = 0; } catch (const Exc1&) { exc = 1; } catch (const Exc2&) { exc = 2; } catch (const std::exception&) { exc = 90; } catch (...) { exc = 91; }
    if (exc >= 0) rec(K_EXC, exc); else rec(K_RET);
    if (op.kind != 'K') { observe(M, MD); } else if (!rt.live.empty()) bad("state objects survive their machine");
  };
  doOp(Op{'N', 0, 0, 0});
  for (auto& op : j.c.ops) { doOp(op); if (op.kind == 'K') doOp(Op{'N', 0, 0, 0}); pause(j.delay); }
  doOp(Op{'K', 0, 0, 0}); delete M; M = 0; cur = 0; j.trace.swap(rt.trace);
}
}
using namespace h;
static void prep() { static bool done = false; if (done) return; done = true; for (auto& r : registry()) { Desc d; d.parse(r.desc); d.relaxed = r.relaxed; descs.push_back(d); } }
// ---------------------------------------------------------------- (2) heap events passed around; memory is never given back, so that a second destruction is seen
static std::atomic<int> deaths[5000]; static std::atomic<long> arenaLive(0);
template<class T> struct Arena { typedef T value_type; template<class U> struct rebind { typedef Arena<U> other; }; Arena() {} template<class U> Arena(const Arena<U>&) {} typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type;
  T* allocate(size_t n, const void* = 0);
  void deallocate(T*, size_t) { arenaLive.fetch_sub(1); }
  bool operator==(const Arena&) const { return true; } bool operator!=(const Arena&) const { return false; } };
static std::mutex arenaMx; static std::vector<void*> arenaBlocks;
template<class T> T* Arena<T>::allocate(size_t n, const void*) { void* p = calloc(n, sizeof(T)); { std::lock_guard<std::mutex> l(arenaMx); arenaBlocks.push_back(p); } arenaLive.fetch_add(1); return (T*)p; }
struct AEv : sc::event<AEv, Arena<sc::none> > { int no, copies; long sum; AEv(int n) : no(n), copies(0), sum(n * 7L) {} AEv(const AEv& o) : no(-1), copies(1), sum(o.sum) { if (o.no >= 0 && o.sum != o.no * 7L) fail("an event was copied after its destruction"); }
  ~AEv() { if (no >= 0) { if (sum != no * 7L) fail("an event was destroyed twice"); deaths[no].fetch_add(1); } sum = -1; } };
typedef boost::intrusive_ptr<const AEv> APtr;
static void useEv(const AEv* e) { if (e->no >= 0 && e->sum != e->no * 7L) fail("an event was used after its destruction"); }
// a machine that keeps (defers) what it is given until told to forget
struct FlushEv : sc::event<FlushEv> {};
struct KA; struct Keeper : sc::state_machine<Keeper, KA> { typedef sc::state_machine<Keeper, KA> Base; void post(const sc::event_base& e) { post_event(e); } long got; Keeper() : got(0) {} };
struct KB; struct KA : sc::simple_state<KA, Keeper> { typedef mpl::list<sc::deferral<AEv>, sc::transition<FlushEv, KB> > reactions; };
struct KB : sc::simple_state<KB, Keeper> { typedef mpl::list<sc::custom_reaction<AEv>, sc::transition<FlushEv, KA> > reactions; sc::result react(const AEv& e) { useEv(&e); ++outermost_context().got; return discard_event(); } };
static std::string runRef(const pbt::Ops& ops, pbt::Info& inf) {
  int T = 2, E = 50, rounds = 1; std::vector<std::vector<pbt::Op> > prog(4);
  for (auto& o : ops) { if (o[0] == 5) { T = 2 + o[1] % 3; E = 1 + o[2] % 300; rounds = 1 + o[3] % 4; } else if (o[0] == 6) prog[o[1] % 4].push_back(o); }
  for (int i = 0; i < E; ++i) deaths[i] = 0; arenaLive = 0;
  std::vector<std::vector<APtr> > own(T, std::vector<APtr>(E));
  for (int i = 0; i < E; ++i) { APtr p(new AEv(i)); for (int t = 0; t < T; ++t) own[t][i] = p; }
  std::vector<long> want(T, 0), got(T, 0);
  std::vector<std::function<void()> > fs;
  for (int t = 0; t < T; ++t) fs.push_back([&, t] {
    Keeper k; k.initiate(); bool keeping = true; long w = 0, deferred = 0; std::vector<APtr>& v = own[t]; std::vector<boost::intrusive_ptr<const sc::event_base> > extra; size_t len = prog[t].size();
    for (int r = 0; r < rounds; ++r) for (size_t i = 0; i < len; ++i) {
      const pbt::Op& o = prog[t][i];
      switch (o[2] % 9) {
        case 0: for (int n = 0; n < E; ++n) { APtr q(v[n]); useEv(q.get()); } break;                                                // copy and drop every pointer
        case 1: for (int n = 0; n < E; ++n) { int x = (n * 7 + o[3]) % E; boost::intrusive_ptr<const sc::event_base> q(v[x]->intrusive_from_this()); if (q.get() != v[x].get()) fail("a shared heap event was copied instead of shared"); if (extra.size() < 400) extra.push_back(q); } break;
        case 2: for (int n = 0; n < E; ++n) { k.process_event(*v[n]); if (keeping) ++deferred; else ++w; } break;
        case 3: for (int n = 0; n < E; ++n) { k.post(*v[n]); if (keeping) ++deferred; else ++w; } k.process_event(*v[0]); if (keeping) ++deferred; else ++w; break;
        case 4: k.process_event(FlushEv()); keeping = !keeping; if (!keeping) { w += deferred; deferred = 0; } break;
        case 5: extra.clear(); break;
        case 6: k.terminate(); k.initiate(); keeping = true; deferred = 0; break;
        case 7: for (int n = 0; n < E; ++n) { if (v[n]->ref_count() < 1) fail("an event in use has no references"); if (!v[n]->ref_counted()) fail("an event in use is not reference-counted"); } break;
        case 8: pause(o[3] % 9); break;
      }
    }
    for (int n = 0; n < E; ++n) { useEv(v[n].get()); v[n] = APtr(); }                                                       // all threads let go of the same events at about the same time
    extra.clear(); want[t] = w; got[t] = k.got;
  });
  together(fs);
  for (int t = 0; t < T; ++t) if (want[t] != got[t]) fail("a machine did not get its events exactly once");
  for (int i = 0; i < E; ++i) { int d = deaths[i]; if (d != 1) { fail(d ? "an event was destroyed twice" : "an event was never destroyed"); break; } }
  if (arenaLive != 0) fail("event memory was not given back exactly once");
  for (void* p : arenaBlocks) free(p); arenaBlocks.clear();
  inf.steps += (long)E * T * rounds; inf.nontrivial = E > 3 && T >= 2; inf.feats["events"] += E; return firstNote;
}
// ---------------------------------------------------------------- (3) several schedulers, fed by several threads, passing events on
typedef sc::fifo_scheduler<> Sched; typedef Sched::processor_handle Handle;
static std::atomic<long> open_; static std::atomic<int> seen[64][1200]; static std::atomic<int> evAlive; static std::atomic<bool> bigStop;
struct Feed;
struct Msg : sc::event<Msg> { int no; long chk; std::vector<std::pair<int, int> > route; Msg(int n) : no(n), chk(n * 11L) { evAlive.fetch_add(1); } Msg(const Msg& o) : sc::event<Msg>(o), no(o.no), chk(o.chk), route(o.route) { evAlive.fetch_add(1); } ~Msg() { if (chk != no * 11L) fail("a message was destroyed twice"); chk = -1; evAlive.fetch_sub(1); } };
struct Net { std::vector<Sched*> s; std::vector<std::vector<Handle> > h; std::vector<std::vector<int> > pid; } ;
static Net* NET = 0;
static void deliver(int pid, const Msg& m, Sched*, const sc::event_base& e) {
  if (m.chk != m.no * 11L) fail("a message was delivered after its destruction"); seen[pid][m.no].fetch_add(1);
  // hop on: the first processor of the route passes the very same event on to the others
  if (!m.route.empty() && NET->pid[m.route[0].first][m.route[0].second] == pid) { boost::intrusive_ptr<const sc::event_base> p = e.intrusive_from_this(); for (size_t i = 1; i < m.route.size(); ++i) { open_.fetch_add(1); NET->s[m.route[i].first]->queue_event(NET->h[m.route[i].first][m.route[i].second], p); } }
  open_.fetch_sub(1);
}
struct PlainProc : sc::event_processor<Sched> { int pid; int inside; PlainProc(my_context c, int p) : sc::event_processor<Sched>(c), pid(p), inside(0) {} void initiate_impl() {} void terminate_impl() {} void process_event_impl(const sc::event_base& e) { if (inside++) fail("a processor was entered by two threads"); deliver(pid, static_cast<const Msg&>(e), &my_scheduler(), e); --inside; } };
struct AsA; struct AsM : sc::asynchronous_state_machine<AsM, AsA> { int pid; AsM(my_context c, int p) : sc::asynchronous_state_machine<AsM, AsA>(c), pid(p) {} };
struct AsA1; struct AsB; struct TickEv : sc::event<TickEv> {};
struct AsA : sc::simple_state<AsA, AsM, AsA1, sc::has_shallow_history> { typedef mpl::list<sc::transition<TickEv, AsB> > reactions; };
struct AsA2; struct AsA1 : sc::simple_state<AsA1, AsA> { typedef mpl::list<sc::custom_reaction<Msg>, sc::transition<TickEv, AsA2> > reactions; sc::result react(const Msg& m) { AsM& a = outermost_context(); deliver(a.pid, m, &a.my_scheduler(), m); if (m.no % 3 == 0) post_event(TickEv()); return discard_event(); } };
struct AsA2 : sc::simple_state<AsA2, AsA> { typedef mpl::list<sc::custom_reaction<Msg> > reactions; sc::result react(const Msg& m) { AsM& a = outermost_context(); deliver(a.pid, m, &a.my_scheduler(), m); if (m.no % 2 == 0) post_event(TickEv()); return discard_event(); } };
struct AsB : sc::simple_state<AsB, AsM> { typedef mpl::list<sc::deferral<Msg>, sc::transition<TickEv, sc::shallow_history<AsA1> > > reactions; AsB() {} };
// ^ a machine in AsB defers messages until it is ticked; feeders tick it at the end
static std::string runFeed(const pbt::Ops& ops, pbt::Info& inf) {
  int S = 1, F = 2, waitMask = 1; std::vector<std::vector<pbt::Op> > prog(4); int maxRun = 0, ownEvents = 0;
  for (auto& o : ops) { if (o[0] == 7) { S = 1 + o[1] % 3; F = 1 + o[2] % 4; waitMask = o[3]; maxRun = o[4] % 7; } else if (o[0] == 8) { prog[o[1] % 4].push_back(o); ++ownEvents; } }
  Net net; NET = &net; open_ = 0; evAlive = 0; bigStop = false; for (auto& a : seen) for (auto& x : a) x.store(0, std::memory_order_relaxed);
  std::vector<std::unique_ptr<Sched> > sched; int pid = 0; std::vector<int> expect(64 * 1200, 0);
  for (int i = 0; i < S; ++i) { sched.emplace_back(new Sched((waitMask >> i) & 1)); net.s.push_back(sched.back().get()); net.h.emplace_back(); net.pid.emplace_back();
    for (int k = 0; k < 3; ++k) { net.pid[i].push_back(pid); Handle hd = k == 1 ? sched.back()->create_processor<AsM>(pid) : sched.back()->create_processor<PlainProc>(pid); ++pid; net.h[i].push_back(hd); sched.back()->initiate_processor(hd); } }
  std::atomic<int> extraProc(0); std::atomic<int> feeders(F);
  // expectation: every target of every message once
  int no = 0; std::vector<std::vector<std::pair<int, pbt::Op> > > plan(F); std::vector<std::vector<std::vector<std::pair<int, int> > > > routes(F);
  for (int f = 0; f < F; ++f) for (auto& o : prog[f]) {
    if (o[2] % 8 < 5 && no < 1190) { std::vector<std::pair<int, int> > r; for (size_t i = 3; i < o.size(); ++i) r.push_back(std::make_pair(o[i] % S, (o[i] / S) % 3)); if (r.empty()) r.push_back(std::make_pair(0, 0)); 
      bool hop = o[2] % 8 >= 3; std::set<std::pair<int, int> > first; std::vector<std::pair<int, int> > u; for (auto& x : r) if (first.insert(x).second) u.push_back(x);
      for (auto& x : u) ++expect[net.pid[x.first][x.second] * 1200 + no]; plan[f].push_back(std::make_pair(no++, o)); routes[f].push_back(u); (void)hop; }
    else { plan[f].push_back(std::make_pair(-1, o)); routes[f].push_back({}); }
  }
  std::vector<std::function<void()> > fs;
  for (int i = 0; i < S; ++i) fs.push_back([&, i] { Sched& s = *sched[i]; for (;;) { s(maxRun); if (s.terminated()) return; std::this_thread::yield(); } });
  for (int f = 0; f < F; ++f) fs.push_back([&, f] {
    std::vector<Handle> mine; std::vector<int> mineAt;
    for (size_t i = 0; i < plan[f].size(); ++i) {
      const pbt::Op& o = plan[f][i].second; int n = plan[f][i].first;
      if (n >= 0) {
        Msg* m = new Msg(n); bool hop = o[2] % 8 >= 3; if (hop) m->route = routes[f][i]; boost::intrusive_ptr<const sc::event_base> p(m);
        for (size_t k = 0; k < routes[f][i].size() && (!hop || k < 1); ++k) { open_.fetch_add(1); auto x = routes[f][i][k]; net.s[x.first]->queue_event(net.h[x.first][x.second], p); }
      } else switch (o[2] % 8) {
        case 5: { int at = (int)i % S; Handle hd = net.s[at]->create_processor<PlainProc>(60); net.s[at]->initiate_processor(hd); mine.push_back(hd); mineAt.push_back(at); extraProc.fetch_add(1); break; }
        case 6: if (!mine.empty()) { Handle hd = mine.back(); int at = mineAt.back(); mine.pop_back(); mineAt.pop_back(); net.s[at]->terminate_processor(hd); net.s[at]->destroy_processor(hd); } break;
        case 7: { int at = (int)i % S; open_.fetch_add(1); net.s[at]->queue_work_item([] { open_.fetch_sub(1); }); pause(o.size() > 3 ? o[3] % 9 : 0); break; }
      }
    }
    feeders.fetch_sub(1);
  });
  fs.push_back([&] {
    // wait until everything sent has arrived, ticking the machines that defer; then end the schedulers
    long lim = 0; while ((feeders.load() > 0 || open_.load() != 0) && ++lim < 400000) { if (feeders.load() == 0) for (int i = 0; i < S; ++i) if (lim % 64 == 0) { boost::intrusive_ptr<const sc::event_base> t(new TickEv); net.s[i]->queue_event(net.h[i][1], t); } std::this_thread::yield(); if (lim > 20000) usleep(20); }
    if (open_.load() != 0) fail("something that was queued never ran"); for (auto& s : sched) s->terminate();
  });
  together(fs);
  if (firstNote.empty()) for (int p = 0; p < pid; ++p) for (int m = 0; m < no; ++m) if (seen[p][m].load() != expect[p * 1200 + m]) { fail("a processor did not get an event exactly once"); break; }
  sched.clear(); net.h.clear(); if (firstNote.empty() && evAlive.load() != 0) fail("messages leaked or destroyed twice"); NET = 0;
  inf.steps += ownEvents; inf.nontrivial = S + F >= 3 && no > 3; if (S > 1) inf.f("severalschedulers"); if (extraProc.load()) inf.f("processorsmade"); return firstNote;
}
pbt::Ops pbt::generate(Rng& r, const std::string& prof) {
  prep(); pbt::Ops o;
  if (prof == "ref") { o.push_back({5, r.below(3), r.below(300), r.below(4)}); for (int t = 0; t < 4; ++t) { int n = r.in(0, 8); for (int i = 0; i < n; ++i) o.push_back({6, t, r.below(9), r.below(100)}); } return o; }
  if (prof == "feed") { o.push_back({7, r.below(3), r.below(4), r.below(8), r.p(0.5) ? 0 : r.below(7)}); for (int t = 0; t < 4; ++t) { int n = r.in(3, 40); for (int i = 0; i < n; ++i) { pbt::Op x = {8, t, r.below(8)}; int k = r.in(1, 4); for (int j = 0; j < k; ++j) x.push_back(r.below(60)); o.push_back(x); } } return o; }
  int T = r.in(2, 4); int same = r.p(0.5) ? r.below((int)descs.size()) : -1;
  for (int t = 0; t < T; ++t) {
    int tp = same >= 0 ? same : r.below((int)descs.size()); o.push_back({0, tp, r.below(9)});
    genHooks(o, r, descs[tp], HookP{0.25, 0.5, r.p(0.2) ? 0.05 : 0, 0.0, 0.15, 0.2, 0.15});
    o.push_back({2, 'I', 0, 0}); int n = r.in(3, 25);
    for (int i = 0; i < n; ++i) { int k = r.pick({20, 1, 0.8, 0.5, 1.5, descs[tp].slots.empty() ? 0 : 0.7}); char ch = "EITKPC"[k]; o.push_back({2, ch, r.below(k == 5 ? (int)descs[tp].slots.size() : descs[tp].nev), k == 0 || k == 4 ? r.p(0.6) ? 3 : r.below(3) : 0}); if ((k == 2 || k == 3) && r.p(0.8)) o.push_back({2, 'I', 0, 0}); }
  }
  return o;
}
int pbt::minArg(int k, int p) { return (k == 1 && p < 1000) || (k == 2 && p == 1) || k == 0 ? 1000000 : 0; }
static std::string runMach(const pbt::Ops& ops, pbt::Info& inf) {
  std::vector<Job> jobs;
  for (auto& o : ops) {
    if (o[0] == 0) { jobs.push_back(Job()); jobs.back().c.topo = o[1] % (int)descs.size(); jobs.back().delay = o[2]; continue; }
    if (jobs.empty()) continue; Case& c = jobs.back().c;
    if (o[0] == 1) parseHook(o, c.tab);
    else if (o[0] == 2) { h::Op x; x.kind = (char)o[1]; x.a = o[2]; x.b = o[3]; x.m = 0; const Desc& D = descs[c.topo]; if (x.kind == 'E' || x.kind == 'P') x.a %= D.nev; if (x.kind == 'C') { if (D.slots.empty()) continue; x.a %= (int)D.slots.size(); } c.ops.push_back(x); }
  }
  sharedEvs.clear(); evLive = 0; for (int i = 0; i < 6; ++i) sharedEvent(i);
  std::vector<std::function<void()> > fs; for (auto& j : jobs) fs.push_back([&j] { runJob(j); });
  together(fs);
  for (auto& j : jobs) { for (auto& x : j.trace) if (x.k == K_BAD) fail("?"); inf.steps += j.trace.size(); if (firstNote.empty()) { Model m(descs[j.c.topo], j.c.tab); Verdict v = m.run(j.trace, false); if (!v.ok && !v.inconclusive) { char b[300]; snprintf(b, sizeof b, "a machine does not behave as it does alone: step %zu: %.150s", v.pos, v.why.c_str()); fail(b); } } }
  if (evLive.load() != 6) fail("event objects leaked or destroyed twice"); for (auto& p : sharedEvs) if (p.second->ref_count() != 1) fail("a shared event has a wrong reference count"); sharedEvs.clear();
  inf.nontrivial = jobs.size() > 1; if (jobs.size() > 1 && jobs[0].c.topo == jobs[1].c.topo) inf.f("samechart"); return firstNote;
}
std::string pbt::execute(const pbt::Ops& ops, const std::string& prof, pbt::Info& inf) {
  prep(); firstNote.clear();
  return prof == "ref" ? runRef(ops, inf) : prof == "feed" ? runFeed(ops, inf) : runMach(ops, inf);
}
