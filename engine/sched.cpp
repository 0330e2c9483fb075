// C25 / C26: fifo_scheduler and event processors against a sequential model.
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/statechart/event.hpp>
#include <boost/ref.hpp>
#include <deque>
#include <memory>
#include "pbt.hpp"
namespace sc = boost::statechart;
using namespace pbt;

#ifdef USER_WORKER
// a worker of the user's own: what the documentation demands of one and nothing else
class Worker {
  public:
    typedef boost::function0<void> work_item;
#ifdef BOOST_HAS_THREADS
    Worker(bool wait = false) : wait_(wait), stop_(false) {}
#else
    Worker() : wait_(false), stop_(false) {}
#endif
    void queue_work_item(const work_item& w) { if (!w.empty()) q_.push_back(w); }
    void terminate() { bool* s = &stop_; q_.push_back(work_item([s] { *s = true; })); }
    bool terminated() const { return stop_; }
    unsigned long operator()(unsigned long n = 0) {
      unsigned long c = 0;
      for (; !stop_ && (n == 0 || c < n); ++c) { if (q_.empty()) { if (wait_) std::abort(); break; } work_item w; w.swap(q_.front()); q_.pop_front(); w(); }
      return c;
    }
  private:
    Worker(const Worker&); Worker& operator=(const Worker&); std::deque<work_item> q_; bool wait_, stop_;
};
typedef sc::fifo_scheduler<Worker> Sched;
#else
typedef sc::fifo_scheduler<> Sched;
#endif
typedef sc::event_processor<Sched> Base;
typedef Sched::processor_handle Handle;

static long argLive = 0, evLive = 0;
struct Tracked { int id; long c; explicit Tracked(int i) : id(i), c(99) { ++argLive; } Tracked(const Tracked& o) : id(o.id), c(o.c) { ++argLive; if (o.c != 99) id = -666; } Tracked& operator=(const Tracked&) = delete; ~Tracked() { c = 0; --argLive; } };
struct Ev : sc::event<Ev> { int id; long c; explicit Ev(int i) : id(i), c(55) { ++evLive; } Ev(const Ev& o) : id(o.id), c(o.c) { ++evLive; } ~Ev() { c = 0; --evLive; } };
struct Boom { int id; };

// one behaviour step: what a processor hook does
enum { A_NONE, A_THROW, A_EVENT, A_CREATE, A_DESTROY, A_INIT, A_TERM, A_STOP, A_ITEM, A_DUP, A_N };
enum { H_CTOR, H_INIT, H_EVENT, H_TERM, H_DTOR, H_N };
struct Step { int act, a, b; };
struct LogE { int k, p, x; bool operator==(const LogE& o) const { return k == o.k && p == o.p && x == o.x; } };
enum { L_CTOR = 1, L_INIT, L_EVENT, L_TERM, L_DTOR, L_ITEM };

struct ArgSpec { int kind; };      // 0 value, 1 ref, 2 cref, 3 int, 4 const char* -> std::string
struct World;
static World* W = 0;
struct ProcReq { int cls, sched; std::vector<int> ids; };

template<int K> struct A;
template<> struct A<0> { typedef const Tracked& type; };
template<> struct A<1> { typedef Tracked& type; };
template<> struct A<2> { typedef const Tracked& type; };
template<> struct A<3> { typedef long type; };
template<> struct A<4> { typedef std::string type; };

struct ProcBase;
struct HandleLess { bool operator()(const Handle& a, const Handle& b) const { return a < b; } };
struct World {
  std::multimap<Handle, int, HandleLess> byHandle;    // every request by the handle that was returned for it
  Sched* s[2]; std::vector<Handle> h; std::vector<int> hm; std::vector<LogE> log[2]; std::vector<Step> beh[H_N]; int cnt[H_N]; int budget; std::string err;
  std::map<int, ProcBase*> alive; std::vector<Tracked*> pool; std::vector<ProcReq> req; int evid, itemid; std::vector<boost::intrusive_ptr<const sc::event_base> > shared; int running; bool dying;
};
static bool same(const Handle& a, const Handle& b) { return !(a < b) && !(b < a); }
static void checkArg(int id, const Tracked& t, int want, bool ref) {
  if (t.c != 99) { W->err = "constructor argument is dead"; return; }
  if (t.id != want) W->err = "constructor arguments are not the ones given, or out of order";
  if (ref && &t != W->pool[want]) W->err = "reference argument was copied"; if (!ref && &t == W->pool[want]) W->err = "value argument was not copied";
}
template<int K> struct Chk;
template<> struct Chk<0> { static void c(const Tracked& t, int w) { checkArg(0, t, w, false); } };
template<> struct Chk<1> { static void c(Tracked& t, int w) { checkArg(0, t, w, true); } };
template<> struct Chk<2> { static void c(const Tracked& t, int w) { checkArg(0, t, w, true); } };
template<> struct Chk<3> { static void c(long v, int w) { if (v != w * 7 + 1) W->err = "int argument is wrong"; } };
template<> struct Chk<4> { static void c(const std::string& v, int w) { if (v != (w & 1 ? "odd" : "even")) W->err = "string argument is wrong"; } };
static void hook(int hk, ProcBase* p);
struct ProcBase : Base {
  int rid; long c;
  ProcBase(my_context ctx) : Base(ctx), rid(-1), c(1234) {}
  typedef Base::my_context my_context;
  void start(int cls, const my_context& ctx) {
    // which request is this?  the one whose handle equals ours
    int sidx = &my_scheduler() == W->s[0] ? 0 : &my_scheduler() == W->s[1] ? 1 : -1;
    if (sidx < 0) { W->err = "my_scheduler() is not a scheduler"; return; }
    if (sidx != W->running) W->err = "processor constructed outside its scheduler's run";
    for (auto i = W->byHandle.lower_bound(my_handle()); i != W->byHandle.end() && same(i->first, my_handle()); ++i) { if (rid >= 0) W->err = "two requests share a handle"; rid = i->second; }
    if (rid < 0) { W->err = "the processor's handle is none of those returned"; return; }
    if (W->req[rid].sched != sidx) W->err = "wrong scheduler";
    if (W->req[rid].cls != cls) W->err = "wrong processor type";
  }
  void started() {
    if (rid < 0) return;
    W->log[W->running].push_back(LogE{L_CTOR, rid, 0}); hook(H_CTOR, this);
    if (W->alive.count(rid)) W->err = "processor constructed twice"; W->alive[rid] = this;
  }
  void verify() { if (c != 1234 || !W->alive.count(rid) || W->alive[rid] != this) W->err = "dead processor used"; if (!same(my_handle(), W->h[rid])) W->err = "my_handle() changed"; if (&my_scheduler() != W->s[W->req[rid].sched]) W->err = "my_scheduler() changed"; if (W->running != W->req[rid].sched) W->err = "processor runs outside its scheduler"; }
  ~ProcBase() { if (rid >= 0 && W->alive.count(rid) && W->alive[rid] == this) { W->log[W->req[rid].sched].push_back(LogE{L_DTOR, rid, 0}); W->alive.erase(rid); if (!W->dying) hook(H_DTOR, this); } c = 0; }
  void initiate_impl() { verify(); W->log[W->running].push_back(LogE{L_INIT, rid, 0}); hook(H_INIT, this); }
  void terminate_impl() { verify(); W->log[W->running].push_back(LogE{L_TERM, rid, 0}); hook(H_TERM, this); }
  void process_event_impl(const sc::event_base& e) {
    verify(); const Ev* v = dynamic_cast<const Ev*>(&e); int id = v && v->c == 55 ? v->id : -1;
    if (id >= 100000000 && (id - 100000000 >= (int)W->shared.size() || W->shared[id - 100000000].get() != &e)) W->err = "not the very event object that was queued";
    W->log[W->running].push_back(LogE{L_EVENT, rid, id}); hook(H_EVENT, this);
  }
};
template<int CLS, int... K> struct Proc : ProcBase {
  Proc(my_context ctx, typename A<K>::type... a) : ProcBase(ctx) {
    start(CLS, ctx); if (rid >= 0) { int n = 0; const std::vector<int>& ids = W->req[rid].ids; (void)n; (void)ids; (Chk<K>::c(a, ids[n++]), ...); } started(); }
};
template<int K> struct Mk;
template<> struct Mk<0> { static Tracked m(int id) { return Tracked(id); } };
template<> struct Mk<1> { static boost::reference_wrapper<Tracked> m(int id) { return boost::ref(*W->pool[id]); } };
template<> struct Mk<2> { static boost::reference_wrapper<const Tracked> m(int id) { return boost::cref(*W->pool[id]); } };
template<> struct Mk<3> { static int m(int id) { return id * 7 + 1; } };
template<> struct Mk<4> { static const char* m(int id) { return id & 1 ? "odd" : "even"; } };
template<int CLS, int... K> struct Creator {
  enum { N = sizeof...(K) };
  template<size_t... I> static Handle go(Sched& s, const std::vector<int>& ids, std::index_sequence<I...>) { return s.create_processor<Proc<CLS, K...> >(Mk<K>::m(ids[I])...); }
  static Handle make(Sched& s, const std::vector<int>& ids) { return go(s, ids, std::make_index_sequence<N>()); }
};
struct ClassInfo { int n; int values; Handle (*make)(Sched&, const std::vector<int>&); };
template<int CLS, int... K> ClassInfo info() { int k[] = {9, K...}; int v = 0; for (int x : k) if (x == 0) ++v; return ClassInfo{(int)sizeof...(K), v, &Creator<CLS, K...>::make}; }
static ClassInfo classes[] = {
#include "procs.inc"
};
enum { NCLS = sizeof(classes) / sizeof(classes[0]) };
static const int POOL = 12;

// ---------------------------------------------------------------- operations on the real thing
static boost::intrusive_ptr<const sc::event_base> newEv(int mode) {
  if (mode == 1) { if (W->shared.empty() || W->evid % 3 == 0) { W->shared.push_back(new Ev(100000000 + (int)W->shared.size())); } ++W->evid; return W->shared[W->evid % W->shared.size()]; }
  return boost::intrusive_ptr<const sc::event_base>(new Ev(W->evid++));
}
static void doCreate(int s, int cls, int argseed) {
  cls %= NCLS; ProcReq r; r.cls = cls; r.sched = s; for (int i = 0; i < classes[cls].n; ++i) r.ids.push_back((argseed + i * 5) % POOL);
  // the request is registered first: its index is the handle's index
  size_t pos = W->req.size(); W->req.push_back(r); W->h.insert(W->h.begin() + pos, Handle()); W->hm.insert(W->hm.begin() + pos, (int)pos);
  Handle hd = classes[cls].make(*W->s[s], r.ids); W->h[pos] = hd; W->byHandle.insert(std::make_pair(hd, (int)pos));
}
static void doItem(int s) {
  int id = W->itemid++; W->s[s]->queue_work_item(Sched::work_item([id, s]() { if (W->running != s) W->err = "item ran elsewhere"; W->log[s].push_back(LogE{L_ITEM, id, 0}); if (id % 7 == 3) throw Boom{id}; }));
}
// ---------------------------------------------------------------- model
enum { Q_CREATE, Q_INIT, Q_TERM, Q_DESTROY, Q_EVENT, Q_STOP, Q_ITEM };
struct Rq { int k, p, x; };
struct Model {
  std::deque<Rq> q[2]; bool stopped[2]; std::vector<int> hm; std::vector<LogE> log[2]; const World* w; int cnt[H_N], budget; std::set<int> alive; std::vector<ProcReq> req; int evid, itemid, nshared; bool thrown;
  long valueArgs;
};
static Model* MM = 0; static Info* INF = 0;
static int mNewEv(int mode) { if (mode == 1) { if (MM->nshared == 0 || MM->evid % 3 == 0) ++MM->nshared; ++MM->evid; return 100000000 + MM->evid % MM->nshared; } return MM->evid++; }
static void mCreate(int s, int cls, int argseed) {
  cls %= NCLS; ProcReq r; r.cls = cls; r.sched = s; size_t pos = MM->req.size(); MM->req.push_back(r); MM->hm.insert(MM->hm.begin() + pos, (int)pos);
  MM->q[s].push_back(Rq{Q_CREATE, (int)pos, 0});
}
static const Step* stepFor(const std::vector<Step>* beh, int* cnt, int hk) { const std::vector<Step>& v = beh[hk]; int n = cnt[hk]++; return v.empty() ? 0 : &v[n % v.size()]; }
// handle index used by a hook: modulo the number of handles there are now
static void hook(int hk, ProcBase* p) {
  const Step* st = stepFor(W->beh, W->cnt, hk); if (!st) return;
  int s = W->req[p->rid].sched; if (hk == H_DTOR && (st->act == A_THROW)) return;
  if (st->act == A_THROW) throw Boom{hk};
  if (st->act == A_NONE || W->budget <= 0) return; --W->budget;
  int hi = st->a % (int)W->h.size(); bool me = st->b & 4; const Handle hd = me ? W->h[p->rid] : W->h[hi];
  if (!me && W->hm[hi] >= 0 && W->req[W->hm[hi]].sched != s && st->act != A_CREATE && st->act != A_STOP && st->act != A_ITEM && st->act != A_DUP) return;   // a handle is only used with its own scheduler
  switch (st->act) {
    case A_EVENT: if (me) p->my_scheduler().queue_event(p->my_handle(), newEv(st->b & 1)); else W->s[s]->queue_event(hd, newEv(st->b & 1)); break;
    case A_CREATE: doCreate(s, st->a, st->b); break;
    case A_DESTROY: W->s[s]->destroy_processor(hd); break;
    case A_INIT: W->s[s]->initiate_processor(hd); break;
    case A_TERM: W->s[s]->terminate_processor(hd); break;
    case A_STOP: W->s[s]->terminate(); break;
    case A_ITEM: doItem(s); break;
    case A_DUP: W->h.push_back(Handle(hd)); W->hm.push_back(me ? p->rid : W->hm[hi]); break;
  }
}
struct MBoom {};
static void mhook(int hk, int rid, int s) {
  Model& m = *MM; const Step* st = stepFor(m.w->beh, m.cnt, hk); if (!st) return;
  if (hk == H_DTOR && st->act == A_THROW) return;
  if (st->act == A_THROW) throw MBoom();
  if (st->act == A_NONE || m.budget <= 0) return; --m.budget;
  int hi = st->a % (int)m.hm.size(); bool me = st->b & 4; int t = me ? m.hm[rid] : m.hm[hi];
  if (!me && t >= 0 && m.req[t].sched != s && st->act != A_CREATE && st->act != A_STOP && st->act != A_ITEM && st->act != A_DUP) return;
  INF->f("hookop");
  switch (st->act) {
    case A_EVENT: { int e = mNewEv(st->b & 1); m.q[s].push_back(Rq{Q_EVENT, t, e}); break; }
    case A_CREATE: mCreate(s, st->a, st->b); break;
    case A_DESTROY: m.q[s].push_back(Rq{Q_DESTROY, t, 0}); break;
    case A_INIT: m.q[s].push_back(Rq{Q_INIT, t, 0}); break;
    case A_TERM: m.q[s].push_back(Rq{Q_TERM, t, 0}); break;
    case A_STOP: m.q[s].push_back(Rq{Q_STOP, 0, 0}); break;
    case A_ITEM: m.q[s].push_back(Rq{Q_ITEM, m.itemid++, 0}); break;
    case A_DUP: m.hm.push_back(t); break;
  }
}
static long mRun(int s, int max, bool wait) {
  Model& m = *MM; long n = 0;
  while (!m.stopped[s] && (max == 0 || n < max)) {
    if (m.q[s].empty()) return wait ? -2 : n;
    Rq r = m.q[s].front(); m.q[s].pop_front();
    try {
      bool live = r.p >= 0 && m.alive.count(r.p);
      switch (r.k) {
        case Q_CREATE: m.log[s].push_back(LogE{L_CTOR, r.p, 0}); mhook(H_CTOR, r.p, s); m.alive.insert(r.p); break;
        case Q_INIT: if (live) { m.log[s].push_back(LogE{L_INIT, r.p, 0}); mhook(H_INIT, r.p, s); } else INF->f("ignored"); break;
        case Q_TERM: if (live) { m.log[s].push_back(LogE{L_TERM, r.p, 0}); mhook(H_TERM, r.p, s); } else INF->f("ignored"); break;
        case Q_EVENT: if (live) { m.log[s].push_back(LogE{L_EVENT, r.p, r.x}); mhook(H_EVENT, r.p, s); } else INF->f("ignored"); break;
        case Q_DESTROY: if (live) { m.alive.erase(r.p); m.log[s].push_back(LogE{L_DTOR, r.p, 0}); mhook(H_DTOR, r.p, s); INF->f("destroyed"); } else INF->f("ignored"); break;
        case Q_STOP: m.stopped[s] = true; break;
        case Q_ITEM: m.log[s].push_back(LogE{L_ITEM, r.p, 0}); if (r.p % 7 == 3) throw MBoom(); break;
      }
    } catch (MBoom&) { if (r.k == Q_CREATE) INF->f("ctorthrew"); return -1; }
    ++n;
  }
  return n;
}
namespace pbt {
int minArg(int, int) { return 0; }
Ops generate(Rng& r, const std::string& prof) {
  bool args = prof == "args"; Ops o;
  o.push_back(Op{90, r.below(2)});
  for (int hk = 0; hk < H_N; ++hk) if (r.p(args ? 0.25 : 0.6)) { int n = r.in(1, 4); for (int i = 0; i < n; ++i) {
    int act = r.pick({6, hk == H_DTOR ? 0 : args && hk == H_CTOR ? 4.0 : 1.2, 3, 0.8, 1.2, 1.2, 0.8, 0.25, 0.6, 0.6});
    o.push_back(Op{91, hk, act, r.below(20), r.below(8)}); } }
  int nh = 0, n = r.in(4, args ? 30 : 50); bool two = r.p(0.3);
  for (int i = 0; i < n; ++i) {
    int s = two ? r.below(2) : 0; int h = r.below(nh + 2);
    int k = args ? r.pick({8, 2, 1, 2, 2, 0.3, 5, 0.2, 0.5, 0.5, 0.012}) : r.pick({3, 4, 2, 2.2, 7, 1, 6, 0.25, 1, 0.8, 0.012});
    switch (k) {
      case 0: o.push_back(Op{0, s, r.below(NCLS), r.below(POOL)}); ++nh; break;
      case 4: o.push_back(Op{4, s, h, r.below(2)}); break;
      case 6: o.push_back(Op{6, s, r.p(0.5) ? 0 : r.in(1, 6)}); break;
      case 8: o.push_back(Op{8, 0, h}); ++nh; break;
      case 10: { int c = r.p(0.01) ? 66000 : r.in(20, 400); o.push_back(Op{10, s, r.below(NCLS), c, r.below(4)}); nh += c; break; }
      default: o.push_back(Op{k, s, h}); break;
    }
  }
  if (r.p(0.6)) o.push_back(Op{6, 0, 0});
  return o;
}
static std::string showLog(const std::vector<LogE>& a) { std::ostringstream s; static const char* n[] = {"?", "ctor", "init", "event", "term", "dtor", "item"}; for (auto& x : a) s << n[x.k] << x.p << (x.k == L_EVENT ? ":" + std::to_string(x.x) : "") << " "; return s.str(); }
std::string execute(const Ops& ops, const std::string& prof, Info& inf) {
  INF = &inf; argLive = evLive = 0; World w; W = &w; Model m; MM = &m; m.w = &w; memset(w.cnt, 0, sizeof w.cnt); memset(m.cnt, 0, sizeof m.cnt);
  w.budget = m.budget = 40; w.evid = m.evid = 0; w.itemid = m.itemid = 0; m.nshared = 0; w.running = -1; w.dying = false; m.stopped[0] = m.stopped[1] = false; m.thrown = false;
  bool wait = false; size_t k0 = 0;
  for (; k0 < ops.size() && ops[k0][0] >= 90; ++k0) if (ops[k0][0] == 90) wait = ops[k0][1]; else w.beh[ops[k0][1]].push_back(Step{ops[k0][2], ops[k0][3], ops[k0][4]});
  for (int i = 0; i < POOL; ++i) w.pool.push_back(new Tracked(i));
#ifdef BOOST_HAS_THREADS
  for (int i = 0; i < 2; ++i) w.s[i] = wait ? new Sched(true) : new Sched();
#else
  wait = false; for (int i = 0; i < 2; ++i) w.s[i] = new Sched();
#endif
  // a default constructed handle designates nothing
  std::ostringstream e;
  auto H = [&](int i) -> const Handle& { return w.h[i % w.h.size()]; };
  w.h.push_back(Handle()); w.hm.push_back(-1); m.hm.push_back(-1);
  int creates = 0;
  for (size_t k = k0; k < ops.size(); ++k) {
    const Op& o = ops[k]; ++inf.steps; int s = o[1] & 1;
    // a handle is only used with the scheduler it came from
    auto usable = [&](int hi) { int t = m.hm[hi % m.hm.size()]; return t < 0 || m.req[t].sched == s; };
    switch (o[0]) {
      case 0: doCreate(s, o[2], o[3]); mCreate(s, o[2], o[3]); ++creates; break;
      case 1: if (!usable(o[2])) break; w.s[s]->initiate_processor(H(o[2])); m.q[s].push_back(Rq{Q_INIT, m.hm[o[2] % m.hm.size()], 0}); break;
      case 2: if (!usable(o[2])) break; w.s[s]->terminate_processor(H(o[2])); m.q[s].push_back(Rq{Q_TERM, m.hm[o[2] % m.hm.size()], 0}); break;
      case 3: if (!usable(o[2])) break; w.s[s]->destroy_processor(H(o[2])); m.q[s].push_back(Rq{Q_DESTROY, m.hm[o[2] % m.hm.size()], 0}); break;
      case 4: { if (!usable(o[2])) break; w.s[s]->queue_event(H(o[2]), newEv(o[3])); int id = mNewEv(o[3]); m.q[s].push_back(Rq{Q_EVENT, m.hm[o[2] % m.hm.size()], id}); break; }
      case 5: doItem(s); m.q[s].push_back(Rq{Q_ITEM, m.itemid++, 0}); break;
      case 7: w.s[s]->terminate(); m.q[s].push_back(Rq{Q_STOP, 0, 0}); break;
      case 10:   // many processors, most of them gone again before the next one comes
        inf.f("churn");
        for (int i = 0; i < o[3]; ++i) {
          size_t at = m.req.size(); doCreate(s, o[2] + (i & 1), i); mCreate(s, o[2] + (i & 1), i); ++creates;
          if (o[4] & 1) { w.s[s]->queue_event(w.h[at], newEv(0)); m.q[s].push_back(Rq{Q_EVENT, m.hm[at], mNewEv(0)}); }
          if (i % 50 != 7 || o[4] == 3) { w.s[s]->destroy_processor(w.h[at]); m.q[s].push_back(Rq{Q_DESTROY, m.hm[at], 0}); }
          if ((o[4] & 2) && i > 3) { size_t b = at - 1 - i % 3; w.s[s]->queue_event(w.h[b], newEv(0)); m.q[s].push_back(Rq{Q_EVENT, m.hm[b], mNewEv(0)}); }
        }
        break;
      case 8: w.h.push_back(Handle(H(o[2]))); w.hm.push_back(w.hm[o[2] % w.hm.size()]); m.hm.push_back(m.hm[o[2] % m.hm.size()]); break;
      case 9: { int i = o[2] % (int)w.h.size(); if (i >= (int)m.req.size()) { w.h[i] = Handle(); w.hm[i] = -1; m.hm[i] = -1; } break; }
      case 6: {
        Model sv = m; Info si = inf; long want = mRun(s, o[2], wait);
        if (want == -2) { m = sv; inf = si; inf.f("skipped_wait"); break; }
        long got; w.running = s; try { got = (long)(o[2] == 0 ? (*w.s[s])() : (*w.s[s])((unsigned long)o[2])); } catch (const Boom&) { got = -1; } w.running = -1;
        inf.f("run"); if (want == -1) inf.f("threw");
        if (got != want) { e << "run(" << o[2] << ") at op " << k << " returned " << got << ", expected " << want << "; log: " << showLog(w.log[s]) << " expected: " << showLog(m.log[s]); if (!w.err.empty()) e << " [" << w.err << "]"; return e.str(); }
        break;
      }
    }
    if (!w.err.empty()) return w.err;
    for (int i = 0; i < 2; ++i) { if (w.s[i]->terminated() != m.stopped[i]) return "terminated() is wrong"; if (!(w.log[i] == m.log[i])) { e << "after op " << k << " scheduler " << i << " did: " << showLog(w.log[i]) << " expected: " << showLog(m.log[i]); return e.str(); } }
    // copies of arguments exist only in pending creations
    long va = 0; for (int i = 0; i < 2; ++i) for (auto& q : m.q[i]) if (q.k == Q_CREATE) va += classes[m.req[q.p].cls].values;
    if (argLive != va + POOL) { e << "after op " << k << ": " << argLive - POOL << " argument copies exist, pending creations hold " << va; return e.str(); }
    std::set<int> al; for (auto& x : w.alive) al.insert(x.first); if (al != m.alive) return "the processors alive are not the expected ones";
  }
  bool pendingAtEnd = !m.q[0].empty() || !m.q[1].empty(), liveAtEnd = !m.alive.empty();
  w.dying = true;
  for (int i = 0; i < 2; ++i) {
    size_t n = w.log[i].size(); std::set<int> want; for (int p : m.alive) if (m.req[p].sched == i) want.insert(p);
    delete w.s[i]; w.s[i] = 0;
    for (size_t k = n; k < w.log[i].size(); ++k) if (w.log[i][k].k != L_DTOR || !want.erase(w.log[i][k].p)) return "destroying the scheduler did more than destroying its processors: " + showLog(w.log[i]);
    if (!want.empty()) return "processors outlive their scheduler";
  }
  if (argLive != POOL) return "argument copies outlive the scheduler";
  w.shared.clear(); if (evLive) return "events outlive the scheduler";
  for (auto t : w.pool) delete t;
  if (creates > 1) inf.f("creates2");
  if (prof == "args") inf.nontrivial = m.req.size() > 1 && (inf.feats.count("ctorthrew") || pendingAtEnd || inf.feats.count("destroyed")); else inf.nontrivial = inf.feats.count("hookop") && (inf.feats.count("ignored") || inf.feats.count("destroyed"));
  if (liveAtEnd) inf.f("liveAtEnd"); if (pendingAtEnd) inf.f("pendingAtEnd");
  W = 0; MM = 0; return "";
}
}
