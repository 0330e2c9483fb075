// C24: fifo_worker / fifo_scheduler work items against a sequential model.
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <deque>
#include <memory>
#include "pbt.hpp"
namespace sc = boost::statechart;
using namespace pbt;

static long allocLive = 0;
template<class T> struct CountAlloc {
  typedef T value_type; CountAlloc() {} template<class U> CountAlloc(const CountAlloc<U>&) {} template<class U> struct rebind { typedef CountAlloc<U> other; };
  T* allocate(size_t n) { ++allocLive; return (T*)::operator new(n * sizeof(T)); }
  void deallocate(T* p, size_t) { --allocLive; ::operator delete(p); }
  template<class U> bool operator==(const CountAlloc<U>&) const { return true; } template<class U> bool operator!=(const CountAlloc<U>&) const { return false; }
};
static long live = 0;
struct Track { long c; Track() : c(77) { ++live; } Track(const Track& o) : c(o.c) { ++live; } Track& operator=(const Track&) = default; ~Track() { c = 0; --live; } };
struct Boom { int id; };

// what an item does when it runs: a program of small steps, shared by model and item
enum { S_LOG, S_QUEUE, S_TERM, S_THROW, S_QTERMQ, S_ASK, S_KINDS };
struct Target {
  virtual ~Target() {}
  virtual void queueTemp(int id, int kind, int arg) = 0; virtual void queueL(int id, int kind, int arg, bool cnst) = 0; virtual void queueEmpty(int how) = 0;
  virtual unsigned long run(int max) = 0; virtual void term() = 0; virtual bool termd() = 0;
};
static Target* tgt = 0; static std::vector<long> log_; static int nextId = 0; static std::string err; static long held = 0;
static int qbudget = 0;
template<int PAD> struct Item {
  int id, kind, arg; Track t; char pad[PAD];
  Item(int i, int k, int a) : id(i), kind(k), arg(a) { memset(pad, 'x', PAD); }
  void operator()() const {
    if (t.c != 77) err = "work item object is dead while it runs";
    log_.push_back(id);
    switch (kind) {
      case S_QUEUE: for (int i = 0; i < arg && qbudget > 0; ++i) { --qbudget; int n = nextId++; tgt->queueTemp(n, i % 2 ? S_LOG : S_ASK, 0); } break;
      case S_TERM: tgt->term(); break;
      case S_THROW: throw Boom{id};
      case S_QTERMQ: if (qbudget > 2) { qbudget -= 2; int a = nextId++, b = nextId++; tgt->queueTemp(a, S_LOG, 0); tgt->term(); tgt->queueL(b, S_THROW, 0, arg & 1); if (arg & 2) throw Boom{id}; } break;
      case S_ASK: log_.push_back(tgt->termd() ? -2 : -3); break;
      default: break;
    }
  }
};
template<class W> struct TargetT : Target {
  W w; typedef typename W::work_item WI;
  TargetT() {}
  template<class B> explicit TargetT(B b) : w(b) {}
  static WI make(int id, int k, int a) { if (id % 3 == 0) return WI(Item<1>(id, k, a)); if (id % 3 == 1) return WI(Item<200>(id, k, a)); return WI(boost::bind<void>(Item<24>(id, k, a))); }
  void queueTemp(int id, int k, int a) { if (id % 5 == 0) w.queue_work_item(Item<40>(id, k, a)); else if (id % 5 == 1) { Item<3> i(id, k, a); w.queue_work_item(i); } else w.queue_work_item(make(id, k, a)); }
  void queueL(int id, int k, int a, bool cnst) {
    if (cnst) { const WI i = make(id, k, a); w.queue_work_item(i); if (i.empty()) err = "queueing a const item emptied it"; }
    else { WI i = make(id, k, a); w.queue_work_item(i); if (!i.empty()) err = "queueing a non-const item did not hand it over"; }
  }
  void queueEmpty(int how) { if (how == 0) w.queue_work_item(WI()); else if (how == 1) { WI i; w.queue_work_item(i); } else { const WI i; w.queue_work_item(i); } }
  unsigned long run(int max) { return max < 0 ? w() : w((unsigned long)max); } void term() { w.terminate(); } bool termd() { return w.terminated(); }
};
struct MItem { int id, kind, arg; bool isTerm; };
struct M {
  std::deque<MItem> q; bool terminated; std::vector<long> log; int nextId, qb; M() : terminated(false), nextId(0), qb(0) {}
  // returns -1 exception, -2 would wait, else count
  long run(int max, bool wait) {
    long n = 0;
    while (!terminated && (max <= 0 || n < max)) {
      if (q.empty()) return wait ? -2 : n;
      MItem i = q.front(); q.pop_front();
      if (i.isTerm) { terminated = true; ++n; continue; }
      log.push_back(i.id);
      switch (i.kind) {
        case S_QUEUE: for (int k = 0; k < i.arg && qb > 0; ++k) { --qb; q.push_back(MItem{nextId++, k % 2 ? S_LOG : S_ASK, 0, false}); } break;
        case S_TERM: q.push_back(MItem{-1, 0, 0, true}); break;
        case S_THROW: return -1;
        case S_QTERMQ: if (qb > 2) { qb -= 2; int a = nextId++, b = nextId++; q.push_back(MItem{a, S_LOG, 0, false}); q.push_back(MItem{-1, 0, 0, true}); q.push_back(MItem{b, S_THROW, 0, false}); if (i.arg & 2) return -1; } break;
        case S_ASK: log.push_back(terminated ? -2 : -3); break;
        default: break;
      }
      ++n;
    }
    return n;
  }
};
namespace pbt {
int minArg(int, int) { return 0; }
Ops generate(Rng& r, const std::string&) {
  Ops o; o.push_back(Op{9, r.below(4), r.below(2)});
  int n = r.in(3, 40);
  for (int i = 0; i < n; ++i) switch (r.pick({10, 5, 0.6, 0.7, 1, 0.005})) {
    case 0: o.push_back(Op{0, r.below(3), r.pick({5, 2.5, 0.3, 1.2, 0.5, 1}), r.below(4)}); break;
    case 1: o.push_back(Op{1, r.p(0.35) ? 0 : r.p(0.2) ? -1 : r.p(0.02) ? r.in(100, 70000) : r.in(1, 6)}); break;
    case 2: o.push_back(Op{2}); break;
    case 3: o.push_back(Op{3}); break;
    case 4: o.push_back(Op{4, r.below(3)}); break;
    case 5: o.push_back(Op{5, r.p(0.1) ? r.in(65500, 70000) : r.in(200, 1200)}); break;
  }
  return o;
}
std::string execute(const Ops& ops, const std::string&, Info& inf) {
  live = 0; allocLive = 0; log_.clear(); nextId = 0; err = ""; qbudget = 60;
  int which = 0, wait = 0; if (!ops.empty() && ops[0][0] == 9) { which = ops[0][1]; wait = ops[0][2]; }
  M m; m.qb = 60; std::unique_ptr<Target> t;
#ifdef BOOST_HAS_THREADS
#define MK(T) if (wait) t.reset(new TargetT<T >(true)); else if (which & 1) t.reset(new TargetT<T >(false)); else t.reset(new TargetT<T >());
#else
  wait = 0;
#define MK(T) t.reset(new TargetT<T >());
#endif
  typedef sc::fifo_worker<> W0; typedef sc::fifo_worker<CountAlloc<sc::none> > W1; typedef sc::fifo_scheduler<> W2; typedef sc::fifo_scheduler<sc::fifo_worker<CountAlloc<sc::none> >, CountAlloc<sc::none> > W3;
  switch (which & 3) { case 0: MK(W0) break; case 1: MK(W1) break; case 2: MK(W2) break; default: MK(W3) }
  tgt = t.get();
  std::ostringstream e;
  for (size_t k = 0; k < ops.size(); ++k) {
    const Op& o = ops[k]; ++inf.steps;
    switch (o[0]) {
      case 0: { int id = nextId++; ++m.nextId; if (o[1] == 0) t->queueTemp(id, o[2], o[3]); else t->queueL(id, o[2], o[3], o[1] == 2); m.q.push_back(MItem{id, o[2], o[3], false}); inf.f("queued"); break; }
      case 1: {
        M sv = m; long want = m.run(o[1], wait);
        if (want == -2) { m = sv; inf.f("skipped_wait"); break; }
        long got; try { got = (long)t->run(o[1]); } catch (const Boom& b) { got = -1; if (log_.empty() || b.id != log_.back()) err = "foreign exception object"; }
        inf.f("run"); if (want == -1) { inf.f("threw"); if (!m.q.empty()) inf.nontrivial = true; } if (o[1] > 0 && want == o[1]) { inf.f("maxreached"); if (!m.q.empty()) inf.nontrivial = true; } if (m.terminated && !sv.terminated) { inf.f("terminated"); if (!m.q.empty()) inf.nontrivial = true; } if (sv.terminated) inf.f("runafterterm");
        if (m.nextId != sv.nextId) inf.f("nested");
        if (got != want) { e << "run(" << o[1] << ") at op " << k << " returned " << got << ", expected " << want; return e.str(); }
        break;
      }
      case 2: t->term(); m.q.push_back(MItem{-1, 0, 0, true}); break;
      case 3: break;
      case 5: for (int i = 0; i < o[1]; ++i) { int id = nextId++; ++m.nextId; t->queueTemp(id, S_LOG, 0); m.q.push_back(MItem{id, S_LOG, 0, false}); } inf.f("bulk"); break;
      case 4: t->queueEmpty(o[1]); inf.f("empty"); break;
    }
    if (!err.empty()) return err;
    if (t->termd() != m.terminated) return "terminated() is wrong";
    if (log_ != m.log) { e << "executed items differ after op " << k << ": got " << log_.size() << " expected " << m.log.size(); return e.str(); }
    long pend = 0; for (auto& x : m.q) if (!x.isTerm) ++pend;
    if (live != pend) { e << "after op " << k << ": " << live << " work item objects exist, " << pend << " are pending"; return e.str(); }
  }
  tgt = 0; t.reset();
  if (log_ != m.log) return "items ran while the worker was destroyed";
  if (live) return "work items outlive their worker";
  if (allocLive) return "queue memory not returned";
  return "";
}
}
