// C09: lifetime, sharing and copying of event objects.  The model mirrors who refers to which event object and is advanced from the hooks.
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/mpl/list.hpp>
#include <deque>
#include "pbt.hpp"
namespace sc = boost::statechart; namespace mpl = boost::mpl;
using namespace pbt;
typedef boost::intrusive_ptr<const sc::event_base> EvPtr;

static std::string err; static void fail(const char* w) { if (err.empty()) { err = w; } }
static std::set<const void*> live;                 // Track subobjects
struct Boom {};
static int armed = 0;                              // the armed-th copy construction of an event from now on throws
static void copying() { if (armed && --armed == 0) throw Boom(); }
struct Track {
  long magic; int type, lin, val; std::string text;
  Track(int t) : magic(0xe4e47), type(t), lin(0), val(0) { live.insert(this); }
  Track(const Track& o) : magic(0xe4e47), type(o.type), lin(o.lin), val(o.val), text(o.text) { if (o.magic != 0xe4e47) fail("a dead event was copied"); copying(); live.insert(this); }
  Track& operator=(const Track& o) { if (o.magic != 0xe4e47) fail("a dead event was assigned"); type = o.type; lin = o.lin; val = o.val; text = o.text; return *this; }
  virtual ~Track() { if (magic != 0xe4e47 || !live.erase(this)) fail("an event was destroyed twice"); magic = 0; val = -1; }
  void set(int v) { val = v; text.assign(3 + (v % 7) * 9, (char)('a' + v % 26)); }
  bool whole() const { return magic == 0xe4e47 && text == std::string(3 + (val % 7) * 9, (char)('a' + val % 26)); }
};
static long allocBytes = 0;
template<class T> struct Alloc {
  typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type;
  template<class U> struct rebind { typedef Alloc<U> other; };
  Alloc() {} template<class U> Alloc(const Alloc<U>&) {}
  T* allocate(size_t n, const void* = 0) { size_t* p = (size_t*)poison::get(n * sizeof(T) + 16, true); p[0] = n * sizeof(T); p[1] = 0xa110c; allocBytes += p[0]; return (T*)(p + 2); }
  void deallocate(T* q, size_t n) { size_t* p = (size_t*)q - 2; if (p[1] != 0xa110c) { fail("deallocation of memory that is not the allocator's"); return; } if (p[0] != n * sizeof(T)) fail("deallocation with a different size"); p[1] = 0; allocBytes -= p[0]; poison::put(p); }
  size_type max_size() const { return 1000000; }
  void construct(T* p, const T& v) { new (p) T(v); } void destroy(T* p) { p->~T(); }
  bool operator==(const Alloc&) const { return true; } bool operator!=(const Alloc&) const { return false; }
};
struct E0 : sc::event<E0>, Track { E0() : Track(0) {} };
struct E1 : sc::event<E1, Alloc<sc::none> >, Track { E1() : Track(1) {} };
struct Pad { virtual ~Pad() {} long x[3]; Pad() { x[0] = x[1] = x[2] = 7; } };
struct E2 : Pad, Track, sc::event<E2> { E2() : Track(2) {} };
struct E3 : Track, sc::event<E3> { std::vector<int> big; E3() : Track(3), big(17, 3) {} };
static const Track& tr(const sc::event_base& e) { static E0* none = 0; const Track* t = dynamic_cast<const Track*>(&e); if (!t) { fail("not an event of the program"); if (!none) none = new E0, live.erase(none); return *none; } return *t; }

// ------------------------------------------------------------- model objects
struct Obj { int type, lin, val, refs; const Track* real; bool bound; };     // refs: slots, queues, pins
static std::vector<Obj> objs; static const int NSLOT = 5;
static int newObj(int type, int lin, int val, const Track* real) { Obj o = {type, lin, val, 0, real, real != 0}; objs.push_back(o); return (int)objs.size() - 1; }
static void check(const sc::event_base& e, int o, const char* what) {
  const Track& t = tr(e); static std::string w; Obj& m = objs[o];
  if (!live.count(&t) || !t.whole()) { fail("a dead or corrupted event is being processed"); return; }
  if (t.type != m.type) { fail("event of the wrong type"); return; }
  if (t.lin != m.lin) { w = std::string(what) + ": not the event whose turn it is"; fail(w.c_str()); return; }
  if (t.val != m.val) { fail(m.bound ? "a shared event lost its value" : "a copied event does not have the value of the moment of copying"); return; }
  if (m.bound) { if (m.real != &t) fail("a heap event was copied instead of shared"); }
  else { for (size_t i = 0; i < objs.size(); ++i) if ((int)i != o && objs[i].bound && objs[i].refs > 0 && objs[i].real == &t) fail("an event that is not on the heap was shared instead of copied"); m.real = &t; m.bound = true; }
}
struct Beh { int eff, a, b, res; };
enum { H_REACT, H_EXIT, H_ENTRY, H_UNCONS, H_PROC, H_N };
enum { F_NONE, F_POSTCUR, F_POSTSLOT, F_POSTSTACK, F_TAKECUR, F_TAKETRIG, F_DROPSLOT, F_POSTREF, F_MUTATE, F_THROW, F_COPYCUR, F_POSTOTHER, F_BADPOST, F_BADTAKE, F_EMPLACE, F_N };
enum { R_CONSUME, R_FORWARD, R_DEFER, R_TRANSIT, R_TERM, R_N };
struct Mach;
struct World {
  Mach* m[2]; std::deque<int> q[2], dq[2]; bool stFlag[2]; int cur[2], prevRes[2]; bool first[2]; int firstObj[2]; bool term[2];
  EvPtr slot[NSLOT]; int so[NSLOT]; std::vector<Beh> beh[H_N]; int cnt[H_N], budget, lin, running;
  std::deque<int> sq; sc::fifo_scheduler<>* sched; sc::fifo_scheduler<>::processor_handle h[2]; bool pAlive[2]; std::deque<int> sqTarget;
  int posts, shares, copies; bool clears;
};
static World* W = 0;
static void ref(int o) { ++objs[o].refs; } static void unref(int o) { --objs[o].refs; }
static void setSlot(int i, const EvPtr& p, int o) { if (o >= 0) ref(o); EvPtr old = W->slot[i]; W->slot[i] = p; int oo = W->so[i]; W->so[i] = o; if (oo >= 0) { unref(oo); old = EvPtr(); if (objs[oo].refs > 0 && objs[oo].bound && !live.count(objs[oo].real)) fail("an event was destroyed although it is still referred to"); } }
template<class E> static E* mkHeap() { E* e = new E; e->lin = W->lin++; e->set(e->lin % 90); return e; }
static EvPtr heap(int type, const Track*& t) { switch (type) { case 0: { E0* e = mkHeap<E0>(); t = e; return EvPtr(e); } case 1: { E1* e = mkHeap<E1>(); t = e; return EvPtr(e); } case 2: { E2* e = mkHeap<E2>(); t = e; return EvPtr(e); } default: { E3* e = mkHeap<E3>(); t = e; return EvPtr(e); } } }
template<class F> static void onStack(int type, F f) { switch (type) { case 0: { E0 e; e.lin = W->lin++; e.set(e.lin % 90); f(e); e.set(95); break; } case 1: { E1 e; e.lin = W->lin++; e.set(e.lin % 90); f(e); e.set(95); break; } case 2: { E2 e; e.lin = W->lin++; e.set(e.lin % 90); f(e); e.set(95); break; } default: { E3 e; e.lin = W->lin++; e.set(e.lin % 90); f(e); e.set(95); } } }
// a copy of an event, whatever its type, made by the user on the stack or on the heap
template<class F> static void withCopy(const sc::event_base& e, F f) { switch (tr(e).type) { case 0: { E0 c(dynamic_cast<const E0&>(e)); f(c); c.set(94); break; } case 1: { E1 c(dynamic_cast<const E1&>(e)); f(c); c.set(94); break; } case 2: { E2 c(dynamic_cast<const E2&>(e)); f(c); c.set(94); break; } default: { E3 c(dynamic_cast<const E3&>(e)); f(c); c.set(94); } } }
template<class F> static void withAssigned(const sc::event_base& e, F f) { switch (tr(e).type) { case 0: { E0 c; c = dynamic_cast<const E0&>(e); f(c); c.set(94); break; } case 1: { E1 c; c = dynamic_cast<const E1&>(e); f(c); c.set(94); break; } case 2: { E2 c; c = dynamic_cast<const E2&>(e); f(c); c.set(94); break; } default: { E3 c; c = dynamic_cast<const E3&>(e); f(c); c.set(94); } } }
// an event constructed in memory of the user's own
template<class E, class F> static void emplacedAs(F f) { union { char b[sizeof(E)]; long l; void* p; long double d; } buf; E* e = ::new ((void*)&buf) E; e->lin = W->lin++; e->set(e->lin % 90); struct End { E* e; ~End() { e->set(93); e->~E(); } } end = { e }; f(*e); }
template<class E, class F> static void emplacedOwn(F f) { union { char b[sizeof(E)]; long l; void* p; long double d; } buf; E* e = new ((void*)&buf) E; e->lin = W->lin++; e->set(e->lin % 90); struct End { E* e; ~End() { e->set(93); e->~E(); } } end = { e }; f(*e); }
template<class F> static void emplaced(int type, F f) { switch (type) { case 0: emplacedOwn<E0>(f); break; case 1: emplacedOwn<E1>(f); break; case 2: emplacedAs<E2>(f); break; default: emplacedOwn<E3>(f); } }
static EvPtr heapCopy(const sc::event_base& e, const Track*& t) { switch (tr(e).type) { case 0: { E0* c = new E0(dynamic_cast<const E0&>(e)); t = c; return EvPtr(c); } case 1: { E1* c = new E1(dynamic_cast<const E1&>(e)); t = c; return EvPtr(c); } case 2: { E2* c = new E2(dynamic_cast<const E2&>(e)); t = c; return EvPtr(c); } default: { E3* c = new E3(dynamic_cast<const E3&>(e)); t = c; return EvPtr(c); } } }
static void assignTo(const sc::event_base& d, const sc::event_base& s) { switch (tr(s).type) { case 0: const_cast<E0&>(dynamic_cast<const E0&>(d)) = dynamic_cast<const E0&>(s); break; case 1: const_cast<E1&>(dynamic_cast<const E1&>(d)) = dynamic_cast<const E1&>(s); break; case 2: const_cast<E2&>(dynamic_cast<const E2&>(d)) = dynamic_cast<const E2&>(s); break; default: const_cast<E3&>(dynamic_cast<const E3&>(d)) = dynamic_cast<const E3&>(s); } }

static void finishPrev(int k) {
  if (W->cur[k] < 0) return; int o = W->cur[k]; W->cur[k] = -1;
  if (W->prevRes[k] == R_DEFER) {
    // a heap event (one somebody refers to) is shared, anything else is copied now
    int d = o; if (objs[o].refs == 0) { d = newObj(objs[o].type, objs[o].lin, objs[o].val, 0); ++W->copies; } else ++W->shares;
    ref(d); W->dq[k].push_back(d);
  }
  if (objs[o].refs > 0 && W->first[k] == false) unref(o);      // the queue's reference, held while it was processed
  W->first[k] = false; W->firstObj[k] = -1;
}
static void beginEvent(int k, const sc::event_base& e) {
  finishPrev(k);
  if (W->firstObj[k] >= 0) { W->first[k] = true; W->cur[k] = W->firstObj[k]; }
  else {
    if (W->q[k].empty()) { fail("an event is processed that was never posted, or twice"); W->first[k] = true; W->cur[k] = newObj(0, -1, -1, 0); return; }
    W->first[k] = false; W->cur[k] = W->q[k].front(); W->q[k].pop_front();
  }
  check(e, W->cur[k], "processing");
}
template<class P> static void effects(P& poster, int k, int hk, const sc::event_base* cur);
static void dropQ(int k);
static int result(int hk) { std::vector<Beh>& v = W->beh[hk]; if (v.empty()) return R_CONSUME; return v[(W->cnt[hk] + v.size() - 1) % v.size()].res; }
template<int N> struct St;
struct Mach : sc::state_machine<Mach, St<0> > {
  int id; explicit Mach(int i) : id(i) {} using sc::state_machine<Mach, St<0> >::post_event;
  void unconsumed_event(const sc::event_base& e) { if (terminated()) beginEvent(id, e); effects(*this, id, H_UNCONS, &e); W->prevRes[id] = R_CONSUME; }
  template<class P> void poke(P&) {}
};
template<int N> struct St : sc::state<St<N>, Mach> {
  typedef sc::state<St<N>, Mach> base; typedef sc::custom_reaction<sc::event_base> reactions; int id; using base::post_event;
  St(typename base::my_context c) : base(c), id(this->outermost_context().id) { W->stFlag[id] = false; if (!this->triggering_event()) dropQ(id); effects(*this, id, H_ENTRY, this->triggering_event()); }
  ~St() { if (W->stFlag[id]) { W->q[id].insert(W->q[id].begin(), W->dq[id].begin(), W->dq[id].end()); W->dq[id].clear(); } }
  void exit() { effects(*this, id, H_EXIT, this->triggering_event()); }
  sc::result react(const sc::event_base& e) {
    beginEvent(id, e);
    if (this->triggering_event() != &e) fail("triggering_event() is another event");
    effects(*this, id, H_REACT, &e); int r = result(H_REACT); W->prevRes[id] = r;
    switch (r) {
      case R_FORWARD: return this->forward_event();
      case R_DEFER: W->stFlag[id] = true; return this->defer_event();
      case R_TRANSIT: return this->template transit<St<1 - N> >();
      case R_TERM: return this->terminate();
      default: return this->discard_event();
    }
  }
};
// what becomes of an event passed by reference: shared if somebody refers to it, else copied now
static int passRef(int o) { if (objs[o].refs > 0) { ++W->shares; return o; } ++W->copies; return newObj(objs[o].type, objs[o].lin, objs[o].val, 0); }
static void pushQ(int k, int o) { ref(o); W->q[k].push_back(o); ++W->posts; }
template<class P> static void effects(P& poster, int k, int hk, const sc::event_base* cur) {
  std::vector<Beh>& v = W->beh[hk]; int n = W->cnt[hk]++; if (v.empty()) return; Beh b = v[n % v.size()];
  int c = W->cur[k]; if (W->budget <= 0 && b.eff != F_THROW) return; --W->budget; int s = b.a % NSLOT;
  switch (b.eff) {
    case F_POSTCUR: if (cur && c >= 0) { pushQ(k, passRef(c)); poster.post_event(*cur); } break;
    case F_POSTSLOT: if (W->slot[s]) { pushQ(k, W->so[s]); poster.post_event(W->slot[s]); } break;
    case F_POSTREF: if (W->slot[s]) { pushQ(k, W->so[s]); ++W->shares; poster.post_event(*W->slot[s]); } break;
    case F_POSTSTACK: onStack(b.b % 4, [&](Track& t) { pushQ(k, newObj(t.type, t.lin, t.val, 0)); ++W->copies; poster.post_event(dynamic_cast<const sc::event_base&>(t)); }); break;
    case F_TAKECUR: if (cur && c >= 0) { int o = passRef(c); EvPtr p = cur->intrusive_from_this(); check(*p, o, "intrusive_from_this"); setSlot(s, p, o); } break;
    case F_TAKETRIG: if (poster.triggering_event() && c >= 0) { int o = passRef(c); EvPtr p = poster.triggering_event()->intrusive_from_this(); check(*p, o, "intrusive_from_this of triggering_event"); setSlot(s, p, o); } break;
    case F_DROPSLOT: setSlot(s, EvPtr(), -1); break;
    case F_MUTATE: if (W->slot[s]) { Track& t = const_cast<Track&>(tr(*W->slot[s])); t.set(b.b % 90); objs[W->so[s]].val = t.val; } break;
    case F_COPYCUR: if (cur && c >= 0) withCopy(*cur, [&](const sc::event_base& e) { pushQ(k, newObj(objs[c].type, objs[c].lin, objs[c].val, 0)); ++W->copies; poster.post_event(e); }); break;
    case F_POSTOTHER: if (cur && c >= 0) { pushQ(1 - k, passRef(c)); W->m[1 - k]->post_event(*cur); } break;
    // an event that cannot be copied: the exception leaves the hook, nothing is queued
    case F_BADPOST: case F_BADTAKE: onStack(b.b % 4, [&](Track& t) {
        const sc::event_base& e = dynamic_cast<const sc::event_base&>(t); W->clears = hk != H_UNCONS; struct Disarm { ~Disarm() { armed = 0; } } disarm; armed = 1;
        if (b.eff == F_BADPOST) poster.post_event(e); else { EvPtr p = e.intrusive_from_this(); }
        fail("an event that was not on the heap was not copied"); });
      break;
    case F_EMPLACE: emplaced(b.b % 4, [&](Track& t) { pushQ(k, newObj(t.type, t.lin, t.val, 0)); ++W->copies; poster.post_event(dynamic_cast<const sc::event_base&>(t)); }); break;
    case F_THROW: W->clears = hk != H_UNCONS; throw Boom();
  }
}
struct Proc : sc::event_processor<sc::fifo_scheduler<> > {
  int id; Proc(my_context c, int i) : sc::event_processor<sc::fifo_scheduler<> >(c), id(i) {}
  void initiate_impl() {} void terminate_impl() {}
  void process_event_impl(const sc::event_base& e) {
    while (!W->sq.empty() && !W->pAlive[W->sqTarget.front()]) { unref(W->sq.front()); W->sq.pop_front(); W->sqTarget.pop_front(); }
    if (W->sq.empty() || W->sqTarget.front() != id) { fail("the scheduler delivers an event that was not queued"); return; }
    int o = W->sq.front(); check(e, o, "scheduled"); W->sq.pop_front(); W->sqTarget.pop_front();
    std::vector<Beh>& v = W->beh[H_PROC]; if (!v.empty()) { Beh b = v[W->cnt[H_PROC]++ % v.size()]; if (b.eff == F_TAKECUR) { EvPtr p = e.intrusive_from_this(); check(*p, o, "intrusive_from_this"); setSlot(b.a % NSLOT, p, o); } else if (b.eff == F_POSTOTHER) { pushQ(b.b & 1, o); W->m[b.b & 1]->post_event(e); } else if (b.eff == F_DROPSLOT) setSlot(b.a % NSLOT, EvPtr(), -1); }
    unref(o);
  }
};
enum { O_BEH = 1, O_INIT, O_TERM, O_PROCSTACK, O_PROCSLOT, O_POSTSTACK, O_POSTSLOT, O_POSTREF, O_NEW, O_DROP, O_COPY, O_COPYPOST, O_ASSIGN, O_ASSIGNPOST, O_TAKESTACK, O_MUTATE, O_DESTROY, O_QUEUE, O_RUN, O_PDEL, O_PROCTEMP, O_BADPOST, O_BADCOPY, O_EMPLACE, O_PINMANY, O_POSTMANY, O_N };
pbt::Ops pbt::generate(Rng& r, const std::string&) {
  pbt::Ops o; bool thr = r.p(0.3);
  for (int hk = 0; hk < H_N; ++hk) { int n = r.in(0, 4); if (hk == H_REACT) ++n; for (int i = 0; i < n; ++i) { int e = r.p(0.25) ? 0 : r.below(F_N); if ((e == F_THROW || e == F_BADPOST || e == F_BADTAKE) && !(thr && r.p(0.4))) e = F_TAKECUR; o.push_back({O_BEH, hk, e, r.below(NSLOT), r.below(90), r.pick({4, 1, 4, 3, 0.5})}); } }
  o.push_back({O_INIT, 0}); if (r.p(0.8)) o.push_back({O_INIT, 1});
  int n = r.in(4, 30);
  for (int i = 0; i < n; ++i) switch (r.pick({0.7, 0.7, 5, 4, 2, 2, 2, 4, 2, 1, 1.5, 1, 1.5, 1, 1, 0.4, 2, 1.5, 0.3, 1, 0.6, 0.6, 1, 0.004, 0.03})) {
    case 0: o.push_back({O_INIT, r.below(2)}); break; case 1: o.push_back({O_TERM, r.below(2)}); break;
    case 2: o.push_back({O_PROCSTACK, r.below(2), r.below(4)}); break; case 3: o.push_back({O_PROCSLOT, r.below(2), r.below(NSLOT)}); break;
    case 4: o.push_back({O_POSTSTACK, r.below(2), r.below(4)}); break; case 5: o.push_back({O_POSTSLOT, r.below(2), r.below(NSLOT)}); break; case 6: o.push_back({O_POSTREF, r.below(2), r.below(NSLOT)}); break;
    case 7: o.push_back({O_NEW, r.below(NSLOT), r.below(4)}); break; case 8: o.push_back({O_DROP, r.below(NSLOT)}); break;
    case 9: o.push_back({O_COPY, r.below(NSLOT), r.below(NSLOT)}); break; case 10: o.push_back({O_COPYPOST, r.below(2), r.below(NSLOT)}); break;
    case 11: o.push_back({O_ASSIGN, r.below(NSLOT), r.below(NSLOT)}); break; case 12: o.push_back({O_ASSIGNPOST, r.below(2), r.below(NSLOT)}); break;
    case 13: o.push_back({O_TAKESTACK, r.below(NSLOT), r.below(4)}); break; case 14: o.push_back({O_MUTATE, r.below(NSLOT), r.below(90)}); break;
    case 15: o.push_back({O_DESTROY, r.below(2)}); break; case 16: o.push_back({O_QUEUE, r.below(2), r.below(NSLOT)}); break; case 17: o.push_back({O_RUN, r.below(4)}); break; case 18: o.push_back({O_PDEL, r.below(2)}); break;
    case 20: o.push_back({O_BADPOST, r.below(2), r.below(4), r.below(3)}); break; case 21: o.push_back({O_BADCOPY, r.below(NSLOT), r.below(2)}); break; case 22: o.push_back({O_EMPLACE, r.below(2), r.below(4)}); break;
    case 23: o.push_back({O_PINMANY, r.below(NSLOT), r.pick({8, 4, 1})}); break; case 24: o.push_back({O_POSTMANY, r.below(2), r.below(NSLOT), r.in(100, 400)}); break;
    case 19: o.push_back({O_PROCTEMP, r.below(2), r.below(4)}); break;
  }
  return o;
}
int pbt::minArg(int, int) { return 0; }

static void settle() {          // what is alive must be exactly what is referred to
  size_t want = 0; for (auto& o : objs) { if (o.refs < 0) fail("model: negative count"); if (o.refs > 0) { ++want; if (o.bound && !live.count(o.real)) fail("an event was destroyed although it is still referred to"); } }
  if (live.size() > want) fail("an event lives on although nobody refers to it"); if (live.size() < want) fail("an event is gone although it is still referred to");
}
template<class F> static void op(int k, F f) {
  W->running = k; W->budget = 12; bool threw = false;
  try { f(); } catch (const Boom&) { threw = true; }
    if (threw) { for (int j = 0; j < 2; ++j) if (W->cur[j] >= 0) { if (!W->first[j]) unref(W->cur[j]); W->cur[j] = -1; W->first[j] = false; } }
  else for (int j = 0; j < 2; ++j) finishPrev(j);
  W->firstObj[0] = W->firstObj[1] = -1;
  if (threw && W->clears) { dropQ(k); if (!W->m[k]->terminated()) fail("an exception leaves the machine running"); }
}
static void dropQ(int k) { for (int o : W->q[k]) unref(o); for (int o : W->dq[k]) unref(o); W->q[k].clear(); W->dq[k].clear(); }

std::string pbt::execute(const pbt::Ops& ops, const std::string&, Info& inf) {
  err.clear(); armed = 0; live.clear(); objs.clear(); objs.reserve(4000); long bytes0 = allocBytes;
  { World w; W = &w; w.lin = 1; w.posts = w.shares = w.copies = 0; for (int i = 0; i < NSLOT; ++i) w.so[i] = -1; for (int i = 0; i < H_N; ++i) w.cnt[i] = 0;
    for (int k = 0; k < 2; ++k) { w.cur[k] = w.firstObj[k] = -1; w.first[k] = false; w.stFlag[k] = false; w.prevRes[k] = 0; w.m[k] = new Mach(k); w.pAlive[k] = true; }
    w.budget = 0; sc::fifo_scheduler<> sched; w.sched = &sched; for (int k = 0; k < 2; ++k) w.h[k] = sched.create_processor<Proc>(k); sched();
    for (auto& o : ops) {
      ++inf.steps; if (!err.empty()) break; if (objs.size() > 3500) break;
      int k = o.size() > 1 ? o[1] & 1 : 0; Mach*& m = w.m[k];
      switch (o[0]) {
        case O_BEH: { Beh b = {o[2], o[3], o[4], o[5]}; w.beh[o[1]].push_back(b); continue; }
        case O_INIT: op(k, [&] { m->initiate(); }); break;
        case O_TERM: op(k, [&] { m->terminate(); }); dropQ(k); break;
        case O_PROCSTACK: op(k, [&] { onStack(o[2] % 4, [&](Track& t) { w.firstObj[k] = newObj(t.type, t.lin, t.val, &t); m->process_event(dynamic_cast<const sc::event_base&>(t)); for (int j = 0; j < 2; ++j) finishPrev(j); }); }); break;
        case O_PROCSLOT: case O_PROCTEMP: { EvPtr pin; int po;
          if (o[0] == O_PROCSLOT) { pin = w.slot[o[2] % NSLOT]; po = w.so[o[2] % NSLOT]; if (!pin) continue; } else { const Track* t = 0; pin = heap(o[2] % 4, t); po = newObj(t->type, t->lin, t->val, t); }
          ref(po); w.firstObj[k] = po; op(k, [&] { m->process_event(*pin); }); unref(po); break; }
        case O_POSTSTACK: op(k, [&] { onStack(o[2] % 4, [&](Track& t) { pushQ(k, newObj(t.type, t.lin, t.val, 0)); ++w.copies; m->post_event(dynamic_cast<const sc::event_base&>(t)); }); }); break;
        case O_POSTSLOT: if (w.slot[o[2] % NSLOT]) { pushQ(k, w.so[o[2] % NSLOT]); m->post_event(w.slot[o[2] % NSLOT]); } break;
        case O_POSTREF: if (w.slot[o[2] % NSLOT]) { pushQ(k, w.so[o[2] % NSLOT]); m->post_event(*w.slot[o[2] % NSLOT]); ++w.shares; } break;
        case O_NEW: { const Track* t = 0; EvPtr p = heap(o[2] % 4, t); setSlot(o[1] % NSLOT, p, newObj(t->type, t->lin, t->val, t)); break; }
        case O_DROP: setSlot(o[1] % NSLOT, EvPtr(), -1); break;
        case O_COPY: if (w.slot[o[2] % NSLOT]) { const Track* t = 0; EvPtr p = heapCopy(*w.slot[o[2] % NSLOT], t); setSlot(o[1] % NSLOT, p, newObj(t->type, t->lin, t->val, t)); } break;
        case O_COPYPOST: if (w.slot[o[2] % NSLOT]) { Obj x = objs[w.so[o[2] % NSLOT]]; withCopy(*w.slot[o[2] % NSLOT], [&](const sc::event_base& e) { pushQ(k, newObj(x.type, x.lin, x.val, 0)); m->post_event(e); ++w.copies; }); } break;
        case O_ASSIGN: { int a = o[1] % NSLOT, b = o[2] % NSLOT; if (w.slot[a] && w.slot[b] && tr(*w.slot[a]).type == tr(*w.slot[b]).type) { assignTo(*w.slot[a], *w.slot[b]); objs[w.so[a]].lin = objs[w.so[b]].lin; objs[w.so[a]].val = objs[w.so[b]].val; } break; }
        case O_ASSIGNPOST: if (w.slot[o[2] % NSLOT]) { Obj x = objs[w.so[o[2] % NSLOT]]; withAssigned(*w.slot[o[2] % NSLOT], [&](const sc::event_base& e) { pushQ(k, newObj(x.type, x.lin, x.val, 0)); m->post_event(e); ++w.copies; }); } break;
        case O_TAKESTACK: { EvPtr p; int ob = -1; onStack(o[2] % 4, [&](Track& t) { ob = newObj(t.type, t.lin, t.val, 0); p = dynamic_cast<const sc::event_base&>(t).intrusive_from_this(); if (p.get() == &dynamic_cast<const sc::event_base&>(t)) fail("a stack event was shared"); }); if (err.empty()) check(*p, ob, "intrusive_from_this"); setSlot(o[1] % NSLOT, p, ob); break; }
        case O_MUTATE: if (w.slot[o[1] % NSLOT]) { Track& t = const_cast<Track&>(tr(*w.slot[o[1] % NSLOT])); t.set(o[2] % 90); objs[w.so[o[1] % NSLOT]].val = t.val; } break;
        case O_DESTROY: { op(k, [&] { Mach* x = m; m = 0; delete x; m = new Mach(k); }); dropQ(k); break; }
        case O_QUEUE: if (w.slot[o[2] % NSLOT]) { int ob = w.so[o[2] % NSLOT]; ref(ob); w.sq.push_back(ob); w.sqTarget.push_back(k); sched.queue_event(w.h[k], w.slot[o[2] % NSLOT]); } break;
        case O_RUN: { if (o[1] == 0) { sched(); while (!w.sq.empty()) { if (w.pAlive[w.sqTarget.front()]) { fail("a queued event was not processed"); } unref(w.sq.front()); w.sq.pop_front(); w.sqTarget.pop_front(); } }
          else { unsigned long left = w.sq.size(); unsigned long n = sched(o[1]); unsigned long expect = left < (unsigned long)o[1] ? left : o[1]; if (n != expect) fail("items processed"); while (w.sq.size() > left - expect) { if (w.pAlive[w.sqTarget.front()]) fail("a queued event was not processed"); unref(w.sq.front()); w.sq.pop_front(); w.sqTarget.pop_front(); } }
          break; }
        // copying fails: the caller gets the exception, nothing is queued and nothing leaks
        case O_BADPOST: { bool threw = false;
          onStack(o[2] % 4, [&](Track& t) { const sc::event_base& e = dynamic_cast<const sc::event_base&>(t); armed = 1; try { if (o[3] == 0) m->post_event(e); else if (o[3] == 1) { EvPtr p = e.intrusive_from_this(); } else { EvPtr p = t.type == 0 ? dynamic_cast<const E0&>(e).intrusive_from_this() : e.intrusive_from_this(); } } catch (const Boom&) { threw = true; } armed = 0; });
          if (!threw) fail("an event that was not on the heap was not copied"); break; }
        case O_BADCOPY: if (w.slot[o[1] % NSLOT] && o[2]) { bool threw = false; union { char b[sizeof(E0) + sizeof(E1) + sizeof(E3)]; long double d; } buf; const sc::event_base& e = *w.slot[o[1] % NSLOT]; armed = 1;
            try { switch (tr(e).type) { case 0: new ((void*)&buf) E0(dynamic_cast<const E0&>(e)); break; case 1: new ((void*)&buf) E1(dynamic_cast<const E1&>(e)); break; case 3: new ((void*)&buf) E3(dynamic_cast<const E3&>(e)); break; default: armed = 0; throw Boom(); } } catch (const Boom&) { threw = true; }
            armed = 0; if (!threw) fail("check: copying did not throw"); break; }
          if (w.slot[o[1] % NSLOT]) { bool threw = false; armed = 1; try { const Track* t = 0; EvPtr p = heapCopy(*w.slot[o[1] % NSLOT], t); } catch (const Boom&) { threw = true; } armed = 0; if (!threw) fail("check: copying did not throw"); break; } break;
        // many references to one object
        case O_PINMANY: if (w.slot[o[1] % NSLOT]) { static const int N[] = {300, 1000, 70000}; std::vector<EvPtr> pins(N[o[2] % 3], w.slot[o[1] % NSLOT]); settle(); pins.resize(pins.size() / 2); settle(); } break;
        case O_POSTMANY: if (w.slot[o[2] % NSLOT]) for (int i = 0; i < o[3]; ++i) { pushQ(k, w.so[o[2] % NSLOT]); m->post_event(w.slot[o[2] % NSLOT]); } break;
        case O_EMPLACE: emplaced(o[2] % 4, [&](Track& t) { pushQ(k, newObj(t.type, t.lin, t.val, 0)); ++w.copies; m->post_event(dynamic_cast<const sc::event_base&>(t)); }); break;
        case O_PDEL: if (w.pAlive[k] && w.sq.empty()) { sched.destroy_processor(w.h[k]); sched(); w.pAlive[k] = false; } break;
      }
      if (!err.empty()) break; settle();
    }
    inf.nontrivial = w.shares > 0 && w.copies > 0 && w.posts > 1; if (w.shares) inf.f("shared"); if (w.copies) inf.f("copied");
    // everything goes away
    if (err.empty()) {
      sched(); for (int x : w.sq) unref(x); w.sq.clear();
      for (int k = 0; k < 2; ++k) { Mach* x = w.m[k]; w.m[k] = 0; delete x; dropQ(k); }
      for (int i = 0; i < NSLOT; ++i) setSlot(i, EvPtr(), -1);
      live.size() ? fail("events survive everything that referred to them") : (void)0;
      if (allocBytes != bytes0) fail("memory of events was not returned to their allocator");
    }
  }
  return err;
}
