// Runtime used by generated charts ("real side"). Includes the library under test.
#ifndef VERIF_H_HPP
#define VERIF_H_HPP
#include <vector>
#include <set>
#include <map>
#include <string>
#include <exception>
#include <new>
#include <cstdio>
#include <cstdlib>
#include "case.hpp"
#ifndef H_LIBFIRST
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/statechart/null_exception_translator.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#endif

namespace sc = boost::statechart;
namespace mpl = boost::mpl;

namespace h {

extern H_TL int own;              // > 0 while the harness itself allocates
struct Own { Own() { ++own; } ~Own() { --own; } };
extern H_TL int entryNo, throwEntry, postNo, throwPost, inPost;     // points at which a failing allocation is simulated by a user exception

struct Probe {               // base of every generated state
  int pst, pser; Rt* prt; long canary;
  Probe(int s) : pst(s), pser(-1), prt(0), canary(0) {}
  virtual ~Probe();
  Probe(const Probe&) = delete;
};

struct Tag0 { virtual ~Tag0() {} }; struct Tag1 { virtual ~Tag1() {} }; struct Tag2 { virtual ~Tag2() {} };

struct EvData {
  int id, idx; bool copied; long canary;
  EvData(int i) : id(-1), idx(i), copied(false), canary(0x5eed) { ++evLive; }
  EvData(const EvData& o) : id(o.id), idx(o.idx), copied(true), canary(o.canary) { ++evLive; }
  EvData& operator=(const EvData&) = default;
  virtual ~EvData() { canary = 0xdead; id = -66; --evLive; }
};

} // namespace h
#ifdef H_ALLOC
#include "alloc.hpp"
#endif

namespace ev {
#ifdef H_ALLOC
#define H_EV(N) struct E##N : sc::event<E##N, h::Alloc<sc::none> >, h::EvData
#else
#define H_EV(N) struct E##N : sc::event<E##N>, h::EvData
#endif
#define H_EV1(N) H_EV(N) { E##N() : h::EvData(N) { id = h::newEventId(); } };
H_EV1(0) H_EV1(1) H_EV1(2) H_EV1(3) H_EV1(4) H_EV1(5)
#undef H_EV
#undef H_EV1
struct X0 : sc::event<X0>, h::EvData { X0() : h::EvData(h::EX0) { id = -7; } };
struct X1 : sc::event<X1>, h::EvData { X1() : h::EvData(h::EX1) { id = -8; } };
}

namespace h {

struct Exc0 { int k; Exc0(int k) : k(k) {} };
struct Exc1 : std::exception { int k; Exc1(int k) : k(k) {} };
struct Exc2 { int k; Exc2(int k) : k(k) {} };
inline void throwExc(int k) {
  switch (k) { case 0: throw Exc0(0); case 1: throw Exc1(1); default: throw Exc2(2); }
}

// translates Exc0 -> X0, Exc1 -> X1, everything else untouched
struct SelTranslator {
  template<class A, class Hd> sc::result operator()(A a, Hd hd) {
    try { return a(); }
    catch (const Exc0&) { return hd(ev::X0()); }
    catch (const Exc1&) { return hd(ev::X1()); }
  }
};

inline int evIdx(const sc::event_base& e) {
  const EvData* d = dynamic_cast<const EvData*>(&e);
  if (d) { if (d->canary != 0x5eed) return -50; return d->idx; }
  if (dynamic_cast<const sc::exception_thrown*>(&e)) return EXT;
  return -51;
}
enum { COPIED = 100000000 };      // marks tags of events that are copies of the one the caller made
inline int evId(const sc::event_base& e) {
  const EvData* d = dynamic_cast<const EvData*>(&e);
  if (d) return d->canary == 0x5eed ? d->id + (d->copied ? COPIED : 0) : -50;
  return -9;
}
inline int evTag(const sc::event_base* e) { return e == 0 ? 0 : evIdx(*e) * 100000 + 50000 + evId(*e); }

typedef boost::intrusive_ptr<const sc::event_base> EvPtr;
template<class E> inline const E* mk() { Own o; return new E; }

EvPtr sharedEvent(int idx);   // one heap event object per type, shared by all machines
template<class F> inline void withEvent(int ev, int mode, F f) {
  // mode 0: object on the stack, clobbered afterwards; 1: fresh heap object by pointer;
  // 2: heap object held elsewhere, passed by reference
#define H_W(N) case N: if (mode == 0) { ev::E##N e; f.ref(e); e.id = -99; } \
    else if (mode == 1) { f.ptr(EvPtr(mk<ev::E##N>())); } \
    else if (mode == 2) { EvPtr p(mk<ev::E##N>()); f.ref(*p); } else f.ref(*sharedEvent(N)); break;
  switch (ev) { H_W(0) H_W(1) H_W(2) H_W(3) H_W(4) H_W(5) default: std::abort(); }
#undef H_W
}
template<class S> struct Poster { S& s; void ref(const sc::event_base& e) { s.post_event(e); } void ptr(const EvPtr& p) { s.post_event(p); } };
template<class M> struct Processor { M& s; void ref(const sc::event_base& e) { s.process_event(e); } void ptr(const EvPtr& p) { s.process_event(*p); } };

// live-object registry ----------------------------------------------------
void born(Probe& p, void* self);
void died(Probe& p);
bool alive(const Probe& p);

struct IMachine {
  virtual ~IMachine() {}
  virtual void create() = 0;
  virtual void destroy() = 0;
  virtual void initiate() = 0;
  virtual void terminate() = 0;
  virtual void process(int ev, int mode) = 0;
  virtual void processPtr(const EvPtr& p) = 0;
  virtual void post(int ev, int mode) = 0;
  virtual void clear(int slot) = 0;
  virtual bool terminated() = 0;
  virtual int trig() = 0;
  virtual void leaves(std::vector<const Probe*>& v) = 0;
  // follows outer_state_ptr from every leaf; -1 terminated list
  virtual void chains(std::vector<std::vector<const Probe*> >& v) = 0;
  virtual bool queries(std::string& why, bool* mid = 0) = 0;
};
struct TopoReg { const char* desc; IMachine* (*make)(); bool relaxed; };
std::vector<TopoReg>& registry();
struct RegTopo { RegTopo(const char* d, IMachine* (*m)()) { 
#ifdef BOOST_STATECHART_RELAX_TRANSITION_CONTEXT
  bool r = true;
#else
  bool r = false;
#endif
  registry().push_back(TopoReg{d, m, r}); } };

void nestedOp(int machineIdx, int op, int arg);   // effect 'N': operate on another machine

// hooks -------------------------------------------------------------------
struct Sink { virtual ~Sink() {} virtual void post(int e, int m) = 0; virtual void clear(int slot) = 0; virtual void query() = 0; };
void queryMachine();
extern H_TL int viewOk; extern H_TL std::vector<const Probe*>* view;
void recView(const std::vector<const Probe*>& v);      // records the machine's innermost states, which have to be those a state sees
// ok: right for a stable machine. mid: right while a transition is under way, when states without a complete innermost state below them need not be found
struct QCtx { std::string why; bool ok, mid; QCtx() : ok(true), mid(true) {} void fail(const std::string& w, bool inMid = true) { if (ok) why = w; ok = false; if (inMid) mid = false; } };
extern H_TL std::set<int>* reach;                      // serial numbers of the states on the paths from the innermost states outward
extern H_TL int viewMid;
bool reachable(int st); int reachTagged(int mask);
template<class S, class C> inline void queryFrom(S& s) {
  // state level views must agree with the machine's
  std::vector<const Probe*> a; const S& cs = s;
  std::set<int> rs;
  for (typename S::state_iterator i = cs.state_begin(), e = cs.state_end(); i != e; ++i) {
    a.push_back(dynamic_cast<const Probe*>(&*i));
    for (const typename S::state_iterator::value_type* p = i.operator->(); p; p = p->outer_state_ptr()) if (const Probe* b = dynamic_cast<const Probe*>(p)) rs.insert(b->pser);
  }
  QCtx q; reach = &rs; C::squeries(cs, q); reach = 0;
  rec(K_NLEAF, (int)a.size());
  viewOk = q.ok; viewMid = q.mid; view = &a; queryMachine(); view = 0; viewOk = viewMid = 1;
}

template<class S, class C> struct SinkT : Sink {
  S& s; SinkT(S& s) : s(s) {}
  void post(int e, int m) { withEvent(e, m, Poster<S>{s}); }
  void clear(int slot) { C::template clear<S>(s, slot); }
  void query() { queryFrom<S, C>(s); }
};
void runEffects(const Beh* b, Sink& s);
void runEffectsNoCtx(const Beh* b);
const Beh* nextBeh(int hook);
template<class C, class S> inline void entry(S& s, int st, int ctxh) {
  if (++entryNo == throwEntry) throw std::bad_alloc();
  s.pser = newSerial(); s.prt = cur; s.canary = 1000003L * s.pser + st;
  born(s, &s);
  rec(K_ENTER, st, s.pser, evTag(s.triggering_event()), ctxh);
  if (const Beh* b = nextBeh(HK_ENTRY + st)) { SinkT<S, C> k(s); runEffects(b, k); }
}
template<class S> inline void entrySimple(S& s, int st) {
  if (++entryNo == throwEntry) throw std::bad_alloc();
  s.pser = newSerial(); s.prt = cur; s.canary = 1000003L * s.pser + st;
  born(s, &s);
  rec(K_ENTER, st, s.pser, 0, 0);
  if (const Beh* b = nextBeh(HK_ENTRY + st)) runEffectsNoCtx(b);
}
inline void checkProbe(Probe& p, int st) {
  if (p.prt != cur || p.pst != st || p.canary != 1000003L * p.pser + st || !alive(p)) bad("state object corrupted or not alive");
}
template<class C, class S> inline void exitHook(S& s, int st, int ctxh) {
  checkProbe(s, st);
  rec(K_EXIT, st, s.pser, evTag(s.triggering_event()), ctxh);
  if (const Beh* b = nextBeh(HK_EXIT + st)) { SinkT<S, C> k(s); runEffects(b, k); }
}
template<class C, class S> inline void dtorHook(S& s, int st) {
  checkProbe(s, st); died(s);
  if (cur->destroying) { rec(K_DTOR, st, s.pser, 0, 0); return; }      // the machine's own part is gone already
  rec(K_DTOR, st, s.pser, evTag(s.triggering_event()), s.ctxh());
#ifndef H_ALLOC
  if (const Beh* b = nextBeh(HK_DTOR + st)) { SinkT<S, C> k(s); runEffects(b, k); }
#endif
}
template<class C, class S> inline void actHook(S& s, int ctxSt, int ser, int act, const sc::event_base& e) {
  rec(K_ACT, act, ctxSt * 1000000 + ser, evIdx(e) * 100000 + 50000 + evId(e), evTag(s.triggering_event()));
  if (const Beh* b = nextBeh(HK_ACT + act)) { SinkT<S, C> k(s); runEffects(b, k); }
}
template<class C, class S> inline const Beh* reactHook(S& s, int st, int cust, const sc::event_base& e, int ctxh) {
  checkProbe(s, st);
  rec(K_REACT, cust, st * 1000000 + s.pser, evIdx(e) * 100000 + 50000 + evId(e), evTag(s.triggering_event()), ctxh);
  const Beh* b = nextBeh(HK_REACT + cust);
  if (b) { SinkT<S, C> k(s); runEffects(b, k); }
  return b;
}
template<class C, class M> inline void unconsHook(M& m, const sc::event_base& e) {
  rec(K_UNCONS, evIdx(e), evId(e));
  if (const Beh* b = nextBeh(HK_UNCONS)) { SinkT<M, C> k(m); runEffects(b, k); }
}
inline int mix(int h, int s) { return (int)(((unsigned)h * 1000003u) ^ (unsigned)(s + 7)); }

// generic query checks used by generated code ----------------------------------
const void* liveOf(int st, int& n);      // address of the live object of state st, number of them
int liveTagged(int tagmask);
template<class X, class M> inline void qDown(const M& m, int st, QCtx& q) {
  int n = 0; const void* want = liveOf(st, n);
  const X* p = m.template state_downcast<const X*>();
  bool may = n == 1 && !reachable(st); auto f = [&](const char* w, bool missing) { q.fail(w, n < 2 && !(may && missing)); };
  if ((const void*)p != want) f("state_downcast pointer", !p);
  try { const X& r = m.template state_downcast<const X&>(); if ((const void*)&r != want) f("state_downcast reference", false); }
  catch (const std::bad_cast&) { if (want) f("state_downcast threw for active state", true); }
}
template<class X, class M> inline void qCast(const M& m, int st, QCtx& q) {
  int n = 0; const void* want = liveOf(st, n);
  const X* p = m.template state_cast<const X*>();
  bool may = n == 1 && !reachable(st); auto f = [&](const char* w, bool missing) { q.fail(w, n < 2 && !(may && missing)); };
  if ((const void*)p != want) f("state_cast pointer", !p);
  try { const X& r = m.template state_cast<const X&>(); if ((const void*)&r != want) f("state_cast reference", false); }
  catch (const std::bad_cast&) { if (want) f("state_cast threw for active state", true); }
}
template<class T, class M> inline void qTag(const M& m, int mask, QCtx& q) {
  bool want = liveTagged(mask) > 0, must = reachTagged(mask) > 0;
  const T* p = m.template state_cast<const T*>();
  if ((p != 0) != want) q.fail("state_cast to base: wrong null-ness", p != 0 || must);
  if (p) { const Probe* b = dynamic_cast<const Probe*>(p); if (!b || !alive(*b)) q.fail("state_cast to base: not an active state"); }
  try { const T& r = m.template state_cast<const T&>(); if (!want) q.fail("state_cast<T&> found nothing active"); (void)r; }
  catch (const std::bad_cast&) { if (want) q.fail("state_cast<T&> threw", must); }
}

// a machine whose destructor terminates it first
template<class M> void dyingTerminate(M& m) {
  int exc = -1;
  try { m.terminate(); } catch (const Exc0&) { exc = 0; } catch (const Exc1&) { exc = 1; } catch (const Exc2&) { exc = 2; } catch (...) { exc = 91; }
  if (exc >= 0) rec(K_EXC, exc);
}
template<class M> struct ViewBox : IMachine {
  M* m; ViewBox() : m(0) {}
  typedef typename M::outermost_context_base_type B; B& b() { return *m; }
  void create() { std::abort(); }
  void destroy() { std::abort(); }
  void initiate() { b().initiate(); }
  void terminate() { b().terminate(); }
  void process(int ev, int mode) { withEvent(ev, mode, Processor<B>{b()}); }
  void processPtr(const EvPtr& p) { b().process_event(*p); }
  void post(int ev, int mode) { withEvent(ev, mode, Poster<M>{*m}); }
  void clear(int slot) { M::Cfg::template clear<M>(*m, slot); }
  bool terminated() { return m->terminated(); }
  int trig() { return evTag(m->triggering_event()); }
  void leaves(std::vector<const Probe*>& v) {
    for (typename M::state_iterator i = m->state_begin(); i != m->state_end(); ++i) v.push_back(dynamic_cast<const Probe*>(&*i));
  }
  void chains(std::vector<std::vector<const Probe*> >& v) {
    for (typename M::state_iterator i = m->state_begin(), e = m->state_end(); i != e; i++) {
      v.push_back(std::vector<const Probe*>());
      for (const typename M::state_base_type* p = i.operator->(); p; p = p->outer_state_ptr()) {
        v.back().push_back(dynamic_cast<const Probe*>(p));
        if (v.back().size() > 64) { v.back().push_back(0); break; }
      }
    }
  }
  bool queries(std::string& why, bool* mid = 0) {
    QCtx q; std::set<int> rs; std::vector<std::vector<const Probe*> > ch; chains(ch);
    for (size_t i = 0; i < ch.size(); ++i) for (size_t j = 0; j < ch[i].size(); ++j) { if (ch[i][j] && alive(*ch[i][j])) rs.insert(ch[i][j]->pser); else q.fail("outer states of the innermost states are gone"); }
    reach = &rs;
    // forward iterator laws
    typedef typename M::state_iterator It;
    It b = m->state_begin(), e = m->state_end();
    if ((b == e) != m->terminated()) q.fail("terminated() disagrees with range", false);
    long n1 = 0, n2 = 0; std::vector<const void*> p1, p2;
    for (It i = b; i != e; ++i) { ++n1; p1.push_back(&*i); if (i.operator->() != &*i) q.fail("-> vs *"); It c(i); if (!(c == i) || (c != i)) q.fail("copy equality"); if (n1 > 100) break; }
    for (It i = b; !(i == e); ) { It o = i++; ++n2; p2.push_back(&*o); if (o == i) q.fail("post increment"); if (n2 > 100) break; }
    if (n1 != n2 || p1 != p2) q.fail("multipass");
    M::Cfg::queries(*m, q); reach = 0;
    why = q.why; if (mid) *mid = q.mid; return q.ok;
  }
};
template<class M> struct MachineBox : ViewBox<M> {
  using ViewBox<M>::m;
  ~MachineBox() { delete m; }
  void create() { cur->destroying = false; m = new M; m->rt = cur; cur->machine = m; }
  void destroy() { delete m; m = 0; }
};

} // namespace h
#ifdef H_ASYNC
#define H_DYING h::rec(h::K_NOTE, 2, 0);
#else
#define H_DYING
#endif
#ifdef H_ASYNC
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
namespace h {
typedef sc::fifo_scheduler<> Sched;
struct AsyncBox { IMachine* view; Sched* sched; Sched::processor_handle handle; };
void asyncBornAt(Rt* rt, void* m, const AsyncBox& b);
void asyncDiedAt(Rt* rt);
template<class M> void asyncBorn(M& m) {
  m.rt->destroying = false; m.rt->machine = &m; AsyncBox b; ViewBox<M>* v = new ViewBox<M>; v->m = &m; b.view = v; b.sched = &m.my_scheduler(); b.handle = m.my_handle(); asyncBornAt(m.rt, &m, b);
}
template<class M> void asyncDied(M& m) { asyncDiedAt(m.rt); }
struct AsyncReg { const char* desc; Sched::processor_handle (*make)(Sched&); IMachine* (*plain)(); };
std::vector<AsyncReg>& asyncRegistry();
struct RegAsync { RegAsync(const char* d, Sched::processor_handle (*a)(Sched&), IMachine* (*p)()) { asyncRegistry().push_back(AsyncReg{d, a, p}); } };
}
#endif
#ifdef H_MISUSE
// Places at which a generated chart breaks a documented rule when the case asks for it. armed(): an assertion has to follow before anything else happens.
namespace h {
int wantMis(int hook);            // kind of misuse wanted at this call of this hook, 0 none
void arm(); void missed(); void allow(bool);      // allow: an exception from here would be misuse too, the result made before is lost
struct WrongEv : ev::E0 { long pad[4]; };
enum { M_ANY = 20, M_DTOR = 30 };
template<class C, class S> void misAny(S& s, int k) {
  switch (k) {
    case M_ANY: { EvPtr none; arm(); s.post_event(none); missed(); break; }
    case M_ANY + 1: arm(); new WrongEv; missed(); break;
    case M_ANY + 2: C::wrongState(); break;
    case M_ANY + 3: { arm(); EvPtr p(new WrongEv); s.post_event(p); missed(); break; }
  }
}
template<class C, class S> void misHook(S& s, int hook) { if (int k = wantMis(hook)) misAny<C>(s, k); }
}
#define H_MIS_REACT(HOOK, ...) if (int k = h::wantMis(HOOK)) switch (k) { \
  case 1: h::arm(); discard_event(); h::missed(); return discard_event(); \
  case 2: h::arm(); forward_event(); h::missed(); return discard_event(); \
  case 3: h::arm(); defer_event(); h::missed(); return discard_event(); \
  case 4: (terminate(), h::arm()); h::missed(); return discard_event(); \
  case 5: (transit< __VA_ARGS__ >(), h::arm()); h::missed(); return discard_event(); \
  case 6: { sc::result a = discard_event(); sc::result b = forward_event(); h::arm(); return b; } \
  case 7: { sc::result a = forward_event(); sc::result b = forward_event(); h::arm(); return a; } \
  case 8: { sc::result a = discard_event(); h::allow(true); sc::result b = transit< __VA_ARGS__ >(); h::allow(false); h::arm(); return b; } \
  case 9: { sc::result a = transit< __VA_ARGS__ >(); sc::result b = discard_event(); h::arm(); return a; } \
  case 10: { sc::result a = defer_event(); sc::result b(a); h::arm(); sc::result c(a); h::missed(); return b; } \
  case 11: { sc::result a = transit< __VA_ARGS__ >(); sc::result b(a); h::arm(); return a; } \
  case 12: { sc::result a = terminate(); sc::result b = forward_event(); h::arm(); return a; } \
  case 13: { sc::result a = forward_event(); sc::result b(a); sc::result c(b); h::arm(); return b; } \
  case 14: { sc::result a = defer_event(); sc::result b = defer_event(); h::arm(); return a; } \
  case 15: { sc::result* kept = new sc::result(discard_event()); sc::result once(*kept); h::arm(); return sc::result(*kept); } \
  default: h::misAny< Cfg >(*this, k); }
#define H_MIS_DTOR(HOOK, S) if (int k = h::wantMis(HOOK)) { const S& cs = *this; k -= h::M_DTOR; if (h::cur->destroying) h::arm(); \
  const Machine& m = k == 0 ? outermost_context() : k == 1 ? cs.outermost_context() : k == 2 ? context< Machine >() : cs.context< Machine >(); \
  if (h::cur->destroying) h::missed(); else if (m.rt != h::cur) h::bad("context in a destructor"); }
#define H_MIS_CTOR(HOOK, S, PAR, ...) if (int k = h::wantMis(HOOK)) { const S& cs = *this; ev::E0 e0; h::EvPtr ep(h::mk< ev::E0 >()); h::arm(); switch (k) { \
  case 1: post_event(e0); break; case 2: post_event(ep); break; case 3: (void)outermost_context(); break; case 4: (void)cs.outermost_context(); break; \
  case 5: (void)context< PAR >(); break; case 6: (void)cs.context< PAR >(); break; case 7: (void)context< Machine >(); break; case 8: (void)cs.context< Machine >(); break; \
  case 9: (void)state_begin(); break; case 10: (void)state_end(); break; case 11: (void)triggering_event(); break; case 12: (void)state_cast< const S* >(); break; \
  case 13: (void)state_downcast< const S* >(); break; case 14: defer_event(); break; case 15: discard_event(); break; case 16: forward_event(); break; \
  case 17: terminate(); break; case 18: transit< S >(); break; case 19: __VA_ARGS__; break; default: h::arm(); } h::missed(); }
#endif
#endif
