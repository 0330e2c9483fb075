// C19: type information of events and states, used from two translation units.
#ifndef VERIF_RTTI_HPP
#define VERIF_RTTI_HPP
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/mpl/list.hpp>
#include <vector>
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
#ifdef BOOST_STATECHART_USE_NATIVE_RTTI
#define NATIVE 1
#else
#define NATIVE 0
#endif
typedef sc::event_base::id_type Id;
typedef boost::intrusive_ptr<const sc::event_base> EvPtr;
// two custom identifier types
struct IdA { int x; }; typedef char IdB;
static const int NPTR = 5;
extern IdA idA[NPTR]; extern IdB idB[NPTR];

// ---- event types, some of which only differ in a template argument or their namespace
template<class T, int N> struct Ev : sc::event<Ev<T, N> > { int pad[N + 1]; };
namespace n1 { struct Same : sc::event<Same> {}; } namespace n2 { struct Same : sc::event<Same> {}; }
template<class A> struct EvAlloc : sc::event<EvAlloc<A>, A> {};
struct Mixin { virtual ~Mixin() {} int v; Mixin() : v(5) {} };
struct EvMix : Mixin, sc::event<EvMix> {};
namespace { struct Local : sc::event<Local> { int a; }; }          // another type in every unit
// ---- states
struct Go : sc::event<Go> { int to; explicit Go(int t) : to(t) {} };
struct M;
template<int N> struct S;
struct M : sc::state_machine<M, S<0> > {};
template<int N> struct Body {
  template<class T> static sc::result go(T& s, int to) {
    switch (to) { case 0: return s.template transit<S<0> >(); case 1: return s.template transit<S<1> >(); case 2: return s.template transit<S<2> >(); case 3: return s.template transit<S<3> >(); case 4: return s.template transit<S<4> >(); default: return s.template transit<S<5> >(); } }
};
template<int N> struct S : sc::simple_state<S<N>, M> {
  typedef sc::custom_reaction<Go> reactions; sc::result react(const Go& g) { return Body<N>::go(*this, g.to); } };
struct In0; struct In1; struct In2;
template<> struct S<4> : sc::simple_state<S<4>, M, mpl::list<In0, In1> > {
  typedef sc::custom_reaction<Go> reactions; sc::result react(const Go& g) { return Body<4>::go(*this, g.to); } };
struct In0 : sc::simple_state<In0, S<4>::orthogonal<0> > {};
struct In1 : sc::state<In1, S<4>::orthogonal<1>, In2> { In1(my_context c) : my_base(c) {} };
struct In2 : sc::simple_state<In2, In1> {};
template<> struct S<5> : sc::state<S<5>, M>, Mixin { S(my_context c) : my_base(c) {}
  typedef sc::custom_reaction<Go> reactions; sc::result react(const Go& g) { return Body<5>::go(*this, g.to); } };

struct Type {
  const char* name; bool event; Id (*stat)(); const sc::event_base* (*make)(); EvPtr (*clone)(const sc::event_base&);
#if !NATIVE
  void (*setA)(const IdA*); void (*setB)(const IdB*); const IdA* (*getA)(); const IdB* (*getB)();
#endif
};
template<class T, bool E> struct TOps {
  static Id stat() { return T::static_type(); }
  static const sc::event_base* make() { return new T; }
  static EvPtr clone(const sc::event_base& e) { const T& t = static_cast<const T&>(e); T copy(t); T other; other = copy; return static_cast<const sc::event_base&>(other).intrusive_from_this(); }
#if !NATIVE
  static void setA(const IdA* p) { T::template custom_static_type_ptr<IdA>(p); } static void setB(const IdB* p) { T::template custom_static_type_ptr<IdB>(p); }
  static const IdA* getA() { return T::template custom_static_type_ptr<IdA>(); } static const IdB* getB() { return T::template custom_static_type_ptr<IdB>(); }
#endif
};
template<class T> struct TOps<T, false> {
  static Id stat() { return T::static_type(); }
#if !NATIVE
  static void setA(const IdA* p) { T::template custom_static_type_ptr<IdA>(p); } static void setB(const IdB* p) { T::template custom_static_type_ptr<IdB>(p); }
  static const IdA* getA() { return T::template custom_static_type_ptr<IdA>(); } static const IdB* getB() { return T::template custom_static_type_ptr<IdB>(); }
#endif
};
#if NATIVE
#define CUST(T, E)
#else
#define CUST(T, E) , &TOps<T, E>::setA, &TOps<T, E>::setB, &TOps<T, E>::getA, &TOps<T, E>::getB
#endif
template<class T> inline Type ev(const char* n) { Type t = {n, true, &TOps<T, true>::stat, &TOps<T, true>::make, &TOps<T, true>::clone CUST(T, true)}; return t; }
template<class T> inline Type st(const char* n) { Type t = {n, false, &TOps<T, false>::stat, 0, 0 CUST(T, false)}; return t; }
// event types first; the last one is local to the unit
#define TYPES ev<Ev<int, 0> >("Ev<int,0>"), ev<Ev<int, 1> >("Ev<int,1>"), ev<Ev<long, 0> >("Ev<long,0>"), ev<Ev<n1::Same, 0> >("Ev<Same1>"), ev<Ev<n2::Same, 0> >("Ev<Same2>"), ev<n1::Same>("n1::Same"), ev<n2::Same>("n2::Same"), \
  ev<EvAlloc<std::allocator<sc::none> > >("EvAlloc"), ev<EvMix>("EvMix"), ev<Local>("Local"), \
  st<S<0> >("S0"), st<S<1> >("S1"), st<S<2> >("S2"), st<S<3> >("S3"), st<S<4> >("S4"), st<S<5> >("S5"), st<In0>("In0"), st<In1>("In1"), st<In2>("In2")
enum { NEV = 10, NT = 19, LOCAL = 9, ST0 = 10 };
const Type* typesB(); M* machineB(); void earlyB(); extern bool earlyOkB;
#endif
