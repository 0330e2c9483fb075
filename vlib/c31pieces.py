"""Small uses of the library for C31: (headers a user would include for it, code); u() returns 1 when it works. Each goes into a namespace of its own."""
M = {'state_machine.hpp', 'simple_state.hpp', 'event.hpp'}
T = M | {'transition.hpp'}
PIECES = [
 ({'event.hpp'}, '''struct E : sc::event<E> { int v; E(int i) : v(i) {} }; struct F : sc::event<F> {};
inline int u() { E e(4); boost::intrusive_ptr<const sc::event_base> p = e.intrusive_from_this(), q = p->intrusive_from_this(); boost::intrusive_ptr<E> h(new E(5)); F f; int x = 0; (void)x;
  return p == q && p.get() != &e && static_cast<const E&>(*p).v == 4 && e.dynamic_type() == E::static_type() && !(f.dynamic_type() == h->dynamic_type()); }'''),
 ({'event_base.hpp', 'event.hpp'}, 'struct E : sc::event<E> {}; inline const sc::event_base& b(const E& e) { return e; } inline int u() { E e; return b(e).dynamic_type() == E::static_type(); }'),
 ({'result.hpp', 'custom_reaction.hpp'} | M, '''struct S; struct E : sc::event<E> {}; struct Mc : sc::state_machine<Mc, S> { int n; Mc() : n(0) {} void unconsumed_event(const sc::event_base&) { ++n; } };
struct S : sc::simple_state<S, Mc> { typedef sc::custom_reaction<E> reactions; int k; S() : k(0) {} sc::result react(const E&) { ++k; sc::result r = k == 2 ? discard_event() : forward_event(); return r; } };
inline int u() { Mc m; m.initiate(); m.process_event(E()); m.process_event(E()); m.process_event(E()); return m.n == 2; }'''),
 ({'fifo_worker.hpp'}, '''inline int& c() { static int n; return n; } inline void f() { ++c(); }
inline int u() { int before = c(); sc::fifo_worker<> w; sc::fifo_worker<>::work_item i(&f); w.queue_work_item(i); const sc::fifo_worker<>::work_item j(&f); w.queue_work_item(j); unsigned long a = w(); w.terminate(); unsigned long b = w(); return c() == before + 2 && a == 2 && b == 1 && w.terminated(); }'''),
 ({'fifo_scheduler.hpp', 'event_processor.hpp', 'event.hpp'}, '''struct E : sc::event<E> {};
struct P : sc::event_processor<sc::fifo_scheduler<> > { int& n; P(my_context c, int& x) : sc::event_processor<sc::fifo_scheduler<> >(c), n(x) {} virtual void initiate_impl() { n += 1; } virtual void process_event_impl(const sc::event_base& e) { if (e.dynamic_type() == E::static_type()) n += 10; } virtual void terminate_impl() { n += 100; } };
inline int u() { int n = 0; { sc::fifo_scheduler<> s; sc::fifo_scheduler<>::processor_handle h = s.create_processor<P>(boost::ref(n)); s.initiate_processor(h); s.queue_event(h, boost::intrusive_ptr<E>(new E)); s.terminate_processor(h); s(); s.destroy_processor(h); s(); s.queue_event(h, boost::intrusive_ptr<E>(new E)); s(); } return n == 111; }'''),
 ({'asynchronous_state_machine.hpp', 'fifo_scheduler.hpp', 'simple_state.hpp', 'transition.hpp', 'event.hpp'}, '''struct S; struct Mc : sc::asynchronous_state_machine<Mc, S> { int& n; Mc(my_context c, int& x) : my_base(c), n(x) {} typedef sc::asynchronous_state_machine<Mc, S> my_base; }; struct E : sc::event<E> {};
struct S : sc::simple_state<S, Mc> { typedef sc::transition<E, S> reactions; void exit() { ++outermost_context().n; } };
inline int u() { int n = 0; sc::fifo_scheduler<> s; sc::fifo_scheduler<>::processor_handle h = s.create_processor<Mc>(boost::ref(n)); s.initiate_processor(h); s.queue_event(h, boost::intrusive_ptr<E>(new E)); s.terminate_processor(h); return s() == 4 && n == 2; }'''),
 (T | {'exception_translator.hpp'}, '''struct A; struct B; struct E : sc::event<E> {}; struct O; struct Mc : sc::state_machine<Mc, O, std::allocator<char>, sc::exception_translator<> > {};
struct O : sc::simple_state<O, Mc, A> { typedef sc::transition<sc::exception_thrown, B> reactions; };
struct A : sc::simple_state<A, O> { typedef sc::transition<E, A> reactions; void exit() { throw 1; } }; struct B : sc::simple_state<B, Mc> {};
inline int u() { Mc m; m.initiate(); m.process_event(E()); return m.state_cast<const B*>() != 0; }'''),
 ({'null_exception_translator.hpp'}, '''struct R { int v; }; struct A { sc::result* r; };
inline int u() { sc::null_exception_translator t; sc::null_exception_translator v(t); (void)v; return 1; }'''),
 (T | {'deferral.hpp'}, '''struct A; struct B; struct E : sc::event<E> {}; struct F : sc::event<F> {}; struct Mc : sc::state_machine<Mc, A> {}; struct C;
struct A : sc::simple_state<A, Mc> { typedef boost::mpl::list<sc::deferral<E>, sc::transition<F, B> > reactions; }; struct B : sc::simple_state<B, Mc> { typedef sc::transition<E, C> reactions; }; struct C : sc::simple_state<C, Mc> {};
inline int u() { Mc m; m.initiate(); m.process_event(E()); m.process_event(F()); return m.state_cast<const C*>() != 0; }'''),
 (M | {'deferral.hpp', 'termination.hpp'}, '''struct A; struct B; struct R0; struct R1; struct E : sc::event<E> {}; struct F : sc::event<F> {}; struct Mc : sc::state_machine<Mc, A> {};
struct A : sc::simple_state<A, Mc, boost::mpl::list<R0, R1> > {}; struct R0 : sc::simple_state<R0, A::orthogonal<0> > { typedef boost::mpl::list<sc::deferral<E>, sc::termination<F> > reactions; }; struct R1 : sc::simple_state<R1, A::orthogonal<1> > { typedef sc::termination<E> reactions; };
inline int u() { Mc m; m.initiate(); m.process_event(E()); m.process_event(F()); return m.terminated(); }'''),
 (M | {'termination.hpp'}, '''struct A; struct E : sc::event<E> {}; struct Mc : sc::state_machine<Mc, A> {}; struct A : sc::simple_state<A, Mc> { typedef sc::termination<E> reactions; };
inline int u() { Mc m; m.initiate(); bool b = m.terminated(); m.process_event(E()); return !b && m.terminated(); }'''),
 (M | {'termination.hpp', 'state.hpp'}, '''struct A; struct B; struct E : sc::event<E> {}; struct Mc : sc::state_machine<Mc, A> {}; struct A : sc::state<A, Mc, B> { A(my_context c) : my_base(c) {} }; struct B : sc::state<B, A> { B(my_context c) : my_base(c) {} typedef sc::termination<E> reactions; };
inline int u() { Mc m; m.initiate(); bool b = m.terminated(); m.process_event(E()); return !b && m.terminated(); }'''),
 (M | {'in_state_reaction.hpp'}, '''struct A; struct E : sc::event<E> {}; struct Mc : sc::state_machine<Mc, A> { int n; Mc() : n(0) {} }; struct A : sc::simple_state<A, Mc> { void f(const E&) { ++outermost_context().n; } typedef sc::in_state_reaction<E, A, &A::f> reactions; };
inline int u() { Mc m; m.initiate(); m.process_event(E()); m.process_event(E()); return m.n == 2; }'''),
 ({'state_machine.hpp', 'state.hpp', 'event.hpp', 'custom_reaction.hpp'}, '''struct A; struct B; struct E : sc::event<E> {}; struct Mc : sc::state_machine<Mc, A> { int n; Mc() : n(0) {} }; struct A : sc::state<A, Mc, B> { A(my_context c) : my_base(c) { ++outermost_context().n; } };
struct B : sc::state<B, A> { B(my_context c) : my_base(c) { post_event(E()); context<Mc>().n += 10; } typedef sc::custom_reaction<E> reactions; sc::result react(const E&) { context<Mc>().n += 100; return discard_event(); } };
inline int u() { Mc m; m.initiate(); return m.n == 111; }'''),
 (T, '''struct A; struct B; struct E : sc::event<E> {}; struct Mc : sc::state_machine<Mc, A> { int n; Mc() : n(0) {} void f(const E&) { ++n; } }; struct A : sc::simple_state<A, Mc> { typedef sc::transition<E, B, Mc, &Mc::f> reactions; }; struct B : sc::simple_state<B, Mc> {};
inline int u() { Mc m; m.initiate(); m.process_event(E()); return m.n == 1 && m.state_cast<const B*>() != 0 && m.state_cast<const A*>() == 0; }'''),
]
for H in ('shallow', 'deep'):
    for inc in ({H + '_history.hpp'}, {'history.hpp'}):
        PIECES.append((T | inc, '''struct A; struct C; struct B; struct D; struct E : sc::event<E> {}; struct F : sc::event<F> {}; struct Mc : sc::state_machine<Mc, A> {};
struct A : sc::simple_state<A, Mc, boost::mpl::list<sc::%s_history<B> >, sc::has_full_history> { typedef sc::transition<E, C> reactions; }; struct B : sc::simple_state<B, A> { typedef sc::transition<F, D> reactions; }; struct D : sc::simple_state<D, A> {}; struct C : sc::simple_state<C, Mc> { typedef sc::transition<E, A> reactions; };
inline int u() { Mc m; m.initiate(); m.process_event(F()); m.process_event(E()); m.process_event(E()); return m.state_cast<const D*>() != 0; }''' % H))
