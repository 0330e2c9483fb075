From 1b6a2d8a2e7fb0633d5dc68f6ce15056d5ad6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 1/6] fix: initiate() leaves no states of the previous run
 behind

When initiate() is called on a running machine, an exit action throws and the
exception event is handled with a transition then terminate() returns with the
machine still running. initiate() then constructed a second state tree over the
active one. Destruct the remaining states first.
---
 include/boost/statechart/state_machine.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/statechart/state_machine.hpp b/include/boost/statechart/state_machine.hpp
index 25afad5..cbe9cd3 100644
--- a/include/boost/statechart/state_machine.hpp
+++ b/include/boost/statechart/state_machine.hpp
@@ -245,6 +245,14 @@ class state_machine : noncopyable
     {
       terminate();
 
+      // If an exit action threw and the resulting exception event was handled
+      // with a transition then we are still running. The states active now
+      // must be gone before the initial state is entered
+      if ( !terminated() )
+      {
+        terminate_impl( false );
+      }
+
       {
         terminator guard( *this, 0 );
         detail::result_utility::get_result( translator_(
-- 
2.43.0


From 029645baeb37fdcf0056b21b82acf88235c21cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 2/6] fix: BOOST_STATECHART_RELAX_TRANSITION_CONTEXT allows a
 composite source state as transition context

context_ptr<> does not cover the state itself, so a transition action that is a
member of a source state with inner states did not compile.
---
 include/boost/statechart/simple_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index eb1d438..2878e38 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -768,7 +768,7 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       else
       {
         typename real_transition_context_type::inner_context_ptr_type
-          pTransitionContext = context_ptr< real_transition_context_type >();
+          pTransitionContext = &context< real_transition_context_type >();
         outermostContextBase.terminate_as_part_of_transit(
           *pTransitionContext );
         transitionAction( *pTransitionContext );
-- 
2.43.0


From 33fe6a24e9f1d3ad2c566886859be13402c4549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 3/6] fix: a processor whose constructor throws is not kept by
 processor_container

The (empty) holder used to be inserted before the processor was constructed. When
the constructor threw, the handle stayed valid and subsequent operations on it
dereferenced a null pointer.
---
 include/boost/statechart/processor_container.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index fc61656..27ef3b4 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -311,8 +311,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1 >
@@ -320,8 +320,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2 >
@@ -329,8 +329,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2, typename Arg3 >
@@ -338,8 +338,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2, Arg3 arg3 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -350,8 +350,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -362,8 +362,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -374,8 +374,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5, Arg6 arg6 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5, arg6 ) );
+      processorSet_.insert( pProcessor );
     }
 
     void destroy_processor_impl( const processor_handle & processor )
-- 
2.43.0


From f6f1964b170d31b6964145e2e1b888077762c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 4/6] fix: fifo_worker.hpp, fifo_scheduler.hpp and
 processor_container.hpp can be included on their own

They use statechart::none without including the header defining it.
---
 include/boost/statechart/fifo_worker.hpp         | 2 ++
 include/boost/statechart/processor_container.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/boost/statechart/fifo_worker.hpp b/include/boost/statechart/fifo_worker.hpp
index 75d3ad6..7226952 100644
--- a/include/boost/statechart/fifo_worker.hpp
+++ b/include/boost/statechart/fifo_worker.hpp
@@ -8,6 +8,8 @@
 
 
 
+#include <boost/statechart/detail/memory.hpp>
+
 #include <boost/assert.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/function/function0.hpp>
diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index 27ef3b4..d89b326 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -9,6 +9,7 @@
 
 
 #include <boost/statechart/event_base.hpp>
+#include <boost/statechart/detail/memory.hpp>
 #include <boost/statechart/event_processor.hpp>
 
 #include <boost/assert.hpp>
-- 
2.43.0


From ff139ae4a32ba29a6b65f8cfdd71db713c514a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 5/6] fix: reject a state listed twice in an inner initial list

[A, A] with A in region 1 passed the check of the orthogonal position for
both elements and A was constructed twice in region 1.
---
 include/boost/statechart/simple_state.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index 2878e38..589ed4b 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -27,6 +27,7 @@
 #include <boost/mpl/find.hpp>
 #include <boost/mpl/find_if.hpp>
 #include <boost/mpl/contains.hpp>
+#include <boost/mpl/count.hpp>
 #include <boost/mpl/distance.hpp>
 #include <boost/mpl/deref.hpp>
 #include <boost/mpl/pop_front.hpp>
@@ -890,6 +891,14 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
             typename current_inner::context_type::inner_initial_list,
             typename current_inner::orthogonal_position >::type >::value ) );
 
+        // If you receive a compiler error here then the inner initial list of
+        // the outer state contains the same state more than once. That is, at
+        // least one of the positions lists a state of a different orthogonal
+        // region.
+        BOOST_STATIC_ASSERT( ( mpl::count<
+          typename current_inner::context_type::inner_initial_list,
+          current_inner >::value == 1 ) );
+
         current_inner::deep_construct( pInnerContext, outermostContextBase );
         deep_construct_inner< typename mpl::pop_front< InnerList >::type >(
           pInnerContext, outermostContextBase );
-- 
2.43.0


From 599d089420356d17b3269bbaee96cdf6c62abd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:31 +0000
Subject: [PATCH 6/6] fix: const context<>() of a state for the state itself or
 a base of it compiles

---
 include/boost/statechart/simple_state.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index 589ed4b..9562886 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -693,6 +693,12 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       {
         return *polymorphic_downcast< MostDerived * >( &stt );
       }
+
+      template< class OtherContext, class State >
+      static const OtherContext & context_impl( const State & stt )
+      {
+        return *polymorphic_downcast< const MostDerived * >( &stt );
+      }
     };
     friend struct context_impl_this_context;
 
-- 
2.43.0

