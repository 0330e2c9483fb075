#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays consistent)."""
import json, os
H = "include/boost/statechart/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [H + f for f in files],
         "mechanism": [{"name": n, "where": H + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": H + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SM, SS = "state_machine.hpp", "simple_state.hpp"
HAND = "the tests are a handful of hand-drawn charts each driven with a fixed event script; "

prop("C01", "Reaction search: innermost first, outward, once per leaf, one consumer",
 "A dispatched event is offered to every active innermost state in turn, and for each of them first to that state and then outward through its outer states, until a reaction consumes or defers it; a reaction that forwards resumes the search at the next outer state and, past the outermost state, at the next not yet visited innermost state. After a reaction consumed or deferred the event nothing else sees it, and exactly when no state consumed or deferred it is the machine's unconsumed-event handler called, once, with that event (also when the machine is terminated).",
 ["programs", "inputs", "histories"], "every legal state chart (nesting, orthogonal regions, reaction tables, forwarding reactions) and every event sequence",
 HAND + "search paths through nested orthogonal regions with forwarding, after arbitrary earlier transitions, are not sampled.",
 [SM, SS], [("send_event leaf loop", SM), ("react_impl outward search", SS), ("unconsumed_event", SM)],
 ["reaction calls, transition actions, unconsumed_event calls"])
prop("C02", "Reaction lists: first matching reaction wins, and each kind does what it says",
 "Within one state the declared reactions are tried in declaration order and the first whose event type is the event's most-derived type, or which is declared for the event base class (which matches every event), is executed exactly once and no later one is, whatever its result. A transition goes to its destination running its action if it has one, an in-state reaction runs its action and changes no state, a termination ends the state, a deferral defers, and a custom reaction's returned result decides; actions and custom reactions receive the very event that was dispatched.",
 ["programs", "inputs"], "every reaction list over any event types (including several entries for one type, event-base entries at any place, a single reaction not in a list) and every event",
 HAND + "they do not vary list order, duplicates, event-base entries or list forms.",
 [SS, "transition.hpp", "in_state_reaction.hpp", "termination.hpp", "deferral.hpp", "custom_reaction.hpp", "detail/reaction_dispatcher.hpp"],
 [("local_react list walk", SS), ("reaction_dispatcher", "detail/reaction_dispatcher.hpp"), ("custom_reaction<event_base>", "custom_reaction.hpp")])
prop("C03", "Entry: the right states are entered, outermost first, regions in ascending order",
 "Initiating a machine or completing a transition enters exactly: the states on the path from the innermost common context down to the destination, the initial inner states of the destination recursively, and in every region off that path of an entered state that region's initial inner states; each exactly once. An outer state is entered before its inner states, and the regions of a state are entered completely one after the other from the lowest region number to the highest.",
 ["programs", "histories"], "every chart (depth, regions, destination anywhere legal: self, sibling, ancestor, descendant, inside another composite or region) and every reachable source configuration",
 HAND + "TransitionTest covers one chart; depth, region position of the destination and region counts vary without bound.",
 [SS, "detail/constructor.hpp", "state.hpp"], [("outer_constructor/inner_constructor", "detail/constructor.hpp"), ("deep_construct_inner", SS), ("transit_impl", SS)],
 ["state constructors"])
prop("C04", "Exit: the right states are left, innermost first, regions in descending order",
 "A transition exits exactly the active states below the innermost common context of source and destination that lie on the source side (states in other regions of the common context stay), each exactly once with its exit action run and then its object destroyed. Inner states are exited before their outer state, the regions of a state completely one after the other from the highest region number to the lowest, and a transition action runs exactly once, after the last exit and before the first entry, on the named context object and with the triggering event.",
 ["programs", "histories"], "every chart, every source configuration reached by any history (terminated regions, restored histories), every legal transition",
 HAND + "exit from configurations reached after arbitrary earlier transitions in several regions is not sampled.",
 [SS, SM, "detail/node_state.hpp", "detail/leaf_state.hpp"], [("exit_impl", SS), ("remove_from_state_list", "detail/node_state.hpp"), ("terminate_as_part_of_transit", SM)],
 ["exit(), destructors, transition actions"])
prop("C05", "The active configuration is well formed and every query reports exactly it",
 "Between operations and inside reactions, the innermost-state range lists each active innermost state exactly once, following outer-state pointers from them yields exactly the active states, and every active composite has one active inner state per region except regions that were terminated. Type-exact and polymorphic state lookups succeed exactly for active states (null, or a bad-cast exception for references, otherwise) and return that very object, the range's iterators obey forward-iterator laws, and the machine is terminated exactly when the range is empty. Inside entry, exit and transition actions the same lookups keep finding the active states that the transition in progress does not touch, and no longer find states already destroyed.",
 ["programs", "histories"], "every chart and every history of operations, each query also while a transition is in progress; every query type including base classes of states and reference/pointer targets",
 HAND + "StateCastTest and StateIterationTest query three small charts after a few steps.",
 [SM, SS, "detail/leaf_state.hpp"], [("state_cast/state_downcast", SM), ("state_iterator", SM), ("add_impl / remove_from_state_list list maintenance", SM)],
 ["state_begin/state_end, outer_state_ptr, state_cast, state_downcast, terminated"],
 [("currentStates_", "active innermost states", SM)])
prop("C06", "Terminating a state ends it, and an outer state ends with its last inner state",
 "A termination reaction exits the reacting state with everything inside it, in the normal exit order, and then every outer state left with no active inner state, recursively, up to the machine, which is then terminated; nothing else is exited. Regions ended this way stay empty until their outer state is re-entered, the others keep reacting, and events arriving at a terminated machine go to the unconsumed-event handler.",
 ["programs", "histories"], "every chart and every sequence of terminations of states at any level and in any region, mixed with transitions",
 HAND + "TerminationTest walks one two-level chart.",
 [SS, SM, "termination.hpp", "detail/node_state.hpp"], [("terminate_as_reaction", SM), ("exit_impl outward recursion", SS), ("remove_from_state_list null checks", "detail/node_state.hpp")])
prop("C07", "Posted events: run to completion, first in first out, exactly once",
 "An event posted from an entry, exit, transition action, reaction or the machine is processed exactly once, only after the processing of the current event is complete, in the order of posting, and before the outermost operation returns. This holds for events posted while other posted events are processed, for heap and stack events alike, in the same way after initiation as after processing an event, and unprocessed events vanish only with termination of the machine, re-initiation or an unhandled exception.",
 ["programs", "histories", "inputs"], "every chart, every placement of posts in user hooks (nested posting included) and every event sequence",
 HAND + "no test posts from every hook kind in combination or nests posts.",
 [SM, SS, "event.hpp", "event_base.hpp"], [("process_queued_events", SM), ("post_event_impl", SM)],
 ["order of reactions to posted events"], [("eventQueue_", "posted events", SM)])
prop("C08", "Deferred events are kept and come back, in order, when the deferring state exits",
 "A deferred event is neither lost nor duplicated: it stays deferred until any state that deferred an event is left, for whatever reason, and then all deferred events are reprocessed in the order of deferral, before any event still waiting in the queue. Leaving a state that deferred nothing releases nothing, a deferral counts as consuming the event, an event may be deferred again, and termination of the machine discards deferred events.",
 ["programs", "histories"], "every chart with any placement of deferrals (nested, in several regions, custom or declared, repeated) and every event history",
 HAND + "DeferralTest runs one chart; the queue order with posted events, several deferring regions and re-deferral are open.",
 [SM, SS, "deferral.hpp", "detail/state_base.hpp"], [("release_events", SM), ("~simple_state release", SS), ("process_event deferral", SM)],
 None, [("deferredEventQueue_", "deferred events", SM)])
prop("C09", "Events live as long as needed; shared if on the heap, copied otherwise",
 "Posting, deferring or taking a shared pointer to an event that is already reference-counted shares that very object; doing so for any other event makes a faithful copy of its most-derived type at that moment, and the original may then change or vanish. Every event object, however it is created, copied or assigned, is destroyed exactly once, after its last use and as soon as nobody refers to it, with copying or assigning never transferring reference counts.",
 ["histories", "inputs"], "every sequence of creating, copying, assigning, posting, deferring, taking pointers to and dropping events, on stack, heap or preallocated storage",
 "no test counts event objects over histories; a leak, a premature free or a lost payload stays invisible to them.",
 ["event.hpp", "event_base.hpp", "detail/counted_base.hpp", SM], [("intrusive_from_this", "event_base.hpp"), ("clone", "event.hpp"), ("counted_base copy semantics", "detail/counted_base.hpp")])
prop("C10", "Shallow history restores the last active direct inner state of its region",
 "Entering a region through shallow history enters the direct inner state that was active in that region when its outer state was last left with exit actions run, from there on with initial inner states; if there is none yet, or it was cleared, the default state of that history entry is entered instead. Histories of different states and regions never influence each other, and history saved by nested or repeated entries is always the most recent.",
 ["programs", "histories"], "every chart with shallow histories in initial lists and as transition targets (several states, regions, nesting, both kinds combined) and every history of transitions",
 HAND + "HistoryTest is one chart; which of many saved slots is used after arbitrary interleavings is not sampled.",
 [SM, SS, "shallow_history.hpp"], [("store_shallow_history", SM), ("construct_with_history_impl", SM), ("history_key", SM)],
 None, [("shallowHistoryMap_", "last state per (context, region)", SM)])
prop("C11", "Deep history restores the last active innermost state with the path to it",
 "Entering a region through deep history enters the complete path of states down to the innermost state that was active when the region was last left with exit actions run, outermost first, and nothing else than that path and the initial states of other regions; if there is none yet, or it was cleared, the default state of that history entry is entered with its initial inner states. Each region of each state with deep history, also one nested in another, keeps its own most recent innermost state.",
 ["programs", "histories"], "every chart with deep histories (any depth, several regions, nested deep-history states, full history) and every history of transitions",
 HAND + "HistoryTest reaches two levels on one chart.",
 [SM, SS, "deep_history.hpp", "detail/constructor.hpp"], [("store_deep_history_impl recursion", SS), ("deep_history_storer", SS), ("store_deep_history", SM)],
 None, [("deepHistoryMap_", "last innermost path per (context, region)", SM)])
prop("C12", "Clearing history affects exactly the named slot; restart forgets all history",
 "Clearing the shallow (or deep) history of one region of one state makes the next history entry into it use the default state, changes no other region, state or kind of history, no active state, and a later exit saves history again. Terminating, re-initiating or losing the machine's states to an unhandled exception forgets all history; terminating an inner state by a reaction does not.",
 ["programs", "histories"], "every chart with histories and every interleaving of clears (from states, actions or the machine), exits, terminations, failures and restarts",
 HAND + "clears are tested on one chart in one order.",
 [SM, SS], [("clear_shallow_history/clear_deep_history", SM), ("terminate_impl map clear", SM)])
prop("C13", "An unhandled exception ends all states without exit actions and nothing lingers",
 "If user code (a state constructor, exit action, transition action or reaction) throws and the exception is not handled, it reaches the caller unchanged; by then every state object has been destroyed, inner before outer and higher regions first, no exit action was run after the throw, all posted and deferred events and all history are gone, and the machine is terminated. The machine can be initiated again and then behaves like a new one; an exception from the unconsumed-event handler only propagates and changes no state.",
 ["programs", "histories", "fault_sequences"], "every chart, every operation history and a throw at any user hook reached (first, later or repeated)",
 HAND + "InconsistentHistoryTest/FifoSchedulerTest-like tests throw at fixed places; here every reachable hook may throw.",
 [SM, SS, "null_exception_translator.hpp"], [("terminator guard", SM), ("terminate_impl(false)", SM), ("~simple_state", SS)],
 ["exception seen by caller, destructor/exit log, later behaviour"])
prop("C14", "Translated exceptions are offered to the right states and handled or rethrown",
 "With an exception translator, an exception becomes an exception event that is offered first to the innermost state being processed if a reaction of a stable machine threw, and to the outermost unstable state if the machine was left unstable, and then only outward; it counts as handled exactly if a reaction was found, consumed it and left the machine stable, and processing then continues normally. Otherwise (no reaction, deferral, a further throw, or still unstable) the original exception, or the one thrown while handling, reaches the caller and all states are destroyed; states left while handling are destroyed without exit action or history, and a translator may translate only some exceptions.",
 ["programs", "histories", "fault_sequences"], "every chart with exception reactions anywhere, every translator kind, every place of a throw including during entry, exit, action, nested handling",
 "TransitionTest covers one chart with selected throw points; stability of every partially entered or left configuration is open.",
 [SM, "exception_translator.hpp", SS], [("handle_exception_event", SM), ("outermost unstable state tracking", SM), ("exit_impl unstable update", SS)],
 None, [("pOutermostUnstableState_", "outermost unstable state", SM)])
prop("C15", "Two-stage exit: exit action, history, then destruction, state by state",
 "Each state that is left normally first has its exit action called, exactly once and while it, its outer states and the machine are intact and queryable through it, and then its destructor, before the exit of any further state begins. When states are destroyed without exit (machine destruction, unhandled exception, exception handling) no exit action runs; a state whose constructor threw has neither exit action nor destructor called, and one whose exit action threw is still destroyed exactly once.",
 ["programs", "histories", "fault_sequences"], "every chart and history, every way to leave a state, with and without throws",
 HAND + "object lifetimes across all ways to leave a state are not monitored.",
 [SS, SM, "detail/state_base.hpp"], [("exit_impl", SS), ("intrusive_ptr_release", SS)], ["constructors, exit(), destructors per object"])
prop("C16", "Initiate, terminate, destroy and restart always leave a clean machine",
 "Initiating a running machine first terminates it completely with exit actions and then starts it from its initial state with no events or history left over; terminating runs exit actions innermost first, drops all queued and deferred events and history and is harmless when repeated; destroying a running machine destroys its states innermost first without exit actions. Before initiation and after termination no state is active, and after any restart behaviour is that of a new machine.",
 ["programs", "histories"], "every interleaving of initiate, terminate, events and destruction in any configuration, over every chart",
 HAND + "restart after arbitrary histories (pending deferred events, saved histories, empty regions) is not sampled.",
 [SM], [("initiate", SM), ("terminate", SM), ("~state_machine", SM)])
prop("C17", "The triggering event is exactly the event being reacted to",
 "While a reaction, transition action, or the exit and entry actions it causes run, the machine and every state report as triggering event the very event being processed (the posted, deferred-and-released or exception event, not an older one); while initiating or terminating the machine and while nothing runs, they report none. This also holds after exceptions, handled or not.",
 ["programs", "histories", "fault_sequences"], "every hook in every chart and history, with nested posts, deferral, restarts and exceptions",
 "TriggeringEventTest checks one chart in a few places.",
 [SM, SS], [("terminator guard save/restore", SM), ("triggering_event", SM)], None, [("pTriggeringEvent_", "current event", SM)])
prop("C18", "Context access returns the real outer objects; state data lives with the state",
 "Asking a state for itself, an outer state, a base of one, or the machine returns exactly the object that is currently active as such, from constructors of full states, exit actions, reactions and (for the machine) destructors alike. Data kept in a state object exists unchanged from that object's entry until its destruction, however many transitions happen inside it, and a re-entered state is a fresh object.",
 ["programs", "histories"], "every chart, every pair of state and context, in every hook and history",
 HAND + "contexts are used on fixed small charts, identity is not checked over histories.",
 [SS, "state.hpp", SM], [("context<>", SS), ("set_context", SS), ("my_context", "state.hpp")])
prop("C19", "Type information identifies each state and event type and nothing else",
 "The dynamic type of a state or event equals the static type of exactly its most-derived class, in both built-in and native type-information modes, and these identifiers are consistently ordered and comparable across objects and translation units. A custom type identifier set for one class is what every object of that class reports, is null by default, and never shows up on another class.",
 ["programs", "inputs", "configurations"], "all pairs of state/event classes, any order of setting and reading custom identifiers, both type-information modes, several translation units",
 "CustomReactionTest/TypeInfoTest check two or three types.",
 ["detail/rtti_policy.hpp"], [("rtti_policy", "detail/rtti_policy.hpp"), ("id_holder", "detail/rtti_policy.hpp")])
prop("C20", "User allocators: every allocation is released once, and failures do not corrupt",
 "All memory for states, events made with an allocator, queues and history comes from the supplied allocator and is returned to it, with matching type and size, exactly once by the time machine and events are gone. If an allocation fails at any point the failure reaches the caller (or the exception handler) as any user exception would, no memory or object is leaked or freed twice, and the machine can be used again.",
 ["programs", "histories", "fault_sequences"], "every chart and history, and a failure of any one (or several) of the allocations made",
 "no test injects allocation failures or balances allocations.",
 ["detail/memory.hpp", SM, SS, "event.hpp"], [("allocate/deallocate", "detail/memory.hpp"), ("rebind of list/map allocators", SM)])
prop("C21", "Build configuration does not change behaviour",
 "For the same chart and the same operations a machine behaves identically whatever the documented configuration: native or built-in type information, single- or multi-threaded build, assertions on or off, language standard, compiler and optimisation level, and list form of the parameters. Charts whose transition actions run in the innermost common context behave the same with relaxed transition context.",
 ["programs", "histories", "configurations"], "every chart and history, all pairs of configurations",
 "the tests are run per configuration against their own fixed expectations only.",
 ["detail/rtti_policy.hpp", "result.hpp", "detail/counted_base.hpp", SS], [("BOOST_STATECHART_USE_NATIVE_RTTI", "detail/rtti_policy.hpp"), ("BOOST_STATECHART_RELAX_TRANSITION_CONTEXT", SS), ("NDEBUG result type", "result.hpp")])
prop("C22", "Relaxed transition context: the action runs as late as its context allows",
 "With the relaxed transition context option a transition action may be a member of the source state or any of its outer states: it runs exactly once, on that active object, after all states inside that context have been exited and before the context itself is exited (if it is left at all), and never before a state that does not have to be active for it; all other exits, then entries, keep their normal order. An action in an innermost source state runs before anything is exited; a context at or outside the innermost common context gives the standard order.",
 ["programs", "histories"], "every chart, every transition and every action context from the source state to the machine",
 "TransitionTest's relaxed variant covers one chart.",
 [SS, SM], [("transit_impl relaxed branch", SS), ("terminate_as_part_of_transit", SM)])
prop("C23", "Machines do not interfere with each other",
 "Any number of machines of the same or different types, also ones created, processed or destroyed from within another machine's hooks, each behave as if alone: states, queues, deferred events, histories, triggering event and failures of one never affect another, even when the same event object is processed by or posted to several of them.",
 ["programs", "histories"], "every interleaving of operations on several machines over every chart",
 "tests hold one machine at a time.",
 [SM, SS, "event_base.hpp"], [("all machine state in the machine object", SM), ("intrusive_from_this sharing", "event_base.hpp")])
prop("C24", "Worker: items run once, in order, counted, with sticky termination",
 "A worker runs each queued non-empty work item exactly once in the order of queueing, including items queued by running items, and ignores empty ones; a run returns the number of items it processed and stops when the given maximum is reached (0 meaning no maximum), when the queue is empty, or when a termination request, which takes its place in the queue like an item, is processed. Once terminated it stays terminated and runs nothing more, an item that throws is gone and its exception reaches the caller while later items remain, and queueing from a non-const item hands the item over.",
 ["histories", "inputs"], "every sequence of queueing (also from inside items), running with any maximum, throwing and terminating",
 "FifoSchedulerTest checks a few fixed call counts.",
 ["fifo_worker.hpp"], [("operator()", "fifo_worker.hpp"), ("queue_work_item", "fifo_worker.hpp"), ("terminate", "fifo_worker.hpp")])
prop("C25", "Scheduler: processors live, react and die exactly as asked, in request order",
 "Requests to create, initiate, terminate, destroy a processor or to give it an event take effect on exactly that processor, once and in the order of the calls, and only while the scheduler runs; requests for a processor that has been destroyed are silently ignored, whatever copies of its handle exist. The count, maximum, stop and exception rules are those of the underlying worker, and destroying the scheduler destroys every remaining processor and every pending request.",
 ["histories", "fault_sequences"], "every history of scheduler calls from outside and from inside processors, several processors, throwing constructors, events and items",
 "FifoSchedulerTest follows one script with a few processors.",
 ["fifo_scheduler.hpp", "processor_container.hpp", "event_processor.hpp", "asynchronous_state_machine.hpp"],
 [("create/destroy/initiate/terminate/queue", "fifo_scheduler.hpp"), ("processor_container set and weak handles", "processor_container.hpp")])
prop("C26", "Processors are constructed once, with the arguments given and their own context",
 "Creating a processor with zero to six arguments constructs it exactly once, in the scheduler's thread of execution, with copies of those arguments in their order (or references where reference wrappers were given), all copies being gone after construction or when the request is dropped. The processor sees its own scheduler and a handle equal to the one the caller got, and a handle designates no other processor.",
 ["inputs", "histories"], "every number, type, value and wrapping of arguments, any interleaving of several creations and runs",
 "FifoSchedulerTest creates a few processors with small argument lists.",
 ["fifo_scheduler.hpp", "processor_container.hpp", "event_processor.hpp"], [("create_processor overloads", "fifo_scheduler.hpp"), ("create_processor_implN", "processor_container.hpp"), ("processor_context", "processor_container.hpp")])
prop("C27", "Concurrent queueing loses nothing, keeps order and wakes the waiting scheduler",
 "With any number of threads queueing events and work items at a scheduler run by one thread, every item is executed exactly once by the running thread and items from one thread keep their order. A scheduler told to wait sleeps only while its queue is empty and always resumes when an item or termination request arrives, so a run with a termination request or a reachable maximum always returns; one not told to wait returns when the queue is empty.",
 ["schedules"], "every interleaving of producer threads with the running thread at lock, wait and signal operations, waiting and non-waiting schedulers, any maximum",
 "tests are single threaded or leave scheduling to the OS.",
 ["fifo_worker.hpp", "fifo_scheduler.hpp"], [("mutex and condition in queue/dequeue", "fifo_worker.hpp"), ("wait loop", "fifo_worker.hpp")])
prop("C28", "In multi-threaded builds events and schedulers can be shared between threads",
 "In a multi-threaded build a heap event may be sent from and released in any threads: it is destroyed exactly once, after the last user, without data races. Independent machines or schedulers used by different threads, and several threads feeding one scheduler, are free of data races inside the library, and each machine gets its events exactly once.",
 ["schedules", "histories"], "every interleaving of reference-count operations, queueing and processing by several threads",
 "tests do not run events through several threads.",
 ["detail/counted_base.hpp", "event_base.hpp", "fifo_worker.hpp"], [("atomic count_base<true>", "detail/counted_base.hpp"), ("locked queue", "fifo_worker.hpp")])
prop("C29", "Ill-formed charts are rejected at compile time and well-formed ones accepted",
 "A chart that violates a documented structural rule (an initial inner state listed for the wrong region, a state in a region that does not exist, a transition into a different region of the common context, history used or cleared on a state without that history, deep history over orthogonal inner regions) does not compile. Charts obeying the rules compile, whatever their shape.",
 ["programs"], "every chart from the generator and each single-rule mutation of it",
 "only a few fixed negative compile tests exist and positive ones are the example charts.",
 [SS, SM, "shallow_history.hpp", "deep_history.hpp"], [("static assertions", SS), ("history static assertions", "deep_history.hpp")])
prop("C30", "In debug builds, misuse of reaction results and contexts is caught",
 "With assertions enabled, a reaction that obtains a result and does not return it, returns one result twice or obtains two, a plain state asking for its context in its constructor, a null event posted, creation of a (larger) event or state object whose most-derived type is not the one declared, or a state destructor reaching for a machine whose derived part is already destroyed, is reported by an assertion before it can corrupt anything. Code that obeys the documented rules never triggers an assertion.",
 ["programs", "histories"], "every chart and history with one misuse inserted at any hook, and the same without the misuse",
 "InvalidResult tests check three fixed misuses.",
 ["result.hpp", SS, "detail/memory.hpp", SM], [("safe_reaction_result", "result.hpp"), ("context assertions", SS), ("size assertion", "detail/memory.hpp")])
prop("C31", "Every public header can be used alone, in any order and in several units",
 "Each public header compiles when included first and alone, in any combination and order with the others, any number of times, in every documented configuration, and programs including the library in several translation units link and behave as one.",
 ["programs", "configurations"], "every subset and order of public headers, every configuration, several translation units",
 "tests include headers in a fixed order, in one unit.",
 ["fifo_scheduler.hpp", "fifo_worker.hpp", "processor_container.hpp", "event_processor.hpp", "history.hpp", SM], [("include lists and guards", "fifo_worker.hpp")])
prop("C32", "Asynchronous machines behave like plain machines driven by their scheduler",
 "A machine run as an event processor behaves exactly as an ordinary machine that is initiated, fed the same events in the same order, terminated and destroyed at the points where the scheduler executes those requests, including posting, deferral, histories and exceptions, which reach the caller of the scheduler. Events it queues at itself or at others through the scheduler are processed after those queued before.",
 ["programs", "histories"], "every chart and every history of scheduler requests for one or several machines",
 "the PingPong example and FifoSchedulerTest run fixed scripts.",
 ["asynchronous_state_machine.hpp", "event_processor.hpp", "fifo_scheduler.hpp"], [("initiate_impl/process_event_impl/terminate_impl forwarding", "asynchronous_state_machine.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
