// C27: several threads feed a fifo_worker / fifo_scheduler while one runs it. Threads are fibres of one system thread; every lock, unlock, wait and
// signal of the library goes through the functions below, which decide from the case who continues. All interleavings at those points can be produced.
#include <pthread.h>
#include <ucontext.h>
#include <cxxabi.h>
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/statechart/event.hpp>
#include <memory>
#include <functional>
#include "pbt.hpp"
namespace sc = boost::statechart;
using namespace pbt;
static std::string err; static void fail(const std::string& w) { if (err.empty()) err = w; }

// ---------------------------------------------------------------- fibres and virtual locks
struct Fiber { ucontext_t ctx; std::vector<char> stack; std::function<void()> body; int state; const void* on; const void* relock; uint64_t eh[2]; };   // state 0 ready, 1 wants mutex 'on', 2 waits on condition 'on', 3 done
static std::vector<Fiber*> fibers; static int curF = -1; static ucontext_t mainCtx; static uint64_t mainEh[2];
struct VM { int owner; VM() : owner(-1) {} };
static std::map<const void*, int> owner;       // mutex -> fibre (-1 free)
static std::map<const void*, int> waiting;     // condition -> how many sleep (statistics)
static std::vector<int> choices; static size_t choiceAt; static int steps, switches, blockedWaits, contended, spurious; static bool running = false;
// exhaustive mode
static bool dfs = false; static std::vector<int> path, width; static size_t dp; static int preempt;
static int ownerOf(const void* m) { auto i = owner.find(m); return i == owner.end() ? -1 : i->second; }
static bool enabled(int i) { Fiber* f = fibers[i]; if (f->state == 0) return true; if (f->state == 1) return ownerOf(f->on) < 0; return false; }
static const int STUCK = -2;
static int pickNext() {
  std::vector<int> en; for (size_t i = 0; i < fibers.size(); ++i) if (enabled((int)i)) en.push_back((int)i);
  bool curOk = curF >= 0 && enabled(curF);
  if (dfs) {
    if (en.empty()) return STUCK;
    std::vector<int> opt; if (curOk) { opt.push_back(curF); if (preempt > 0) for (int x : en) if (x != curF) opt.push_back(x); } else opt = en;
    int k = 0; if (opt.size() > 1) { if (dp >= path.size()) { path.push_back(0); width.push_back((int)opt.size()); } width[dp] = (int)opt.size(); k = path[dp++]; if (k >= (int)opt.size()) k = 0; }
    if (curOk && opt[k] != curF) --preempt; return opt[k];
  }
  int v = choiceAt < choices.size() ? choices[choiceAt] : 0; ++choiceAt;
  if (v > 0 && v % 13 == 12) { std::vector<int> w; for (size_t i = 0; i < fibers.size(); ++i) if (fibers[i]->state == 2) w.push_back((int)i); if (!w.empty()) { int x = w[(v / 13) % w.size()]; fibers[x]->state = 1; fibers[x]->on = fibers[x]->relock; ++spurious; if (enabled(x)) return x; } }
  if (en.empty()) return STUCK;
  if (v == 0 && curOk) return curF;
  return en[v % en.size()];
}
static void toMain() { Fiber* f = fibers[curF]; memcpy(f->eh, abi::__cxa_get_globals(), 16); swapcontext(&f->ctx, &mainCtx); }
static void yieldPoint() { if (!running || curF < 0) return; toMain(); }
static void fiberMain() { Fiber* f = fibers[curF]; try { f->body(); } catch (...) { fail("an exception of another thread's item, or an unexpected one, surfaced here"); } f->state = 3; for (;;) toMain(); }
// runs until nobody can go on; 0 all done, 1 stuck, 2 too long
static int runFibers() {  for (;;) {
    if (++steps > 20000) return 2;
    int n = pickNext(); if (n == STUCK) { for (auto f : fibers) if (f->state != 3) return 1; return 0; }
    Fiber* f = fibers[n]; if (f->state == 1) { owner[f->on] = n; f->state = 0; }
    if (n != curF) ++switches; curF = n;
    memcpy(mainEh, abi::__cxa_get_globals(), 16); memcpy(abi::__cxa_get_globals(), f->eh, 16);
    swapcontext(&mainCtx, &f->ctx);
    memcpy(abi::__cxa_get_globals(), mainEh, 16);
    if (!err.empty()) return 0;
  }
}
static std::vector<std::vector<char> > stackPool;
static void spawn(std::function<void()> b) {
  Fiber* f = new Fiber; f->body = b; f->state = 0; f->on = f->relock = 0; f->eh[0] = f->eh[1] = 0; 
  if (stackPool.empty()) f->stack.resize(128 << 10); else { f->stack.swap(stackPool.back()); stackPool.pop_back(); }
  getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack.data(); f->ctx.uc_stack.ss_size = f->stack.size(); f->ctx.uc_link = 0; makecontext(&f->ctx, fiberMain, 0); fibers.push_back(f);
}
static void reap() { for (auto f : fibers) { stackPool.push_back(std::vector<char>()); stackPool.back().swap(f->stack);    delete f; } fibers.clear(); curF = -1; owner.clear(); }
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) noexcept { memset(m, 0, sizeof *m); owner.erase(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (running && ownerOf(m) >= 0) fail("a locked mutex is destroyed"); owner.erase(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!running || curF < 0) return 0;
  if (ownerOf(m) == curF) { fail("a thread locks a mutex it already holds"); return 35; }
  Fiber* f = fibers[curF]; if (ownerOf(m) >= 0) ++contended; f->state = 1; f->on = m; toMain(); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!running || curF < 0) return 0; toMain(); if (ownerOf(m) >= 0) return 16; owner[m] = curF; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!running || curF < 0) return 0; if (ownerOf(m) != curF) fail("a thread unlocks a mutex it does not hold"); owner[m] = -1; toMain(); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!running || curF < 0) { fprintf(stderr, "wait outside a run\n"); abort(); }
  if (ownerOf(m) != curF) fail("a thread waits without holding the mutex");
  Fiber* f = fibers[curF]; owner[m] = -1; f->state = 2; f->on = c; f->relock = m; ++blockedWaits; toMain(); return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_cond_wait(c, m); }
static void wake(const void* c, bool all) {
  std::vector<Fiber*> w; for (auto f : fibers) if (f->state == 2 && f->on == c) w.push_back(f);
  if (w.empty()) return; if (!all) { Fiber* x = w[steps % w.size()]; w.assign(1, x); }
  for (auto f : w) { f->state = 1; f->on = f->relock; }
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!running || curF < 0) return 0; wake(c, false); toMain(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!running || curF < 0) return 0; wake(c, true); toMain(); return 0; }
}
// ---------------------------------------------------------------- program
enum { P_PROD = 1, P_RUN, P_CONF, P_CHOICE };         // {PROD, thread, what, arg}  {RUN, max}  {CONF, target, wait}  {CHOICE, v...}
enum { I_PLAIN, I_THROW, I_NEST, I_NESTTERM, I_YIELD, I_TERM, I_CREATE, I_NESTMANY, I_STOP, I_DESTROY };
struct Boom {};
// the queue's own allocations are places where another thread may go on, too: work on the queue that no lock protects gets mixed up
static void yieldPoint();
template<class T> struct YAlloc { typedef T value_type; YAlloc() {} template<class U> YAlloc(const YAlloc<U>&) {} template<class U> struct rebind { typedef YAlloc<U> other; };
  T* allocate(size_t n) { yieldPoint(); return std::allocator<T>().allocate(n); } void deallocate(T* p, size_t n) { yieldPoint(); std::allocator<T>().deallocate(p, n); }
  bool operator==(const YAlloc&) const { return true; } bool operator!=(const YAlloc&) const { return false; } };
typedef sc::fifo_worker<YAlloc<sc::none> > Worker; typedef sc::fifo_scheduler<Worker> Sched; typedef Sched::processor_handle Handle;
struct Item { int id, prod, seq, kind; bool done, completed; long from, to; };   // from/to: when the queueing call began and ended
struct World {
  int target; bool wait; std::unique_ptr<Worker> w; std::unique_ptr<Sched> s; std::vector<Item> items; std::vector<int> order; std::vector<int> lastSeq; int inItem, runner; bool termDone; int executedInCall; size_t lastDone; std::vector<Handle> h; int budget; std::vector<char> mustSee; int self; bool creates;
};
static World* W = 0; static long W_clock;
static void add(int prod, int kind);
static void exec(int id) {
  Item& it = W->items[id]; if (curF != W->runner) fail("an item runs on a thread that does not run the scheduler"); if (it.done) { fail("an item was executed twice"); return; }
  if (W->inItem >= 0) fail("an item is started while another one is running"); W->inItem = id; it.done = true; ++W->executedInCall; if (W->termDone) fail("an item was executed after termination");
  if (it.seq <= W->lastSeq[it.prod]) fail("items of one thread were executed out of order"); W->lastSeq[it.prod] = it.seq;
  for (auto& x : W->items) if (x.prod == it.prod && x.seq < it.seq) { if (x.kind == I_TERM) fail("an item queued after a termination request was executed"); else if (!x.done) fail("an item was overtaken by a later one of its thread"); }
  for (auto& x : W->items) if (!x.done && x.completed && x.to < it.from && x.kind != I_TERM) fail("an item was overtaken by one queued after it");
  yieldPoint(); int kind = it.kind; struct Out { ~Out() { W->inItem = -1; for (size_t i = 0; i < W->items.size(); ++i) if (W->items[i].completed) W->mustSee[i] = 1; } } out;
  switch (kind) {
    case I_THROW: throw Boom();
    case I_NEST: add(W->self, I_PLAIN); break;
    case I_NESTMANY: for (int i = 0; i < 3; ++i) add(W->self, i == 1 ? I_THROW : I_PLAIN); break;
    case I_NESTTERM: add(W->self, I_TERM); break;
    case I_YIELD: yieldPoint(); yieldPoint(); break;
  }
  yieldPoint();
}
struct Ev : sc::event<Ev> { int id; Ev(int i) : id(i) {} };
struct Proc : sc::event_processor<Sched> { Proc(my_context c) : sc::event_processor<Sched>(c) {} void initiate_impl() {} void terminate_impl() {} void process_event_impl(const sc::event_base& e) { exec(static_cast<const Ev&>(e).id); } };
static std::vector<int> seqCount;
static void finished(int id) { W->items[id].completed = true; W->items[id].to = ++W_clock; }
// queues one thing as thread 'prod' (the last number stands for the running thread itself)
static void add(int prod, int kind) {
  if (W->budget-- <= 0) return;
  if (kind == I_STOP) kind = I_TERM;
  int id = (int)W->items.size(); Item it = {id, prod, 0, kind, false, false, ++W_clock, 0}; 
  if (kind == I_TERM) {
    it.seq = seqCount[prod]++; W->items.push_back(it); W->mustSee.push_back(0);
    // the request itself is not observable when it runs: it is marked done by what follows
    if (W->w) W->w->terminate(); else W->s->terminate();
    finished(id); return;
  }
  if (kind == I_CREATE && W->s) {
    W->creates = true; W->budget -= 2; Handle hd = W->s->create_processor<Proc>(); W->s->initiate_processor(hd); it.id = id = (int)W->items.size(); it.kind = I_PLAIN; it.from = ++W_clock;
    it.seq = seqCount[prod]++; W->items.push_back(it); W->mustSee.push_back(0); boost::intrusive_ptr<const sc::event_base> e(new Ev(id)); W->s->queue_event(hd, e); finished(id); return;
  }
  it.seq = seqCount[prod]++; W->items.push_back(it); W->mustSee.push_back(0);
  if (W->w) { Worker::work_item f = [id] { exec(id); }; if (id & 1) W->w->queue_work_item(f); else W->w->queue_work_item(Worker::work_item([id] { exec(id); })); }
  else if (W->target == 1 || id % 3) { boost::intrusive_ptr<const sc::event_base> e(new Ev(id)); W->s->queue_event(W->h[prod % W->h.size()], e); }
  else W->s->queue_work_item(Sched::work_item([id] { exec(id); }));
  finished(id);
}
static unsigned long callRun(unsigned long max) { return W->w ? (*W->w)(max) : (*W->s)(max); }
static bool isTerm() { return W->w ? W->w->terminated() : W->s->terminated(); }
static bool pendingTerm() { for (auto& it : W->items) if (it.kind == I_TERM && it.completed) return true; return false; }
static bool openItems() { for (auto& it : W->items) if (it.kind != I_TERM && it.completed && !it.done) return true; return false; }
static int callsMade, throwsSeen, callMax; static bool inCall;
static void runnerBody(const std::vector<int>& runs) {
  W->runner = curF;
  for (int max : runs) {
    if (!err.empty()) return;
    W->executedInCall = 0; for (size_t i = 0; i < W->items.size(); ++i) W->mustSee[i] = W->items[i].completed; ++callsMade; callMax = max; inCall = true;
    bool was = isTerm();
    try {
      unsigned long n = callRun(max); inCall = false; bool term = isTerm();
      unsigned long want = W->executedInCall + (term && !was ? 1 : 0);
      // creation and initiation requests count as items, too
      if (W->creates ? n < want : n != want) fail("the number of processed items is wrong");
      if (max && n > (unsigned long)max) fail("more items than the maximum were processed");
      if (was && n) fail("items were processed after termination");
      if (!term && !(max && n == (unsigned long)max)) {
        if (W->wait) fail("a run that is to wait returned without a maximum reached or a termination request");
        for (size_t i = 0; i < W->items.size(); ++i) if (W->mustSee[i] && !W->items[i].done && W->items[i].kind != I_TERM) { fail("a run returned although an item was in the queue"); break; }
      }
      if (term) W->termDone = true;
    } catch (const Boom&) { inCall = false; ++throwsSeen; }
  }
}
static std::string once(const pbt::Ops& ops, Info* inf) {
  World w; W = &w; err.clear(); fibers.clear(); curF = -1; owner.clear(); steps = switches = blockedWaits = contended = spurious = 0; choiceAt = 0; choices.clear(); callsMade = throwsSeen = 0; inCall = false;
  w.target = 0; w.wait = false; w.inItem = w.runner = -1; w.termDone = false; w.executedInCall = 0; w.budget = 60; int nprod = 0; std::vector<std::vector<int> > prog(5); std::vector<int> runs;
  for (auto& o : ops) switch (o[0]) {
    case P_PROD: { int t = o[1] % 4; if (t + 1 > nprod) nprod = t + 1; prog[t].push_back(o[2]); break; }
    case P_RUN: runs.push_back(o[1]); break;
    case P_CONF: w.target = o[1] % 3; w.wait = o[2] & 1; break;
    case P_CHOICE: choices.insert(choices.end(), o.begin() + 1, o.end()); break;
  }
  seqCount.assign(nprod + 2, 0); w.lastSeq.assign(nprod + 2, -1); w.self = nprod; w.creates = false; W_clock = 0;
  running = false;
  if (w.target == 0) w.w.reset(new Worker(w.wait));
  else { w.s.reset(new Sched(w.wait)); for (int i = 0; i <= nprod; ++i) { w.h.push_back(w.s->create_processor<Proc>()); w.s->initiate_processor(w.h.back()); } (*w.s)(2 * (nprod + 1)); }
  running = true;
  spawn([&] { runnerBody(runs); });
  for (int t = 0; t < nprod; ++t) { std::vector<int> p = prog[t]; spawn([p, t] { for (int k : p) { if (!err.empty()) return; if (k == I_YIELD) yieldPoint(); add(t, k); } }); }
  int r = runFibers(); bool idle = false;
  if (err.empty() && r == 2) fail("the threads do not come to an end");
  if (err.empty() && r == 1) {
    // only a run told to wait may be asleep, with nothing to do
    for (size_t i = 1; i < fibers.size(); ++i) if (fibers[i]->state != 3) fail("a queueing thread is blocked for ever");
    if (fibers[0]->state == 1) fail("the running thread is blocked on a mutex for ever");
    if (err.empty()) {
      if (!w.wait) fail("a run that is not to wait is asleep"); else if (openItems()) fail("the run sleeps although the queue is not empty");
      else if (pendingTerm()) fail("the run sleeps although termination was requested");
      else {
        idle = true; int p = nprod + 1; size_t before = w.items.size(); w.budget = 5;
        spawn([p, before] { if (before % 2) add(p, I_PLAIN); add(p, I_TERM); });
        r = runFibers();
        if (err.empty() && r) fail(r == 1 ? "a sleeping run is not woken by an item or a termination request" : "the threads do not come to an end");
      }
    }
  }
  if (err.empty()) {
    // whatever is left is executed by a last run on this thread
    running = false; long first = 1L << 60; if (!isTerm()) { if (w.wait) { first = ++W_clock; if (w.w) w.w->terminate(); else w.s->terminate(); } w.runner = curF = 0; w.inItem = -1; for (int i = 0; i < 60 && err.empty(); ++i) try { callRun(0); break; } catch (const Boom&) {} }
    if (isTerm() && !pendingTerm() && !w.wait) fail("terminated without a request");
    // executed items are a prefix of each thread's items (checked on the way); without termination it is all of them
    for (auto& it : w.items) if (it.kind == I_TERM && it.from < first) first = it.from;
    for (auto& it : w.items) if (!it.done && it.kind != I_TERM && it.to < first) { fail("an item was never executed"); break; }
  }
  running = false; reap();
  w.w.reset(); w.s.reset(); W = 0; curF = -1;
  if (inf) { if (idle) inf->f("idlethenwoken"); if (blockedWaits) inf->f("waited"); if (contended) inf->f("contended"); if (spurious) inf->f("spuriouswakeup"); if (throwsSeen) inf->f("threw"); inf->steps += steps; inf->nontrivial = nprod > 1 && switches > 8 && (contended || blockedWaits); }
  return err;
}
// a termination request takes the place of an item in its thread's order: skipping it must not look like a lost item
pbt::Ops pbt::generate(Rng& r, const std::string& prof) {
  pbt::Ops o; bool small = prof == "dfs"; o.push_back({P_CONF, r.below(3), r.below(2)}); int np = small ? r.in(1, 2) : r.in(1, 4);
  bool stop = r.p(0.5);
  for (int t = 0; t < np; ++t) { int n = small ? r.in(1, 2) : r.in(1, 6); for (int i = 0; i < n; ++i) { int k = r.pick({8, 0.7, 1, 0.15, 1.5, 0, 0.7, 0.4}); o.push_back({P_PROD, t, k}); } if (stop && t == 0) o.push_back({P_PROD, t, I_TERM}); }
  int nr = small ? r.in(1, 2) : r.in(1, 6); for (int i = 0; i < nr; ++i) o.push_back({P_RUN, r.p(0.5) ? 0 : r.in(1, 5)});
  if (!small) { int style = r.below(3); int n = r.in(10, 160); pbt::Op c = {P_CHOICE}; for (int i = 0; i < n; ++i) c.push_back(style == 0 ? r.below(120) : r.p(style == 1 ? 0.4 : 0.06) ? 1 + r.below(119) : 0); o.push_back(c); }
  return o;
}
int pbt::minArg(int, int) { return 0; }
std::string pbt::execute(const pbt::Ops& ops, const std::string& prof, Info& inf) {
  if (prof != "dfs") { dfs = false; return once(ops, &inf); }
  dfs = true; path.clear(); width.clear(); long runs = 0, cap = 4000; std::string w; bool complete = false; bool nt = false;
  for (; runs < cap; ++runs) {
    dp = 0; preempt = 3; Info i1; w = once(ops, &i1); inf.steps += i1.steps; nt |= i1.nontrivial || i1.feats.count("waited"); for (auto& x : i1.feats) inf.feats[x.first] += x.second; if (!w.empty()) return w;
    path.resize(dp); width.resize(dp); while (!path.empty() && path.back() + 1 >= width.back()) { path.pop_back(); width.pop_back(); }
    if (path.empty()) { complete = true; break; } ++path.back();
  }
  inf.feats["schedules"] += runs + 1; if (complete) inf.f("allschedules"); inf.nontrivial = nt; return "";
}
