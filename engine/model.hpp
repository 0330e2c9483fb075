// Reference model: an interpreter of the chart description, written from the reference manual.
// Contains no code of the library under test.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "case.hpp"
#include <deque>
#include <set>
#include <sstream>
#include <algorithm>
#include <cstdint>
namespace h {

enum RK { R_TR, R_ISR, R_TERM, R_DEFER, R_CUST };
struct Alt { int mode, dest, ctx, act; };
struct ReactD { int kind, ev, mode, dest, ctx, act, cust; };
struct StateD { int parent, region, hist; bool simple; std::vector<std::pair<int,int> > init; std::vector<ReactD> reacts; int depth; };
struct Slot { int kind, st, reg; };
struct Desc {
  int nev, initial; std::string translator; bool relaxed, dterm = false;
  std::vector<StateD> st; std::vector<std::vector<Alt> > cust; std::vector<Slot> slots; int nact;
  std::vector<int> custState, custEv, actKind;
  void parse(const std::string& t);
  bool leaf(int s) const { return st[s].init.empty(); }
};

// features seen while a case ran (used to say what makes a case non-trivial)
#define FEATS(X) X(transit) X(selftr) X(toanc) X(todesc) X(cross) X(orthexit) X(orthenter) X(action) X(actouter) X(regionlocal) \
 X(orthdest) X(deepenter) X(forward) X(nextleaf) X(outward) X(uncons) X(unconsterm) X(listpos) X(evbase) X(dupmatch) X(posted) X(posted2) X(nestpost) X(postentry) X(postexit) \
 X(postact) X(postuncons) X(postinit) X(defer) X(release) X(release2) X(redefer) X(relfront) X(norelease) X(shsave) X(shrestore) X(shdefault) X(dhrestore) X(dhdefault) \
 X(clear) X(clearhit) X(histafterclear) X(excunhandled) X(exchandled) X(excstable) X(excunstable) X(excentry) X(excexit) X(excact) X(excreact) X(excnested) X(excdeferred) X(excnoreact) \
 X(excstillunstable) X(excnotranslated) X(unconsthrow) X(term) X(termcascade) X(termall) X(termorth) X(emptyregion) X(emptyexit) X(restart) X(restartbusy) X(terminate) X(destroy) X(destroybusy) X(query) X(queryorth) X(querymid) X(querymidleaf) X(custom) X(isr) X(relaxedin) X(relaxedsrc) \
 X(relaxedmid) X(exitorder3) X(qdropped) X(initrecovered) X(histdropped) X(postdtor) X(cleardtor) X(nested) X(multi) X(orthleaves3)
enum F {
#define X(n) F_##n,
FEATS(X)
#undef X
F_COUNT };
extern const char* featNames[];
struct FeatSet { uint64_t w[2]; FeatSet() { w[0] = w[1] = 0; } void set(int i) { w[i >> 6] |= 1ull << (i & 63); } bool has(int i) const { return w[i >> 6] >> (i & 63) & 1; } };

struct MEv { int idx, id; bool posted, wasDeferred; bool stack, copied; MEv() : idx(0), id(0), posted(false), wasDeferred(false), stack(false), copied(false) {} };      // stack: not reference counted, copied once it has to be kept
struct Inst { int st, ser, par; int kids[24]; bool defer, alive, emptied, exiting; };
struct MState {
  std::vector<Inst> in; int outer; std::vector<int> leaves; int unstable; bool commonOuter, full;
  std::deque<MEv> q, dq; std::map<std::pair<int,int>, int> sh, dh; std::set<std::pair<int,int> > cleared;
  std::vector<int> cnt; int serial, evid, budget, total; MEv trig; bool hasTrig; bool created; int excDepth;
  FeatSet f; int exitsInTr; bool destroyingFlag, cleanup;
};
struct Sim { int k; int where; };           // simulated user exception
struct Mismatch { size_t pos; Rec want; std::string why; };

struct Verdict { bool ok; bool inconclusive; size_t pos; Rec want, got; std::string why; FeatSet f; long paths; };

class Model {
 public:
  Model(const Desc& d, const Tables& t) : D(d), T(t) { reset(); }
  Verdict run(const std::vector<Rec>& trace, bool queries);
  MState s;
 private:
  const Desc& D; const Tables& T; const std::vector<Rec>* tr; size_t pos; bool useQueries;
  std::vector<std::pair<int,int> > flexPending, early;
  std::vector<int> path, width; size_t cp;
  Rec firstWant; size_t bestPos; std::string bestWhy;
  void reset();
  void runOp(const Rec& op);
  void emit(const Rec& r); void emitD(int st, int ser, int ctx, bool flex); void dtorEffects(int st); void drain();
  void need(const Rec& r, const char* why) { throw Mismatch{pos, r, why}; }
  int choose(int n) { if (cp >= path.size()) { path.push_back(0); width.push_back(n); } width[cp] = n; return path[cp++]; }
  const Beh* next(int hook);
  void effects(const Beh* b, int where);
  void query(int where);
  int ctxh(int i); int ctxhOf(int st, int par); int trigTag(); static int tag(const MEv& e) { return e.idx * 100000 + 50000 + tagId(e); } static int tagId(const MEv& e) { return e.id + (e.copied ? 100000000 : 0); }
  int liveLeaves() { return (int)s.leaves.size(); }
  void feat(int f) { s.f.set(f); }
  // structure
  int nkids(int i); void detach(int i); void destroyInst(int i, bool flex);
  void exitNode(int i); void exitSelf(int i); void exitKids(int i);
  void unwound(int i);
  void outward(int par);
  int create(int st, int par); void enterInner(int i, int from, int to); void enterInit(int st, int r, int par);
  void enterDeep(int st, int par); void enterPath(const std::vector<int>& p, size_t k, int mode, int par); void enterHist(int mode, int st, int par);
  void enterRest(int i, const std::vector<int>& p, size_t k, int mode);
  void transit(int i, int mode, int dest, int ctx, int act, const MEv& e);
  void action(int ctxSt, int act, const MEv& e, int from);
  void termReact(int i);
  int reactFrom(int i, const MEv& e); int localReact(int i, const MEv& e);
  int findUp(int i, int st);
  void terminateImpl(bool full);
  template<class Fn> int guarded(Fn f, int leaf);
  int handle(int ex, const Sim& x, int leaf);
  int send(const MEv& e); void processQueue(); void processEvent(const MEv& e);
  void initiate(); void terminate(); void clearSlot(int slot);
  std::vector<int> ctxs(int st) { std::vector<int> r; int p = D.st[st].parent; while (p >= 0) { r.push_back(p); p = D.st[p].parent; } r.push_back(-1); return r; }
};
}
#endif
