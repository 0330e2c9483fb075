// Case data shared by the real side and the model; no library code here.
#ifndef VERIF_CASE_HPP
#define VERIF_CASE_HPP
#include <vector>
#ifdef H_THREADS
#include <atomic>
#endif
#include <map>
#include <string>
namespace h {
enum { EX0 = 20, EX1 = 21, EXT = 22 };          // exception event indices
enum { HK_ENTRY = 0, HK_EXIT = 100, HK_ACT = 200, HK_REACT = 600, HK_UNCONS = 990, HK_DTOR = 1000, HK_MAX = 1100 };
enum K { K_ENTER = 1, K_EXIT, K_DTOR, K_ACT, K_REACT, K_UNCONS, K_NLEAF, K_LEAF, K_QUERY, K_OP, K_RET, K_EXC, K_BAD, K_TERMD, K_TRIG, K_NOTE };
struct Rec { int k, a, b, c, d, e; };
inline bool operator==(const Rec& x, const Rec& y) { return x.k == y.k && x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d && x.e == y.e; }
// effects: p/P/s post event arg (stack, heap, shared) ; c clear history slot ; q query ; t throw exception kind ; N operate on other machine
struct Eff { char kind; int a, b; };
// result: X discard, F forward, D defer, Z terminate, T transit alternative 'arg'
struct Beh { std::vector<Eff> eff; char res; int arg; Beh() : res('X'), arg(0) {} };
typedef std::vector<std::vector<Beh> > Tables;   // per hook: list cycled through
struct Op { char kind; int a, b, m; };              // I initiate, T terminate, E process ev a mode b, K destroy+create, P post from outside, C clear slot from outside, N new machine without init
struct Case { int topo; Tables tab; std::vector<Op> ops; Case() : topo(0), tab(HK_MAX) {} };
enum { POSTS = 120 };
struct LiveObj { int st; const void* addr; const void* probe; };
struct Rt {
  const Tables* tab; std::vector<int> cnt; int serial, evid, budget, tag; std::vector<Rec> trace; std::map<int, LiveObj> live;
  void* machine; bool destroying; int doubles; int total;      // total: postings left in this case (deferred events pile up otherwise)
  Rt() : tab(0), cnt(HK_MAX), serial(0), evid(0), budget(0), tag(0), machine(0), destroying(false), doubles(0), total(POSTS) {}
};
#ifdef H_THREADS
#define H_TL thread_local
#else
#define H_TL
#endif
extern H_TL Rt* cur;
void rec(int k, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0);
void bad(const char* why);
int newSerial();
int newEventId();
#ifdef H_THREADS
extern std::atomic<int> evLive;
#else
extern int evLive;
#endif
}
#endif
