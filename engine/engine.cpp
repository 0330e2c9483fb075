// Driver: case generation, execution against the library, comparison with the model, shrinking, statistics.
#include "rt.hpp"
#include <set>
#include <unordered_set>
#include <fstream>
#include <iostream>
#include <cstring>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include "poison.hpp"

namespace h {
struct Shared { volatile long idx; volatile int phase; char msg[600]; };
static Shared* shm = 0;
static void badmem(const char* w) { if (shm) { strncpy(shm->msg, w, sizeof shm->msg - 1); } _exit(44); }
void note(const char* m) { if (shm && !shm->msg[0]) { strncpy(shm->msg, m, sizeof shm->msg - 1); } }
// ------------------------------------------------------------------ execution
struct World {
  std::vector<Rt> rt; std::vector<IMachine*> m; std::vector<const Desc*> d; std::vector<char> busy; bool queries; int nested;
};
static World* W = 0;
void queryMachine() {
  // called from a state while its machine is in a reaction
  for (size_t i = 0; i < W->rt.size(); ++i) if (&W->rt[i] == cur) {
    std::vector<const Probe*> v; W->m[i]->leaves(v);
    recView(v);
    recQuery(W->m[i]);
  }
}
static void doOp(int mi, const Op& op) {
  if (W->busy[mi]) return;
  W->busy[mi] = 1; Rt* saved = cur; cur = &W->rt[mi];
  cur->budget = 10;
  rec(K_OP, op.kind, op.a, op.b);
  int exc = -1;
  try {
    switch (op.kind) {
      case 'N': cur->destroying = false; W->m[mi]->create(); break;
      case 'I': W->m[mi]->initiate(); break;
      case 'T': W->m[mi]->terminate(); break;
      case 'E': W->m[mi]->process(op.a, op.b); break;
      case 'P': W->m[mi]->post(op.a, op.b); break;
      case 'C': W->m[mi]->clear(op.a); break;
      case 'K': W->m[mi]->destroy(); break;
    }
  }
  catch (const Exc0& e) { exc = 0; } catch (const Exc1& e) { exc = 1; } catch (const Exc2& e) { exc = 2; }
  catch (const std::exception& e) { exc = 90; note(e.what()); } catch (...) { exc = 91; }
  cur = &W->rt[mi];
  if (exc >= 0) rec(K_EXC, exc); else rec(K_RET);
  if (op.kind != 'K') {
    observe(W->m[mi], W->d[mi]);
    if (W->queries) { std::string why; bool ok = W->m[mi]->queries(why); if (!ok) note(why.c_str()); rec(K_QUERY, ok ? 1 : 0); }
  } else if (!cur->live.empty()) bad("state objects survive their machine");
  cur = saved; W->busy[mi] = 0;
}
void nestedOp(int mi, int what, int) {
  if (!W || mi >= (int)W->rt.size() || W->busy[mi] || W->nested > 60) return;
  ++W->nested;
  if (what == 102) { doOp(mi, Op{'K', 0, 0, mi}); doOp(mi, Op{'N', 0, 0, mi}); doOp(mi, Op{'I', 0, 0, mi}); }
  else if (what == 100) doOp(mi, Op{'I', 0, 0, mi});
  else if (what == 101) doOp(mi, Op{'T', 0, 0, mi});
  else if (what >= 50) doOp(mi, Op{'E', what - 50, 3, mi});
  else doOp(mi, Op{'E', what, 0, mi});
}

struct Prof {
  std::map<std::string, double> v; std::string rule;
  double g(const char* k, double d) const { std::map<std::string, double>::const_iterator i = v.find(k); return i == v.end() ? d : i->second; }
};
struct Outcome { bool ok, inconclusive; std::string why; Verdict v; FeatSet f; uint64_t hash; long ops; std::vector<std::vector<Rec> > traces; };

static std::vector<Desc> descs;
static uint64_t fnv(uint64_t h, int x) { for (int i = 0; i < 4; ++i) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ull; } return h; }

static Outcome execCase(const Case& c, const Prof& P, bool keep = false) {
  Outcome o; o.ok = true; o.inconclusive = false; o.hash = fnv(1469598103934665603ull, c.topo); o.ops = 0;
  int n = (int)P.g("nmach", 1); bool q = P.g("queries", 0) > 0; bool leak = P.g("leak", 0) > 0, nomodel = P.g("nomodel", 0) > 0;
  int diff = (int)P.g("difftopo", 0);
  World w; w.rt.resize(n); w.m.resize(n); w.d.resize(n); w.busy.assign(n, 0); w.queries = q; w.nested = 0; W = &w;
  std::vector<int> topo(n, c.topo);
  if (diff) for (int i = 1; i < n; ++i) topo[i] = (c.topo + (i % 2) * diff) % (int)descs.size();
  if (shm) shm->msg[0] = 0;
  sharedEvs.clear(); int ev0 = evLive;
  for (int i = 0; i < n; ++i) { w.rt[i].tab = &c.tab; w.rt[i].tag = i; w.m[i] = registry()[topo[i]].make(); w.d[i] = &descs[topo[i]]; doOp(i, Op{'N', 0, 0, i}); }
  for (size_t i = 0; i < c.ops.size(); ++i) {
    int mi = c.ops[i].m % n;
    doOp(mi, c.ops[i]);
    if (c.ops[i].kind == 'K') doOp(mi, Op{'N', 0, 0, mi});
  }
  for (int i = 0; i < n; ++i) { doOp(i, Op{'K', 0, 0, i}); w.busy[i] = 1; }
  for (int i = 0; i < n; ++i) { cur = &w.rt[i]; delete w.m[i]; cur = 0; }
  sharedEvs.clear();
  W = 0;
  if (leak && evLive != ev0) { o.ok = false; o.why = evLive > ev0 ? "event objects leaked" : "event objects destroyed twice"; evLive = ev0; }
  for (int i = 0; i < n && o.ok; ++i) {
    const std::vector<Rec>& t = w.rt[i].trace;
    for (size_t k = 0; k < t.size(); ++k) { o.hash = fnv(fnv(fnv(o.hash, t[k].k), t[k].a), t[k].d); if (nomodel) o.hash = fnv(fnv(fnv(o.hash, t[k].b), t[k].c), t[k].e); if (t[k].k == K_OP) ++o.ops; }
    for (size_t k = 0; k < t.size(); ++k) if (t[k].k == K_BAD) { o.ok = false; o.why = std::string("invariant: ") + (shm ? shm->msg : "") ; o.v.pos = k; }
    if (nomodel) {
      int nx = 0, ne = 0, na = 0, nr = 0, nu = 0, nexc = 0;
      for (size_t k = 0; k < t.size(); ++k) { if (t[k].k == K_EXIT) ++nx; if (t[k].k == K_ENTER) ++ne; if (t[k].k == K_ACT) ++na; if (t[k].k == K_REACT) ++nr; if (t[k].k == K_UNCONS) ++nu; if (t[k].k == K_EXC) ++nexc; }
      if (nx && ne > 1) o.f.set(F_transit); if (na) o.f.set(F_action); if (nr) o.f.set(F_custom); if (nu) o.f.set(F_uncons); if (nexc) o.f.set(F_excunhandled);
      continue;
    }
    Model m(descs[topo[i]], c.tab);
    Verdict v = m.run(t, q);
    for (int k = 0; k < 2; ++k) o.f.w[k] |= v.f.w[k];
    if (!v.ok) { if (v.inconclusive && o.ok) o.inconclusive = true; else { o.v = v; if (o.ok) { o.ok = false; o.why = "model: " + v.why; } } }
    if (i > 0) o.f.set(F_multi);
  }
  if (keep || !o.ok) for (int i = 0; i < n; ++i) o.traces.push_back(w.rt[i].trace);
  return o;
}

// ------------------------------------------------------------------ random cases
struct Rng {
  uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool p(double x) { return u() < x; }
  int pick(const std::vector<double>& w) { double t = 0; for (double x : w) t += x; double r = u() * t; for (size_t i = 0; i < w.size(); ++i) { r -= w[i]; if (r < 0) return (int)i; } return (int)w.size() - 1; }
};
static void genEffects(Rng& r, const Desc& D, const Prof& P, int where, bool simpleCtor, Beh& b) {
  static const char* thr[] = {"tentry", "texit", "tact", "treact", "tuncons", "-"};
  double pp = P.g("post", 0), pc = D.slots.empty() ? 0 : P.g("clear", 0), pq = P.g("query", 0), pn = where == 5 ? 0 : P.g("nest", 0);
  if (!simpleCtor) {
    int n = 0;
    while (n < 3 && r.p(pp)) { char k = "pPsg"[r.below(P.g("shared", 0) > 0 ? 4 : 3)]; b.eff.push_back(Eff{k, r.below(D.nev), 0}); ++n; pp *= 0.6; }
    if (r.p(pc)) b.eff.push_back(Eff{'c', r.below((int)D.slots.size()), 0});
    if (where != 5 && pq > 0 && r.p(where < 3 ? P.g("qmid", pq) : pq)) b.eff.push_back(Eff{'q', 0, 0});
    if (r.p(pn)) { int w = r.below(10); int what = w < 5 ? r.below(D.nev) : w < 7 ? 50 + r.below(D.nev) : 100 + r.below(3); b.eff.push_back(Eff{'N', r.below((int)P.g("nmach", 1)), what}); }
  }
  if (r.p(P.g(thr[where], 0))) b.eff.push_back(Eff{'t', r.below(3), 0});
}
static Case genCase(uint64_t seed, int topo, const Prof& P) {
  Rng r(seed); Case c; c.topo = topo; const Desc& D = descs[topo];
  double ph = P.g("hooks", 0.4);
  // per case scaling, so that some cases are calm and some are wild
  double scale = r.p(0.25) ? 0.3 : r.p(0.3) ? 1.6 : 1.0; ph *= scale; if (ph > 1) ph = 1;
  for (size_t s = 0; s < D.st.size(); ++s) {
    if (r.p(ph)) { int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { Beh b; genEffects(r, D, P, 0, D.st[s].simple, b); c.tab[HK_ENTRY + s].push_back(b); } }
    if (r.p(ph)) { int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { Beh b; genEffects(r, D, P, 1, false, b); c.tab[HK_EXIT + s].push_back(b); } }
    if (r.p(ph * P.g("dtor", 0.5))) { int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { Beh b; genEffects(r, D, P, 5, false, b); c.tab[HK_DTOR + s].push_back(b); } }
  }
  for (int a = 0; a < D.nact; ++a) if (r.p(ph)) { int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { Beh b; genEffects(r, D, P, 2, false, b); c.tab[HK_ACT + a].push_back(b); } }
  std::vector<double> rw; rw.push_back(P.g("rX", 1)); rw.push_back(P.g("rF", 1.5)); rw.push_back(P.g("rD", 0.7)); rw.push_back(P.g("rZ", 0.5)); rw.push_back(P.g("rT", 4));
  for (size_t k = 0; k < D.cust.size(); ++k) {
    int n = 1 + r.below(4);
    for (int i = 0; i < n; ++i) {
      Beh b; if (r.p(std::min(1.0, ph * 1.5))) genEffects(r, D, P, 3, false, b);
      b.res = "XFDZT"[r.pick(rw)]; if (b.res == 'T') { if (D.cust[k].empty()) b.res = 'X'; else b.arg = r.below((int)D.cust[k].size()); }
      c.tab[HK_REACT + k].push_back(b);
    }
  }
  if (r.p(ph)) { int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { Beh b; genEffects(r, D, P, 4, false, b); c.tab[HK_UNCONS].push_back(b); } }
  int nm = (int)P.g("nmach", 1);
  int lo = (int)P.g("opsmin", 4), hi = (int)P.g("opsmax", 24), n = lo + r.below(hi - lo + 1);
  bool lng = r.p(P.g("long", 0.004)); if (lng) n = 60 + r.below(140);
  std::vector<double> ow; ow.push_back(P.g("oE", 20)); ow.push_back(P.g("oI", 0.5)); ow.push_back(P.g("oT", 0.4)); ow.push_back(P.g("oK", 0.2)); ow.push_back(P.g("oP", 0)); ow.push_back(D.slots.empty() ? 0 : P.g("oC", 0));
  for (int m = 0; m < nm; ++m) if (!r.p(P.g("noinit", 0.05))) c.ops.push_back(Op{'I', 0, 0, m});
  double rein = P.g("reinit", 0.5); (void)rein;
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = "EITKPC"[r.pick(ow)]; o.a = o.b = 0; o.m = r.below(nm);
    if (o.kind == 'E') { o.a = r.below(D.nev); o.b = r.below(3); if (P.g("shared", 0) > 0 && r.p(0.3)) o.b = 3; }
    if (o.kind == 'P') { o.a = r.below(D.nev); o.b = r.below(3); }
    if (o.kind == 'C') o.a = r.below((int)D.slots.size());
    c.ops.push_back(o);
    // long histories also pile up one event (in the queue, in the deferred list, ...)
    if (lng && (o.kind == 'E' || o.kind == 'P') && r.p(0.03)) { int k = 20 + r.below(80); for (int j = 0; j < k; ++j, ++i) c.ops.push_back(o); }
    if ((o.kind == 'K' || o.kind == 'T') && r.p(0.8)) c.ops.push_back(Op{'I', 0, 0, o.m});
    // machines that died of an unhandled exception are usually started again: cheap approximation
    if (o.kind == 'E' && r.p(P.g("restart", 0.0))) c.ops.push_back(Op{'I', 0, 0, o.m});
  }
  return c;
}

// ------------------------------------------------------------------ text form
static std::string behText(const Beh& b) {
  std::ostringstream o; o << b.res << b.arg;
  for (size_t i = 0; i < b.eff.size(); ++i) o << ' ' << b.eff[i].kind << b.eff[i].a << '.' << b.eff[i].b;
  return o.str();
}
static std::string caseText(const Case& c) {
  std::ostringstream o; o << "topo " << c.topo << "\n";
  for (int k = 0; k < HK_MAX; ++k) if (!c.tab[k].empty()) {
    o << "hook " << k << " "; for (size_t i = 0; i < c.tab[k].size(); ++i) o << (i ? " | " : "") << behText(c.tab[k][i]); o << "\n";
  }
  for (size_t i = 0; i < c.ops.size(); ++i) o << "op " << c.ops[i].kind << " " << c.ops[i].a << " " << c.ops[i].b << " " << c.ops[i].m << "\n";
  return o.str();
}
static Case parseCase(std::istream& in) {
  Case c; std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string k; if (!(l >> k)) continue;
    if (k == "topo") l >> c.topo;
    else if (k == "hook") {
      int hk; l >> hk; std::string w; Beh b; bool have = false;
      while (l >> w) {
        if (w == "|") { c.tab[hk].push_back(b); b = Beh(); have = false; continue; }
        if (!have) { b.res = w[0]; b.arg = atoi(w.c_str() + 1); have = true; }
        else { Eff e; e.kind = w[0]; size_t d = w.find('.'); e.a = atoi(w.c_str() + 1); e.b = atoi(w.c_str() + d + 1); b.eff.push_back(e); }
      }
      c.tab[hk].push_back(b);
    } else if (k == "op") { Op o; std::string s; l >> s >> o.a >> o.b >> o.m; o.kind = s[0]; c.ops.push_back(o); }
  }
  return c;
}
static std::string recText(const Rec& r) {
  static const char* n[] = {"?", "enter", "exit", "destroy", "action", "react", "unconsumed", "nleaves", "leaf", "query", "OP", "return", "exception", "BAD", "terminated", "trigger", "note"};
  std::ostringstream o; o << (r.k >= 0 && r.k <= 16 ? n[r.k] : "?");
  if (r.k == K_OP) o << " " << (char)r.a << " " << r.b << " " << r.c;
  else if (r.k == K_ENTER || r.k == K_EXIT) o << " S" << r.a << "#" << r.b << " trig=" << r.c << " ctx=" << r.d;
  else if (r.k == K_DTOR) o << " S" << r.a << "#" << r.b << " trig=" << r.c << " ctx=" << r.d;
  else if (r.k == K_LEAF) o << " S" << r.a << "#" << r.b;
  else o << " " << r.a << " " << r.b << " " << r.c << " " << r.d << " " << r.e;
  return o.str();
}
static std::string explain(const Case& c, const Prof& P) {
  // executed in the forked child only
  Outcome o = execCase(c, P, true); std::ostringstream s;
  s << (o.ok ? "held" : o.why) << "\n";
  if (!o.ok) { s << "want: " << recText(o.v.want) << "\ngot:  " << recText(o.v.got) << " at step " << o.v.pos << "\n"; }
  for (size_t i = 0; i < o.traces.size(); ++i) { s << "trace of machine " << i << "\n"; for (size_t k = 0; k < o.traces[i].size(); ++k) s << "  " << k << " " << recText(o.traces[i][k]) << "\n"; }
  return s.str();
}

// ------------------------------------------------------------------ isolated runs
static void memLimit() {
#ifndef VERIF_SAN
  struct rlimit l; l.rlim_cur = l.rlim_max = 3ul << 30; setrlimit(RLIMIT_AS, &l);
#endif
}
static void limits() { memLimit(); struct rlimit l; l.rlim_cur = 15; l.rlim_max = 16; setrlimit(RLIMIT_CPU, &l); l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l); }
struct Iso { int code; std::string msg; };       // code 0 ok, 2 violation, 3 inconclusive
static Iso isolated(const Case& c, const Prof& P, const char* explainTo = 0) {
  shm->msg[0] = 0; fflush(0);
  pid_t p = fork();
  if (p == 0) {
    limits();
    if (explainTo) { std::string t = explain(c, P); FILE* f = fopen(explainTo, "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } _exit(0); }
    freopen("/dev/null", "w", stderr);
    Outcome o = execCase(c, P);
    if (!o.ok) { std::string w = o.why; if (o.v.want.k) w += "; want " + recText(o.v.want) + ", got " + recText(o.v.got); shm->msg[0] = 0; note(w.c_str()); }
    _exit(o.ok ? (o.inconclusive ? 3 : 0) : 2);
  }
  int st = 0; waitpid(p, &st, 0);
  Iso r; r.msg = shm->msg;
  if (WIFEXITED(st)) { r.code = WEXITSTATUS(st); if (r.code != 0 && r.code != 2 && r.code != 3) { if (r.msg.empty()) r.msg = "process exit (sanitizer report?)"; r.code = 2; } }
  else { int sg = WTERMSIG(st); r.code = 2; if (sg == SIGKILL || sg == SIGXCPU) r.msg = "hang: the operation does not end"; else r.msg += std::string(" crash: signal ") + strsignal(sg); }
  return r;
}
static bool fails(const Case& c, const Prof& P) { return isolated(c, P).code == 2; }
static Case shrink(Case c, const Prof& P) {
  int runs = 0; const int MAXR = 1200; time_t t0 = time(0);
  bool again = true;
  auto tryc = [&](const Case& d) { if (runs++ > MAXR || time(0) - t0 > 60) return false; if (fails(d, P)) { c = d; again = true; return true; } return false; };
  // the shortest failing prefix
  while (again && runs < MAXR) {
    again = false;
    for (size_t sz = c.ops.size() / 2; sz >= 1; sz /= 2)
      for (size_t i = 0; i + sz <= c.ops.size(); ) { Case d = c; d.ops.erase(d.ops.begin() + i, d.ops.begin() + i + sz); if (!tryc(d)) i += sz; }
    { Case d = c; for (int k = 0; k < HK_REACT; ++k) d.tab[k].clear(); for (int k = HK_DTOR; k < HK_MAX; ++k) d.tab[k].clear(); tryc(d); }
    for (int k = 0; k < HK_MAX; ++k) if (!c.tab[k].empty()) {
      { Case d = c; d.tab[k].clear(); if (tryc(d)) continue; }
      for (size_t i = 0; i < c.tab[k].size() && c.tab[k].size() > 1; ) { Case d = c; d.tab[k].erase(d.tab[k].begin() + i); if (!tryc(d)) ++i; }
      for (size_t i = 0; i < c.tab[k].size(); ++i) {
        for (size_t j = 0; j < c.tab[k][i].eff.size(); ) { Case d = c; d.tab[k][i].eff.erase(d.tab[k][i].eff.begin() + j); if (!tryc(d)) ++j; }
        if (c.tab[k][i].res != 'X') { Case d = c; d.tab[k][i].res = 'X'; d.tab[k][i].arg = 0; tryc(d); }
      }
    }
    for (size_t i = 0; i < c.ops.size(); ++i) if (c.ops[i].b) { Case d = c; d.ops[i].b = 0; tryc(d); }
  }
  return c;
}
static bool ruleHolds(const std::string& rule, const FeatSet& f, const std::map<std::string, int>& fi) {
  if (rule.empty()) return true;
  std::istringstream a(rule); std::string term;
  while (std::getline(a, term, ',')) {
    std::istringstream b(term); std::string x; bool all = true;
    while (std::getline(b, x, '+')) { auto i = fi.find(x); if (i == fi.end()) { fprintf(stderr, "unknown feature %s\n", x.c_str()); exit(9); } if (!f.has(i->second)) all = false; }
    if (all) return true;
  }
  return false;
}
static std::string jesc(const std::string& s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r; }
} // namespace h

namespace boost {
void assertion_failed(char const* e, char const* fn, char const* file, long line) {
  char b[560]; const char* f = strrchr(file, '/'); snprintf(b, sizeof b, "assertion %.200s failed at %.60s:%ld", e, f ? f + 1 : file, line);
  if (h::shm) { h::shm->msg[0] = 0; } h::note(b); fprintf(stderr, "%s\n", b); _exit(43);
}
void assertion_failed_msg(char const* e, char const*, char const* fn, char const* file, long line) { assertion_failed(e, fn, file, line); }
}

using namespace h;
int main(int argc, char** argv) {
#ifndef VERIF_NO_POISON
  poison::onBad = h::badmem;
#endif
  std::map<std::string, std::string> A; for (int i = 1; i + 1 < argc; i += 2) A[argv[i]] = argv[i + 1];
  Prof P; { std::istringstream p(A["--prof"]); std::string kv; while (std::getline(p, kv, ',')) { size_t e = kv.find('='); if (e != std::string::npos) P.v[kv.substr(0, e)] = atof(kv.c_str() + e + 1); } } P.rule = A["--rule"];
  // registration order depends on the linker: order by name
  std::sort(registry().begin(), registry().end(), [](const TopoReg& a, const TopoReg& b) { return strcmp(a.desc, b.desc) < 0; });
  for (auto& t : registry()) { Desc d; d.parse(t.desc); d.relaxed = t.relaxed; descs.push_back(d); }
  shm = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<std::string, int> fi; for (int i = 0; i < F_COUNT; ++i) fi[featNames[i]] = i;
  if (A.count("--replay")) {
    std::ifstream in(A["--replay"].c_str()); Case c = parseCase(in);
    Iso r = isolated(c, P); printf("%s %s\n", r.code == 2 ? "FAIL" : "OK", r.msg.c_str());
    if (A.count("--explain")) isolated(c, P, A["--explain"].c_str());
    return r.code == 2 ? 1 : 0;
  }
  if (A.count("--trace")) {      // prints the traces of a case, for differential runs
    std::ifstream in(A["--trace"].c_str()); Case c = parseCase(in); fputs(explain(c, P).c_str(), stdout); return 0;
  }
  uint64_t seed = strtoull(A["--seed"].c_str(), 0, 10); long cases = atol(A["--cases"].c_str()); double secs = atof(A["--secs"].c_str());
  int worker = atoi(A["--worker"].c_str());
  // exploration happens in a child, so that a crash cannot take the driver with it
  std::string statf = A["--stats"];
  auto caseSeed = [&](long i) { return seed * 1000003ull + (uint64_t)worker * 7919ull * 1000000007ull + (uint64_t)i; };
  auto caseTopo = [&](long i) { Rng r(caseSeed(i) ^ 0xabcdef); return r.below((int)descs.size()); };
  if (A.count("--dump")) { long i = atol(A["--dump"].c_str()); fputs(caseText(genCase(caseSeed(i), caseTopo(i), P)).c_str(), stdout); return 0; }
  long start = 0; std::vector<std::string> found;
  fflush(0);
  pid_t p = fork();
  if (p == 0) {
    { struct rlimit l; l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l); } memLimit();
    std::vector<long> fc(F_COUNT, 0); long nontriv = 0, ops = 0, inconcl = 0, paths = 0; std::unordered_set<uint64_t> uniq; std::vector<std::string> samples; std::vector<long> perTopo(descs.size(), 0);
    uint64_t all = 14695981039346656037ull;
    const double times = 200; FILE* slow = getenv("VERIF_SLOW") ? fopen(getenv("VERIF_SLOW"), "a") : 0;     // for whoever tunes the generator
    FILE* hashes = A.count("--hashes") ? fopen(A["--hashes"].c_str(), "w") : 0;
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); long i = start;
    for (; i < cases; ++i) {
      if (secs > 0 && (i & 15) == 0) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; }
      shm->idx = i;
      if ((i & 63) == 0) { struct rlimit l; struct rusage u; getrusage(RUSAGE_SELF, &u); l.rlim_cur = u.ru_utime.tv_sec + u.ru_stime.tv_sec + 25; l.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_CPU, &l); }
      Case c = genCase(caseSeed(i), caseTopo(i), P);
      struct timespec c0, c1; if (slow) clock_gettime(CLOCK_MONOTONIC, &c0);
      Outcome o = execCase(c, P);
      if (slow) { clock_gettime(CLOCK_MONOTONIC, &c1); double ms = (c1.tv_sec - c0.tv_sec) * 1e3 + (c1.tv_nsec - c0.tv_nsec) * 1e-6; if (ms > times) { fprintf(slow, "case %ld: %.0f ms, %zu ops\n", i, ms, c.ops.size()); fflush(slow); } }
      if (!o.ok && P.g("nomodel", 0) > 0) { o.hash = 1; o.ok = true; }
      if (!o.ok) { _exit(10); }
      if (o.inconclusive) ++inconcl;
      ops += o.ops; ++perTopo[c.topo];
      if (hashes) { unsigned long long hh = o.hash; fwrite(&hh, 8, 1, hashes); fflush(hashes); }
      for (int k = 0; k < F_COUNT; ++k) if (o.f.has(k)) ++fc[k];
      if (ruleHolds(P.rule, o.f, fi)) { ++nontriv; if (uniq.insert(o.hash).second && samples.size() < 2 && i > 3) samples.push_back(caseText(c)); }
    }
    FILE* f = fopen(statf.c_str(), "w");
    fprintf(f, "{\"cases\": %ld, \"ops\": %ld, \"nontrivial\": %ld, \"distinct\": %zu, \"inconclusive\": %ld, \"topos\": %zu, \"features\": {", i, ops, nontriv, uniq.size(), inconcl, descs.size());
    for (int k = 0; k < F_COUNT; ++k) fprintf(f, "%s\"%s\": %ld", k ? ", " : "", featNames[k], fc[k]);
    fprintf(f, "}, \"samples\": ["); for (size_t k = 0; k < samples.size(); ++k) fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(samples[k]).c_str()); fprintf(f, "]}\n"); fclose(f);
    if (hashes) fclose(hashes);
    if (A.count("--uniq")) { FILE* u = fopen(A["--uniq"].c_str(), "wb"); for (uint64_t h : uniq) fwrite(&h, 8, 1, u); fclose(u); }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (P.g("nomodel", 0) > 0) { printf("stopped at case %ld status %x %s\n", (long)shm->idx, st, shm->msg); return 6; }
  long bad = shm->idx; std::string m0 = shm->msg;
  Case c = genCase(caseSeed(bad), caseTopo(bad), P);
  int n = 0; for (int k = 0; k < 3; ++k) if (fails(c, P)) ++n;
  if (n < 3) {
    // not reproducible in isolation: an effect of earlier cases in the process or of the machine we run on
    fprintf(stderr, "case %ld failed in the stream (status %x, %s) but only %d/3 times alone\n", bad, st, m0.c_str(), n);
    return 5;
  }
  Case s = shrink(c, P);
  for (int k = 0; k < 3; ++k) if (!fails(s, P)) { s = c; break; }
  Iso r = isolated(s, P); isolated(s, P, (A["--viol"] + ".txt").c_str());
  FILE* f = fopen(A["--viol"].c_str(), "w"); std::string t = caseText(s); fwrite(t.data(), 1, t.size(), f); fclose(f);
  printf("FAIL topo=%d case=%ld %s\n", s.topo, bad, r.msg.c_str());
  return 1;
}
