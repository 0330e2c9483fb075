// Hook behaviour of chart machines as rows of a pbt case: {1, hook, result, argument, (effect, a, b)*}.
#ifndef VERIF_CASEGEN_HPP
#define VERIF_CASEGEN_HPP
#include "model.hpp"
namespace h {
struct HookP { double hook, post, thr, nest, clear, query, dtor; };
inline void addHook(pbt::Ops& o, pbt::Rng& r, const Desc& D, int hook, int where, bool simple, double ph, const HookP& P, const char* results = "X") {
  if (!r.p(ph)) return; int n = r.in(1, 3);
  for (int i = 0; i < n; ++i) {
    char res = results[r.below((int)strlen(results))]; int arg = r.below(4); pbt::Op x = {1, hook, res, arg};
    auto eff = [&](char k, int a, int b) { x.push_back(k); x.push_back(a); x.push_back(b); };
    if (!simple) {
      if (r.p(P.post)) eff("pPs"[r.below(3)], r.below(D.nev), 0);
      if (r.p(P.nest)) { int w = r.below(12); int what = w < 5 ? r.below(D.nev) : w < 8 ? 40 + r.below(D.nev) : w == 8 ? 100 : w == 9 ? 101 + r.below(2) : w == 10 ? 103 + r.below(2) : 105; eff('N', r.below(3), what); }
      if (!D.slots.empty() && r.p(P.clear)) eff('c', r.below((int)D.slots.size()), 0);
      if (r.p(P.query)) eff('q', 0, 0);
    }
    if (r.p(P.thr)) eff('t', r.below(3), 0);
    o.push_back(x);
  }
}
inline void genHooks(pbt::Ops& o, pbt::Rng& r, const Desc& D, const HookP& P) {
  for (size_t s = 0; s < D.st.size(); ++s) { addHook(o, r, D, HK_ENTRY + s, 0, D.st[s].simple, P.hook, P); addHook(o, r, D, HK_EXIT + s, 1, false, P.hook, P); if (P.dtor > 0) { HookP Q = P; Q.thr = Q.nest = Q.query = 0; addHook(o, r, D, HK_DTOR + s, 1, false, P.dtor, Q); } }
  for (int a = 0; a < D.nact; ++a) addHook(o, r, D, HK_ACT + a, 2, false, P.hook, P);
  for (size_t c = 0; c < D.cust.size(); ++c) addHook(o, r, D, HK_REACT + c, 3, false, 1, P, D.cust[c].empty() ? "XFDZ" : "XFDZTTTTT");
  addHook(o, r, D, HK_UNCONS, 4, false, P.hook, P);
}
inline void parseHook(const pbt::Op& o, Tables& tab) { Beh b; b.res = (char)o[2]; b.arg = o[3]; for (size_t i = 4; i + 2 < o.size(); i += 3) b.eff.push_back(Eff{(char)o[i], o[i + 1], o[i + 2]}); tab[o[1]].push_back(b); }
}
#endif
