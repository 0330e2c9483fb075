// C19: see rtti.hpp.  Operations on objects and custom identifiers from two units, against a table.
#include "rtti.hpp"
#include <functional>
#include "pbt.hpp"
using namespace pbt;
IdA idA[NPTR]; IdB idB[NPTR];
static const Type tabA[NT] = { TYPES };
// before main: identifiers set during static initialisation must last, others must be null
struct Early {
  bool nullOk; Early() : nullOk(true) {
#if !NATIVE
    for (int i = 0; i < NT; ++i) { if (tabA[i].getA() || tabA[i].getB()) nullOk = false; }
    tabA[3].setA(&idA[1]); tabA[ST0 + 4].setB(&idB[2]);
#endif
  } };
static Early early;
static const Type& T(int unit, int i) { return unit ? typesB()[i] : tabA[i]; }
static bool lt(const Id& a, const Id& b) {
#if NATIVE
  return a < b;
#else
  return std::less<Id>()(a, b);
#endif
}
enum { O_NEW, O_COPY, O_DROP, O_GO, O_SETA, O_SETB, O_CHECK, O_SHARE, O_N };
struct Obj { EvPtr p; int unit, type; };
Ops pbt::generate(Rng& r, const std::string&) {
  Ops o; int n = r.in(4, 40);
  for (int i = 0; i < n; ++i) switch (r.pick({5, 3, 2, 5, NATIVE ? 0.0 : 4.0, NATIVE ? 0.0 : 3.0, 4, 2})) {
    case 0: o.push_back({O_NEW, r.below(2), r.below(NEV)}); break;
    case 1: o.push_back({O_COPY, r.below(40)}); break;
    case 2: o.push_back({O_DROP, r.below(40)}); break;
    case 3: o.push_back({O_GO, r.below(2), r.below(6)}); break;
    case 4: o.push_back({O_SETA, r.below(2), r.below(NT), r.below(NPTR + 1)}); break;
    case 5: o.push_back({O_SETB, r.below(2), r.below(NT), r.below(NPTR + 1)}); break;
    case 6: o.push_back({O_CHECK}); break;
    case 7: o.push_back({O_SHARE, r.below(40)}); break;
  }
  o.push_back({O_CHECK}); return o;
}
int pbt::minArg(int, int) { return 0; }
// the identity of a type: the local ones differ between units
static int key(int unit, int t) { return t == LOCAL && unit ? NT : t; }
struct Cust { int kind; const void* p; };
static std::string where(const char* what, int u, int t) { char b[200]; snprintf(b, sizeof b, "%s (type %s, unit %d)", what, T(u, t).name, u); return b; }

std::string pbt::execute(const Ops& ops, const std::string&, Info& inf) {
  static bool first = true; std::string err;
  Cust cu[NT + 1]; for (int i = 0; i <= NT; ++i) { cu[i].kind = 0; cu[i].p = 0; }
#if !NATIVE
  if (first) {
    first = false;
    if (!early.nullOk) return "a custom identifier is not null by default";
    for (int u = 0; u < 2; ++u) for (int i = 0; i < NT; ++i) {
      if (i == 3) { if (T(u, i).getA() != &idA[1]) return where("custom identifier set before main is lost", u, i); }
      else if (i == ST0 + 4) { if (T(u, i).getB() != &idB[2]) return where("custom identifier set before main is lost", u, i); }
      else if (T(u, i).getA() || T(u, i).getB()) return where("custom identifier is not null by default", u, i);
    }
  }
  for (int u = 0; u < 2; ++u) for (int i = 0; i < NT; ++i) T(u, i).setA(0);
#endif
  std::vector<Obj> ob; M* m[2] = {new M, machineB()}; int at[2] = {0, 0}; m[0]->initiate(); m[1]->initiate(); int sets = 0, moves = 0, copies = 0; (void)first;
  auto leaves = [&](int k) { return at[k] == 4 ? std::vector<int>{ST0 + 6, ST0 + 8} : std::vector<int>{ST0 + at[k]}; };
  auto checkObj = [&](Id dyn, int u, int t, const char* what) {
    for (int v = 0; v < 2; ++v) for (int j = 0; j < NT; ++j) {
#ifdef __clang__
      if (NATIVE && t == LOCAL && j == LOCAL && u != v) continue;     // typeid of clang does not tell these apart
#endif
      Id s = T(v, j).stat(); bool same = key(u, t) == key(v, j);
      if ((dyn == s) != same || (s == dyn) != same || (dyn != s) == same) return where(same ? "dynamic type differs from the type's own static type" : "dynamic type equals another type's", v, j) + " " + what + " of type " + T(u, t).name;
      bool a = lt(dyn, s), b = lt(s, dyn); if (same ? (a || b) : (a == b)) return where("inconsistent order of identifiers", v, j);
#if NATIVE
      if ((dyn > s) != b || (dyn >= s) == a || (dyn <= s) == b) return where("comparison operators disagree", v, j);
#endif
    }
    return std::string();
  };
#if !NATIVE
  auto checkCust = [&](const Cust& c, const IdA* a, const IdB* b, bool askA, bool askB, int u, int t) {
    if (askA && (const void*)a != c.p) return where("wrong custom identifier", u, t); if (askB && (const void*)b != c.p) return where("wrong custom identifier", u, t); return std::string(); };
#endif
  auto checkAll = [&]() {
    std::string e;
    // order of all static types of both units
    std::vector<std::pair<int, int> > all; for (int u = 0; u < 2; ++u) for (int i = 0; i < NT; ++i) all.push_back({u, i});
    for (auto& a : all) { e = checkObj(T(a.first, a.second).stat(), a.first, a.second, "static type"); if (!e.empty()) return e; }
    for (size_t n = 0; n + 2 < all.size(); n += 2) { auto &x = all[n], &y = all[(n * 7 + 3) % all.size()], &z = all[(n * 5 + 1) % all.size()]; Id a = T(x.first, x.second).stat(), b = T(y.first, y.second).stat(), c = T(z.first, z.second).stat(); if (lt(a, b) && lt(b, c) && !lt(a, c)) return std::string("order of identifiers is not transitive"); }
    for (auto& o : ob) {
      e = checkObj(o.p->dynamic_type(), o.unit, o.type, "event"); if (!e.empty()) return e;
#if !NATIVE
      const Cust& c = cu[key(o.unit, o.type)]; bool A = c.p == 0 || c.kind == 1, B = c.p == 0 || c.kind == 2;
      e = checkCust(c, A ? o.p->custom_dynamic_type_ptr<IdA>() : 0, B ? o.p->custom_dynamic_type_ptr<IdB>() : 0, A, B, o.unit, o.type); if (!e.empty()) return "event object: " + e;
#endif
    }
    for (int k = 0; k < 2; ++k) {
      std::vector<int> want = leaves(k); int n = 0;
      for (M::state_iterator i = m[k]->state_begin(); i != m[k]->state_end(); ++i, ++n) {
        int t = -1; const M::state_base_type* s = &*i;
        for (int w : want) if (s->dynamic_type() == T(0, w).stat()) t = w;
        if (t < 0) return std::string("active state's dynamic type is none of those expected");
        for (; s; s = s->outer_state_ptr()) {
          e = checkObj(s->dynamic_type(), 0, t, "state"); if (!e.empty()) return e;
#if !NATIVE
          const Cust& c = cu[t]; bool A = c.p == 0 || c.kind == 1, B = c.p == 0 || c.kind == 2;
          e = checkCust(c, A ? s->custom_dynamic_type_ptr<IdA>() : 0, B ? s->custom_dynamic_type_ptr<IdB>() : 0, A, B, 0, t); if (!e.empty()) return "state object: " + e;
#endif
          t = t == ST0 + 6 ? ST0 + 4 : t == ST0 + 8 ? ST0 + 7 : t == ST0 + 7 ? ST0 + 4 : -1;
          if (t < 0 && s->outer_state_ptr()) return std::string("too many outer states");
        }
      }
      if (n != (int)want.size()) return std::string("number of innermost states");
    }
#if !NATIVE
    for (int u = 0; u < 2; ++u) for (int i = 0; i < NT; ++i) {
      const Cust& c = cu[key(u, i)]; bool A = c.p == 0 || c.kind == 1, B = c.p == 0 || c.kind == 2;
      e = checkCust(c, A ? T(u, i).getA() : 0, B ? T(u, i).getB() : 0, A, B, u, i); if (!e.empty()) return "static: " + e;
    }
#endif
    return e;
  };
  for (auto& o : ops) {
    ++inf.steps;
    switch (o[0]) {
      case O_NEW: { Obj x; x.unit = o[1]; x.type = o[2]; x.p = EvPtr(T(o[1], o[2]).make()); ob.push_back(x); break; }
      case O_COPY: if (!ob.empty()) { Obj x = ob[o[1] % ob.size()]; x.p = T(x.unit, x.type).clone(*x.p); ob.push_back(x); ++copies; } break;
      case O_SHARE: if (!ob.empty()) { Obj x = ob[o[1] % ob.size()]; x.p = x.p->intrusive_from_this(); ob.push_back(x); } break;
      case O_DROP: if (!ob.empty()) ob.erase(ob.begin() + o[1] % ob.size()); break;
      case O_GO: if (at[o[1]] != o[2] ) { m[o[1]]->process_event(Go(o[2])); at[o[1]] = o[2]; ++moves; } break;
#if !NATIVE
      case O_SETA: { const IdA* p = o[3] ? &idA[o[3] - 1] : 0; T(o[1], o[2]).setA(p); cu[key(o[1], o[2])].kind = 1; cu[key(o[1], o[2])].p = p; ++sets; break; }
      case O_SETB: { const IdB* p = o[3] ? &idB[o[3] - 1] : 0; T(o[1], o[2]).setB(p); cu[key(o[1], o[2])].kind = 2; cu[key(o[1], o[2])].p = p; ++sets; break; }
#endif
      case O_CHECK: err = checkAll(); break;
    }
    if (!err.empty()) break;
  }
  delete m[0]; delete m[1];
  inf.nontrivial = moves > 0 && ob.size() > 1 && (NATIVE || sets > 1); if (copies) inf.f("copies"); if (sets > 2) inf.f("sets");
  return err;
}
