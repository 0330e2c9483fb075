// The allocator handed to machines, states and events: checks that what is returned is what was taken, and can fail.
#ifndef VERIF_ALLOC_HPP
#define VERIF_ALLOC_HPP
#include <typeinfo>
namespace h {
enum { AC_OTHER = -1, AC_POST = -2 };
void* allocMem(size_t n, size_t size, const std::type_info& t, int stateNo, bool isEvent);
void freeMem(void* p, size_t n, size_t size, const std::type_info& t);
template<class T, int N> struct StNo { enum { v = N }; };
template<class T> char (&hasStno(int, StNo<T, T::stno>* = 0))[2]; template<class T> char hasStno(...);
template<class T, bool B> struct GetStno { enum { v = AC_OTHER }; }; template<class T> struct GetStno<T, true> { enum { v = T::stno }; };
template<class T> struct Alloc {
  typedef T value_type;
  Alloc() {} template<class U> Alloc(const Alloc<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(allocMem(n, sizeof(T), typeid(T), GetStno<T, sizeof(hasStno<T>(0)) == 2>::v, false)); }
  void deallocate(T* p, size_t n) { freeMem(p, n, sizeof(T), typeid(T)); }
  template<class U> bool operator==(const Alloc<U>&) const { return true; } template<class U> bool operator!=(const Alloc<U>&) const { return false; }
};
}
#endif
