// Included (precompiled) by the programs that the check of C20 generates.
#include <string>
#include "array/array.h"
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace nda;
// A distinct element type for each statement, so that the compiler reports each error again.
template <int K>
struct E {
  int v;
  E(int v = 0) : v(v) {}
  friend E operator+(const E& a, const E& b) { return E(a.v + b.v); }
  friend E operator*(const E& a, const E& b) { return E(a.v * b.v); }
  E& operator+=(const E& b) { v += b.v; return *this; }
  E& operator-=(const E& b) { v -= b.v; return *this; }
  E& operator*=(const E& b) { v *= b.v; return *this; }
  friend E operator-(const E& a) { return E(-a.v); }
  friend bool operator==(const E& a, const E& b) { return a.v == b.v; }
  friend bool operator!=(const E& a, const E& b) { return a.v != b.v; }
};
template <int K>
struct Alien {};
template <class T>
struct Alloc {
  using value_type = T;
  Alloc() {}
  template <class U>
  Alloc(const Alloc<U>&) {}
  T* allocate(size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
  friend bool operator==(const Alloc&, const Alloc&) { return true; }
  friend bool operator!=(const Alloc&, const Alloc&) { return false; }
};
template <class T>
T& lv();  // an lvalue
template <class T>
T rv();   // an rvalue
template <class A, class B>
struct same { static_assert(std::is_same<A, B>::value, "another type than expected"); };
template <class A, size_t R>
struct rank_is { static_assert(std::decay<A>::type::rank() == R, "another rank than expected"); };
