// lane-projected operation harness.  The per-(V, op) code is only a tiny kernel
// "load, apply, store"; everything else is instantiated once per element type.
#pragma once
#include "common.hpp"
typedef void (*Kern)(const void* const* in, void* out);
template <class T> using Dom1 = bool (*)(T);
template <class T> using Dom2 = bool (*)(T, T);

template <class T, class R> NOI void run2(const char* op, size_t N, Kern kern, const Pairs<T>& p, Dom2<T> dom) {
  Feeder fd(N, p.n(), mix64(u64(op[0]), u64(op[1])));
  T a[64], b[64]; R r[64];
  const void* in[2] = {a, b};
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) {
      size_t j = fd.next();
      a[i] = p.a[j]; b[i] = p.b[j];
      if (dom && !dom(a[i], b[i])) { a[i] = T(1); b[i] = T(1); }
    }
    kern(in, r);
    for (size_t i = 0; i < N; ++i) { Val v[3] = {val(a[i]), val(b[i]), val(r[i])}; rec_lane(op, tname<T>(), v, 3); }
  }
}
template <class T, class R> NOI void run1(const char* op, size_t N, Kern kern, const std::vector<T>& p, Dom1<T> dom) {
  Feeder fd(N, p.size(), mix64(u64(op[0]), u64(op[1])));
  T a[64]; R r[64];
  const void* in[1] = {a};
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) { a[i] = p[fd.next()]; if (dom && !dom(a[i])) a[i] = T(1); }
    kern(in, r);
    for (size_t i = 0; i < N; ++i) { Val v[2] = {val(a[i]), val(r[i])}; rec_lane(op, tname<T>(), v, 2); }
  }
}
template <class V, class F> NOI void kern2(const void* const* in, void* out) {
  using T = typename V::value_type;
  auto z = F()(ld<V>((const T*)in[0]), ld<V>((const T*)in[1]));
  z.copy_to((typename decltype(z)::value_type*)out, stdx::element_aligned);
}
template <class V, class F> NOI void kern1(const void* const* in, void* out) {
  using T = typename V::value_type;
  auto z = F()(ld<V>((const T*)in[0]));
  z.copy_to((typename decltype(z)::value_type*)out, stdx::element_aligned);
}
// operations are function objects (one struct per operation, shared by all V)
#define OP2(name, expr) struct name { template <class V> auto operator()(V a, V b) const { return expr; } };
#define OP2C(name, stmt) struct name { template <class V> V operator()(V a, V b) const { stmt; return a; } };
#define OP1(name, expr) struct name { template <class V> auto operator()(V a) const { return expr; } };
#define OP1C(name, stmt) struct name { template <class V> V operator()(V a) const { stmt; return a; } };
template <class V, class F> void lane2(const char* op, const char* what, const Pairs<typename V::value_type>& p, F, Dom2<typename V::value_type> dom = nullptr) {
  using R = typename decltype(F()(V(), V()))::value_type;
  prov<V>(what);
  run2<typename V::value_type, R>(op, V::size(), &kern2<V, F>, p, dom);
}
template <class V, class F> void lane1(const char* op, const char* what, const std::vector<typename V::value_type>& p, F, Dom1<typename V::value_type> dom = nullptr) {
  using R = typename decltype(F()(V()))::value_type;
  prov<V>(what);
  run1<typename V::value_type, R>(op, V::size(), &kern1<V, F>, p, dom);
}
