// Shared pieces of the conformance drivers: value pools, ABI lists, helpers to
// move lanes in and out of simd objects, and event emission.  Public API only.
#pragma once
#include <experimental/simd>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "rec.h"
#ifdef DIRECTED   // run everything once per directed rounding direction
int rec_directed() { return 1; }
#endif
namespace stdx = std::experimental::parallelism_v2;
#define NOI [[gnu::noinline]]

#ifndef ISA_NAME
#define ISA_NAME "?"
#endif

template <class T> constexpr int width() {
  if (std::is_same_v<T, bool>) return 0;
  if (std::is_same_v<T, long double>) return 80;
  return sizeof(T) * 8;
}
template <class T> constexpr const char* tname() {
  if constexpr (std::is_same_v<T, bool>) return "bool";
  else if constexpr (std::is_floating_point_v<T>)
    return std::is_same_v<T, float> ? "f32" : std::is_same_v<T, double> ? "f64" : "f80";
  else if constexpr (std::is_signed_v<T>)
    return sizeof(T) == 1 ? "i8" : sizeof(T) == 2 ? "i16" : sizeof(T) == 4 ? "i32" : "i64";
  else
    return sizeof(T) == 1 ? "u8" : sizeof(T) == 2 ? "u16" : sizeof(T) == 4 ? "u32" : "u64";
}
template <class T> inline W bits(const T& x) {
  W w = 0;
  if constexpr (std::is_same_v<T, long double>) std::memcpy(&w, &x, 10);
  else if constexpr (std::is_same_v<T, bool>) w = x ? 1 : 0;
  else std::memcpy(&w, &x, sizeof(T));
  return w;
}
template <class T> inline T unbits(W w) {
  T x{};
  if constexpr (std::is_same_v<T, long double>) std::memcpy(&x, &w, 10);
  else std::memcpy(&x, &w, sizeof(T));
  return x;
}
template <class T> inline Val val(const T& x) { return {bits(x), width<T>()}; }

// opaque: the optimiser knows nothing about the bytes behind p
template <class T> inline T* opaque(T* p) { asm volatile("" : "+r"(p) : : "memory"); return p; }
inline int opaque_int(int x) { asm volatile("" : "+r"(x)); return x; }

// leaves rubbish where the next call's locals will live
NOI inline void dirty_stack(int c) { unsigned char b[4096]; std::memset(b, c, sizeof b); opaque(b); }

// ------------------------------------------------------------------ pools
template <class T> std::vector<T> edge_pool() {
  std::vector<T> p;
  if constexpr (std::is_integral_v<T>) {
    using U = std::make_unsigned_t<T>;
    constexpr int w = sizeof(T) * 8;
    auto add = [&](U u) { p.push_back(T(u)); };
    for (U u : {U(0), U(1), U(2), U(3), U(5), U(7), U(10), U(100)}) { add(u); add(U(-u)); }
    for (int k : {w / 4, w / 2 - 1, w / 2, w - 2, w - 1}) {
      U b = U(U(1) << k);
      add(b); add(U(b - 1)); add(U(b + 1));
    }
    add(U(0x5555555555555555ull)); add(U(0xAAAAAAAAAAAAAAAAull)); add(U(0x0F1E2D3C4B5A6978ull));
    if (w == 64) { add(U(0x80000000ull)); add(U(0xFFFFFFFFull)); add(U(0xFFFFFFFF00000000ull)); add(U(0x7FFFFFFFull)); add(U(0x1000100010001ull));}
    if (w >= 32) { add(U(0x8000)); add(U(0xFFFF)); add(U(0x80)); add(U(0xFF)); add(U(0x7FFF0000ull)); add(U(0xFFFF8000ull)); add(U(-128)); add(U(-129)); add(U(-32768)); add(U(1) << 24); add((U(1) << 24) + 1);}
  } else {
    using L = std::numeric_limits<T>;
    T vals[] = {T(0), T(1), T(1.5), T(2), T(0.1), T(0.5), T(3), T(7), T(10.25), L::max(), L::min(), L::denorm_min(),
                L::denorm_min() * 3, L::min() - L::denorm_min(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2, L::infinity(),
                L::max() / 2, L::min() * 2, T(123456.75), std::ldexp(T(1), L::digits), std::ldexp(T(1), L::digits) - 1,
                std::ldexp(T(1), L::digits - 1) - T(0.5), std::ldexp(T(1), -L::digits), T(2.5), std::sqrt(L::max()), std::sqrt(L::min())};
    for (T v : vals) { p.push_back(v); p.push_back(-v); }
    p.push_back(L::quiet_NaN()); p.push_back(-L::quiet_NaN());
  }
  return p;
}
template <class T> T random_value() {
  u64 r = rec_rand();
  if constexpr (std::is_integral_v<T>) {
    if (r % 4 == 0) return T(rec_rand() >> (rec_rand() % 64));
    return T(rec_rand());
  } else {
    switch (r % 5) {
      case 0: case 1: if constexpr (sizeof(T) <= 8) return unbits<T>(rec_rand()); else return std::ldexp(T((long long)(rec_rand())), int(rec_rand() % 200) - 160);
      case 2: return T(int(rec_rand() % 20001) - 10000) / T(8);
      case 3: return std::ldexp(T(1) + T(rec_rand() % 64) * std::numeric_limits<T>::epsilon(), int(rec_rand() % 41) - 20) * (rec_rand() & 1 ? -1 : 1);
      default: return T((long long)(rec_rand() % 2000001) - 1000000) * T(1.0000001);
    }
  }
}
// distinct NaN payloads carry no information for the specification
template <class T> std::vector<T> value_pool(int nrand) {
  rec_seed(mix64(g_seed, width<T>() * 2 + std::is_signed_v<T>));
  std::vector<T> p = edge_pool<T>();
  for (int i = 0; i < nrand; ++i) p.push_back(random_value<T>());
  return p;
}
template <class T> struct Pairs { std::vector<T> a, b; size_t n() const { return a.size(); } void add(T x, T y) { a.push_back(x); b.push_back(y); } };
template <class T> Pairs<T> pair_pool(int nedge, int nrand) {
  rec_seed(mix64(g_seed, 77 + width<T>() * 2 + std::is_signed_v<T>));
  auto e = edge_pool<T>();
  Pairs<T> p;
  if (int(e.size() * e.size()) <= nedge)
    for (T x : e) for (T y : e) p.add(x, y);
  else
    for (int i = 0; i < nedge; ++i) p.add(e[rec_rand() % e.size()], e[rec_rand() % e.size()]);
  for (int i = 0; i < nrand; ++i) {
    T x = random_value<T>(), y = random_value<T>();
    u64 k = rec_rand() % 8;
    if (k == 0) y = x;
    else if (k == 1) { if constexpr (std::is_integral_v<T>) y = T(std::make_unsigned_t<T>(x) + 1); else y = std::nextafter(x, T(1)); }
    else if (k == 2) { if constexpr (std::is_integral_v<T>) y = T(-std::make_unsigned_t<T>(x)); else y = -x; }
    p.add(x, y);
  }
  return p;
}

// ------------------------------------------------------------------ lanes
// Operands reach the operation under test through different histories: loaded
// from memory, or assembled element by element over another value, so that lanes
// that do not exist (padding of partial registers) hold something else than zero.
inline unsigned g_hist = 1;
inline bool hist() { g_hist = g_hist * 1664525u + 1013904223u; return g_hist >> 16 & 1; }
template <class V> NOI V ld(const typename V::value_type* p) {
  using T = typename V::value_type;
  V v;
  if (hist()) v.copy_from(p, stdx::element_aligned);
  else { v = V(T(0x5b)); opaque(&v); for (size_t i = 0; i < V::size(); ++i) v[i] = p[i]; }
  return v;
}
template <class M> NOI M ldm(const bool* p) {
  M m(false);
  if (hist()) m.copy_from(p, stdx::element_aligned);
  else if (hist()) {
    bool n[M::size()]; for (size_t i = 0; i < M::size(); ++i) n[i] = !p[i];
    m.copy_from(opaque(n), stdx::element_aligned); opaque(&m); m = !m;
  } else { m = M(true); opaque(&m); for (size_t i = 0; i < M::size(); ++i) m[i] = p[i]; }
  return m;
}
template <class V> void st(const V& v, typename V::value_type* p) { v.copy_to(p, stdx::element_aligned); }

template <class... Ts> struct TL {};
template <class V> const char* vname() { return __PRETTY_FUNCTION__; }
template <class V> void prov(const char* what) { rec_prov("[" ISA_NAME "]", vname<V>(), what); }

// the simd types exercised for one element type
template <class T, size_t... Ns> using fixed_list = TL<stdx::fixed_size_simd<T, Ns>...>;
template <class T, size_t... Ns> using deduced_list = TL<stdx::simd<T, stdx::simd_abi::deduce_t<T, Ns>>...>;
template <class F, class... Vs> void for_types(TL<Vs...>, F f) { (f(TL<Vs>()), ...); }

// ---- default ABI coverage per element type --------------------------------
template <class T> constexpr auto deduced_sizes() {
  if constexpr (sizeof(T) == 1) return std::index_sequence<2, 3, 5, 8, 15, 16, 17, 31, 32>();
  else if constexpr (sizeof(T) == 2) return std::index_sequence<2, 3, 7, 8, 9, 15, 16, 17, 32>();
  else if constexpr (sizeof(T) == 4) return std::index_sequence<2, 3, 4, 5, 7, 8, 9, 13, 16>();
  else if constexpr (sizeof(T) == 8) return std::index_sequence<2, 3, 4, 5, 7, 8>();
  else return std::index_sequence<1>();
}
// the shapes of the chunk lists differ per size; every instruction-set level sees another set
#ifndef ISA_IDX
#define ISA_IDX 0
#endif
template <class T> constexpr auto fixed_sizes() {
  constexpr int v = (ISA_IDX + sizeof(T) / 2 + std::is_signed_v<T>) % 3;
  if constexpr (sizeof(T) == 1) {
    if constexpr (v == 0) return std::index_sequence<1, 3, 19, 32>();
    else if constexpr (v == 1) return std::index_sequence<1, 2, 9, 31>();
    else return std::index_sequence<1, 7, 24, 29>();
  } else if constexpr (sizeof(T) == 2) {
    if constexpr (v == 0) return std::index_sequence<1, 5, 16, 27>();
    else if constexpr (v == 1) return std::index_sequence<1, 3, 12, 32>();
    else return std::index_sequence<1, 7, 9, 31>();
  } else if constexpr (sizeof(T) == 4) {
    if constexpr (v == 0) return std::index_sequence<1, 3, 8, 11, 32>();
    else if constexpr (v == 1) return std::index_sequence<1, 2, 5, 13, 27>();
    else return std::index_sequence<1, 4, 7, 9, 31>();
  } else if constexpr (sizeof(T) == 8) {
    if constexpr (v == 0) return std::index_sequence<1, 2, 3, 7, 12>();
    else if constexpr (v == 1) return std::index_sequence<1, 4, 5, 9, 17>();
    else return std::index_sequence<1, 3, 6, 8, 13>();
  } else return std::index_sequence<1, 3, 4>();
}
template <class T, class F, size_t... Ns> void for_deduced(F& f, std::index_sequence<Ns...>) {
  (f((stdx::simd<T, stdx::simd_abi::deduce_t<T, Ns>>*)nullptr), ...);
}
template <class T, class F, size_t... Ns> void for_fixed(F& f, std::index_sequence<Ns...>) {
  (f((stdx::fixed_size_simd<T, Ns>*)nullptr), ...);
}
template <class V, class = void> struct usable : std::false_type {};
template <class V> struct usable<V, std::enable_if_t<std::is_default_constructible_v<V>>> : std::true_type {};
// partial registers whose memory image is an odd multiple of half (a quarter) of a
// register, so that a converting load or store needs pieces of unequal size
template <class T> constexpr auto piece_sizes() {
  if constexpr (sizeof(T) == 1) return std::index_sequence<6, 12, 24>();
  else if constexpr (sizeof(T) == 2) return std::index_sequence<6, 12, 24>();
  else if constexpr (sizeof(T) == 4) return std::index_sequence<6, 12>();
  else return std::index_sequence<6>();
}
// f is called with a null V* for each simd type V
template <class T, class F> void for_all_abis(F f) {
  f((stdx::simd<T, stdx::simd_abi::scalar>*)nullptr);
  f((stdx::simd<T>*)nullptr);
  f((stdx::native_simd<T>*)nullptr);
  using AVX = stdx::simd<T, stdx::simd_abi::__avx>;
  if constexpr (usable<AVX>::value) f((AVX*)nullptr);
  for_deduced<T>(f, deduced_sizes<T>());
  for_fixed<T>(f, fixed_sizes<T>());
  if constexpr (stdx::simd_abi::max_fixed_size<T> >= 64) f((stdx::fixed_size_simd<T, 64>*)nullptr);
}
#define VT std::remove_pointer_t<decltype(vp)>

// visits a pool of P entries so that every entry meets different lanes and
// different neighbours
struct Feeder {
  size_t N, P, step, off, k = 0;
  Feeder(size_t n, size_t p, u64 salt);
  size_t rounds() const { return (P + N - 1) / N; }
  size_t next() { return (off + k++ * step) % P; }
};
