// C14: exactly specified math functions
#include "guard.hpp"
#include <climits>
using T = TY;
using namespace stdx;
#ifdef ONLY
#define HAVE(n) (n == ONLY)
#else
#define HAVE(n) true
#endif
// kernels: memory in, memory out; out[0] always the function's result
typedef void (*K1)(const T* x, void* r);
typedef void (*K2)(const T* x, const void* y, void* r);
typedef void (*K3)(const T* x, const T* y, const void* z, void* r, void* r2);
template <class R> void put(const R& r, void* o) { r.copy_to((typename R::value_type*)o, element_aligned); }
#define F1(name) struct M_##name { template <class V> auto operator()(const V& x) const { return name(x); } };
#define F2(name) struct M_##name { template <class V> auto operator()(const V& x, const V& y) const { return name(x, y); } };
F1(sqrt) F1(abs) F1(fabs) F1(trunc) F1(floor) F1(ceil) F1(round) F1(rint) F1(nearbyint) F1(lrint) F1(llrint) F1(lround) F1(llround)
F1(logb) F1(ilogb) F1(fpclassify) F1(isfinite) F1(isinf) F1(isnan) F1(isnormal) F1(signbit)
F2(copysign) F2(fmod) F2(remainder) F2(nextafter) F2(fdim) F2(fmin) F2(fmax) F2(isgreater) F2(isgreaterequal) F2(isless) F2(islessequal) F2(islessgreater) F2(isunordered)
template <class V, class F> NOI void k1(const T* x, void* r) { put(F()(ld<V>(x)), r); }
template <class V, class F> NOI void k2(const T* x, const void* y, void* r) { put(F()(ld<V>(x), ld<V>((const T*)y)), r); }
template <class V, class F> NOI void k2s(const T* x, const void* y, void* r) { put(F()(ld<V>(x), V(*(const T*)y)), r); }
template <class V, class I, int FN> NOI void kexp(const T* x, const void* n, void* r) {
  using IV = fixed_size_simd<I, V::size()>;
  IV e = ld<IV>((const I*)n);
  if constexpr (FN == 0) put(ldexp(ld<V>(x), e), r);
  else if constexpr (FN == 1) put(scalbn(ld<V>(x), e), r);
  else put(scalbln(ld<V>(x), e), r);
}
template <class V> NOI void kfrexp(const T* x, const T*, const void*, void* r, void* r2) {
  fixed_size_simd<int, V::size()> e; std::memset((void*)&e, 0x33, sizeof e);
  put(frexp(ld<V>(x), opaque(&e)), r); put(e, r2);
}
template <class V> NOI void kmodf(const T* x, const T*, const void*, void* r, void* r2) { V i = T(3); put(modf(ld<V>(x), &i), r); put(i, r2); }
template <class V> NOI void kfma(const T* x, const T* y, const void* z, void* r, void*) { put(fma(ld<V>(x), ld<V>(y), ld<V>((const T*)z)), r); }
template <class V> NOI void kfmas(const T* x, const T* y, const void* z, void* r, void*) { put(fma(ld<V>(x), T(y[0]), ld<V>((const T*)z)), r); }
template <class V> NOI void kremquo(const T* x, const T* y, const void*, void* r, void* r2) {
  fixed_size_simd<int, V::size()> q; std::memset((void*)&q, 0x33, sizeof q);
  put(remquo(ld<V>(x), ld<V>(y), opaque(&q)), r); put(q, r2);
}
// quiet every NaN
NOI T q(T x) { return x != x ? std::numeric_limits<T>::quiet_NaN() : x; }
enum Dom { ANY, FITS };
template <class R> NOI void run1(const char* op, size_t N, K1 f, const std::vector<T>& p) {
  Feeder fd(N, p.size(), mix64(op[0], op[1]));
  T a[64]; R r[64];
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) a[i] = q(p[fd.next()]);
    std::memset((void*)r, 0x5a, sizeof r);
    f(opaque(a), r);
    for (size_t i = 0; i < N; ++i) {
      Val x = val(r[i]);
      if constexpr (std::is_same_v<R, int>) if (op[0] == 'f') { const int c[] = {FP_NAN, FP_INFINITE, FP_ZERO, FP_SUBNORMAL, FP_NORMAL}; int n = 9; for (int j = 0; j < 5; ++j) if (c[j] == r[i]) n = j; x = {W(n), 0}; }
      if constexpr (std::is_same_v<R, bool>) { unsigned char b; std::memcpy(&b, r + i, 1); x = {W(b), 0}; }
      Val v[2] = {val(a[i]), x}; rec_lane(op, tname<T>(), v, 2);
    }
  }
}
template <class R> NOI void run2(const char* op, size_t N, K2 f, const Pairs<T>& p, bool bc = false) {
  Feeder fd(N, p.n(), mix64(op[0], op[1]));
  T a[64], b[64]; R r[64];
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) { size_t j = fd.next(); a[i] = q(p.a[j]); b[i] = bc && i ? b[0] : q(p.b[j]); }
    std::memset((void*)r, 0x5a, sizeof r);
    f(opaque(a), opaque(b), r);
    for (size_t i = 0; i < N; ++i) {
      Val x = val(r[i]);
      if constexpr (std::is_same_v<R, bool>) { unsigned char c; std::memcpy(&c, r + i, 1); x = {W(c), 0}; }
      Val v[3] = {val(a[i]), val(b[i]), x}; rec_lane(op, tname<T>(), v, 3);
    }
  }
}
struct ExpArgs { std::vector<T> a; std::vector<int> n; };
static ExpArgs exp_args(const std::vector<T>& p) {
  rec_seed(mix64(g_seed, 77));
  ExpArgs r;
  constexpr int mx = std::numeric_limits<T>::max_exponent;
  for (int k = 0; k < (g_tier ? 4000 : 500); ++k) {
    T a = q(p[k < int(p.size()) && k % 2 ? k : rec_rand() % p.size()]);
    int e = 0, n; if (a - a == 0) e = (int)std::logb(a == 0 ? T(1) : a) + 1;
    switch (rec_rand() % 7) {
      case 0: n = int(rec_rand() % 21) - 10; break;
      case 1: n = int(rec_rand() % (4 * mx)) - 2 * mx; break;
      case 2: case 3: n = -mx - e + 5 - int(rec_rand() % 64); break;
      case 4: n = mx - e + 2 - int(rec_rand() % 5); break;
      case 5: n = rec_rand() & 1 ? 1000000 : -1000000; break;
      default: n = int(rec_rand() % 400) - 200;
    }
    r.a.push_back(a); r.n.push_back(n);
  }
  return r;
}
template <class I> NOI void runexp(const char* op, size_t N, K2 f, const ExpArgs& p) {
  Feeder fd(N, p.a.size(), mix64(op[0], op[1]));
  T a[64], r[64]; I n[64];
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) { size_t j = fd.next(); a[i] = p.a[j]; n[i] = p.n[j]; }
    f(opaque(a), opaque(n), r);
    for (size_t i = 0; i < N; ++i) { Val v[3] = {val(a[i]), {W(unsigned(int(n[i]))), 32}, val(r[i])}; rec_lane("ldexp", tname<T>(), v, 3); }
  }
}
struct Trip { std::vector<T> a, b, c; };
static Trip fma_args(const Pairs<T>& p) {
  rec_seed(mix64(g_seed, 78));
  Trip r;
  constexpr int dg = std::numeric_limits<T>::digits;
  for (int k = 0; k < (g_tier ? 4000 : 500); ++k) {
    size_t j = rec_rand() % p.n();
    T a = q(p.a[j]), b = q(p.b[j]), c = q(p.a[rec_rand() % p.n()]);
    if (k % 3 == 0) { a = random_value<T>(); b = random_value<T>(); }
    if (k % 4) { int e; a = std::frexp(a, &e); b = std::ldexp(std::frexp(b, &e), int(rec_rand() % 40)); }
    switch (rec_rand() % 4) {
      case 0: c = -(a * b); break;                                                     // exact error of the product
      case 1: c = -(a * b) * (1 + std::numeric_limits<T>::epsilon()); break;
      case 2: c = a * b * std::ldexp(T(1), -int(rec_rand() % 60)); break;
      default:;
    }
    a = q(a), b = q(b), c = q(c);
    if (k % 37 == 0 && a - a == 0 && b - b == 0) { int e; c = std::ldexp(T(1), dg - 1); a = std::frexp(a, &e); b = std::ldexp(T(1), -(dg + 3)); }
    r.a.push_back(a); r.b.push_back(b); r.c.push_back(c);
  }
  return r;
}
// frexp, modf, remquo, fma
NOI void run3(const char* op, size_t N, K3 f, const Trip& p, int kind, bool bc = false) {
  Feeder fd(N, p.a.size(), mix64(op[0], op[1]));
  T a[64], b[64], c[64], r[64], r2[64];
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) { size_t j = fd.next(); a[i] = p.a[j]; b[i] = bc && i ? b[0] : p.b[j]; c[i] = p.c[j]; }
    f(opaque(a), opaque(b), opaque(c), r, r2);
    for (size_t i = 0; i < N; ++i) {
      int e; std::memcpy(&e, (int*)r2 + i, 4);
      if (kind == 0) { Val v[3] = {val(a[i]), val(r[i]), {W(unsigned(e)), 32}}; rec_lane(op, tname<T>(), v, 3); }
      if (kind == 1) { Val v[3] = {val(a[i]), val(r2[i]), val(r[i])}; rec_lane(op, tname<T>(), v, 3); }
      if (kind == 2) { Val v[4] = {val(a[i]), val(b[i]), val(r[i]), {W(unsigned(e)), 32}}; rec_lane(op, tname<T>(), v, 4); }
      if (kind == 3) { Val v[4] = {val(a[i]), val(b[i]), val(c[i]), val(r[i])}; rec_lane(op, tname<T>(), v, 4); }
    }
  }
}
template <class V> void fp() {
  constexpr size_t N = V::size();
  static const auto pool = [] {
    auto p = value_pool<T>(g_tier ? 1500 : 260);
    for (int i = 0; i < 40; ++i) { T h = T(int(rec_rand() % 2001) - 1000) + T(0.5); p.push_back(h); p.push_back(std::nextafter(h, T(0))); p.push_back(std::nextafter(h, h * 2)); }
    constexpr int d = std::numeric_limits<T>::digits;
    for (int k = 1; k < 70; ++k) for (int s : {-1, 1}) { T v = std::ldexp(T(1), k); p.push_back(s * v); p.push_back(s * (v + T(0.5))); p.push_back(s * (v - T(0.5))); p.push_back(s * std::nextafter(v, T(0))); p.push_back(s * (v + T(1.5)));}
    for (int i = 0; i < 40; ++i) p.push_back(std::numeric_limits<T>::denorm_min() * T(long(rec_rand() >> (1 + rec_rand() % 63))));
    return p;
  }();
  static const auto pp = [] {
    auto p = pair_pool<T>(g_tier ? 3000 : 420, g_tier ? 2000 : 260);
    return p;
  }();
  // quotients of moderate size, exact multiples, halves
  static const auto dp = [] {
    auto p = pair_pool<T>(g_tier ? 400 : 60, g_tier ? 300 : 40);
    for (int i = 0; i < (g_tier ? 1000 : 160); ++i) {
      T y = random_value<T>(); if (!(std::abs(y) > 0 && std::abs(y) < std::numeric_limits<T>::max())) continue;
      T x = y * T(int(rec_rand() % 4001) - 2000) / 2;
      if (i % 3 == 0) x = std::nextafter(x, T(0));
      if (i % 3 == 1) x = x + y * std::ldexp(T(int(rec_rand() % 16)), -3);
      p.add(x, y);
    }
    return p;
  }();
  auto fit = [](auto lim) { std::vector<T> p; for (T x : pool) { if (!(x - x == 0)) continue; T t = std::round(x); if (conv_ok<decltype(lim)>(t) && conv_ok<decltype(lim)>(std::rint(x))) p.push_back(x); } return p; };
#define R1(id, name, R) if constexpr (HAVE(id)) { prov<V>(#name); run1<R>(#name, N, &k1<V, M_##name>, pool); }
#define RL(id, name, R) if constexpr (HAVE(id)) { prov<V>(#name); static const auto fp_ = fit(static_cast<std::conditional_t<true,R,R>>(0)); run1<R>(#name, N, &k1<V, M_##name>, fp_); }
#define R2(id, name, R) if constexpr (HAVE(id)) { prov<V>(#name); run2<R>(#name, N, &k2<V, M_##name>, pp); }
#define RD(id, name, R) if constexpr (HAVE(id)) { prov<V>(#name); run2<R>(#name, N, &k2<V, M_##name>, dp); }
  R1(0, sqrt, T) R1(1, abs, T) R1(2, fabs, T) R1(3, trunc, T) R1(4, floor, T) R1(5, ceil, T) R1(6, round, T) R1(7, rint, T) R1(8, nearbyint, T)
  RL(9, lrint, long) RL(10, llrint, long long) RL(11, lround, long) RL(12, llround, long long)
  R1(13, logb, T) R1(14, ilogb, int) R1(15, fpclassify, int) R1(16, isfinite, bool) R1(17, isinf, bool) R1(18, isnan, bool) R1(19, isnormal, bool) R1(20, signbit, bool)
  R2(21, copysign, T) RD(22, fmod, T) RD(23, remainder, T) R2(25, fdim, T) R2(26, fmin, T) R2(27, fmax, T)
  if constexpr (sizeof(T) <= 8) { R2(24, nextafter, T) }
  R2(28, isgreater, bool) R2(29, isgreaterequal, bool) R2(30, isless, bool) R2(31, islessequal, bool) R2(32, islessgreater, bool) R2(33, isunordered, bool)
#define RE(id, name, I, FN) if constexpr (HAVE(id)) { prov<V>(#name); runexp<I>(#name, N, &kexp<V, I, FN>, ea); }
  static const auto ea = exp_args(pool);
  RE(34, ldexp, int, 0) RE(35, scalbn, int, 1) RE(36, scalbln, long, 2)
#define R3(id, name, kind, P) if constexpr (HAVE(id)) { prov<V>(#name); run3(#name, N, &k##name<V>, P, kind); }
  static const auto p1 = [] { Trip p; for (T x : pool) p.a.push_back(q(x)), p.b.push_back(q(x)), p.c.push_back(q(x)); return p; }();
  static const auto p2 = [] { Trip p; for (size_t i = 0; i < dp.n(); ++i) p.a.push_back(q(dp.a[i])), p.b.push_back(q(dp.b[i])), p.c.push_back(q(dp.b[i])); return p; }();
  static const auto p3 = fma_args(pp);
  static const auto p4 = [] { Trip t = p3; t.a.resize(60), t.b.resize(60), t.c.resize(60); return t; }();
  R3(37, frexp, 0, p1) R3(38, modf, 1, p1) R3(39, remquo, 2, p2) R3(40, fma, 3, p3)
  if constexpr (HAVE(41)) { prov<V>("fma(v, scalar, v)"); run3("fma", N, &kfmas<V>, p4, 3, true); }
}
struct M_iabs { template <class V> auto operator()(const V& x) const { return abs(x); } };
void run_all() {
  for_all_abis<T>([&](auto* vp) {
    using V = VT;
    if constexpr (std::is_floating_point_v<T>) fp<V>();
    else if constexpr (std::is_signed_v<T>) {
      static const auto pool = [] { std::vector<T> p; for (T x : value_pool<T>(200)) if (x != std::numeric_limits<T>::min()) p.push_back(x); return p; }();
      prov<V>("abs"); run1<T>("iabs", V::size(), &k1<V, M_iabs>, pool);
    }
  });
}
