// C15: approximating math functions.  Tuples are <args..., scalar result, lane>:
// the scalar <cmath> call on lane i's arguments is recorded next to the lane.
//   GRP 0: sin, cos, hypot      1: functions of libm      2: special functions
#include "guard.hpp"
#include "common.hpp"
using T = TY;
using namespace stdx;
#ifndef GRP
#define GRP 0
#endif
typedef void (*K1)(const T* x, T* r);
typedef void (*K2)(const T* x, const T* y, T* r);
typedef void (*K3)(const T* x, const T* y, const T* z, T* r);
typedef T (*S1)(T);
typedef T (*S2)(T, T);
typedef T (*S3)(T, T, T);
#define FN(name) struct M_##name { template <class... A> auto operator()(const A&... a) const { using std::name; return name(a...); } };
template <class V> void put(const V& v, T* r) { static_assert(std::is_same_v<typename V::value_type, T>); v.copy_to(r, element_aligned); }
template <class V, class F> NOI void k1(const T* x, T* r) { put(F()(ld<V>(x)), r); }
template <class V, class F> NOI void k2(const T* x, const T* y, T* r) { put(F()(ld<V>(x), ld<V>(y)), r); }
template <class V, class F> NOI void k2vs(const T* x, const T* y, T* r) { put(F()(ld<V>(x), y[0]), r); }
template <class V, class F> NOI void k2sv(const T* x, const T* y, T* r) { put(F()(x[0], ld<V>(y)), r); }
template <class V, class F> NOI void k3(const T* x, const T* y, const T* z, T* r) { put(F()(ld<V>(x), ld<V>(y), ld<V>(z)), r); }
template <class V, class F, int M> NOI void k3m(const T* x, const T* y, const T* z, T* r) {
  if constexpr (M == 1) put(F()(x[0], ld<V>(y), ld<V>(z)), r);
  if constexpr (M == 2) put(F()(ld<V>(x), y[0], ld<V>(z)), r);
  if constexpr (M == 3) put(F()(x[0], y[0], ld<V>(z)), r);
  if constexpr (M == 4) put(F()(ld<V>(x), ld<V>(y), z[0]), r);
  if constexpr (M == 5) put(F()(x[0], ld<V>(y), z[0]), r);
  if constexpr (M == 6) put(F()(ld<V>(x), y[0], z[0]), r);
}
template <class F> NOI T s1(T x) { return F()(x); }
template <class F> NOI T s2(T x, T y) { return F()(x, y); }
template <class F> NOI T s3(T x, T y, T z) { return F()(x, y, z); }
NOI T q(T x) { return x != x ? std::numeric_limits<T>::quiet_NaN() : x; }
NOI void run1(const char* op, size_t N, K1 f, S1 s, const std::vector<T>& p) {
  Feeder fd(N, p.size(), mix64(op[0], op[1]));
  T a[64], r[64];
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) a[i] = q(p[fd.next()]);
    std::memset((void*)r, 0x5a, sizeof r);
    f(opaque(a), r);
    for (size_t i = 0; i < N; ++i) { Val v[3] = {val(a[i]), val(q(s(a[i]))), val(q(r[i]))}; rec_lane(op, tname<T>(), v, 3); }
  }
}
// bc: bit 0: first argument is one scalar, bit 1: second, bit 2: third
NOI void run2(const char* op, size_t N, K2 f, S2 s, const Pairs<T>& p, int bc = 0) {
  Feeder fd(N, p.n(), mix64(op[0], op[1]));
  T a[64], b[64], r[64];
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) { size_t j = fd.next(); a[i] = bc & 1 && i ? a[0] : q(p.a[j]); b[i] = bc & 2 && i ? b[0] : q(p.b[j]); }
    std::memset((void*)r, 0x5a, sizeof r);
    f(opaque(a), opaque(b), r);
    for (size_t i = 0; i < N; ++i) { Val v[4] = {val(a[i]), val(b[i]), val(q(s(a[i], b[i]))), val(q(r[i]))}; rec_lane(op, tname<T>(), v, 4); }
  }
}
struct Trip { std::vector<T> a, b, c; void add(T x, T y, T z) { a.push_back(x), b.push_back(y), c.push_back(z); } };
NOI void run3(const char* op, size_t N, K3 f, S3 s, const Trip& p, int bc = 0) {
  Feeder fd(N, p.a.size(), mix64(op[0], op[1]));
  T a[64], b[64], c[64], r[64];
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) { size_t j = fd.next(); a[i] = bc & 1 && i ? a[0] : q(p.a[j]); b[i] = bc & 2 && i ? b[0] : q(p.b[j]); c[i] = bc & 4 && i ? c[0] : q(p.c[j]); }
    std::memset((void*)r, 0x5a, sizeof r);
    f(opaque(a), opaque(b), opaque(c), r);
    for (size_t i = 0; i < N; ++i) { Val v[5] = {val(a[i]), val(b[i]), val(c[i]), val(q(s(a[i], b[i], c[i]))), val(q(r[i]))}; rec_lane(op, tname<T>(), v, 5); }
  }
}
// ------------------------------------------------------------ argument pools
static T unif(T lo, T hi) { T u = T(rec_rand() >> 11) * T(0x1p-53); return lo + (hi - lo) * u; }
static std::vector<T> range(T lo, T hi, int n) {
  rec_seed(mix64(g_seed, 500 + int(lo * 7)));
  std::vector<T> p;
  for (T x : {lo, hi, T(0), -T(0), T(1), T(-1), T(0.5), T(-0.5), T(2)}) if (x >= lo && x <= hi) p.push_back(x);
  if (g_tier) n *= 10;
  for (int i = 0; i < n; ++i) p.push_back(unif(lo, hi));
  return p;
}
static std::vector<T> withspecials(std::vector<T> p) {
  using L = std::numeric_limits<T>;
  for (T x : {L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), -L::max(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), T(0), -T(0), T(1), T(-1), T(3), T(-3)}) p.push_back(x);
  return p;
}
#if GRP == 0
FN(sin) FN(cos)
static T ref_sin(T x) { return T(std::sin((long double)x)); }
static T ref_cos(T x) { return T(std::cos((long double)x)); }
struct M_hypot { template <class... A> auto operator()(const A&... a) const { using std::hypot; return hypot(a...); } };
static T zero2(T, T) { return 0; }
static T zero3(T, T, T) { return 0; }
static std::vector<T> trig_pool() {
  std::vector<T> p = withspecials(range(T(-4), T(4), 120));
  const double lim[] = {1e-8, 1e-3, 0.5, 0.785, 2, 4.712, 10, 100, 805, 2e4, 3.9e5, 5.3e5, 2e6, 1.5e9, 3e9};
  for (int k = 1; k < 15; ++k) for (int j = 0; j < (g_tier ? 400 : 26); ++j) {
    T x = unif(T(lim[k - 1]), T(lim[k])); if (j % 5 == 0) x = T(std::nearbyint(x / T(M_PI_2)) * T(M_PI_2)); if (j & 1) x = -x; p.push_back(x);
  }
  for (int j = 0; j < (g_tier ? 2000 : 160); ++j) p.push_back(std::ldexp(unif(T(-2), T(2)), int(rec_rand() % (std::numeric_limits<T>::max_exponent - 1))));  // up to the largest
  for (int j = 0; j < 60; ++j) p.push_back(std::ldexp(unif(T(-2), T(2)), -int(rec_rand() % 140)));
  for (double v : {M_PI_4, M_PI_2, M_PI, 3 * M_PI_4, 393382., 527449., 0x1p30 * M_PI_2, 1025 * M_PI_4}) for (int s : {-1, 1}) { T x = T(v) * s; p.push_back(x); p.push_back(std::nextafter(x, T(0))); p.push_back(std::nextafter(x, x * 2)); }
  return p;
}
// vectors whose lanes are all in one range reach the fast paths
static std::vector<std::vector<T>> trig_ranges() {
  std::vector<std::vector<T>> r;
  for (auto [a, b] : {std::pair<double, double>{-0.78, 0.78}, {-4.7, 4.7}, {0.8, 2.3}, {2.4, 3.9}, {-800, 800}, {-1e9, 1e9}, {1e6, 3e9}, {-390000, 390000}, {1e10, 1e15}, {1e16, 1e30}, {-1e-3, 1e-3}, {0.1, 0.8}, {4.7, 6}, {6, 10}, {-20, -8}, {15, 60}, {50, 100}, {-100, 100}, {100, 810}, {805, 2e4}, {2e4, 3.9e5}, {3.9e5, 5.3e5}, {5.3e5, 2e6}, {-1.6e9, 1.6e9}, {3e9, 1e11}}) r.push_back(range(T(a), T(b), 24));
  return r;
}
template <class V> void funs() {
  constexpr size_t N = V::size();
  if constexpr (sizeof(T) <= 8) {
    static const auto p = trig_pool();
    static const auto rs = trig_ranges();
    prov<V>("sin"); run1("sin", N, &k1<V, M_sin>, &ref_sin, p); for (auto& r : rs) run1("sin", N, &k1<V, M_sin>, &ref_sin, r);
    prov<V>("cos"); run1("cos", N, &k1<V, M_cos>, &ref_cos, p); for (auto& r : rs) run1("cos", N, &k1<V, M_cos>, &ref_cos, r);
  }
  static const auto hp = [] {
    auto p = pair_pool<T>(g_tier ? 3000 : 300, g_tier ? 2000 : 200);
    for (int i = 0; i < (g_tier ? 2000 : 200); ++i) { T x = random_value<T>(); p.add(x, x * unif(T(-2), T(2))); if (i % 4 == 0) p.add(x, std::ldexp(x, -int(rec_rand() % 60))); }
    return p;
  }();
  static const auto hn = [] { Pairs<T> p; for (int i = 0; i < (g_tier ? 1000 : 150); ++i) { T x = std::ldexp(unif(T(1), T(2)), int(rec_rand() % 250) - 125); p.add(i & 1 ? x : -x, std::ldexp(unif(T(-3), T(-1)), int(rec_rand() % 250) - 125)); } return p; }();
  prov<V>("hypot"); run2("hypot", N, &k2<V, M_hypot>, &zero2, hp); run2("hypot", N, &k2<V, M_hypot>, &zero2, hn);
  static const auto few = [] { Pairs<T> p; for (int i = 0; i < 60; ++i) { size_t k = rec_rand() % hp.n(); p.add(hp.a[k], hp.b[k]); } return p; }();
  prov<V>("hypot(v, scalar)"); run2("hypot", N, &k2vs<V, M_hypot>, &zero2, few, 2);
  prov<V>("hypot(scalar, v)"); run2("hypot", N, &k2sv<V, M_hypot>, &zero2, few, 1);
  auto third = [](const Pairs<T>& p) { Trip t; for (size_t i = 0; i < p.n(); ++i) { T z = i % 3 == 0 ? p.a[rec_rand() % p.n()] : i % 3 == 1 ? p.a[i] * unif(T(-1), T(1)) : p.b[i]; switch (rec_rand() % 3) { case 0: t.add(p.a[i], p.b[i], z); break; case 1: t.add(z, p.b[i], p.a[i]); break; default: t.add(p.a[i], z, p.b[i]); } } return t; };
  static const auto h3 = third(hp), h3n = third(hn), h3f = third(few);
  prov<V>("hypot3"); run3("hypot3", N, &k3<V, M_hypot>, &zero3, h3); run3("hypot3", N, &k3<V, M_hypot>, &zero3, h3n);
#define MIX(m) prov<V>("hypot3 with scalars " #m); run3("hypot3", N, &k3m<V, M_hypot, m>, &zero3, h3f, m);
  MIX(1) MIX(2) MIX(3) MIX(4) MIX(5) MIX(6)
}
#elif GRP == 1
FN(acos) FN(asin) FN(atan) FN(tan) FN(acosh) FN(asinh) FN(atanh) FN(cosh) FN(sinh) FN(tanh) FN(exp) FN(exp2) FN(expm1) FN(log) FN(log10) FN(log1p) FN(log2) FN(cbrt) FN(erf) FN(erfc) FN(lgamma) FN(tgamma)
FN(atan2) FN(pow)
template <class V> void funs() {
  constexpr size_t N = V::size();
#define F1(name, lo, hi) { static const auto p = withspecials(range(T(lo), T(hi), 30)); prov<V>(#name); run1(#name, N, &k1<V, M_##name>, &s1<M_##name>, p); }
  F1(acos, -1, 1) F1(asin, -1, 1) F1(atan, -20, 20) F1(tan, -50, 50) F1(acosh, 1, 40) F1(asinh, -40, 40) F1(atanh, -1, 1)
  F1(cosh, -60, 60) F1(sinh, -60, 60) F1(tanh, -8, 8) F1(exp, -90, 90) F1(exp2, -120, 120) F1(expm1, -5, 50) F1(log, 0, 1000) F1(log10, 0, 1000)
  F1(log1p, -1, 1000) F1(log2, 0, 1000) F1(cbrt, -1000, 1000) F1(erf, -5, 5) F1(erfc, -5, 9) F1(lgamma, -5, 40) F1(tgamma, -5, 20)
  static const auto pp = [] {
    Pairs<T> p; std::vector<T> s = withspecials({T(0.5), T(2), T(-2)});
    for (T x : s) for (T y : s) p.add(x, y);
    for (int i = 0; i < (g_tier ? 600 : 60); ++i) p.add(unif(T(0), T(20)), unif(T(-9), T(9)));
    for (int i = 0; i < 30; ++i) p.add(unif(T(-20), T(20)), T(int(rec_rand() % 19) - 9));
    return p;
  }();
  static const auto few = [] { Pairs<T> p; for (int i = 0; i < 40; ++i) { size_t k = rec_rand() % pp.n(); p.add(pp.a[k], pp.b[k]); } return p; }();
#define F2(name) prov<V>(#name); run2(#name, N, &k2<V, M_##name>, &s2<M_##name>, pp); \
  prov<V>(#name "(v, scalar)"); run2(#name, N, &k2vs<V, M_##name>, &s2<M_##name>, few, 2); \
  prov<V>(#name "(scalar, v)"); run2(#name, N, &k2sv<V, M_##name>, &s2<M_##name>, few, 1);
  F2(pow) F2(atan2)
}
#else
FN(beta) FN(comp_ellint_1) FN(comp_ellint_2) FN(comp_ellint_3) FN(cyl_bessel_i) FN(cyl_bessel_j) FN(cyl_bessel_k) FN(cyl_neumann) FN(ellint_1) FN(ellint_2) FN(ellint_3) FN(expint) FN(riemann_zeta)
FN(hermite) FN(laguerre) FN(legendre) FN(sph_bessel) FN(sph_neumann) FN(assoc_laguerre) FN(assoc_legendre) FN(sph_legendre)
typedef void (*KU)(const unsigned* n, const unsigned* m, const T* x, T* r);
typedef T (*SU)(unsigned n, unsigned m, T x);
template <class V> using UV = fixed_size_simd<unsigned, V::size()>;
template <class V, class F> NOI void ku(const unsigned* n, const unsigned*, const T* x, T* r) { put(F()(ld<UV<V>>(n), ld<V>(x)), r); }
template <class V, class F> NOI void kuu(const unsigned* n, const unsigned* m, const T* x, T* r) { put(F()(ld<UV<V>>(n), ld<UV<V>>(m), ld<V>(x)), r); }
template <class F> NOI T su(unsigned n, unsigned, T x) { return F()(n, x); }
template <class F> NOI T suu(unsigned n, unsigned m, T x) { return F()(n, m, x); }
NOI void runu(const char* op, size_t N, KU f, SU s, int two, unsigned nmax, T lo, T hi) {
  rec_seed(mix64(g_seed, op[2]));
  unsigned n[64], m[64]; T x[64], r[64];
  for (int k = g_tier ? 40 : 40 / int(N) + 2; k--;) {
    for (size_t i = 0; i < N; ++i) { n[i] = rec_rand() % (nmax + 1); m[i] = rec_rand() % (n[i] + 1); x[i] = unif(lo, hi); }
    f(opaque(n), opaque(m), opaque(x), r);
    for (size_t i = 0; i < N; ++i) {
      Val v[5] = {val(n[i]), val(m[i]), val(x[i]), val(q(s(n[i], m[i], x[i]))), val(q(r[i]))};
      if (two) rec_lane(op, tname<T>(), v, 5); else { v[1] = v[0]; rec_lane(op, tname<T>(), v + 1, 4); }
    }
  }
}
static Pairs<T> two(T a0, T a1, T b0, T b1) { Pairs<T> p; for (int i = 0; i < (g_tier ? 200 : 14); ++i) p.add(unif(a0, a1), unif(b0, b1)); return p; }
template <class V> void funs() {
  constexpr size_t N = V::size();
#define G1(name, lo, hi) { static const auto p = range(T(lo), T(hi), 10); prov<V>(#name); run1(#name, N, &k1<V, M_##name>, &s1<M_##name>, p); }
#define G2(name, a, b, c, d) { static const auto p = two(T(a), T(b), T(c), T(d)); prov<V>(#name); run2(#name, N, &k2<V, M_##name>, &s2<M_##name>, p); }
  G1(comp_ellint_1, -0.9, 0.9) G1(comp_ellint_2, -0.9, 0.9) G1(expint, 0.1, 20) G1(riemann_zeta, 1.1, 20)
  G2(beta, 0.1, 5, 0.1, 5) G2(comp_ellint_3, -0.8, 0.8, -0.8, 0.8) G2(cyl_bessel_i, 0, 4, 0.1, 10) G2(cyl_bessel_j, 0, 4, 0.1, 20) G2(cyl_bessel_k, 0, 4, 0.1, 10) G2(cyl_neumann, 0, 4, 0.1, 20) G2(ellint_1, -0.9, 0.9, -1.5, 1.5) G2(ellint_2, -0.9, 0.9, -1.5, 1.5)
  { static const auto p = [] { Trip t; for (int i = 0; i < 14; ++i) t.add(unif(T(-0.8), T(0.8)), unif(T(-0.8), T(0.8)), unif(T(-1.5), T(1.5))); return t; }();
    prov<V>("ellint_3"); run3("ellint_3", N, &k3<V, M_ellint_3>, &s3<M_ellint_3>, p); }
#define GU(name, nmax, lo, hi) prov<V>(#name); runu(#name, N, &ku<V, M_##name>, &su<M_##name>, 0, nmax, T(lo), T(hi));
#define GUU(name, nmax, lo, hi) prov<V>(#name); runu(#name, N, &kuu<V, M_##name>, &suu<M_##name>, 1, nmax, T(lo), T(hi));
  GU(hermite, 9, -5, 5) GU(laguerre, 9, 0, 9) GU(legendre, 9, -1, 1) GU(sph_bessel, 6, 0.1, 20) GU(sph_neumann, 6, 0.1, 20)
  GUU(assoc_laguerre, 7, 0, 9) GUU(assoc_legendre, 7, -0.95, 0.95) GUU(sph_legendre, 7, -1.5, 1.5)
}
#endif
template <class... Vs> struct L {};
template <class V> void once(V*) { funs<V>(); }
void run_all() {
#if GRP == 0
  for_all_abis<T>([](auto* vp) { funs<VT>(); });
#else
  // element-wise calls: one code path per ABI kind
  constexpr size_t n = native_simd<T>::size();
  once((simd<T, simd_abi::scalar>*)nullptr);
  once((native_simd<T>*)nullptr);
  if constexpr (n > 1) once((simd<T, simd_abi::deduce_t<T, 3>>*)nullptr);
  if constexpr (n > 4) once((simd<T>*)nullptr);
  once((fixed_size_simd<T, (n == 8 ? 11 : n == 16 ? 19 : n + 3)>*)nullptr);
#endif
}
