// C19: objects initialised by constant expressions.  Everything is computed in the
// initialiser of a static object: the front end evaluates it at compile time when it can
// (__builtin_is_constant_evaluated() paths), otherwise it runs.  No step may tell.
#include "lanes.hpp"
#include "guard.hpp"
using namespace stdx;
using T = TY;
constexpr bool FP = std::is_floating_point_v<T>;
constexpr int W0 = sizeof(T) * 8;
#ifndef SALT
#define SALT 0
#endif
template <class R> struct Res { R v; bool ce; };
template <class X, class Y> struct Pr { X first; Y second; };
// ---------------------------------------------------------------- operands
template <class T> constexpr T edge_(unsigned i) {
  using L = std::numeric_limits<T>;
  if constexpr (FP) {
    const T e[] = {T(0), -T(0), T(1), T(-1), T(1.5), T(-2.25), T(0.1), T(3), T(-1e10), T(7), L::max(), -L::max(), L::min(), L::denorm_min(), -L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), T(16777217), T(1) + L::epsilon(), T(0.5), T(-100)};
    return e[i % 22];
  } else {
    using U = std::make_unsigned_t<T>;
    const U e[] = {U(0), U(1), U(2), U(3), U(5), U(7), U(100), U(-1), U(-2), U(-7), U(-100), U(L::max()), U(L::min()), U(U(L::max()) - 1), U(U(L::min()) + 1), U(U(1) << W0 / 2), U(U(-1) << W0 / 2), U(0x5555555555555555ull), U(0xAAAAAAAAAAAAAAAAull), U(0x0F1E2D3C4B5A6978ull), U(0x89ABCDEF01234567ull), U(10)};
    return T(e[i % 22]);
  }
}
constexpr T edge(unsigned i) { return edge_<T>(i); }
constexpr unsigned mixu(unsigned a) { a ^= a >> 15; a *= 0x2c1b3c6du; a ^= a >> 12; a *= 0x297a2d39u; return a ^ a >> 15; }
constexpr T opa(int s, int i) { return edge(mixu(s * 977u + i * 31u + SALT * 7919u + 1)); }
constexpr T opb(int s, int i) { return s % 4 == 1 && i % 2 ? opa(s, i) : edge(mixu(s * 613u + i * 57u + SALT * 104729u + 77)); }
constexpr int cnt(int s, int i) { return int(mixu(s * 313u + i * 91u + SALT * 31u + 5) % (W0 < 32 ? W0 : W0)); }
// GCC 13 dies (output_constant) on static objects whose value needs an invalid or overflowing floating-point operation
constexpr bool calm(T x) { return x == x && x < T(1e12) && x > T(-1e12) && (x == 0 || x > T(1e-12) || x < T(-1e-12)); }
#define DOM(n) template <class T> constexpr bool in_##n##_(T a, T b) { if constexpr (FP) return calm(a) && calm(b); else if constexpr (std::is_unsigned_v<T>) return true; else { T r = 0; return !__builtin_##n##_overflow(a, b, &r); } } constexpr bool in_##n(T a, T b) { return in_##n##_<T>(a, b); }
DOM(add) DOM(sub) DOM(mul)
constexpr bool in_all(T, T) { return true; }
constexpr bool in_div(T a, T b) { if constexpr (FP) return b != 0 && calm(a) && calm(b); else return b != 0 && !(std::is_signed_v<T> && a == std::numeric_limits<T>::min() && b == T(-1)); }
constexpr bool in_ord(T a, T b) { return a == a && b == b; }
constexpr bool in_neg(T a, T) { if constexpr (FP) return true; else return in_sub(T(0), a); }
constexpr bool in_inc(T a, T) { return in_add(a, T(1)); }
constexpr bool in_dec(T a, T) { return in_sub(a, T(1)); }
typedef bool (*Dom)(T, T);
template <Dom D> constexpr T xa(int s, int i) { return D(opa(s, i), opb(s, i)) ? opa(s, i) : T(3); }
template <Dom D> constexpr T xb(int s, int i) { return D(opa(s, i), opb(s, i)) ? opb(s, i) : T(2); }
// broadcasts as well: they are what users write most (S odd: second operand uniform)
template <Dom D, int S> constexpr T ya(int i) { return xa<D>(S, S % 3 == 2 ? 0 : i); }
template <Dom D, int S> constexpr T yb(int i) { return xb<D>(S, S % 3 == 2 ? 0 : i); }
template <class V> void out(const V& v, typename V::value_type* p) { V x = v; opaque(&x); for (size_t i = 0; i < V::size(); ++i) p[i] = x[i]; }
template <class R, class F> struct Hold { static const Res<R> res; };
// the object under test: its initialiser is a constant expression if the library allows it
template <class R, class F> const Res<R> Hold<R, F>::res = {F::go(), __builtin_is_constant_evaluated()};
static long g_ce, g_all;
template <class F> const auto& held() {
  using R = decltype(F::go());
  ++g_all; g_ce += Hold<R, F>::res.ce;
  return Hold<R, F>::res.v;
}
#define GEN(D, S) const V a([](auto i) { return ya<D, S>(i); }); const V b([](auto i) { return yb<D, S>(i); }); (void)a; (void)b;
#define GENX(D, S) V a([](auto i) { return ya<D, S>(i); }); const V b([](auto i) { return yb<D, S>(i); }); (void)a; (void)b;
template <class V, int S, Dom D, int AR, class F> NOI void lane(const char* op, const char* what) {
  using R = std::decay_t<decltype(held<F>())>;
  typename R::value_type r[64];
  prov<V>(what);
  out(held<F>(), r);
  for (size_t i = 0; i < V::size(); ++i) {
    Val v[3] = {val(ya<D, S>(i)), val(yb<D, S>(i)), val(r[i])};
    if (AR == 1) { v[1] = v[2]; rec_lane(op, tname<T>(), v, 2); } else rec_lane(op, tname<T>(), v, 3);
  }
}
#define BIN(op, D, expr) { struct F { static constexpr auto go() { GEN(D, S) return expr; } }; lane<V, S, D, 2, F>(op, "constant " #expr); }
#define CMPD(op, D, stmt) { struct F { static constexpr auto go() { GENX(D, S) stmt; return a; } }; lane<V, S, D, 2, F>(op, "constant " #stmt); }
#define UNA(op, D, expr) { struct F { static constexpr auto go() { GENX(D, S) return expr; } }; lane<V, S, D, 1, F>(op, "constant " #expr); }
#define UNS(op, D, stmt) { struct F { static constexpr auto go() { GENX(D, S) stmt; return a; } }; lane<V, S, D, 1, F>(op, "constant " #stmt); }
template <class V, int S, class F> NOI void shifts(const char* op, const char* what, bool uni) {
  T r[64];
  prov<V>(what);
  out(held<F>(), r);
  for (size_t i = 0; i < V::size(); ++i) { Val v[3] = {val(ya<in_all, S>(i)), {W(cnt(S, uni ? 0 : i)), 0}, val(r[i])}; rec_lane(op, tname<T>(), v, 3); }
}
#define SHV(op, expr) { struct F { static constexpr auto go() { GENX(in_all, S) const V n([](auto i) { return T(cnt(S, i)); }); return expr; } }; shifts<V, S, F>(op, "constant " #expr, false); }
#define SHI(op, expr) { struct F { static constexpr auto go() { GENX(in_all, S) const int n = cnt(S, 0); return expr; } }; shifts<V, S, F>(op, "constant " #expr, true); }
template <class U, class V, int S, class F> NOI void cast(const char* what) {
  if constexpr (std::is_same_v<U, T> || !FP) {
    U r[64];
    prov<V>(what);
    out(held<F>(), r);
    for (size_t i = 0; i < V::size(); ++i) { Val v[2] = {val(ya<in_all, S>(i)), val(r[i])}; rec_lane(to_name<U>(false), tname<T>(), v, 2); }
  }
}
#define CAST(U, expr) { struct F { static constexpr auto go() { GEN(in_all, S) return expr; } }; cast<U, V, S, F>("constant " #expr); }
// masks: m0 = a <= b, m1 = a != b (lane values known from the operands)
template <class V, int S> constexpr bool k0(int i) { return ya<in_ord, S>(i) <= yb<in_ord, S>(i); }
template <class V, int S> constexpr bool k1(int i) { return ya<in_ord, S>(i) != yb<in_ord, S>(i); }
template <class V, int S, int AR, class F> NOI void mlane(const char* op, const char* what) {
  bool r[64];
  prov<V>(what);
  auto m = held<F>();
  opaque(&m);
  std::memset(r, 2, sizeof r);
  m.copy_to(r, element_aligned);
  for (size_t i = 0; i < V::size(); ++i) {
    unsigned char rb; std::memcpy(&rb, &r[i], 1);
    Val v[3] = {{W(k0<V, S>(i)), 0}, {W(k1<V, S>(i)), 0}, {W(rb), 0}};
    if (AR == 1) { v[1] = v[2]; rec_lane(op, "bool", v, 2); } else rec_lane(op, "bool", v, 3);
  }
}
#define MGEN GEN(in_ord, S) const auto k = a <= b; const auto j = a != b; (void)k; (void)j;
#define MBIN(op, expr) { struct F { static constexpr auto go() { MGEN return expr; } }; mlane<V, S, 2, F>(op, "constant k,j: " #expr); }
#define MUNA(op, expr) { struct F { static constexpr auto go() { MGEN return expr; } }; mlane<V, S, 1, F>(op, "constant k: " #expr); }
struct Six { int v[7]; };
template <class V, int S, class F> NOI void mreds() {
  prov<V>("constant mask reductions");
  const Six s = held<F>();
  unsigned char b[64];
  for (size_t i = 0; i < V::size(); ++i) b[i] = k0<V, S>(i);
  ev_begin("mred", "bool"); ev_bits(b, V::size());
  for (int x : s.v) ev_int(x);
  ev_end();
}
template <class V, int S> constexpr bool any0() { for (size_t i = 0; i < V::size(); ++i) if (k0<V, S>(i)) return true; return false; }
// masked assignment of constants: lane i is k ? b : a
template <class V, int S, class F> NOI void masked(const char* what) {
  T r[64];
  prov<V>(what);
  out(held<F>(), r);
  for (size_t i = 0; i < V::size(); ++i) { T e = k0<V, S>(i) ? yb<in_ord, S>(i) : ya<in_ord, S>(i); Val v[2] = {val(e), val(r[i])}; rec_lane("pos", tname<T>(), v, 2); }
}
template <class V, int S> void one() {
  BIN("add", in_add, a + b) BIN("sub", in_sub, a - b) BIN("mul", in_mul, a * b) BIN("div", in_div, a / b)
  CMPD("add", in_add, a += b) CMPD("mul", in_mul, a *= b) CMPD("div", in_div, a /= b)
  BIN("eq", in_all, a == b) BIN("ne", in_all, a != b) BIN("lt", in_all, a < b) BIN("le", in_all, a <= b) BIN("gt", in_all, a > b) BIN("ge", in_all, a >= b)
  BIN("min", in_ord, min(a, b)) BIN("max", in_ord, max(a, b)) BIN("min", in_ord, minmax(a, b).first) BIN("max", in_ord, minmax(a, b).second)
  UNA("neg", in_neg, -a) UNA("pos", in_all, +a) UNA("lnot", in_all, !a) UNS("inc", in_inc, ++a) UNS("dec", in_dec, --a) UNS("inc", in_inc, a++) UNA("pos", in_inc, a++)
  if constexpr (!FP) {
    BIN("and", in_all, a & b) BIN("or", in_all, a | b) BIN("xor", in_all, a ^ b) UNA("not", in_all, ~a) CMPD("and", in_all, a &= b) CMPD("xor", in_all, a ^= b)
    SHV("shl", a << n) SHV("shr", a >> n) SHI("shl", a << n) SHI("shr", a >> n) SHI("shl", a <<= n) SHI("shr", a >>= n)
  }
  CAST(T, static_simd_cast<V>(a)) CAST(T, to_fixed_size(a)) CAST(T, (a * T(1)))
  if constexpr (V::size() <= 32) {
    CAST(signed char, static_simd_cast<signed char>(a)) CAST(unsigned short, static_simd_cast<unsigned short>(a)) CAST(int, static_simd_cast<int>(a)) CAST(long, static_simd_cast<long>(a)) CAST(float, static_simd_cast<float>(a)) CAST(double, static_simd_cast<double>(a))
  }
  MUNA("mcopy", k) MUNA("mnot", !k) MBIN("mand", k && j) MBIN("mor", k || j) MBIN("mand", k & j) MBIN("mor", k | j) MBIN("mxor", k ^ j) MBIN("meq", k == j) MBIN("mne", k != j)
  { struct F { static constexpr auto go() { MGEN return Six{{all_of(k), any_of(k), none_of(k), some_of(k), popcount(k), any0<V, S>() ? find_first_set(k) : -1, any0<V, S>() ? find_last_set(k) : -1}}; } }; mreds<V, S, F>(); }
  { struct F { static constexpr auto go() { GENX(in_ord, S) where(a <= b, a) = b; return a; } }; masked<V, S, F>("constant where(a<=b, a) = b"); }
  { struct F { static constexpr auto go() { GENX(in_ord, S) V c = b; where(a > b, c) = a; where(a <= b, a) = c; return a; } }; masked<V, S, F>("constant where twice"); }
}
template <class V, int... S> void each(std::integer_sequence<int, S...>) { (one<V, S>(), ...); }
void run_all() {
  constexpr size_t n = native_simd<T>::size(), m = n > 2 ? n - 1 : n;
  using Seq = std::make_integer_sequence<int, NSET>;
  each<native_simd<T>>(Seq());
  each<simd<T, simd_abi::scalar>>(Seq());
  if constexpr (n > 2) each<simd<T, simd_abi::deduce_t<T, (m < 33 ? m : 31)>>>(Seq());
  each<fixed_size_simd<T, (n < 24 ? n + 3 : 19)>>(Seq());
  ev_begin("constant", tname<T>()); ev_int(g_all); ev_int(g_ce); ev_end();
}
