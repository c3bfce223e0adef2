// C05: masked assignment.  One step = (mask lane, old lane, operand lane, new lane)
#include "common.hpp"
using T = TY;
using namespace stdx;
template <class V> typename V::mask_type mk(const bool* p) { return ldm<typename V::mask_type>(p); }
typedef void (*WK)(const bool* k, T* a, const T* b);
#define WOP(name, stmt) struct name { template <class V, class M> static void f(const M& k, V& v, const V& b, T s) { stmt; } };
WOP(Asn, where(k, v) = b) WOP(AsnS, where(k, v) = s)
WOP(Add, where(k, v) += b) WOP(AddS, where(k, v) += s) WOP(Sub, where(k, v) -= b) WOP(SubS, where(k, v) -= s)
WOP(Mul, where(k, v) *= b) WOP(MulS, where(k, v) *= s) WOP(Div, where(k, v) /= b) WOP(DivS, where(k, v) /= s)
WOP(Inc, ++where(k, v)) WOP(IncP, where(k, v)++) WOP(Dec, --where(k, v)) WOP(DecP, where(k, v)--)
WOP(Neg, v = -where(k, v))
WOP(NegC, const V& c = v; V r = -where(k, c); v = r)
WOP(Rem, where(k, v) %= b) WOP(RemS, where(k, v) %= s)
WOP(And, where(k, v) &= b) WOP(Or, where(k, v) |= b) WOP(Xor, where(k, v) ^= b)
WOP(Shl, where(k, v) <<= b) WOP(Shr, where(k, v) >>= b)
WOP(ShlI, where(k, v) <<= s) WOP(ShrI, where(k, v) >>= s)
template <class V, class F> NOI void wk(const bool* k, T* a, const T* b) {
  V v = ld<V>(a), w = ld<V>(b);
  auto m = mk<V>(k);
  F::template f<V, typename V::mask_type>(m, v, w, b[0]);
  st(v, a);
}
// as wk, but the mask comes from a comparison
template <class V, class F> NOI void wkc(const bool* k, T* a, const T* b) {
  V v = ld<V>(a), w = ld<V>(b);
  T t[V::size()];
  for (size_t i = 0; i < V::size(); ++i) t[i] = k[i] ? T(2) : T(0);
  auto m = ld<V>(opaque(t)) != V(T(0));
  F::template f<V, typename V::mask_type>(m, v, w, b[0]);
  st(v, a);
}
enum { PLAIN, UN, REM, SH, DIVZ };
template <class T> NOI void drive(const char* op, size_t N, WK f, const Pairs<T>& p, int kind, bool scal, int rounds) {
  rec_seed(mix64(mix64(op[2], op[3]), N));
  Feeder fd(N, p.n(), mix64(op[2], op[3]));
  bool k[64]; T a[64], b[64], r[64];
  for (int n = 0; n < rounds; ++n) {
    u64 m = rec_rand();
    if (n == 0) m = 0; if (n == 1) m = ~0ull;
    if (n % 5 == 2) m = 1ull << (m % N);
    for (size_t i = 0; i < N; ++i) {
      size_t j = fd.next();
      a[i] = p.a[j]; b[i] = scal ? b[0] : p.b[j];
      if (scal && i == 0) b[0] = p.b[j];
      k[i] = m >> i & 1;
    }
    if constexpr (std::is_integral_v<T>) {
      using U = std::make_unsigned_t<T>;
      if (kind == SH) for (size_t i = 0; i < N; ++i) b[i] = T(U(b[scal ? 0 : i]) % (sizeof(T) * 8));
      if (scal && kind == SH) for (size_t i = 1; i < N; ++i) b[i] = b[0];
      if (kind == REM || kind == DIVZ) {
        if (scal && b[0] == 0) for (size_t i = 0; i < N; ++i) b[i] = T(3);
        // a zero divisor is fine in unselected lanes only (vector operand)
        for (size_t i = 0; i < N; ++i) {
          if (k[i] && b[i] == 0) b[i] = T(7);
          if (!scal && !k[i] && (rec_rand() & 1)) b[i] = 0;
          if (std::is_signed_v<T> && a[i] == std::numeric_limits<T>::min() && b[i] == T(-1) && (k[i] || sizeof(T) >= 4)) a[i] = T(11);
        }
      } else if (std::is_signed_v<T> && sizeof(T) >= 4) {
        // keep signed arithmetic in range in selected lanes
        for (size_t i = 0; i < N; ++i) {
          T z;
          if (__builtin_add_overflow(a[i], b[i], &z) || __builtin_sub_overflow(a[i], b[i], &z) || __builtin_mul_overflow(a[i], b[i], &z) || a[i] == std::numeric_limits<T>::min() || a[i] == std::numeric_limits<T>::max())
            if (kind != SH && op[2] != 'a' && op[2] != 'o' && op[2] != 'x' && op[2] != 'c') { a[i] = T(a[i] >> (sizeof(T) * 4 + 1)); if (scal) {} else b[i] = T(b[i] >> (sizeof(T) * 4 + 1)); }
        }
        if (scal) {
          for (size_t i = 0; i < N; ++i) { T z; if (kind == PLAIN && op[2] != 'c' && (__builtin_add_overflow(a[i], b[i], &z) || __builtin_sub_overflow(a[i], b[i], &z) || __builtin_mul_overflow(a[i], b[i], &z))) a[i] = T(1); }
          for (size_t i = 0; i < N; ++i) { T z; if (kind == PLAIN && op[2] != 'c' && (__builtin_sub_overflow(a[i], b[i], &z))) a[i] = T(-1); }
        }
      }
    }
    std::memcpy(r, a, sizeof r);
    f(k, r, b);
    for (size_t i = 0; i < N; ++i) {
      if (kind == UN) { Val v[3] = {{W(k[i]), 0}, val(a[i]), val(r[i])}; rec_lane(op, tname<T>(), v, 3); }
      else if (kind == REM) {
        if constexpr (std::is_integral_v<T>) {
        T q = k[i] ? T(a[i] / b[i]) : T(0);
        Val v[5] = {{W(k[i]), 0}, val(a[i]), val(b[i]), val(q), val(r[i])}; rec_lane(op, tname<T>(), v, 5); }
      } else if (kind == SH) { Val v[4] = {{W(k[i]), 0}, val(a[i]), {W(b[i]), 0}, val(r[i])}; rec_lane(op, tname<T>(), v, 4); }
      else { Val v[4] = {{W(k[i]), 0}, val(a[i]), val(b[i]), val(r[i])}; rec_lane(op, tname<T>(), v, 4); }
    }
  }
}
// masks through where(k, mask)
typedef void (*MK)(const bool* k, bool* a, const bool* b);
template <class V, int OP> NOI void mkk(const bool* k, bool* a, const bool* b) {
  using M = typename V::mask_type;
  M kk = mk<V>(k), x = mk<V>(a), y = mk<V>(b);
  if constexpr (OP == 0) where(kk, x) = y;
  else where(kk, x) = b[0];
  x.copy_to(a, element_aligned);
}
NOI void drivem(const char* op, size_t N, MK f, bool uni) {
  rec_seed(mix64(op[2], N));
  bool k[64], a[64], b[64], r[64];
  for (int n = 0; n < 40; ++n) {
    u64 m = rec_rand(), x = rec_rand(), y = rec_rand();
    if (uni) y = n & 1 ? ~0ull : 0;
    for (size_t i = 0; i < N; ++i) { k[i] = m >> i & 1; a[i] = x >> i & 1; b[i] = y >> i & 1; }
    std::memcpy(r, a, sizeof r);
    f(k, r, b);
    for (size_t i = 0; i < N; ++i) {
      unsigned char rb; std::memcpy(&rb, r + i, 1);
      Val v[4] = {{W(k[i]), 0}, {W(a[i]), 0}, {W(b[i]), 0}, {W(rb), 0}}; rec_lane(op, "bool", v, 4);
    }
  }
}
// where(bool, scalar)
template <class F> NOI void wkb(const bool* k, T* a, const T* b) {
  T v = *opaque(a);
  F::template f<T, bool>(k[0], v, b[0], b[0]);
  *a = v;
}
void run_all() {
  const bool fp = std::is_floating_point_v<T>;
  auto pp = pair_pool<T>(fp ? 700 : 700, 400);
  const int R = g_tier ? 120 : fp ? 14 : 24;
  for_all_abis<T>([&](auto* vp) {
    using V = VT;
    constexpr size_t N = V::size();
#define W2(op, F, kind, scal) prov<V>("where " #F); drive(op, N, &wk<V, F>, pp, kind, scal, R);
#define W2C(op, F, kind, scal) prov<V>("where(comparison) " #F); drive(op, N, &wkc<V, F>, pp, kind, scal, R);
    W2("w_copy", Asn, PLAIN, false) W2("w_copy", AsnS, PLAIN, true) W2C("w_copy", Asn, PLAIN, false)
    W2("w_add", Add, PLAIN, false) W2("w_add", AddS, PLAIN, true) W2C("w_add", Add, PLAIN, false)
    W2("w_sub", Sub, PLAIN, false) W2("w_sub", SubS, PLAIN, true)
    W2("w_mul", Mul, PLAIN, false) W2("w_mul", MulS, PLAIN, true)
    W2("w_div", Div, DIVZ, false) W2("w_div", DivS, DIVZ, true) W2C("w_div", Div, DIVZ, false)
    W2("w_inc", Inc, UN, false) W2("w_inc", IncP, UN, false) W2C("w_inc", Inc, UN, false)
    W2("w_dec", Dec, UN, false) W2("w_dec", DecP, UN, false)
    W2("w_neg", Neg, UN, false) W2("w_neg", NegC, UN, false)
    if constexpr (std::is_integral_v<T>) {
      W2("w_rem", Rem, REM, false) W2("w_rem", RemS, REM, true)
      W2("w_and", And, PLAIN, false) W2("w_or", Or, PLAIN, false) W2("w_xor", Xor, PLAIN, false)
#ifndef NO_WSHIFT
      W2("w_shl", Shl, SH, false) W2("w_shr", Shr, SH, false) W2("w_shl", ShlI, SH, true) W2("w_shr", ShrI, SH, true)
#endif
    }
#define WM(op, OP) prov<V>("where(k, mask) " #OP); drivem(op, N, &mkk<V, OP>, OP == 4);
    WM("w_mcopy", 0) WM("w_mcopy", 4)
  });
  prov<simd<T>>("where(bool, T)");
#define WB(op, F, kind) drive(op, 1, &wkb<F>, pp, kind, true, R * 3);
  WB("w_copy", Asn, PLAIN) WB("w_add", Add, PLAIN) WB("w_sub", Sub, PLAIN) WB("w_mul", Mul, PLAIN) WB("w_div", Div, DIVZ)
  WB("w_inc", Inc, UN) WB("w_inc", IncP, UN) WB("w_dec", Dec, UN) WB("w_dec", DecP, UN) WB("w_neg", Neg, UN)
  if constexpr (std::is_integral_v<T>) { WB("w_rem", Rem, REM) WB("w_and", And, PLAIN) WB("w_or", Or, PLAIN) WB("w_xor", Xor, PLAIN) WB("w_shl", Shl, SH) WB("w_shr", Shr, SH) }
}
