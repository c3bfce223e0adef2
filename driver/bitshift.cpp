#include "lanes.hpp"
using T = TY;
constexpr int WD = sizeof(T) * 8;
constexpr int NMAX = WD > 32 ? WD : 32;
#ifndef VMAX
#define VMAX NMAX
#endif
OP2(And, a & b) OP2(Or, a | b) OP2(Xor, a ^ b) OP2C(AndC, a &= b) OP2C(OrC, a |= b) OP2C(XorC, a ^= b) OP1(Not, ~a)
OP2(Shl, a << b) OP2(Shr, a >> b) OP2C(ShlC, a <<= b) OP2C(ShrC, a >>= b)
struct ShlI { template <class V> V operator()(V a, int n) const { return a << n; } };
struct ShrI { template <class V> V operator()(V a, int n) const { return a >> n; } };
struct ShlIC { template <class V> V operator()(V a, int n) const { a <<= n; return a; } };
struct ShrIC { template <class V> V operator()(V a, int n) const { a >>= n; return a; } };
typedef void (*KernI)(const T*, int, T*);
template <class V, class F> NOI void kerni(const T* a, int n, T* r) { st(F()(ld<V>(a), n), r); }

NOI void shiftv(const char* op, size_t N, Kern kern, const std::vector<T>& p) {
  for (int round = 0; round < (g_tier ? 4 : 1); ++round) {
    Feeder fd(N, p.size(), mix64(op[2], N + round));
    T a[64], b[64], r[64];
    const void* in[2] = {a, b};
    // every value meets every count, counts differing between neighbouring lanes
    for (int c = 0; c < NMAX; ++c)
      for (size_t k = (fd.rounds() + 2) / 3; k--;) {
        for (size_t i = 0; i < N; ++i) { a[i] = p[fd.next()]; b[i] = T((c + i * 5 + k * 3) % VMAX); }
        kern(in, r);
        for (size_t i = 0; i < N; ++i) { Val v[3] = {val(a[i]), {W(b[i]), 0}, val(r[i])}; rec_lane(op, tname<T>(), v, 3); }
      }
  }
}
NOI void shifti(const char* op, size_t N, KernI kern, const std::vector<T>& p) {
  Feeder fd(N, p.size(), mix64(op[2], 7));
  T a[64], r[64];
  for (int c = 0; c < NMAX; ++c)
    for (size_t k = (fd.rounds() + 1) / 2; k--;) {
      for (size_t i = 0; i < N; ++i) a[i] = p[fd.next()];
      kern(a, opaque_int(c), r);
      for (size_t i = 0; i < N; ++i) { Val v[3] = {val(a[i]), {W(c), 0}, val(r[i])}; rec_lane(op, tname<T>(), v, 3); }
    }
}
// counts the optimiser knows, in the four ways of writing them
typedef void (*KernC)(const T*, T*);
template <class V, int n> NOI void kernc(const T* a, T* r) {
  const V x = ld<V>(a);
  st(x << V(T(n)), r); st(x >> V(T(n)), r + 64);
  st(x << n, r + 128); st(x >> n, r + 192);
}
// a count per lane, known in every lane
template <class V, int n> NOI void kerncv(const T* a, T* r) {
  const V x = ld<V>(a), c([](auto i) { return T((n + int(i) * 5) % VMAX); });
  st(x << c, r); st(x >> c, r + 64);
  V y = x; y <<= c; st(y, r + 128);
  y = x; y >>= c; st(y, r + 192);
}
NOI void shiftc(size_t N, KernC kern, int c, int step, const std::vector<T>& p) {
  Feeder fd(N, p.size(), mix64(c, 9));
  T a[64], r[256];
  for (size_t k = (fd.rounds() + 1) / 2; k--;) {
    for (size_t i = 0; i < N; ++i) a[i] = p[fd.next()];
    kern(a, r);
    for (int w = 0; w < 4; ++w)
      for (size_t i = 0; i < N; ++i) { Val v[3] = {val(a[i]), {W((c + int(i) * step) % VMAX), 0}, val(r[w * 64 + i])}; rec_lane(w % 2 ? "shr" : "shl", tname<T>(), v, 3); }
  }
}
template <class V, int... cs> void shiftcs(const std::vector<T>& p, std::integer_sequence<int, cs...>) {
  prov<V>("constant count");
  (shiftc(V::size(), &kernc<V, cs>, cs, 0, p), ...);
  prov<V>("constant counts");
  (shiftc(V::size(), &kerncv<V, cs * 3 % VMAX>, cs * 3 % VMAX, 5, p), ...);
}
template <int k> using some_counts = std::conditional_t<k == 0, std::integer_sequence<int, 0, VMAX - 1, WD / 2, 5, 24>,
  std::conditional_t<k == 1, std::integer_sequence<int, 1, WD - 1, WD - 2, WD / 2 - 1, 12>, std::integer_sequence<int, 7, 8, VMAX - 1, 3, 16>>>;
template <class V> void consts(const std::vector<T>& p) {
#ifdef ALLCOUNTS
  shiftcs<V>(p, std::make_integer_sequence<int, VMAX>());
#else
  constexpr int h = (V::size() + ISA_IDX + std::is_signed_v<T>) % 3;
  if constexpr (V::size() == 1) return;
  else if constexpr (std::is_same_v<V, stdx::native_simd<T>>) { shiftcs<V>(p, some_counts<0>()); shiftcs<V>(p, some_counts<1>()); shiftcs<V>(p, some_counts<2>()); }
  else shiftcs<V>(p, some_counts<h>());
#endif
}
void run_all() {
  auto pp = pair_pool<T>(300, 300);
  auto vp1 = value_pool<T>(100);
  rec_seed(mix64(g_seed, 4242));
  std::vector<T> sp;   // shift operands
  for (T x : {T(1), T(-1), T(2), T(3), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(0x55), T(0xAA), T(0x80), T(0x7f), T(0x81)}) sp.push_back(x);
  for (int i = 0; i < (g_tier ? 60 : 14); ++i) sp.push_back(random_value<T>());
  for_all_abis<T>([&](auto* vp) {
    using V = VT;
    lane2<V>("and", "a&b", pp, And());
    lane2<V>("or", "a|b", pp, Or());
    lane2<V>("xor", "a^b", pp, Xor());
    lane2<V>("and", "a&=b", pp, AndC());
    lane2<V>("or", "a|=b", pp, OrC());
    lane2<V>("xor", "a^=b", pp, XorC());
    lane1<V>("not", "~a", vp1, Not());
    prov<V>("a<<b"); shiftv("shl", V::size(), kern2<V, Shl>, sp);
    prov<V>("a>>b"); shiftv("shr", V::size(), kern2<V, Shr>, sp);
    prov<V>("a<<=b"); shiftv("shl", V::size(), kern2<V, ShlC>, sp);
    prov<V>("a>>=b"); shiftv("shr", V::size(), kern2<V, ShrC>, sp);
    prov<V>("a<<int"); shifti("shl", V::size(), kerni<V, ShlI>, sp);
    prov<V>("a>>int"); shifti("shr", V::size(), kerni<V, ShrI>, sp);
    prov<V>("a<<=int"); shifti("shl", V::size(), kerni<V, ShlIC>, sp);
    consts<V>(sp);
    prov<V>("a>>=int"); shifti("shr", V::size(), kerni<V, ShrIC>, sp);
  });
}
