// C04: mask reductions over masks produced in many ways
#include "common.hpp"
using T = TY;
using namespace stdx;
template <class M> M mload(const bool* p) { return ldm<M>(p); }
template <class M> using SimdOf = typename M::simd_type;
template <class M> NOI SimdOf<M> vals(const bool* p, T t, T f) {
  T m[M::size()];
  for (size_t i = 0; i < M::size(); ++i) m[i] = p[i] ? t : f;
  return ld<SimdOf<M>>(opaque(m));
}
template <class M, int P> NOI M produce(const bool* p) {
  constexpr size_t N = M::size();
  using V = SimdOf<M>;
  bool c[N], a[N], b[N];
  for (size_t i = 0; i < N; ++i) { c[i] = !p[i]; a[i] = i % 3 != 1; b[i] = p[i] != a[i]; }
  if constexpr (P == 0) return mload<M>(p);
  else if constexpr (P == 1) return vals<M>(p, T(5), T(0)) != V(T(0));
  else if constexpr (P == 2) return vals<M>(p, T(0), T(7)) == V(T(0));
  else if constexpr (P == 3) return !mload<M>(c);
  else if constexpr (P == 4) { M m(true); for (size_t i = 0; i < N; ++i) m[i] = p[i]; return m; }
  else if constexpr (P == 5) {
    fixed_size_simd_mask<T, N> f; f.copy_from(p, element_aligned);
    return __proposed::static_simd_cast<M>(f);
  }
  else if constexpr (P == 6) return mload<M>(a) ^ mload<M>(b);
  else if constexpr (P == 7) return vals<M>(p, T(1), T(4)) < V(T(3));
  else if constexpr (P == 8) return mload<M>(p) == M(true);
  else if constexpr (P == 9) return !vals<M>(p, T(0), T(7));
  else if constexpr (P == 10) { M m(true); where(mload<M>(c), m) = M(false); return m; }
  else if constexpr (P == 11) { std::bitset<N> bs; for (size_t i = 0; i < N; ++i) bs[i] = p[i]; return M::__from_bitset(bs); }
  else if constexpr (P == 12) return M(true) && (M(false) || mload<M>(p));
  else if constexpr (P == 13) return vals<M>(p, T(3), T(1)) >= V(T(2));
  else if constexpr (P == 14) { M m = !mload<M>(p); m ^= M(true); return m; }
  else if constexpr (P == 15) { V v = vals<M>(p, T(6), T(1)); v /= V(T(2)); return v >= V(T(2)); }
  else return !(mload<M>(p) != M(true));
}
constexpr int NPROD = 17;
template <class M> NOI void reds(const M& k, int* o) {
  o[0] = all_of(k); o[1] = any_of(k); o[2] = none_of(k); o[3] = some_of(k); o[4] = popcount(k);
  o[5] = o[6] = -1;
}
template <class M> NOI void firsts(const M& k, int* o) { o[5] = find_first_set(k); o[6] = find_last_set(k); }
template <class M> struct Tab { using F = M (*)(const bool*); };
template <class M, int P> NOI void kern(const bool* p, bool any, int* o) {
  M k = produce<M, P>(p);
  opaque(&k);
  reds(k, o);
  if (any) firsts(k, o);
}
typedef void (*KF)(const bool*, bool, int*);
static const char* pname[NPROD] = {"load", "v!=0", "v==0", "!load", "subscript writes", "static_simd_cast from fixed_size", "k^k", "v<3", "k==true",
  "!v", "where(k,mask)=", "from_bitset", "&& ||", "v>=2", "^=true", "v/2>=2", "!(k!=true)"};
NOI void emit(size_t N, const bool* p, KF f) {
  int o[7];
  bool any = false;
  for (size_t i = 0; i < N; ++i) any |= p[i];
  f(p, any, o);
  ev_begin("mred", "bool"); ev_bits((const unsigned char*)p, N);
  for (int x : o) ev_int(x);
  ev_end();
}
NOI void drive(size_t N, KF f) {
  bool p[64];
  auto put = [&](u64 x) { for (size_t i = 0; i < N; ++i) p[i] = x >> i & 1; emit(N, p, f); };
  if (N <= (g_tier ? 12 : 8)) { for (u64 x = 0; x < (1ull << N); ++x) put(x); }
  else {
    put(0); put(~0ull);
    for (size_t i = 0; i < N; ++i) { put(1ull << i); put(~(1ull << i)); put((1ull << i) - 1); put(~((1ull << i) - 1)); }
    rec_seed(mix64(g_seed, N));
    for (int k = 0; k < (g_tier ? 3000 : 120); ++k) { u64 x = rec_rand(); if (k % 3 == 1) x &= rec_rand() & rec_rand(); if (k % 3 == 2) x |= rec_rand() | rec_rand(); put(x); }
  }
}
template <class V, int... P> void each(std::integer_sequence<int, P...>) {
  ((prov<V>(pname[P]), drive(V::size(), &kern<typename V::mask_type, P>)), ...);
}
void run_all() {
  for_all_abis<T>([&](auto* vp) { each<VT>(std::make_integer_sequence<int, NPROD>()); });
  prov<simd<T>>("bool overloads");
  for (int i = 0; i < 2; ++i) {
    bool b = opaque_int(i);
    ev_begin("mred", "bool"); unsigned char u = i; ev_bits(&u, 1);
    ev_int(all_of(b)); ev_int(any_of(b)); ev_int(none_of(b)); ev_int(some_of(b)); ev_int(popcount(b));
    if (b) { ev_int(find_first_set(b)); ev_int(find_last_set(b)); } else { ev_int(-1); ev_int(-1); }
    ev_end();
  }
}
