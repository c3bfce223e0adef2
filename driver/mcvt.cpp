// C09: conversions of masks, bitset interface, iteration over true lanes
#include "conv.hpp"
#include <bitset>
using T = TY;
using namespace stdx;
using stdx::__proposed::static_simd_cast;
using stdx::__proposed::resizing_simd_cast;
// masks come from comparisons: representation as the library computes it
template <class M> NOI M make(const bool* p) {
  using V = typename M::simd_type; using E = typename V::value_type;
  E t[M::size()];
  for (size_t i = 0; i < M::size(); ++i) t[i] = p[i] ? E(2) : E(1);
  return ld<V>(opaque(t)) > V(E(1));
}
// the other polarity: lanes beyond size() may hold anything
template <class M> NOI M maken(const bool* p) {
  using V = typename M::simd_type; using E = typename V::value_type;
  E t[M::size()];
  for (size_t i = 0; i < M::size(); ++i) t[i] = p[i] ? E(2) : E(1);
  return !(ld<V>(opaque(t)) == V(E(1)));
}
template <class M> void put(const M& m, bool* o) { for (size_t i = 0; i < M::size(); ++i) o[i] = m[i]; }
// observers that a stray bit beyond size() would upset
template <class M> void put2(const M& m, bool* o) { put(m, o); o[M::size()] = any_of(m); o[M::size() + 1] = all_of(m); o[M::size() + 2] = popcount(m) & 1; }
using Fn = void (*)(const bool*, bool*, int);
template <class F> NOI void contents(size_t N, F f) {
  bool p[64];
  rec_seed(mix64(g_seed, N + 900));
  size_t R = N <= 6 ? size_t(1) << N : g_tier ? 300 : 40;
  for (size_t r = 0; r < R; ++r) {
    u64 x = rec_rand();
    if (N <= 6) x = r; else if (r == 0) x = 0; else if (r == 1) x = ~0ull; else if (r % 5 == 2) x = 1ull << (rec_rand() % N); else if (r % 5 == 3) x = ~(1ull << (rec_rand() % N));
    for (size_t i = 0; i < N; ++i) p[i] = x >> i & 1;
    f(p);
  }
}
NOI void drive(size_t N, size_t ND, Fn k) {
  int pol = 0;
  contents(N, [&](bool* p) {
    bool o[72];
    std::memset(o, 0, sizeof o);
    dirty_stack(0xff);
    k((bool*)opaque(p), o, (pol ^= 1));
    ev_begin("mconv", "mask"); ev_bits((unsigned char*)p, N); ev_bits((unsigned char*)o, ND); ev_end();
    ev_begin("mobs", "mask"); ev_bits((unsigned char*)o, ND); ev_int(o[ND]); ev_int(o[ND + 1]); ev_int(o[ND + 2]); ev_end();
  });
}
template <class D, class M> NOI void kstatic(const bool* p, bool* o, int n) { D d = static_simd_cast<D>(n ? make<M>(p) : maken<M>(p)); put2(d, o); }
template <class D, class M> NOI void ksimd(const bool* p, bool* o, int n) { D d = static_simd_cast<typename D::simd_type>(n ? make<M>(p) : maken<M>(p)); put2(d, o); }
template <class U, class M> NOI void kelem(const bool* p, bool* o, int n) { auto d = static_simd_cast<U>(n ? make<M>(p) : maken<M>(p)); put2(d, o); }
template <class D, class M> NOI void kres(const bool* p, bool* o, int n) { D d = resizing_simd_cast<D>(n ? make<M>(p) : maken<M>(p)); put2(d, o); }
template <class D, class M> NOI void kimpl(const bool* p, bool* o, int n) { D d = n ? make<M>(p) : maken<M>(p); put2(d, o); }
template <class D, class M> NOI void kcvt(const bool* p, bool* o, int n) { D d = (n ? make<M>(p) : maken<M>(p)).__cvt(); put2(d, o); }
template <class M> NOI void kfix(const bool* p, bool* o, int n) { auto d = to_fixed_size(n ? make<M>(p) : maken<M>(p)); put2(d, o); }
template <class M> NOI void knat(const bool* p, bool* o, int n) { auto d = to_native(n ? make<M>(p) : maken<M>(p)); put2(d, o); }
template <class M> NOI void kcom(const bool* p, bool* o, int n) { auto d = to_compatible(n ? make<M>(p) : maken<M>(p)); put2(d, o); }
template <class M> NOI void kbits(const bool* p, bool* o, int n) { auto b = (n ? make<M>(p) : maken<M>(p)).__to_bitset(); for (size_t i = 0; i < b.size(); ++i) o[i] = b[i]; o[b.size()] = b.any(); o[b.size() + 1] = b.all(); o[b.size() + 2] = b.count() & 1; }
template <class M> NOI void kfrom(const bool* p, bool* o, int) { std::bitset<M::size()> b; for (size_t i = 0; i < b.size(); ++i) b[i] = p[i]; put2(M::__from_bitset(b), o); }
template <class D, class M> NOI void kback(const bool* p, bool* o, int n) { put2(static_simd_cast<M>(static_simd_cast<D>(n ? make<M>(p) : maken<M>(p))), o); }
using FI = int (*)(const bool*, int*);
template <class M> NOI int kiter(const bool* p, int* o) { int c = 0; for (size_t i : stdx::__proposed::where(make<M>(p))) { if (c > 70) break; o[c++] = int(i); } return c; }
NOI void driveit(size_t N, FI k) {
  contents(N, [&](bool* p) {
    int o[80]; int c = k((bool*)opaque(p), o);
    ev_begin("miter", "mask"); ev_bits((unsigned char*)p, N); ev_ints(o, c); ev_end();
  });
}
template <class V, class U> void one() {
  constexpr size_t N = V::size();
  using M = typename V::mask_type;
  using DD = simd_mask<U, simd_abi::deduce_t<U, N>>;
  using DF = fixed_size_simd_mask<U, N>;
  constexpr bool fixed_src = std::is_same_v<V, fixed_size_simd<T, N>>;
  constexpr unsigned h = hsh(uidx<T>(), uidx<U>() + 5, ISA_IDX * 3 + N);
  constexpr bool all = NPARTS == 1;
  auto go = [&](auto* d) {
    using D = std::remove_pointer_t<decltype(d)>;
    prov<TL<M, D>>("static_simd_cast<M>"); drive(N, N, &kstatic<D, M>);
    if constexpr (all || std::is_same_v<D, DD>) { prov<TL<M, D>>("static_simd_cast back and forth"); drive(N, N, &kback<D, M>); }
  };
  go((DD*)0);
  if constexpr (all || h % 3 == 0) { prov<TL<M, DD>>("static_simd_cast<V>"); drive(N, N, &ksimd<DD, M>); }
  if constexpr (all || h % 3 == 1) { prov<TL<M, DD>>("__cvt"); drive(N, N, &kcvt<DD, M>); }
  if constexpr (all || h % 3 == 2) { prov<TL<M, U>>("static_simd_cast<U>"); drive(N, N, &kelem<U, M>); }
  if constexpr (!std::is_same_v<DF, DD>) go((DF*)0);
  if constexpr (native_simd<U>::size() == N && !std::is_same_v<native_simd_mask<U>, DD>) go((native_simd_mask<U>*)0);
  if constexpr (fixed_src) { prov<TL<M, DF>>("implicit conversion"); drive(N, N, &kimpl<DF, M>); }
  // resizing
  auto res = [&](auto* d) {
    using D = typename std::remove_pointer_t<decltype(d)>::mask_type;
    prov<TL<M, D>>("resizing_simd_cast"); drive(N, D::size(), &kres<D, M>);
  };
  if constexpr (all || h % 2) res((native_simd<U>*)0); else
  if constexpr (fits<U, 2 * N>()) res((simd<U, simd_abi::deduce_t<U, 2 * N>>*)0);
  if constexpr (fits<U, ODD[h % 4]>()) res((simd<U, simd_abi::deduce_t<U, ODD[h % 4]>>*)0);
  if constexpr (h / 4 % 2) { if constexpr (fits<U, ODD[4 + h / 8 % 11]>()) res((fixed_size_simd<U, ODD[4 + h / 8 % 11]>*)0); }
  else if constexpr (N > 1) res((simd<U, simd_abi::deduce_t<U, N - 1>>*)0);
  if constexpr (h % 6 == 0) res((simd<U, simd_abi::scalar>*)0);
}
template <class V> void same() {
  constexpr size_t N = V::size();
  using M = typename V::mask_type;
  if constexpr (N <= simd_abi::max_fixed_size<T>) { prov<M>("to_fixed_size"); drive(N, N, &kfix<M>); }
  if constexpr (std::is_same_v<V, fixed_size_simd<T, N>>) {
    if constexpr (N == native_simd<T>::size()) { prov<M>("to_native"); drive(N, N, &knat<M>); }
    if constexpr (N == simd<T>::size()) { prov<M>("to_compatible"); drive(N, N, &kcom<M>); }
  }
  prov<M>("to_bitset"); drive(N, N, &kbits<M>);
  prov<M>("from_bitset"); drive(N, N, &kfrom<M>);
  prov<M>("iteration over true lanes"); driveit(N, &kiter<M>);
}
template <class U> void all_abis() {
  if constexpr (pick_type<U>()) for_conv_abis<T, U>([&](auto* vp) { one<VT, U>(); });
}
template <class... Us> void all_u(TL<Us...>) { (all_abis<Us>(), ...); }
void run_all() {
#ifndef SAME_ONLY
  all_u(AllU());
#endif
  if constexpr (PART == 0) {
    for_all_abis<T>([&](auto* vp) { same<VT>(); });
    if constexpr (native_simd<T>::size() <= simd_abi::max_fixed_size<T>) same<fixed_size_simd<T, native_simd<T>::size()>>();
    same<fixed_size_simd<T, simd<T>::size()>>();
  }
}
