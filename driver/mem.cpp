// C06: loads and stores, element type conversion, bounds
#include "guard.hpp"
using T = TY;
using namespace stdx;
template <class V, class U, int FL> auto flag() {
  if constexpr (FL == 0) return element_aligned;
  else if constexpr (FL == 1) return vector_aligned;
  else return overaligned<128>;
}
template <class V, class U, int FL> constexpr size_t al() { return FL == 0 ? alignof(U) : FL == 1 ? memory_alignment_v<V, U> : 128; }
template <class V, class U, int FL> NOI void kload(const U* m, T* out) { V v = V(T(1)); v.copy_from(m, flag<V, U, FL>()); st(v, out); }
template <class V, class U, int FL> NOI void kctor(const U* m, T* out) { V v(m, flag<V, U, FL>()); st(v, out); }
template <class V, class U, int FL> NOI void kstore(const T* in, U* m) { V v = ld<V>(in); v.copy_to(m, flag<V, U, FL>()); }

template <class U> NOI void dload(size_t N, size_t align, void (*k)(const U*, T*), const std::vector<U>& p) {
  Arena& A = arena();
  Feeder fd(N, p.size(), align);
  size_t R = std::max<size_t>(fd.rounds(), 9);
  for (size_t n = 0; n < R; ++n) {
    U* m = (U*)A.place(n % 3, N * sizeof(U), align, rec_rand());
    A.fill(n);
    U src[64]; T out[64 + 8];
    for (size_t i = 0; i < N; ++i) { src[i] = p[fd.next()]; std::memcpy((void*)(m + i), &src[i], sizeof(U)); }
    A.snap();
    std::memset((void*)out, 0x5a, sizeof out);
    bool ok = guarded([&] { k(m, out); });
    ev_mem("mem", "load", A.foreign((unsigned char*)0, 0), !ok);
    if (ok) for (size_t i = 0; i < N; ++i) { Val v[2] = {val(src[i]), val(out[i])}; rec_lane(to_name<T>(false), tname<U>(), v, 2); }
  }
}
template <class U> NOI void dstore(size_t N, size_t align, void (*k)(const T*, U*), const std::vector<T>& p) {
  Arena& A = arena();
  Feeder fd(N, p.size(), align);
  size_t R = std::max<size_t>(fd.rounds(), 9);
  for (size_t n = 0; n < R; ++n) {
    U* m = (U*)A.place(n % 3, N * sizeof(U), align, rec_rand());
    A.fill(n + 1);
    T src[64]; U out[64];
    for (size_t i = 0; i < N; ++i) src[i] = p[fd.next()];
    A.snap();
    bool ok = guarded([&] { k(src, m); });
    std::memcpy((void*)out, m, N * sizeof(U));
    ev_mem("mem", "store", A.foreign((unsigned char*)m, N * sizeof(U)), !ok);
    if (ok) for (size_t i = 0; i < N; ++i) { Val v[2] = {val(src[i]), val(out[i])}; rec_lane(to_name<U>(false), tname<T>(), v, 2); }
  }
}
template <class M, int FL> NOI void mload(const bool* m, bool* out) { M k(true); k.copy_from(m, flag<M, bool, FL>()); for (size_t i = 0; i < M::size(); ++i) out[i] = k[i]; }
template <class M, int FL> NOI void mctor(const bool* m, bool* out) { M k(m, flag<M, bool, FL>()); for (size_t i = 0; i < M::size(); ++i) out[i] = k[i]; }
template <class M, int FL> NOI void mstore(const bool* in, bool* m) { M k(false); for (size_t i = 0; i < M::size(); ++i) k[i] = in[i]; k.copy_to(m, flag<M, bool, FL>()); }
// masks out of a comparison, as a result whose representation was never in memory
template <class M, int FL> NOI void mstorec(const bool* in, bool* m) {
  T t[M::size()];
  for (size_t i = 0; i < M::size(); ++i) t[i] = in[i] ? T(2) : T(0);
  auto k = ld<typename M::simd_type>(opaque(t)) > typename M::simd_type(T(1));
  k.copy_to(m, flag<M, bool, FL>());
}
NOI void dmask(size_t N, size_t align, void (*k)(const bool*, bool*), bool store) {
  Arena& A = arena();
  for (int n = 0; n < (g_tier ? 600 : 60); ++n) {
    unsigned char* m = A.place(n % 3, N, align, rec_rand());
    A.fill(n + 2);
    u64 x = rec_rand(); if (n % 7 == 3) x = 1ull << (x % N); if (n % 7 == 4) x = ~(1ull << (x % N)); if (n < 3) x = 0; else if (n < 6) x = ~0ull;
    unsigned char src[64], out[64];
    for (size_t i = 0; i < N; ++i) src[i] = x >> i & 1;
    if (!store) std::memcpy(m, src, N);
    A.snap();
    bool ok = guarded([&] { if (store) k((bool*)src, (bool*)m); else k((bool*)m, (bool*)out); });
    if (store) std::memcpy(out, m, N);
    ev_mem("mem", store ? "mask store" : "mask load", store ? A.foreign(m, N) : A.foreign(0, 0), !ok);
    if (ok) for (size_t i = 0; i < N; ++i) { Val v[2] = {{W(src[i]), 0}, {W(out[i]), 0}}; rec_lane("mcopy", "bool", v, 2); }
  }
}
template <class V, class U, bool more = false> void each_u(const std::vector<U>& pu, const std::vector<T>& pt) {
  constexpr size_t N = V::size();
  constexpr bool same = std::is_same_v<U, T>, nat = std::is_same_v<V, native_simd<T>>;
  if constexpr (chosen<V, U, more>() || nat) {
    prov<TL<V, U>>("copy_from element_aligned"); dload<U>(N, al<V, U, 0>(), &kload<V, U, 0>, pu);
    prov<TL<V, U>>("copy_to element_aligned"); dstore<U>(N, al<V, U, 0>(), &kstore<V, U, 0>, pt);
    if constexpr (same || (nat && (uidx<U>() + ISA_IDX) % 4 == 0) || (NPARTS == 1)) {
      prov<TL<V, U>>("ctor vector_aligned"); dload<U>(N, al<V, U, 1>(), &kctor<V, U, 1>, pu);
      prov<TL<V, U>>("copy_to vector_aligned"); dstore<U>(N, al<V, U, 1>(), &kstore<V, U, 1>, pt);
      prov<TL<V, U>>("copy_from overaligned"); dload<U>(N, al<V, U, 2>(), &kload<V, U, 2>, pu);
      prov<TL<V, U>>("copy_to overaligned"); dstore<U>(N, al<V, U, 2>(), &kstore<V, U, 2>, pt);
    }
    if constexpr (nat) { prov<TL<V, U>>("ctor element_aligned"); dload<U>(N, al<V, U, 0>(), &kctor<V, U, 0>, pu);
      prov<TL<V, U>>("copy_from vector_aligned"); dload<U>(N, al<V, U, 1>(), &kload<V, U, 1>, pu); }
  }
}
template <class U> void all_abis() {
  auto pu = conv_pool<T, U>(g_tier ? 600 : 40);
  auto pt = conv_pool<U, T>(g_tier ? 600 : 40);
  auto f = [&](auto* vp) { each_u<VT, U>(pu, pt); };
  auto g = [&](auto* vp) { each_u<VT, U, true>(pu, pt); };
  for_all_abis<T>(f);
  for_deduced<T>(g, piece_sizes<T>());
}
template <class... Us> void all_u(TL<Us...>) { (all_abis<Us>(), ...); }
void run_all() {
  guard_init();
  all_u(AllU());
  if (PART == 0)
  for_all_abis<T>([&](auto* vp) {
    using M = typename VT::mask_type;
    constexpr size_t N = VT::size();
    prov<M>("mask load element_aligned"); dmask(N, 1, &mload<M, 0>, false);
    prov<M>("mask ctor vector_aligned"); dmask(N, memory_alignment_v<M, bool>, &mctor<M, 1>, false);
    prov<M>("mask store element_aligned"); dmask(N, 1, &mstore<M, 0>, true);
    prov<M>("mask store vector_aligned"); dmask(N, memory_alignment_v<M, bool>, &mstorec<M, 1>, true);
    prov<M>("mask store overaligned"); dmask(N, 128, &mstorec<M, 2>, true);
  });
}
