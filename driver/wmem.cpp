// C07: masked loads and stores
#include "guard.hpp"
using T = TY;
using namespace stdx;
template <class V, class U, int FL> auto flag() {
  if constexpr (FL == 0) return element_aligned;
  else if constexpr (FL == 1) return vector_aligned;
  else return overaligned<128>;
}
template <class V, class U, int FL> constexpr size_t al() { return FL == 0 ? alignof(U) : FL == 1 ? memory_alignment_v<V, U> : 128; }
template <class M> M mk(const bool* p) { return ldm<M>(p); }
template <class V> NOI typename V::mask_type mkc(const bool* p) {
  T t[V::size()];
  for (size_t i = 0; i < V::size(); ++i) t[i] = p[i] ? T(2) : T(0);
  return ld<V>(opaque(t)) != V(T(0));
}
template <class V, class U, int FL> NOI void kload(const bool* k, const U* m, T* io) { V v = ld<V>(io); auto kk = mk<typename V::mask_type>(k); where(kk, v).copy_from(m, flag<V, U, FL>()); st(v, io); }
template <class V, class U, int FL> NOI void kloadc(const bool* k, const U* m, T* io) { const V v = ld<V>(io); auto kk = mkc<V>(k); V r = where(kk, v).copy_from(m, flag<V, U, FL>()); st(r, io); }
template <class V, class U, int FL> NOI void kstore(const bool* k, U* m, T* io) { V v = ld<V>(io); auto kk = mk<typename V::mask_type>(k); where(kk, v).copy_to(m, flag<V, U, FL>()); }
template <class V, class U, int FL> NOI void kstorec(const bool* k, U* m, T* io) { const V v = ld<V>(io); auto kk = mkc<V>(k); where(kk, v).copy_to(m, flag<V, U, FL>()); }

// one scenario: where the array lies and which lanes are selected.  Only lanes
// whose memory is accessible are ever selected.
struct Scene { unsigned char* m; u64 k; size_t a0, a1; };   // lanes [a0, a1) are accessible
NOI Scene scene(size_t N, size_t usz, size_t align, int n) {
  Arena& A = arena();
  Scene s;
  u64 r = rec_rand();
  int kind = n % 8;
  if (kind < 3) { s.m = A.place(kind, N * usz, align, rec_rand()); s.a0 = 0; s.a1 = N; }
  else if (kind < 6) {                 // the tail lies in an inaccessible page
    size_t c = rec_rand() % (N + 1);
    if (kind == 5) c = N > 1 ? N - 1 : 0;
    unsigned char* m = A.hi - c * usz;
    m = A.base + (m - A.base) / align * align;
    s.m = m; s.a0 = 0; s.a1 = std::min(N, size_t(A.hi - m) / usz);
  } else {                             // the head lies in an inaccessible page
    size_t c = rec_rand() % (N + 1);
    unsigned char* m = A.lo - c * usz;
    m = A.base + ((m - A.base) + align - 1) / align * align;
    s.m = m; s.a0 = m < A.lo ? (A.lo - m + usz - 1) / usz : 0; s.a1 = N;
    if (s.a0 > N) s.a0 = N;
  }
  u64 all = 0;
  for (size_t i = s.a0; i < s.a1; ++i) all |= 1ull << i;
  switch (n / 8 % 6) {
    case 0: s.k = all; break;
    case 1: s.k = 0; break;
    case 2: s.k = r & all; break;
    case 3: s.k = all ? 1ull << (s.a0 + r % (s.a1 - s.a0)) : 0; break;
    case 4: s.k = all & ~(1ull << (r % N)); break;
    default: s.k = (r | rec_rand()) & all; break;
  }
  return s;
}
template <class U> NOI void dload(size_t N, size_t align, void (*k)(const bool*, const U*, T*), const std::vector<U>& p, const std::vector<T>& old) {
  Arena& A = arena();
  Feeder fd(N, p.size(), align);
  rec_seed(mix64(N * 64 + sizeof(U), align));
  const int R = g_tier ? 480 : 96;
  for (int n = 0; n < R; ++n) {
    Scene s = scene(N, sizeof(U), align, n);
    U src[64] = {}; T io[64], before[64]; bool kk[64];
    A.fill(n);
    for (size_t i = 0; i < N; ++i) {
      size_t j = fd.next();   // the old value is a function of the new one, to bound the number of distinct steps
      before[i] = old[j % old.size()]; kk[i] = s.k >> i & 1;
      if (i >= s.a0 && i < s.a1) { src[i] = p[j]; std::memcpy((void*)((U*)s.m + i), &src[i], sizeof(U)); }
    }
    std::memcpy((void*)io, before, sizeof io);
    A.snap();
    bool ok = guarded([&] { k(kk, (const U*)s.m, io); });
    ev_mem("mem", "masked load", A.foreign(0, 0), !ok);
    if (ok) for (size_t i = 0; i < N; ++i) { Val v[4] = {{W(kk[i]), 0}, val(before[i]), val(src[i]), val(io[i])}; rec_lane(to_name<T>(true), tname<U>(), v, 4); }
  }
}
template <class U> NOI void dstore(size_t N, size_t align, void (*k)(const bool*, U*, T*), const std::vector<T>& p) {
  Arena& A = arena();
  Feeder fd(N, p.size(), align);
  rec_seed(mix64(N * 64 + sizeof(U), align + 9));
  const int R = g_tier ? 480 : 96;
  for (int n = 0; n < R; ++n) {
    Scene s = scene(N, sizeof(U), align, n);
    U old[64] = {}, now[64] = {}; T io[64]; bool kk[64];
    A.fill(n);
    for (size_t i = 0; i < N; ++i) {
      size_t j = fd.next();
      io[i] = p[j]; kk[i] = s.k >> i & 1;
      if (i >= s.a0 && i < s.a1) { old[i] = U(j % 60 + 3); std::memcpy((void*)((U*)s.m + i), &old[i], sizeof(U)); }
    }
    A.snap();
    bool ok = guarded([&] { k(kk, (U*)s.m, io); });
    for (size_t i = s.a0; i < s.a1; ++i) std::memcpy((void*)&now[i], (U*)s.m + i, sizeof(U));
    // every byte but those of the selected elements
    int foreign = 0;
    for (unsigned char* q = A.lo; q < A.hi; ++q) {
      long i = q >= s.m ? (q - s.m) / long(sizeof(U)) : -1;
      if (i >= 0 && i < long(N) && kk[i]) continue;
      foreign += *q != A.before[q - A.lo];
    }
    ev_mem("mem", "masked store", foreign, !ok);
    if (ok) for (size_t i = s.a0; i < s.a1; ++i) { Val v[4] = {{W(kk[i]), 0}, val(old[i]), val(io[i]), val(now[i])}; rec_lane(to_name<U>(true), tname<T>(), v, 4); }
  }
}
template <class V> NOI void mmload(const bool* k, const bool* m, bool* io) {
  using M = typename V::mask_type;
  M v = mk<M>(io); M kk = mk<M>(k); where(kk, v).copy_from(m, element_aligned);
  for (size_t i = 0; i < V::size(); ++i) io[i] = v[i];
}
template <class V> NOI void mmstore(const bool* k, bool* m, bool* io) {
  M_: using M = typename V::mask_type;
  M v = mk<M>(io); M kk = mkc<V>(k); where(kk, v).copy_to(m, element_aligned);
}
NOI void dmask(size_t N, void (*kl)(const bool*, const bool*, bool*), void (*ks)(const bool*, bool*, bool*)) {
  Arena& A = arena();
  rec_seed(mix64(N, 99));
  for (int n = 0; n < (g_tier ? 480 : 96); ++n) {
    Scene s = scene(N, 1, 1, n);
    u64 x = rec_rand(), y = rec_rand();
    unsigned char kk[64], io[64], before[64], src[64] = {}, now[64] = {};
    A.fill(n);
    for (size_t i = 0; i < N; ++i) { kk[i] = s.k >> i & 1; before[i] = io[i] = x >> i & 1; if (i >= s.a0 && i < s.a1) { src[i] = y >> i & 1; s.m[i] = src[i]; } }
    A.snap();
    bool ok;
    if (kl) {
      ok = guarded([&] { kl((bool*)kk, (bool*)s.m, (bool*)io); });
      ev_mem("mem", "masked mask load", A.foreign(0, 0), !ok);
      if (ok) for (size_t i = 0; i < N; ++i) { Val v[4] = {{W(kk[i]), 0}, {W(before[i]), 0}, {W(src[i]), 0}, {W(io[i]), 0}}; rec_lane("w_mcopy", "bool", v, 4); }
    } else {
      ok = guarded([&] { ks((bool*)kk, (bool*)s.m, (bool*)io); });
      int foreign = 0;
      for (unsigned char* q = A.lo; q < A.hi; ++q) { long i = q - s.m; if (i >= 0 && i < long(N) && kk[i]) continue; foreign += *q != A.before[q - A.lo]; }
      ev_mem("mem", "masked mask store", foreign, !ok);
      if (ok) for (size_t i = s.a0; i < s.a1; ++i) { Val v[4] = {{W(kk[i]), 0}, {W(src[i]), 0}, {W(before[i]), 0}, {W(s.m[i]), 0}}; rec_lane("w_mcopy", "bool", v, 4); }
    }
  }
}
template <class V, class U, bool more = false> void each_u(const std::vector<U>& pu, const std::vector<T>& pt, const std::vector<T>& old) {
  constexpr size_t N = V::size();
  constexpr bool same = std::is_same_v<U, T>, nat = std::is_same_v<V, native_simd<T>>;
  if constexpr (chosen<V, U, more>() || nat) {
    prov<TL<V, U>>("where copy_from element_aligned"); dload<U>(N, al<V, U, 0>(), &kload<V, U, 0>, pu, old);
    prov<TL<V, U>>("where copy_to element_aligned"); dstore<U>(N, al<V, U, 0>(), &kstore<V, U, 0>, pt);
    if constexpr (same || (nat && (uidx<U>() + ISA_IDX) % 4 == 0) || (NPARTS == 1)) {
      prov<TL<V, U>>("const where copy_from vector_aligned"); dload<U>(N, al<V, U, 1>(), &kloadc<V, U, 1>, pu, old);
      prov<TL<V, U>>("const where copy_to vector_aligned"); dstore<U>(N, al<V, U, 1>(), &kstorec<V, U, 1>, pt);
    }
  }
}
template <class U> NOI void bload(const bool* k, const U* m, T* io) { where(k[0], io[0]).copy_from(m, element_aligned); }
template <class U> NOI void bstore(const bool* k, U* m, T* io) { where(k[0], io[0]).copy_to(m, element_aligned); }
template <class U> void all_abis() {
  auto pu = conv_pool<T, U>(g_tier ? 600 : 40);
  auto pt = conv_pool<U, T>(g_tier ? 600 : 40);
  auto old = value_pool<T>(10);
  auto f = [&](auto* vp) { each_u<VT, U>(pu, pt, old); };
  auto g = [&](auto* vp) { each_u<VT, U, true>(pu, pt, old); };
  for_all_abis<T>(f);
  for_deduced<T>(g, piece_sizes<T>());
  if constexpr (std::is_same_v<U, T>) {
    prov<T>("where(bool, T) copy_from"); dload<U>(1, alignof(U), &bload<U>, pu, old);
    prov<T>("where(bool, T) copy_to"); dstore<U>(1, alignof(U), &bstore<U>, pt);
  }
}
template <class... Us> void all_u(TL<Us...>) { (all_abis<Us>(), ...); }
void run_all() {
  guard_init();
  all_u(AllU());
  if (PART == 0)
  for_all_abis<T>([&](auto* vp) {
    using V = VT;
    prov<V>("where(k, mask) copy_from"); dmask(V::size(), &mmload<V>, nullptr);
    prov<V>("where(k, mask) copy_to"); dmask(V::size(), nullptr, &mmstore<V>);
  });
}
