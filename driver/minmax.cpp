// C13: min, max, minmax, clamp
#include "lanes.hpp"
using T = TY;
OP2(Min, min(a, b)) OP2(Max, max(a, b)) OP2(MM1, minmax(a, b).first) OP2(MM2, minmax(a, b).second)
template <class T> bool ordered(T a, T b) { return a == a && b == b; }
// both results of one call
typedef void (*MMK)(const T*, const T*, T*, T*);
template <class V> NOI void mmk(const T* a, const T* b, T* x, T* y) { auto [p, q] = minmax(ld<V>(a), ld<V>(b)); st(p, x); st(q, y); }
typedef void (*CK)(const T*, const T*, const T*, T*);
template <class V> NOI void ck(const T* v, const T* lo, const T* hi, T* r) { st(clamp(ld<V>(v), ld<V>(lo), ld<V>(hi)), r); }
NOI void drive_mm(size_t N, MMK f, const Pairs<T>& p) {
  Feeder fd(N, p.n(), 99);
  T a[64], b[64], x[64], y[64];
  for (size_t k = fd.rounds(); k--;) {
    for (size_t i = 0; i < N; ++i) { size_t j = fd.next(); a[i] = p.a[j]; b[i] = p.b[j]; if (!ordered(a[i], b[i])) a[i] = T(2), b[i] = T(1); }
    f(a, b, x, y);
    for (size_t i = 0; i < N; ++i) {
      Val v[3] = {val(a[i]), val(b[i]), val(x[i])}; rec_lane("min", tname<T>(), v, 3);
      v[2] = val(y[i]); rec_lane("max", tname<T>(), v, 3);
    }
  }
}
NOI void drive_c(size_t N, CK f, const std::vector<T>& pool, int rounds) {
  rec_seed(mix64(mix64(g_seed, N), ISA_IDX));
  T v[64], lo[64], hi[64], r[64];
  for (int k = 0; k < rounds; ++k) {
    for (size_t i = 0; i < N; ++i) {
      auto pick = [&] { T x; do x = pool[rec_rand() % pool.size()]; while (x != x); return x; };
      v[i] = pick(); lo[i] = pick(); hi[i] = pick();
      if (rec_rand() % 4 == 0) v[i] = rec_rand() & 1 ? lo[i] : hi[i];
      if (rec_rand() % 8 == 0) hi[i] = lo[i];
      if (hi[i] < lo[i]) std::swap(lo[i], hi[i]);
    }
    f(opaque(v), opaque(lo), opaque(hi), r);
    for (size_t i = 0; i < N; ++i) { Val x[4] = {val(v[i]), val(lo[i]), val(hi[i]), val(r[i])}; rec_lane("clamp", tname<T>(), x, 4); }
  }
}
void run_all() {
  auto pp = pair_pool<T>(900, 500);
  auto pool = value_pool<T>(100);
  for_all_abis<T>([&](auto* vp) {
    using V = VT;
    lane2<V>("min", "min", pp, Min(), &ordered<T>);
    lane2<V>("max", "max", pp, Max(), &ordered<T>);
    prov<V>("minmax"); drive_mm(V::size(), &mmk<V>, pp);
    prov<V>("clamp"); drive_c(V::size(), &ck<V>, pool, (g_tier ? 300 : 48) / int(V::size() > 16 ? 16 : V::size()) + 1);
  });
}
