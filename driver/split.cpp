// C10: split, concat, resizing casts
#include "conv.hpp"
#include <array>
using T = TY;
using namespace stdx;
using stdx::__proposed::resizing_simd_cast;
template <class E> using FS = void (*)(const E* const* in, E* out);
// every register position is tagged by a distinct value; a second kind of
// content has arbitrary bits
template <class E> NOI void fillin(E* a, size_t n, int r) {
  for (size_t i = 0; i < n; ++i) {
    if constexpr (std::is_same_v<E, bool>) a[i] = r == 0 ? i % 2 : r == 1 ? i % 3 == 0 : rec_rand() & 1;
    else a[i] = r == 0 ? E(i + 1) : r == 1 ? E(100 - i) : random_value<E>();
  }
}
template <class E> NOI void put_lanes(const E* a, size_t n) {
  W w[160];
  for (size_t i = 0; i < n; ++i) w[i] = bits(a[i]);
  ev_words(w, n, width<E>());
}
template <class E> NOI void drive(const char* op, std::vector<size_t> ins, std::vector<size_t> outs, FS<E> k) {
  for (int r = 0; r < (g_tier ? 12 : 4); ++r) {
    E buf[160], o[160]; const E* in[16]; size_t n = 0;
    rec_seed(mix64(g_seed, ins.size() * 100 + ins[0] + r));
    size_t tot = 0; for (size_t s : ins) tot += s;
    fillin(buf, tot, r);
    for (size_t j = 0; j < ins.size(); ++j) { in[j] = buf + n; n += ins[j]; }
    std::memset((void*)o, 0, sizeof o);
    opaque(buf);
    dirty_stack(0xff);
    k(in, o);
    ev_begin(op, tname<E>());
    const bool split = op[0] == 's', concat = op[0] == 'c';
    if (concat) { ev_open(); for (size_t j = 0, q = 0; j < ins.size(); q += ins[j++]) put_lanes(buf + q, ins[j]); ev_close(); }
    else put_lanes(buf, tot);
    if (split) { ev_open(); for (size_t j = 0, q = 0; j < outs.size(); q += outs[j++]) put_lanes(o + q, outs[j]); ev_close();
      int z[80]; for (size_t j = 0; j < outs.size(); ++j) z[j] = outs[j]; ev_ints(z, outs.size()); }
    else put_lanes(o, outs[0]);
    ev_end();
  }
}
template <class V> void outv(const V& v, typename V::value_type*& o) { st(v, o); o += V::size(); }
template <class M> void outm(const M& m, bool*& o) { for (size_t i = 0; i < M::size(); ++i) o[i] = m[i]; o += M::size(); }
template <class V, size_t... S> NOI void ksplit(const T* const* in, T* o) {
  auto t = split<S...>(ld<V>(in[0]));
  std::apply([&](const auto&... v) { static_assert(((std::decay_t<decltype(v)>::size() == S) && ...)); (outv(v, o), ...); }, t);
}
template <class V, class P> NOI void ksplitv(const T* const* in, T* o) { for (const auto& v : split<P>(ld<V>(in[0]))) outv(v, o); }
template <class M> M mk(const bool* p) { M m(false); for (size_t i = 0; i < M::size(); ++i) m[i] = p[i]; return m; }
template <class M, class P> NOI void ksplitm(const bool* const* in, bool* o) { for (const auto& v : split<P>(mk<M>(in[0]))) outm(v, o); }
template <class... Vs, size_t... I> void kc(const T* const* in, T* o, std::index_sequence<I...>) { outv(concat(ld<Vs>(in[I])...), o); }
template <class... Vs> NOI void kconcat(const T* const* in, T* o) { kc<Vs...>(in, o, std::index_sequence_for<Vs...>()); }
template <class V, size_t N> NOI void kconcata(const T* const* in, T* o) { std::array<V, N> a; for (size_t i = 0; i < N; ++i) a[i] = ld<V>(in[i]); outv(concat(a), o); }
template <class V, size_t... S> NOI void kjoin(const T* const* in, T* o) {   // concat after split
  auto v = ld<V>(in[0]);
  outv(std::apply([](const auto&... x) { return concat(x...); }, split<S...>(v)), o);
}
template <class V, class D> NOI void kres(const T* const* in, T* o) { outv(resizing_simd_cast<D>(ld<V>(in[0])), o); }

template <size_t N> using DV = simd<T, simd_abi::deduce_t<T, N>>;
template <class V, size_t... S> void do_split() {
  if constexpr ((S + ...) == V::size() && ((S > 0) && ...) && sizeof...(S) <= 16) {
    constexpr size_t N = V::size();
    prov<V>("split<Sizes...>"); drive<T>("split", {N}, {S...}, &ksplit<V, S...>);
    if constexpr (hsh(N, sizeof...(S), ISA_IDX) % 2 || NPARTS == 1) { prov<V>("concat(split<Sizes...>)"); drive<T>("resize", {N}, {N}, &kjoin<V, S...>); }
  }
}
template <class V, size_t... I> void do_ones(std::index_sequence<I...>) { do_split<V, (I * 0 + 1)...>(); }
template <class V, class P> void do_splitv() {
  constexpr size_t N = V::size(), K = N / P::size();
  prov<TL<V, P>>("split<V>"); drive<T>("split", {N}, std::vector<size_t>(K, P::size()), &ksplitv<V, P>);
  using M = typename V::mask_type; using Q = typename P::mask_type;
  prov<TL<M, Q>>("split<M>"); drive<bool>("split", {N}, std::vector<size_t>(K, P::size()), &ksplitm<M, Q>);
}
template <class V, size_t D> void by() {
  constexpr size_t N = V::size();
  if constexpr (N % D == 0 && D <= N) {
    constexpr size_t P = N / D;
    if constexpr (fits<T, P>()) {
      do_splitv<V, DV<P>>();
      if constexpr (!std::is_same_v<DV<P>, fixed_size_simd<T, P>> && (NPARTS == 1 || hsh(N, D, ISA_IDX + sizeof(T)) % 2)) do_splitv<V, fixed_size_simd<T, P>>();
      if constexpr (P == native_simd<T>::size() && !std::is_same_v<DV<P>, native_simd<T>>) do_splitv<V, native_simd<T>>();
      if constexpr (P == 1) do_splitv<V, simd<T, simd_abi::scalar>>();
    }
  }
}
template <class V, class D> void res() { prov<TL<V, D>>("resizing_simd_cast"); drive<T>("resize", {V::size()}, {D::size()}, &kres<V, D>); }
template <class V> void one() {
  constexpr size_t N = V::size();
  do_split<V, N>();
  if constexpr (N % 2 == 0) do_split<V, N / 2, N / 2>();
  if constexpr (N % 3 == 0 && N > 2) { do_split<V, N / 3, N / 3, N / 3>(); do_split<V, 2 * N / 3, N / 3>(); do_split<V, N / 3, 2 * N / 3>(); }
  if constexpr (N % 4 == 0 && N > 3) { do_split<V, N / 2, N / 4, N / 4>(); do_split<V, N / 4, N / 4, N / 2>(); do_split<V, N / 4, N / 2, N / 4>(); do_split<V, N / 4, N / 4, N / 4, N / 4>(); do_split<V, 3 * N / 4, N / 4>(); }
  if constexpr (N > 1 && N != 2) { do_split<V, 1, N - 1>(); do_split<V, N - 1, 1>(); }
  if constexpr (N > 4) { constexpr size_t a = 1 + hsh(N, 3, ISA_IDX) % (N - 2), b = N - a, c = 1 + hsh(N, 9, ISA_IDX) % (b - 1 ? b - 1 : 1); if constexpr (b > c) do_split<V, a, c, b - c>(); else do_split<V, a, b>(); }
  if constexpr (N <= 8 && N > 2) do_ones<V>(std::make_index_sequence<N>());
  by<V, 1>(); by<V, 2>(); by<V, 3>(); by<V, 4>(); by<V, 8>();
  if constexpr (N > 1 && N != 2 && N != 3 && N != 4 && N != 8 && N <= 16) by<V, N>();
  // concat
  auto cc = [&](auto*... v) {
    if constexpr ((std::remove_pointer_t<decltype(v)>::size() + ...) <= simd_abi::max_fixed_size<T>) { prov<TL<std::remove_pointer_t<decltype(v)>...>>("concat"); drive<T>("concat", {std::remove_pointer_t<decltype(v)>::size()...}, {(std::remove_pointer_t<decltype(v)>::size() + ...)}, &kconcat<std::remove_pointer_t<decltype(v)>...>); }
  };
  auto v = (V*)0; auto s = (simd<T, simd_abi::scalar>*)0; auto f = (fixed_size_simd<T, 3>*)0; auto c = (simd<T>*)0;
  cc(v); cc(v, v); cc(v, s); cc(s, v); cc(v, v, v); cc(f, v); cc(v, c, s, f); cc(c, v, v); cc(v, v, v, v);
  auto ca = [&](auto k) {
    if constexpr (N * k <= simd_abi::max_fixed_size<T>) { prov<V>("concat(array)"); drive<T>("concat", std::vector<size_t>(k, N), {N * k}, &kconcata<V, k>); }
  };
  ca(std::integral_constant<size_t, 1>()); ca(std::integral_constant<size_t, 2>()); ca(std::integral_constant<size_t, 4>());
  // resizing
  res<V, simd<T, simd_abi::scalar>>(); res<V, simd<T>>(); res<V, native_simd<T>>();
  if constexpr (fits<T, N + 1>()) { res<V, DV<N + 1>>(); if constexpr (!std::is_same_v<fixed_size_simd<T, N + 1>, DV<N + 1>>) res<V, fixed_size_simd<T, N + 1>>(); }
  if constexpr (fits<T, 2 * N>()) res<V, DV<2 * N>>();
  if constexpr (N > 1) res<V, DV<N - 1>>();
  if constexpr (N > 3 && fits<T, N / 2>()) res<V, fixed_size_simd<T, N / 2>>();
  if constexpr (fits<T, N>()) { res<V, DV<N>>(); res<V, fixed_size_simd<T, N>>(); }
}
void run_all() {
  for_all_abis<T>([&](auto* vp) { one<VT>(); });
  if constexpr (fits<T, 12>()) one<DV<12>>();
  if constexpr (fits<T, 24>()) one<fixed_size_simd<T, 24>>();
}
