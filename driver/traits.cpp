// C16: compile-time facts about ABI selection and the traits, emitted as tables of
// integers in the assembly output (the program is never run, so that any target
// with a cross compiler can be examined).
#include <experimental/simd>
#include <cstddef>
#include <utility>
namespace stdx = std::experimental::parallelism_v2;
using T = TY;
using namespace stdx;
template <class X> struct tag { using type = X; };
template <class A, class B> inline constexpr bool same = std::is_same_v<A, B>;
// ---- 0 none, 1 scalar, 2 fixed_size<N>, 3 any other ABI tag
template <class A, int N> constexpr int kind() { return same<A, simd_abi::scalar> ? 1 : same<A, simd_abi::fixed_size<N>> ? 2 : 3; }
template <class U, size_t N, class = void> struct Ded { static constexpr int k = 0; };
template <class U, size_t N> struct Ded<U, N, std::void_t<simd_abi::deduce_t<U, N>>> { using A = simd_abi::deduce_t<U, N>; static constexpr int k = kind<A, N>(); };
template <class V, class = void> constexpr bool complete_default = false;
template <class V> constexpr bool usable() {
  return std::is_default_constructible_v<V> && std::is_copy_constructible_v<V> && std::is_destructible_v<V> && std::is_copy_assignable_v<V> && std::is_nothrow_move_constructible_v<V>;
}
template <class V> constexpr bool disabled() {
  return !std::is_default_constructible_v<V> && !std::is_copy_constructible_v<V> && !std::is_destructible_v<V> && !std::is_copy_assignable_v<V>;
}
// 1 usable, 0 disabled, 2 something in between
template <class V> constexpr int state() { return usable<V>() ? 1 : disabled<V>() ? 0 : 2; }
template <class U, class V, class = void> struct Reb { static constexpr int k = 0, n = 0; static constexpr bool mask = false; };
template <class U, class V> struct Reb<U, V, std::void_t<rebind_simd_t<U, V>>> {
  using R = rebind_simd_t<U, V>;
  static constexpr int n = R::size(), k = kind<typename R::abi_type, R::size()>();
  static constexpr bool mask = is_simd_mask_v<R> && !is_simd_v<R>;
};
template <int M, class V, class = void> struct Res { static constexpr int k = 0, n = 0; static constexpr bool mask = false; };
template <int M, class V> struct Res<M, V, std::void_t<resize_simd_t<M, V>>> {
  using R = resize_simd_t<M, V>;
  static constexpr int n = R::size(), k = kind<typename R::abi_type, R::size()>();
  static constexpr bool mask = is_simd_mask_v<R> && !is_simd_v<R>;
};
template <class U, class A, class = void> struct Size { static constexpr int n = 0; };
template <class U, class A> struct Size<U, A, std::void_t<decltype(simd_size<U, A>::value)>> { static constexpr int n = simd_size_v<U, A>; };

template <class V> constexpr bool members() {
  using M = typename V::mask_type;
  return same<M, simd_mask<typename V::value_type, typename V::abi_type>> && same<typename M::simd_type, V> && same<typename M::value_type, bool>
         && same<typename M::abi_type, typename V::abi_type> && M::size() == V::size() && is_simd_v<V> && !is_simd_mask_v<V> && is_simd_mask_v<M> && !is_simd_v<M>
         && is_abi_tag_v<typename V::abi_type> && simd_size_v<typename V::value_type, typename V::abi_type> == V::size() && usable<M>()
         && same<decltype(V::size()), size_t> && !is_abi_tag_v<V> && !is_abi_tag_v<M>;
}
struct Row { int v[18]; };
template <size_t N> constexpr Row row() {
  Row r = {};
  using D = Ded<T, N>;
  r.v[0] = N; r.v[1] = D::k;
  if constexpr (D::k != 0) {
    using V = simd<T, typename D::A>; using M = typename V::mask_type;
    r.v[2] = V::size(); r.v[3] = sizeof(V); r.v[4] = alignof(V); r.v[5] = memory_alignment_v<V>; r.v[6] = memory_alignment_v<M>;
    r.v[7] = usable<V>() && members<V>() && same<typename V::value_type, T>;
    using R4 = Reb<float, V>; using RL = Reb<long long, V>; using R1 = Reb<signed char, M>;
    r.v[8] = R4::k * 100 + R4::n; r.v[9] = RL::k * 100 + RL::n; r.v[10] = R1::k * 100 + R1::n; r.v[11] = R4::mask + RL::mask * 2 + R1::mask * 4;
    using S2 = Res<(N + 1) / 2, V>; using S3 = Res<2 * N, V>; using SM = Res<N + 1, M>;
    r.v[12] = S2::k * 100 + S2::n; r.v[13] = S3::k * 1000 + S3::n; r.v[14] = SM::k * 100 + SM::n; r.v[15] = S2::mask + S3::mask * 2 + SM::mask * 4;
    r.v[16] = same<typename Reb<T, V>::R, V> + 2 * same<typename Res<N, V>::R, V> + 4 * same<typename Reb<T, M>::R, M> + 8 * same<typename Res<N, M>::R, M>;
    r.v[17] = std::is_trivially_copyable_v<V> + 2 * (memory_alignment_v<V, float> >= alignof(float));
  }
  return r;
}
// fixed_size<N> for N around the limits
struct FRow { int v[12]; };
template <size_t N> constexpr FRow frow() {
  FRow r = {};
  using A = simd_abi::fixed_size<N>; using V = simd<T, A>; using M = simd_mask<T, A>;
  r.v[0] = N; r.v[1] = is_abi_tag_v<A>; r.v[2] = state<V>(); r.v[3] = state<M>();
  if constexpr (usable<V>()) { r.v[4] = V::size(); r.v[5] = members<V>() && same<fixed_size_simd<T, N>, V> && same<fixed_size_simd_mask<T, N>, M>; r.v[6] = sizeof(V); r.v[7] = memory_alignment_v<V>;
    using R4 = Reb<float, V>; using SM = Res<N + 1, M>; using S2 = Res<(N + 1) / 2, V>;
    r.v[8] = R4::k * 100 + R4::n; r.v[9] = SM::k * 100 + SM::n; r.v[10] = S2::k * 100 + S2::n; r.v[11] = same<typename Reb<T, V>::R, V> + 2 * same<typename Res<N, V>::R, V> + 4 * same<typename Reb<T, M>::R, M> + 8 * same<typename Res<N, M>::R, M>; }
  return r;
}
struct S {};
enum E { e };
template <class A> constexpr int badtypes() {
  return !disabled<simd<bool, A>>() + 2 * !disabled<simd<S, A>>() + 4 * !disabled<simd<T*, A>>() + 8 * !disabled<simd<const T, A>>() + 16 * !disabled<simd<simd<T>, A>>() + 32 * !disabled<simd<E, A>>()
         + 64 * !disabled<simd_mask<bool, A>>() + 128 * !disabled<simd_mask<const T, A>>() + 256 * !disabled<simd_mask<void, A>>();
}
template <size_t... I> struct Tab { Row r[sizeof...(I)]; };
template <size_t... I> constexpr Tab<I...> tab(std::index_sequence<I...>) { return {{row<I + 1>()...}}; }
template <size_t... I> struct FTab { FRow r[sizeof...(I)]; };
template <size_t... I> constexpr FTab<I...> ftab(std::index_sequence<I...>) { return {{frow<I>()...}}; }
using N_ = native_simd<T>; using C_ = simd<T>;
struct Gen { int v[24]; };
constexpr Gen gen() {
  Gen g = {};
  g.v[0] = sizeof(T); g.v[1] = simd_abi::max_fixed_size<T>;
  g.v[2] = N_::size(); g.v[3] = kind<typename N_::abi_type, N_::size()>(); g.v[4] = members<N_>() && usable<N_>() && same<N_, simd<T, simd_abi::native<T>>> && same<native_simd_mask<T>, typename N_::mask_type>;
  g.v[5] = C_::size(); g.v[6] = kind<typename C_::abi_type, C_::size()>(); g.v[7] = members<C_>() && usable<C_>() && same<typename C_::abi_type, simd_abi::compatible<T>> && simd_size_v<T> == C_::size();
  g.v[8] = state<simd<T, simd_abi::scalar>>(); g.v[9] = simd<T, simd_abi::scalar>::size();
  g.v[10] = is_simd_flag_type_v<element_aligned_tag> && is_simd_flag_type_v<vector_aligned_tag> && is_simd_flag_type_v<overaligned_tag<64>> && same<decltype(overaligned<32>), const overaligned_tag<32>>
            && same<decltype(element_aligned), const element_aligned_tag> && same<decltype(vector_aligned), const vector_aligned_tag>;
  g.v[11] = is_simd_flag_type_v<T> || is_simd_flag_type_v<N_> || is_simd_flag_type_v<S> || is_simd_flag_type_v<void> || is_simd_flag_type_v<simd_abi::scalar>;
  g.v[12] = is_abi_tag_v<T> || is_abi_tag_v<S> || is_abi_tag_v<void> || is_abi_tag_v<N_> || is_abi_tag_v<element_aligned_tag>;
  g.v[13] = is_simd_v<T> || is_simd_v<S> || is_simd_v<void> || is_simd_v<const N_&> || is_simd_v<N_*> || is_simd_mask_v<T> || is_simd_mask_v<bool> || is_simd_mask_v<void>;
  g.v[14] = badtypes<simd_abi::scalar>(); g.v[15] = badtypes<simd_abi::native<T>>(); g.v[16] = badtypes<simd_abi::fixed_size<4>>();
  g.v[17] = !disabled<simd<T, S>>() + 2 * !disabled<simd<T, int>>() + 4 * !disabled<simd_mask<T, S>>() + 8 * !disabled<simd<T, void>>() + 16 * (Size<T, S>::n != 0) + 32 * (Size<S, simd_abi::scalar>::n != 0) + 64 * (Size<bool, simd_abi::scalar>::n != 0);
  g.v[18] = sizeof(N_); g.v[19] = alignof(N_); g.v[20] = sizeof(C_); g.v[21] = alignof(C_);
  g.v[22] = is_abi_tag_v<simd_abi::scalar> + 2 * is_abi_tag_v<simd_abi::native<T>> + 4 * is_abi_tag_v<simd_abi::compatible<T>> + 8 * is_abi_tag_v<simd_abi::fixed_size<1>> + 16 * is_abi_tag_v<simd_abi::fixed_size<0>>;
  g.v[23] = (Size<T, simd_abi::scalar>::n == 1) + 2 * (Size<T, simd_abi::fixed_size<7>>::n == 7) + 4 * (simd_size_v<T, simd_abi::native<T>> == N_::size());
  return g;
}
// the ABI tag of N lanes of U, used with T
struct XRow { int v[10]; };
template <class U, size_t N> constexpr XRow xrow() {
  XRow r = {};
  using D = Ded<U, N>;
  r.v[0] = N; r.v[1] = D::k;
  if constexpr (D::k == 3) {
    using A = typename D::A; using V = simd<T, A>; using M = simd_mask<T, A>;
    r.v[2] = is_abi_tag_v<A>; r.v[3] = state<V>(); r.v[4] = state<M>(); r.v[5] = Size<T, A>::n;
    if constexpr (usable<V>() && usable<M>()) { r.v[6] = V::size(); r.v[7] = sizeof(V); r.v[8] = memory_alignment_v<V>; r.v[9] = members<V>() + 2 * same<typename V::mask_type, M> + 4 * same<typename V::abi_type, A>; }
  }
  return r;
}
template <size_t... I> struct XTab { XRow r[sizeof...(I)]; };
template <class U, size_t... I> constexpr XTab<I...> xtab(std::index_sequence<I...>) { return {{xrow<U, I + 1>()...}}; }
#define EMIT extern "C" __attribute__((used)) const
EMIT Gen facts_gen = gen();
EMIT auto facts_ded = tab(std::make_index_sequence<66>());
EMIT auto facts_fix = ftab(std::make_index_sequence<70>());
EMIT auto facts_x1 = xtab<signed char>(std::make_index_sequence<64>());
EMIT auto facts_x4 = xtab<float>(std::make_index_sequence<16>());
EMIT auto facts_x8 = xtab<double>(std::make_index_sequence<8>());
