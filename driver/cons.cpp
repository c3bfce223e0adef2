// C17: which conversions, operators and functions take part in overload resolution,
// as tables of 0/1 facts in the assembly output (never run).
#include <experimental/simd>
#include <cstddef>
#include <utility>
namespace stdx = std::experimental::parallelism_v2;
using namespace stdx;
using std::declval;
using std::void_t;
using T = TY;
template <class... Ts> struct TL {};
using All = TL<bool, signed char, unsigned char, char, short, unsigned short, int, unsigned int, long, unsigned long, long long, unsigned long long, wchar_t, char16_t, char32_t, float, double, long double>;
template <class A, class B> inline constexpr bool same = std::is_same_v<A, B>;

#define BIN(name, expr) \
  template <class A, class B, class = void> struct name { static constexpr bool v = false; using R = void; }; \
  template <class A, class B> struct name<A, B, void_t<decltype(expr)>> { static constexpr bool v = true; using R = decltype(expr); };
#define UN(name, expr) \
  template <class A, class = void> struct name { static constexpr bool v = false; using R = void; }; \
  template <class A> struct name<A, void_t<decltype(expr)>> { static constexpr bool v = true; using R = decltype(expr); };
#define AB(op) declval<A>() op declval<B>()
BIN(Plus, AB(+)) BIN(Minus, AB(-)) BIN(Mul, AB(*)) BIN(Div, AB(/)) BIN(Mod, AB(%)) BIN(And, AB(&)) BIN(Or, AB(|)) BIN(Xor, AB(^)) BIN(Shl, AB(<<)) BIN(Shr, AB(>>))
BIN(Eq, AB(==)) BIN(Ne, AB(!=)) BIN(Lt, AB(<)) BIN(Ge, AB(>=)) BIN(LAnd, AB(&&)) BIN(LOr, AB(||))
BIN(APlus, AB(+=)) BIN(AMinus, AB(-=)) BIN(AMul, AB(*=)) BIN(ADiv, AB(/=)) BIN(AMod, AB(%=)) BIN(AAnd, AB(&=)) BIN(AOr, AB(|=)) BIN(AXor, AB(^=)) BIN(AShl, AB(<<=)) BIN(AShr, AB(>>=)) BIN(Asgn, AB(=))
BIN(Where, where(declval<A>(), declval<B>()))
BIN(SCast, simd_cast<A>(declval<B>())) BIN(StCast, static_simd_cast<A>(declval<B>()))
BIN(CopyFrom, declval<A>().copy_from(declval<B>(), element_aligned)) BIN(CopyTo, declval<A>().copy_to(declval<B>(), element_aligned))
BIN(LoadCtor, A(declval<B>(), element_aligned))
BIN(Mini, min(declval<A>(), declval<B>())) BIN(Maxi, max(declval<A>(), declval<B>()))
UN(Not, !declval<A>()) UN(Compl, ~declval<A>()) UN(Neg, -declval<A>()) UN(Pos, +declval<A>()) UN(PreInc, ++declval<A>()) UN(PostInc, declval<A>()++) UN(PreDec, --declval<A>()) UN(PostDec, declval<A>()--)
UN(Sub, declval<A>()[0]) UN(AllOf, all_of(declval<A>())) UN(PopC, popcount(declval<A>())) UN(HMin, hmin(declval<A>())) UN(Reduce, reduce(declval<A>()))
template <class R> struct Gen { template <class I> R operator()(I) const; };
struct GenNone { };
struct Foo {};
enum En { en };
enum class SEn { e };

using VS = simd<T, simd_abi::scalar>;
using VN = native_simd<T>;
using VF = fixed_size_simd<T, 4>;

// ---- arithmetic sources (and bool)
template <class V, class U> constexpr void scal(int*& p) {
  using M = typename V::mask_type;
  *p++ = std::is_convertible_v<U, V>;
  *p++ = std::is_constructible_v<V, U>;
  *p++ = std::is_convertible_v<const U&, V>;
  *p++ = std::is_assignable_v<V&, U>;
  *p++ = Plus<const V&, U>::v + 2 * Plus<U, const V&>::v + 4 * (Plus<const V&, U>::v && same<typename Plus<const V&, U>::R, V> && same<typename Plus<U, const V&>::R, V>);
  *p++ = Eq<const V&, U>::v + 2 * Eq<U, V>::v + 4 * (Eq<const V&, U>::v && same<typename Eq<V, U>::R, M> && same<typename Eq<U, V>::R, M>);
  *p++ = Lt<V, U>::v + 2 * Ge<U, V>::v + 4 * Div<V, U>::v + 8 * Mul<U, V>::v;
  *p++ = APlus<V&, U>::v + 2 * ADiv<V&, U>::v + 4 * APlus<const V&, U>::v + 8 * APlus<U&, V>::v;
  *p++ = Mod<V, U>::v + 2 * And<U, V>::v + 4 * AXor<V&, U>::v;
  *p++ = std::is_constructible_v<V, Gen<U>> + 2 * std::is_convertible_v<Gen<U>, V>;
  *p++ = std::is_convertible_v<U, M> + 2 * (same<U, bool> && std::is_constructible_v<M, U>) + 4 * LAnd<M, U>::v + 8 * Eq<M, U>::v + 16 * And<U, M>::v + 32 * AOr<M&, U>::v;
  *p++ = CopyFrom<V&, const U*>::v + 2 * CopyTo<const V&, U*>::v + 4 * CopyTo<V&, const U*>::v + 8 * CopyFrom<const V&, const U*>::v + 16 * CopyFrom<V, const U*>::v;
  *p++ = CopyFrom<M&, const U*>::v + 2 * CopyTo<const M&, U*>::v + 4 * CopyTo<M&, const U*>::v + 8 * CopyFrom<const M&, const U*>::v;
  *p++ = Where<U, V&>::v + 2 * Where<U, const V&>::v + 4 * Where<M, U&>::v + 8 * (Where<U, U&>::v);
}
constexpr int SCALW = 14;
struct Scal { int v[18 * 3 * SCALW]; };
template <class... U> constexpr Scal mkscal(TL<U...>) {
  Scal s = {};
  int* p = s.v;
  ((scal<VS, U>(p), scal<VN, U>(p), scal<VF, U>(p)), ...);
  return s;
}
// ---- simd sources
template <class V, class W> constexpr void pair_(int*& p) {
  using M = typename V::mask_type;
  using K = typename W::mask_type;
  *p++ = std::is_convertible_v<W, V> + 2 * std::is_convertible_v<const W&, V>;
  *p++ = std::is_constructible_v<V, W>;
  *p++ = std::is_assignable_v<V&, W>;
  *p++ = Plus<V, W>::v + 2 * Plus<const W&, const V&>::v;
  *p++ = Plus<V, W>::v ? 1 + same<typename Plus<V, W>::R, V> + 2 * same<typename Plus<V, W>::R, W> : 0;
  *p++ = Lt<V, W>::v + 2 * Ne<W, V>::v;
  *p++ = Eq<V, W>::v ? 1 + same<typename Eq<V, W>::R, M> + 2 * same<typename Eq<V, W>::R, K> : 0;
  *p++ = Mod<V, W>::v + 2 * Xor<W, V>::v;
  *p++ = Shl<V, W>::v + 2 * Shr<W, V>::v;
  *p++ = APlus<V&, W>::v + 2 * AMul<V&, W>::v;
  *p++ = StCast<V, W>::v + 2 * (StCast<V, W>::v && same<typename StCast<V, W>::R, V>);
  *p++ = SCast<V, W>::v + 2 * (SCast<V, W>::v && same<typename SCast<V, W>::R, V>);
  *p++ = StCast<T, W>::v + 2 * SCast<T, W>::v;
  *p++ = std::is_convertible_v<K, M> + 2 * std::is_constructible_v<M, K> + 4 * std::is_assignable_v<M&, K>;
  *p++ = LAnd<M, K>::v + 2 * LOr<K, M>::v;
  *p++ = And<M, K>::v + 2 * Xor<M, K>::v;
  *p++ = Eq<M, K>::v + 2 * Ne<M, K>::v;
  *p++ = AAnd<M&, K>::v;
  *p++ = Where<K, V&>::v + 2 * Where<K, const V&>::v;
  *p++ = Where<K, M&>::v;
  *p++ = std::is_convertible_v<W, M> + 2 * std::is_convertible_v<K, V> + 4 * std::is_convertible_v<W, T> + 8 * std::is_convertible_v<K, bool> + 16 * std::is_constructible_v<V, K> + 32 * std::is_constructible_v<M, W>;
  *p++ = Mini<V, W>::v + 2 * Maxi<W, V>::v;
}
constexpr int PAIRW = 22;
struct Pair { int v[17 * 15 * PAIRW]; };
template <class V, class U> constexpr void pairs(int*& p) {
  pair_<V, simd<U, simd_abi::scalar>>(p);
  pair_<V, native_simd<U>>(p);
  pair_<V, simd<U>>(p);
  pair_<V, fixed_size_simd<U, 4>>(p);
  pair_<V, fixed_size_simd<U, VN::size() <= 32 ? VN::size() : 32>>(p);
}
template <class B, class... U> constexpr Pair mkpair(TL<B, U...>) {
  Pair s = {};
  int* p = s.v;
  ((pairs<VS, U>(p), pairs<VN, U>(p), pairs<VF, U>(p)), ...);
  return s;
}
// ---- operators on one type
template <class V> constexpr void ops(int*& p) {
  using M = typename V::mask_type;
  using C = const V&;
  using CM = const M&;
  using R = typename V::reference;
  using MR = typename M::reference;
  auto put = [&p](int x) { *p++ = x; };
  // arithmetic types only get the arithmetic operators
  put(Plus<C, C>::v + 2 * Minus<C, C>::v + 4 * Mul<C, C>::v + 8 * Div<C, C>::v);
  put(Mod<C, C>::v + 2 * And<C, C>::v + 4 * Or<C, C>::v + 8 * Xor<C, C>::v + 16 * Shl<C, C>::v + 32 * Shr<C, C>::v + 64 * Shl<C, int>::v + 128 * Shr<C, int>::v);
  put(AMod<V&, C>::v + 2 * AAnd<V&, C>::v + 4 * AOr<V&, C>::v + 8 * AXor<V&, C>::v + 16 * AShl<V&, C>::v + 32 * AShr<V&, C>::v + 64 * AShl<V&, int>::v + 128 * AShr<V&, int>::v);
  put(APlus<V&, C>::v + 2 * AMinus<V&, C>::v + 4 * AMul<V&, C>::v + 8 * ADiv<V&, C>::v);
  put(APlus<C, C>::v + 2 * AMinus<C, C>::v + 4 * AMul<C, C>::v + 8 * ADiv<C, C>::v + 16 * AMod<C, C>::v + 32 * AAnd<C, C>::v + 64 * AShl<C, C>::v + 128 * AShl<C, int>::v);
  put(Compl<C>::v + 2 * Not<C>::v + 4 * Neg<C>::v + 8 * Pos<C>::v);
  put(PreInc<V&>::v + 2 * PostInc<V&>::v + 4 * PreDec<V&>::v + 8 * PostDec<V&>::v + 16 * PreInc<C>::v + 32 * PostInc<C>::v + 64 * PreDec<C>::v + 128 * PostDec<C>::v);
  put(Eq<C, C>::v + 2 * Ne<C, C>::v + 4 * Lt<C, C>::v + 8 * Ge<C, C>::v + 16 * LAnd<C, C>::v + 32 * LOr<C, C>::v);
  // result types
  put(same<typename Plus<C, C>::R, V> + 2 * same<typename Neg<C>::R, V> + 4 * same<typename Not<C>::R, M> + 8 * same<typename Eq<C, C>::R, M> + 16 * same<typename APlus<V&, C>::R, V&> + 32 * same<typename PreInc<V&>::R, V&> + 64 * same<typename PostDec<V&>::R, V>);
  // masks: logical and bitwise only
  put(LAnd<CM, CM>::v + 2 * LOr<CM, CM>::v + 4 * And<CM, CM>::v + 8 * Or<CM, CM>::v + 16 * Xor<CM, CM>::v + 32 * Eq<CM, CM>::v + 64 * Ne<CM, CM>::v + 128 * Not<CM>::v);
  put(AAnd<M&, CM>::v + 2 * AOr<M&, CM>::v + 4 * AXor<M&, CM>::v + 8 * AAnd<CM, CM>::v + 16 * AOr<CM, CM>::v + 32 * AXor<CM, CM>::v);
  put(Plus<M, M>::v + 2 * Minus<M, M>::v + 4 * Mul<M, M>::v + 8 * Div<M, M>::v + 16 * Mod<M, M>::v + 32 * Lt<M, M>::v + 64 * Ge<M, M>::v + 128 * Shl<M, M>::v + 256 * Shl<M, int>::v + 512 * Neg<M>::v + 1024 * PreInc<M&>::v + 2048 * APlus<M&, M>::v);
  put(same<typename LAnd<CM, CM>::R, M> + 2 * same<typename And<CM, CM>::R, M> + 4 * same<typename Eq<CM, CM>::R, M> + 8 * same<typename Not<CM>::R, M>);
  // element access: reference only through a non-const object, assignable only as rvalue
  put(same<typename Sub<V&>::R, R> + 2 * same<typename Sub<C>::R, T> + 4 * same<typename Sub<M&>::R, MR> + 8 * same<typename Sub<CM>::R, bool>);
  put(Asgn<R, T>::v + 2 * Asgn<R&, T>::v + 4 * Asgn<const R, T>::v + 8 * Asgn<const R&, T>::v + 16 * Asgn<typename Sub<C>::R, T>::v);
  put(APlus<R, T>::v + 2 * APlus<R&, T>::v + 4 * PreInc<R>::v + 8 * PreInc<R&>::v + 16 * PostInc<R>::v + 32 * PostInc<R&>::v + 64 * APlus<const R, T>::v);
  put(AMod<R, T>::v + 2 * AAnd<R, T>::v + 4 * AShl<R, T>::v);
  put(std::is_copy_constructible_v<R> + 2 * std::is_move_constructible_v<R> + 4 * std::is_copy_assignable_v<R> + 8 * std::is_default_constructible_v<R> + 16 * !std::is_convertible_v<R, T> + 32 * !std::is_convertible_v<MR, bool> + 64 * Asgn<MR&, bool>::v + 128 * !Asgn<MR, bool>::v);
  // where
  using W = typename Where<CM, V&>::R;
  using CW = typename Where<CM, C>::R;
  using KW = typename Where<CM, M&>::R;
  put(Where<CM, V&>::v + 2 * Where<CM, C>::v + 4 * Where<CM, M&>::v + 8 * Where<CM, CM>::v + 16 * Where<bool, V&>::v + 32 * Where<bool, C>::v + 64 * Where<int, V&>::v + 128 * Where<bool, M&>::v * 0);
  put(same<W, where_expression<M, V>> + 2 * same<CW, const_where_expression<M, V>> + 4 * same<KW, where_expression<M, M>> + 8 * same<typename Where<CM, CM>::R, const_where_expression<M, M>>);
  put(Asgn<W, C>::v + 2 * Asgn<W&, C>::v + 4 * Asgn<CW, C>::v + 8 * Asgn<const W, C>::v + 16 * APlus<W, C>::v + 32 * APlus<W&, C>::v + 64 * APlus<CW, C>::v + 128 * PreInc<W>::v + 256 * PreInc<W&>::v + 512 * PreInc<CW>::v);
  put(CopyFrom<W, const T*>::v + 2 * CopyFrom<W&, const T*>::v + 4 * CopyFrom<CW, const T*>::v * 0 + 8 * CopyTo<W, T*>::v + 16 * CopyTo<CW, T*>::v + 32 * CopyTo<CW, const T*>::v + 64 * Neg<CW>::v + 128 * Compl<CW>::v);
  put(std::is_copy_constructible_v<W> + 2 * std::is_copy_assignable_v<W> + 4 * std::is_default_constructible_v<W> + 8 * std::is_copy_constructible_v<CW>);
  // foreign sources
  put(std::is_constructible_v<V, Foo> + 2 * std::is_constructible_v<V, T*> + 4 * std::is_constructible_v<V, SEn> + 8 * std::is_constructible_v<V, void*> + 16 * std::is_constructible_v<V, GenNone> + 32 * std::is_constructible_v<M, Foo> + 64 * std::is_constructible_v<V, Gen<Foo>> + 128 * std::is_convertible_v<std::nullptr_t, V>);
  put(Plus<V, Foo>::v + 2 * Plus<Foo, V>::v + 4 * Eq<V, Foo>::v + 8 * APlus<V&, Foo>::v + 16 * Where<Foo, V&>::v + 32 * CopyFrom<V&, const Foo*>::v + 64 * CopyTo<V&, Foo*>::v + 128 * StCast<V, Foo>::v + 256 * SCast<Foo, V>::v + 512 * StCast<Foo, V>::v + 1024 * SCast<bool, V>::v + 2048 * Plus<V, SEn>::v);
  put(AllOf<M>::v + 2 * AllOf<V>::v + 4 * PopC<M>::v + 8 * PopC<V>::v + 16 * HMin<V>::v + 32 * HMin<M>::v + 64 * HMin<CW>::v + 128 * Reduce<V>::v + 256 * Reduce<M>::v + 512 * AllOf<bool>::v + 1024 * AllOf<int>::v + 2048 * AllOf<T>::v);
  put(std::is_constructible_v<M, bool> + 2 * std::is_convertible_v<bool, M> + 4 * LAnd<M, bool>::v + 8 * std::is_convertible_v<M, bool> + 16 * std::is_convertible_v<V, bool> + 32 * std::is_convertible_v<M, V> + 64 * Plus<V, M>::v + 128 * Mul<M, V>::v + 256 * Eq<V, M>::v + 512 * And<V, M>::v);
}
constexpr int OPSW = 27;
struct Ops { int v[3 * OPSW]; };
constexpr Ops mkops() {
  Ops s = {};
  int* p = s.v;
  ops<VS>(p); ops<VN>(p); ops<VF>(p);
  return s;
}
#define EMIT extern "C" __attribute__((used)) const
#if PART != 1
EMIT Scal facts_scal = mkscal(All());
EMIT Ops facts_ops = mkops();
#endif
#if PART != 0
EMIT Pair facts_pair = mkpair(All());
#endif
