// C08: value conversions between simd types
#include "conv.hpp"
using T = TY;
using namespace stdx;
template <class U> using Fn = void (*)(const T*, U*);
template <class U> NOI void drive(size_t N, Fn<U> k, const std::vector<T>& p) {
  Feeder fd(N, p.size(), N);
  T src[64]; U out[64];
  for (size_t n = fd.rounds(); n--;) {
    for (size_t i = 0; i < N; ++i) src[i] = p[fd.next()];
    std::memset((void*)out, 0x5a, sizeof out);
    k(opaque(src), out);
    for (size_t i = 0; i < N; ++i) { Val v[2] = {val(src[i]), val(out[i])}; rec_lane(to_name<U>(false), tname<T>(), v, 2); }
  }
}
template <class D, class V> NOI void kstatic(const T* in, typename D::value_type* out) { D d = static_simd_cast<D>(ld<V>(in)); st(d, out); }
template <class U, class V> NOI void kelem(const T* in, U* out) { auto d = static_simd_cast<U>(ld<V>(in)); static_assert(std::is_same_v<typename decltype(d)::value_type, U> && d.size() == V::size()); st(d, out); }
template <class D, class V> NOI void ksimd(const T* in, typename D::value_type* out) { D d = simd_cast<D>(ld<V>(in)); st(d, out); }
template <class U, class V> NOI void ksimde(const T* in, U* out) { auto d = simd_cast<U>(ld<V>(in)); st(d, out); }
template <class D, class V> NOI void kctor(const T* in, typename D::value_type* out) { D d(ld<V>(in)); st(d, out); }
template <class D, class V> NOI void kimpl(const T* in, typename D::value_type* out) { D d = ld<V>(in); st(d, out); }
template <class V> NOI void kfix(const T* in, T* out) { auto d = to_fixed_size(ld<V>(in)); static_assert(std::is_same_v<decltype(d), fixed_size_simd<T, V::size()>>); st(d, out); }
template <class V> NOI void knat(const T* in, T* out) { auto d = to_native(ld<V>(in)); static_assert(std::is_same_v<decltype(d), native_simd<T>>); st(d, out); }
template <class V> NOI void kcom(const T* in, T* out) { auto d = to_compatible(ld<V>(in)); static_assert(std::is_same_v<decltype(d), simd<T>>); st(d, out); }
// load-convert-store through memory of the other type is C06; a chain of casts:
template <class D, class V> NOI void kback(const T* in, T* out) { auto d = static_simd_cast<D>(ld<V>(in)); st(static_simd_cast<V>(d), out); }

template <class F, class To> constexpr bool vp_conv() {
  if constexpr (std::is_same_v<F, To>) return true;
  else {
    using LF = std::numeric_limits<F>; using LT = std::numeric_limits<To>;
    return LF::digits <= LT::digits && !(LF::is_signed && !LT::is_signed) && LF::max_exponent <= (LT::is_integer ? 1 << 20 : LT::max_exponent) && !(!LF::is_integer && LT::is_integer);
  }
}
template <class V, class U> void one(const std::vector<T>& p) {
  constexpr size_t N = V::size();
  using DD = simd<U, simd_abi::deduce_t<U, N>>;
  using DF = fixed_size_simd<U, N>;
  constexpr bool fixed_src = std::is_same_v<V, fixed_size_simd<T, N>>;
  auto go = [&](auto* d, const char* tag) {
    using D = std::remove_pointer_t<decltype(d)>;
    prov<TL<V, D>>(tag); drive<U>(N, &kstatic<D, V>, p);
  };
  prov<TL<V, U>>("static_simd_cast<U>"); drive<U>(N, &kelem<U, V>, p);
  go((DD*)0, "static_simd_cast<deduced>");
  if constexpr (!std::is_same_v<DF, DD>) go((DF*)0, "static_simd_cast<fixed_size>");
  if constexpr (native_simd<U>::size() == N && !std::is_same_v<native_simd<U>, DD>) go((native_simd<U>*)0, "static_simd_cast<native>");
  if constexpr (N == 1) go((simd<U, simd_abi::scalar>*)0, "static_simd_cast<scalar>");
  if constexpr (vp_conv<T, U>()) {
    prov<TL<V, DD>>("simd_cast<V>"); drive<U>(N, &ksimd<DD, V>, p);
    if constexpr (fixed_src) { prov<TL<V, U>>("simd_cast<U>"); drive<U>(N, &ksimde<U, V>, p); }
  }
  if constexpr (fixed_src) {
    if constexpr (std::is_constructible_v<DF, V>) { prov<TL<V, DF>>("converting constructor"); drive<U>(N, &kctor<DF, V>, p); }
    if constexpr (std::is_convertible_v<V, DF>) { prov<TL<V, DF>>("implicit conversion"); drive<U>(N, &kimpl<DF, V>, p); }
  }
}
template <class V> void same() {
  constexpr size_t N = V::size();
  auto p = value_pool<T>(40);
  prov<V>("to_fixed_size"); drive<T>(N, &kfix<V>, p);
  if constexpr (std::is_same_v<V, fixed_size_simd<T, N>>) {
    if constexpr (N == native_simd<T>::size()) { prov<V>("to_native"); drive<T>(N, &knat<V>, p); }
    if constexpr (N == simd<T>::size()) { prov<V>("to_compatible"); drive<T>(N, &kcom<V>, p); }
  }
}
template <class U> void all_abis() {
  if constexpr (pick_type<U>()) {
    auto p = conv_pool<U, T>(g_tier ? 600 : 60);
    for_conv_abis<T, U>([&](auto* vp) { one<VT, U>(p); });
  }
}
template <class... Us> void all_u(TL<Us...>) { (all_abis<Us>(), ...); }
void run_all() {
  all_u(AllU());
  if constexpr (PART == 0) {
    for_all_abis<T>([&](auto* vp) { same<VT>(); });
    if constexpr (native_simd<T>::size() <= simd_abi::max_fixed_size<T>) same<fixed_size_simd<T, native_simd<T>::size()>>();
    same<fixed_size_simd<T, simd<T>::size()>>();
  }
}
