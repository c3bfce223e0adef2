// source types for conversions T -> U: around the widths where register counts change
#pragma once
#include "guard.hpp"
#ifndef UPARTS
#define UPARTS 1
#endif
template <class U> constexpr bool pick_type() { return uidx<U>() % UPARTS == PART % UPARTS && (NPARTS == 1 || uidx<U>() < 10 || (uidx<U>() + uidx<TY>() + ISA_IDX) % 3 == 0); }
template <class T, size_t N> constexpr bool fits() { return N >= 1 && N <= stdx::simd_abi::max_fixed_size<T>; }
constexpr unsigned hsh(unsigned a, unsigned b, unsigned c) { unsigned h = a * 2654435761u + b * 40503u + c * 69069u; h ^= h >> 13; h *= 2654435761u; return h >> 16; }
template <class T, class U, size_t N, class F> void conv_at(F& f) {
  if constexpr (fits<T, N>() && fits<U, N>()) {
    using D = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
    using X = stdx::fixed_size_simd<T, N>;
    f((D*)nullptr);
    if constexpr (!std::is_same_v<D, X>) if constexpr (NPARTS == 1 || hsh(N, uidx<T>() * 17 + uidx<U>(), ISA_IDX) % 2) f((X*)nullptr);
  }
}
template <size_t... Ns> using isq = std::index_sequence<Ns...>;
constexpr size_t ODD[] = {3, 5, 6, 7, 9, 11, 12, 13, 15, 17, 19, 21, 24, 27, 31};
template <class T, class U, class F, size_t... I> void odd_all(F& f, isq<I...>) { (conv_at<T, U, ODD[I]>(f), ...); }
template <class T, class U, class F> void for_conv_abis(F f) {
  using namespace stdx;
  constexpr size_t nt = native_simd<T>::size(), nu = native_simd<U>::size(), ct = 16 / sizeof(T) ? 16 / sizeof(T) : 1, cu = 16 / sizeof(U) ? 16 / sizeof(U) : 1;
  conv_at<T, U, nt>(f);
  if constexpr (nu != nt) conv_at<T, U, nu>(f);
  if constexpr (ct != nt && ct != nu) conv_at<T, U, ct>(f);
  if constexpr (cu != nt && cu != nu && cu != ct) conv_at<T, U, cu>(f);
  constexpr size_t m2 = 2 * (nt > nu ? nt : nu);
  if constexpr (m2 <= 32) conv_at<T, U, m2>(f);
  constexpr unsigned h = hsh(uidx<T>(), uidx<U>(), ISA_IDX + 31);
  if constexpr (NPARTS == 1) { odd_all<T, U>(f, std::make_index_sequence<15>()); }
  else { conv_at<T, U, ODD[h % 4]>(f); conv_at<T, U, ODD[4 + h / 4 % 11]>(f); }
  if constexpr (NPARTS == 1 || h % 3 == 0) { f((simd<T, simd_abi::scalar>*)nullptr); if constexpr (!std::is_same_v<fixed_size_simd<T, 1>, simd<T, simd_abi::scalar>>) f((fixed_size_simd<T, 1>*)nullptr); }
}
