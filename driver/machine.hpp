// The register machine of spec/Simd.tla, executed by the real library.  ins<op>
// is always inlined: with literal arguments everything is visible to the
// optimiser (C19), with run-time arguments nothing is (C18).
#pragma once
#include "common.hpp"
using T = TY;
using namespace stdx;
using namespace stdx::__proposed;
#define OPLIST(X) X(nop) X(opq) X(olane) X(omlane) X(const) X(sconst) X(iota) X(copy) X(bclane) X(setlane) X(addlane) X(add) X(sub) X(mul) X(div) X(and) X(or) X(xor) X(min) X(max) \
  X(abs) X(trunc) X(floor) X(ceil) X(sqrt) X(copysign) X(neg) X(not) X(inc) X(dec) X(shl) X(shr) X(shlv) X(shrv) X(pinc) X(divc) X(load) X(loada) X(store) X(mload) X(mstore) X(wcopy) X(wconst) X(wsconst) X(wadd) X(wsub) X(wmul) X(wand) \
  X(winc) X(wdec) X(wneg) X(wshl) X(wor) X(wxor) X(wshr) X(clamp) X(cvt) X(memw) X(mmemw) X(swapl) X(rotc) X(revq) X(fixc) X(wide) X(swaph) X(rot) X(eq) X(ne) X(lt) X(le) X(gt) X(ge) X(mlnot) X(isnan) X(isfinite) X(signbit) X(mconst) X(mnot) X(mand) X(mland) X(mor) X(mlor) \
  X(mxor) X(mne) X(meq) X(mcopy) X(mfix) X(mwide) X(mcvt) X(mswapl) X(mset) X(mwcopy) X(mwconst) X(mswaph) X(bload) X(bstore) X(mbload) X(mbstore) X(mred) X(hsum) X(hxor) X(hmin) X(hmul) X(hand) X(hor) X(whmin) X(whsum) X(get)
#define X(n) O_##n,
enum Op { OPLIST(X) NOPS };
#undef X
#define X(n) #n,
static const char* const opname[NOPS] = {OPLIST(X)};
#undef X
#define AI [[gnu::always_inline]] inline
struct Ins { int op, d, a, b, k, imm; };
struct Out { T w[2]; int i[7]; int nw, ni; const char* s; };
template <class E> AI constexpr E special_(int k) {
  using T = E;
  using L = std::numeric_limits<T>;
  k %= 8;
  if constexpr (std::is_floating_point_v<T>)
    return k == 0 ? T(0) : k == 1 ? -T(0) : k == 2 ? L::infinity() : k == 3 ? -L::infinity() : k == 4 ? L::quiet_NaN() : k == 5 ? L::max() : k == 6 ? L::denorm_min() : T(1.5);
  else {
    using U = std::make_unsigned_t<T>;
    constexpr int w = sizeof(T) * 8;
    return T(k == 0 ? U(-1) : k == 1 ? U(U(1) << (w - 1)) : k == 2 ? U(U(1) << w / 2) : k == 3 ? U(~U(U(1) << (w - 1))) : k == 4 ? U(0) : k == 5 ? U(1) : k == 6 ? U(U(15) << (w / 2 - 2)) : U(127));
  }
}
AI constexpr T special(int k) { return special_<T>(k); }
constexpr bool FP = std::is_floating_point_v<T>;
// a type every value of T survives in
template <class U> constexpr auto wider() {
  if constexpr (std::is_same_v<U, float>) return double();
  else if constexpr (std::is_floating_point_v<U>) { using L = long double; return L(); }
  else if constexpr (sizeof(U) == 1) return std::conditional_t<std::is_signed_v<U>, short, unsigned short>();
  else if constexpr (sizeof(U) == 2) return std::conditional_t<std::is_signed_v<U>, int, unsigned>();
  else if constexpr (sizeof(U) == 4) return std::conditional_t<std::is_signed_v<U>, long, unsigned long>();
  else return std::conditional_t<std::is_signed_v<U>, unsigned long, long>();
}
// the other type of a conversion instruction: two for each simd type
using CVT = TL<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, float, double>;
template <int i, class... Us> auto nth(TL<Us...>) { return std::get<i>(std::tuple<Us...>()); }
constexpr unsigned mix(unsigned a, unsigned b, unsigned c) { unsigned h = a * 2654435761u + b * 40503u + c * 69069u; h ^= h >> 13; h *= 2654435761u; return h >> 16; }
template <class V, int which> constexpr auto other() {
  constexpr unsigned h = mix(V::size() * 16 + sizeof(T) + std::is_signed_v<T>, ISA_IDX + 8 * FP, std::is_same_v<V, fixed_size_simd<T, V::size()>>);
  using U = decltype(nth<(which ? h + 1 + h / 16 % 9 : h) % 10>(CVT()));
  if constexpr (V::size() > simd_abi::max_fixed_size<U> || (FP && std::is_floating_point_v<U>)) { if constexpr (FP) return int(); else return T(); }
  else return U();
}
template <class V> constexpr auto wide_or_int(int) {
  using U = decltype(other<V, 0>());
  if constexpr (!FP && std::is_integral_v<U>) return U();
  else return wider<T>();
}
template <class V> struct Mach {
  using M = typename V::mask_type;
  static constexpr int N = V::size();
  V v[4];
  M m[3];
  T mem[2 * N];
  bool bm[2 * N];
};
template <class V> void init(Mach<V>& s) {
  using M = typename V::mask_type;
  for (V& x : s.v) x = V(T(0));
  for (M& x : s.m) x = M(false);
  for (int i = 0; i < 2 * V::size(); ++i) { s.mem[i] = T(0); s.bm[i] = false; }
}
template <class X> AI void hide(X& x) { X t = x; asm volatile("" : "+m"(t)); x = t; }
template <class V> AI V swap_halves(const V& x) {
  constexpr size_t N = V::size();
  if constexpr (N % 2 == 0) { auto t = split<N / 2, N / 2>(x); return static_simd_cast<V>(concat(std::get<1>(t), std::get<0>(t))); }
  else return x;
}
template <class M> AI M mswap_halves(const M& x) {
  constexpr size_t N = M::size();
  if constexpr (N % 2 == 0) {
    using P = simd_mask<T, simd_abi::deduce_t<T, N / 2>>;
    auto t = split<P>(x);
    M q(false);
    for (size_t i = 0; i < N / 2; ++i) { q[i] = bool(t[1][i]); q[i + N / 2] = bool(t[0][i]); }
    return q;
  }
  else return x;
}
template <size_t... C, class V, size_t... I> AI V reversed_chunks(const V& x, std::index_sequence<I...>) {
  constexpr size_t Q = V::size() / sizeof...(I);
  auto t = split<simd<T, simd_abi::deduce_t<T, Q>>>(x);
  return static_simd_cast<V>(concat(t[sizeof...(I) - 1 - I]...));
}
template <class V> AI V uneven(const V& x) {
  constexpr size_t N = V::size(), C = N / 3;
  if constexpr (C == 0) return x;
  else { auto t = split<C, N - C>(x); return static_simd_cast<V>(concat(std::get<1>(t), std::get<0>(t))); }
}
// through U and back: exactly for integers and floating point alike
template <class U, class V> AI V convert(const V& A) {
  constexpr int W = sizeof(T) * 8, UW = sizeof(U) * 8;
  if constexpr (FP) {
    V t = A;
    if constexpr (!std::is_signed_v<U>) t = abs(A);
    where(!(abs(A) < T(U(1) << (UW - 2)) * T(std::is_signed_v<U> ? 2 : 4)), t) = T(0);
    return static_simd_cast<V>(static_simd_cast<U>(t));
  } else if constexpr (std::is_floating_point_v<U>) {
    constexpr int D = std::numeric_limits<U>::digits;
    if constexpr (W > D) return static_simd_cast<V>(static_simd_cast<U>(V(A >> (W - D))));
    else return static_simd_cast<V>(static_simd_cast<U>(A));
  } else return static_simd_cast<V>(static_simd_cast<U>(A));
}
template <class V> constexpr bool has_fixed = V::size() <= simd_abi::max_fixed_size<T>;
// C18 operates on the registers in place, C19 on copies, so that no register's
// own address gets further than this function
template <Op op, bool copies, class V, class M = typename V::mask_type>
AI void ins(V& D_, V& A_, V& B_, M& MD_, M& MA_, M& MB_, M& K_, T* mem, bool* bm, int d, int a, int b, int k, int imm, Out& o) {
  constexpr int N = V::size();
  using RV = std::conditional_t<copies, V, V&>;
  using RM = std::conditional_t<copies, M, M&>;
  RV D = D_, A = A_, B = B_;
  RM MD = MD_, MA = MA_, MB = MB_, K = K_;
  const int off = imm % (N + 1);
  o.nw = o.ni = 0;
  o.s = nullptr;
  if constexpr (op == O_nop) ;
  else if constexpr (op == O_opq) { hide(D); hide(K); if constexpr (copies) K_ = K; }
  else if constexpr (op == O_olane) { T x = D[imm % N]; hide(x); D[imm % N] = x; }
  else if constexpr (op == O_omlane) { bool x = K[imm % N]; hide(x); K[imm % N] = x; if constexpr (copies) K_ = K; }
  else if constexpr (op == O_const) D = T(imm);
  else if constexpr (op == O_sconst) D = special(imm);
  else if constexpr (op == O_iota) D = V([&](auto i) { return T(imm % 16 + int(i)); });
  else if constexpr (op == O_copy) D = A;
  else if constexpr (op == O_bclane) D = T(A[imm % N]);
  else if constexpr (op == O_setlane) D[((k + imm) % N + N) % N] = T(imm);
  else if constexpr (op == O_addlane) D[imm % N] += T(A[imm % N]);
  else if constexpr (op == O_add) D = A + B;
  else if constexpr (op == O_sub) D = A - B;
  else if constexpr (op == O_mul) D = A * B;
  else if constexpr (op == O_div) D = A / B;
  else if constexpr (op == O_and) D = A & B;
  else if constexpr (op == O_or) D = A | B;
  else if constexpr (op == O_xor) D = A ^ B;
  else if constexpr (op == O_min) D = min(A, B);
  else if constexpr (op == O_max) D = max(A, B);
  else if constexpr (op == O_neg) D = -A;
  else if constexpr (op == O_not) D = ~A;
  else if constexpr (op == O_abs) D = abs(A);
  else if constexpr (op == O_trunc) D = trunc(A);
  else if constexpr (op == O_floor) D = floor(A);
  else if constexpr (op == O_ceil) D = ceil(A);
  else if constexpr (op == O_sqrt) D = sqrt(A);
  else if constexpr (op == O_copysign) D = copysign(A, B);
  else if constexpr (op == O_inc) { V t = A; ++t; D = t; }
  else if constexpr (op == O_dec) { V t = A; --t; D = t; }
  else if constexpr (op == O_shl) D = A << (imm % int(sizeof(T) * 8));
  else if constexpr (op == O_shr) D = A >> (imm % int(sizeof(T) * 8));
  else if constexpr (op == O_shlv) D = A << (B & T(sizeof(T) * 8 - 1));
  else if constexpr (op == O_shrv) D = A >> (B & T(sizeof(T) * 8 - 1));
  else if constexpr (op == O_pinc) { if (a != d) { V t = A++; D = t; if constexpr (copies) A_ = A; } }
  else if constexpr (op == O_divc) { if (d != b) { V t = A; D = t / T(imm); B = t % T(imm); if constexpr (copies) B_ = B; } }
  else if constexpr (op == O_load) D.copy_from(mem + off, element_aligned);
  else if constexpr (op == O_loada) { alignas(memory_alignment_v<V>) T t[N]; for (int i = 0; i < N; ++i) t[i] = mem[i]; D = V(t, vector_aligned); }
  else if constexpr (op == O_store) A.copy_to(mem + off, element_aligned);
  else if constexpr (op == O_mload) where(K, D).copy_from(mem + off, element_aligned);
  else if constexpr (op == O_mstore) where(K, A).copy_to(mem + off, element_aligned);
  else if constexpr (op == O_wcopy) where(K, D) = A;
  else if constexpr (op == O_wconst) where(K, D) = T(imm);
  else if constexpr (op == O_wsconst) where(K, D) = special(imm);
  else if constexpr (op == O_wadd) where(K, D) += A;
  else if constexpr (op == O_wsub) where(K, D) -= A;
  else if constexpr (op == O_wmul) where(K, D) *= A;
  else if constexpr (op == O_wand) where(K, D) &= A;
  else if constexpr (op == O_winc) ++where(K, D);
  else if constexpr (op == O_wdec) where(K, D)--;
  else if constexpr (op == O_wneg) { const V t = A; D = -where(K, t); }
  else if constexpr (op == O_wshl) where(K, D) <<= V(T(imm % int(sizeof(T) * 8)));
  else if constexpr (op == O_wor) where(K, D) |= A;
  else if constexpr (op == O_wxor) where(K, D) ^= A;
  else if constexpr (op == O_wshr) where(K, D) >>= V(T(imm % int(sizeof(T) * 8)));
  else if constexpr (op == O_clamp) { const V x = min(B, D), y = max(B, D); D = clamp(A, x, y); }
  else if constexpr (op == O_cvt) {
    using U = decltype(other<V, 0>()); using U2 = decltype(other<V, 1>());
    if (imm % 2) { o.s = tname<U>(); D = convert<U>(A); } else { o.s = tname<U2>(); D = convert<U2>(A); }
  }
  else if constexpr (op == O_memw || op == O_mmemw) {
    using U = decltype(wide_or_int<V>(0));
    o.s = tname<U>();
    U t[N];
    if constexpr (op == O_memw) { V(A).copy_to(t, element_aligned); }
    else { for (int i = 0; i < N; ++i) t[i] = U(mem[i]); where(K, A).copy_to(t, element_aligned); }
    D.copy_from(t, element_aligned);
  }
  else if constexpr (op == O_swapl) { if (a != d) { swap(D[imm % N], A[k % N]); if constexpr (copies) A_ = A; } }
  else if constexpr (op == O_rotc) D = uneven(V(A));
  else if constexpr (op == O_revq) { if constexpr (N % 4 == 0) D = reversed_chunks(V(A), std::make_index_sequence<4>()); else D = A; }
  else if constexpr (op == O_fixc) { if constexpr (has_fixed<V>) D = static_simd_cast<V>(to_fixed_size(A)); else D = A; }
  else if constexpr (op == O_wide) { if constexpr (N <= simd_abi::max_fixed_size<decltype(wider<T>())>) D = static_simd_cast<V>(static_simd_cast<decltype(wider<T>())>(A)); else D = A; }
  else if constexpr (op == O_swaph) D = swap_halves(A);
  else if constexpr (op == O_rot) { const V t = A; D = V([&](auto i) { return T(t[(int(i) + imm) % N]); }); }
  else if constexpr (op == O_eq) MD = A == B;
  else if constexpr (op == O_ne) MD = A != B;
  else if constexpr (op == O_lt) MD = A < B;
  else if constexpr (op == O_le) MD = A <= B;
  else if constexpr (op == O_gt) MD = A > B;
  else if constexpr (op == O_ge) MD = A >= B;
  else if constexpr (op == O_mlnot) MD = !A;
  else if constexpr (op == O_isnan) MD = isnan(A);
  else if constexpr (op == O_isfinite) MD = isfinite(A);
  else if constexpr (op == O_signbit) MD = signbit(A);
  else if constexpr (op == O_mconst) MD = M(bool(imm % 2));
  else if constexpr (op == O_mnot) MD = !MA;
  else if constexpr (op == O_mand) MD = MA & MB;
  else if constexpr (op == O_mland) MD = MA && MB;
  else if constexpr (op == O_mor) MD = MA | MB;
  else if constexpr (op == O_mlor) MD = MA || MB;
  else if constexpr (op == O_mxor) MD = MA ^ MB;
  else if constexpr (op == O_mne) MD = MA != MB;
  else if constexpr (op == O_meq) MD = MA == MB;
  else if constexpr (op == O_mcopy) MD = MA;
  else if constexpr (op == O_mfix) { if constexpr (has_fixed<V>) MD = static_simd_cast<M>(to_fixed_size(MA)); else MD = MA; }
  else if constexpr (op == O_mwide) { if constexpr (N <= simd_abi::max_fixed_size<decltype(wider<T>())>) MD = static_simd_cast<M>(static_simd_cast<fixed_size_simd_mask<decltype(wider<T>()), N>>(MA)); else MD = MA; }
  else if constexpr (op == O_mcvt) {
    using U = decltype(other<V, 0>()); using U2 = decltype(other<V, 1>());
    const M t = MA;
    if (imm % 2) MD = static_simd_cast<M>(static_simd_cast<fixed_size_simd_mask<U, N>>(t)); else MD = static_simd_cast<M>(static_simd_cast<fixed_size_simd_mask<U2, N>>(t));
  }
  else if constexpr (op == O_mswapl) { if ((a - 1) % 3 != (d - 1) % 3) { swap(MD[imm % N], MA[k % N]); if constexpr (copies) MA_ = MA; } }
  else if constexpr (op == O_mset) MD[imm % N] = k % 2 == 1;
  else if constexpr (op == O_mwcopy) where(K, MD) = MA;
  else if constexpr (op == O_mwconst) where(K, MD) = bool(imm % 2);
  else if constexpr (op == O_mswaph) MD = mswap_halves(MA);
  else if constexpr (op == O_bload) MD.copy_from(bm + off, element_aligned);
  else if constexpr (op == O_bstore) MA.copy_to(bm + off, element_aligned);
  else if constexpr (op == O_mbload) where(K, MD).copy_from(bm + off, element_aligned);
  else if constexpr (op == O_mbstore) where(K, MA).copy_to(bm + off, element_aligned);
  else if constexpr (op == O_mred) {
    o.ni = 7;
    o.i[0] = all_of(MA); o.i[1] = any_of(MA); o.i[2] = none_of(MA); o.i[3] = some_of(MA); o.i[4] = popcount(MA);
    o.i[5] = any_of(MA) ? find_first_set(MA) : -1; o.i[6] = any_of(MA) ? find_last_set(MA) : -1;
  }
  else if constexpr (op == O_hsum) { o.nw = 1; o.w[0] = reduce(A); }
  else if constexpr (op == O_hxor) { o.nw = 1; o.w[0] = reduce(A, std::bit_xor<>()); }
  else if constexpr (op == O_hmin) { o.nw = 2; o.w[0] = hmin(A); o.w[1] = hmax(A); }
  else if constexpr (op == O_hmul) { o.nw = 1; o.w[0] = reduce(A, std::multiplies<>()); }
  else if constexpr (op == O_hand) { o.nw = 1; o.w[0] = reduce(A, std::bit_and<>()); }
  else if constexpr (op == O_hor) { o.nw = 1; o.w[0] = reduce(A, std::bit_or<>()); }
  else if constexpr (op == O_whmin) { o.nw = 2; o.w[0] = hmin(where(K, A)); o.w[1] = hmax(where(K, A)); }
  else if constexpr (op == O_whsum) { o.nw = 1; o.w[0] = reduce(where(K, A), std::plus<>()); }
  else if constexpr (op == O_get) { o.nw = 1; o.w[0] = A[imm % N]; }
  if constexpr (copies) { if constexpr (op >= O_eq && op <= O_mbload) { if (!(op == O_mswapl && (a - 1) % 3 == (d - 1) % 3)) MD_ = MD; } else if (!((op == O_pinc || op == O_swapl) && a == d) && !(op == O_divc && d == b)) D_ = D; }
}
constexpr bool valid(int op) {
  if (FP) return op != O_and && op != O_or && op != O_xor && op != O_not && op != O_shl && op != O_shr && op != O_shlv && op != O_shrv && op != O_divc && op != O_wand && op != O_wshl
    && op != O_wor && op != O_wxor && op != O_wshr && op != O_clamp && op != O_hmul && op != O_hand && op != O_hor && op != O_whmin && op != O_hsum && op != O_hxor && op != O_hmin && op != O_whsum && op != O_min && op != O_max;
  return op != O_div && op != O_trunc && op != O_floor && op != O_ceil && op != O_sqrt && op != O_copysign && op != O_isnan && op != O_isfinite && op != O_signbit && !(op == O_abs && !std::is_signed_v<T>);
}

// ---- recording: only what changed since the last step -------------------
struct Shadow { T v[4][64]; bool m[3][64]; T mem[128]; bool bm[128]; int N; };
inline Shadow g_sh;
inline void sh_begin(int N) {
  std::memset(&g_sh, 0, sizeof g_sh);
  g_sh.N = N;
  ev_begin("prog", tname<T>());
  ev_int(N);
  ev_open();
}
inline void sh_end() { ev_close(); ev_end(); }
NOI inline void sh_ins(const Ins& x, const Out& o) {
  ev_open();
  ev_open(); ev_str(opname[x.op]); for (int y : {x.d, x.a, x.b, x.k, x.imm}) ev_int(y); ev_close();
  ev_open();
  if (o.s) ev_str(o.s);
  for (int i = 0; i < o.nw; ++i) ev_word(bits(o.w[i]), width<T>());
  for (int i = 0; i < o.ni; ++i) ev_int(o.i[i]);
  ev_close();
  ev_open();
}
NOI inline void sh_ins_end() { ev_close(); ev_close(); }
inline void sh_words(const char* what, int r, const T* now, T* old, int n) {
  bool same = true;
  for (int i = 0; i < n; ++i) same &= bits(now[i]) == bits(old[i]);
  if (same) return;
  W w[128];
  for (int i = 0; i < n; ++i) { w[i] = bits(now[i]); old[i] = now[i]; }
  ev_open(); ev_str(what); ev_int(r + 1); ev_words(w, n, width<T>()); ev_close();
}
inline void sh_bools(const char* what, int r, const bool* now, bool* old, int n) {
  if (!std::memcmp(now, old, n)) return;
  unsigned char b[128];
  for (int i = 0; i < n; ++i) { unsigned char c; std::memcpy(&c, now + i, 1); b[i] = c; }
  std::memcpy(old, now, n);
  ev_open(); ev_str(what); ev_int(r + 1); ev_bits(b, n); ev_close();
}
template <class V> NOI void dump_v(const V* x, int r) { T t[V::size()]; x->copy_to(t, element_aligned); sh_words("v", r, t, g_sh.v[r], V::size()); }
template <class M> NOI void dump_m(const M* x, int r) { bool t[M::size()]; x->copy_to(t, element_aligned); sh_bools("m", r, t, g_sh.m[r], M::size()); }
NOI inline void dump_mem(const T* p, int n) { sh_words("mem", -1, p, g_sh.mem, n); }
NOI inline void dump_bm(const bool* p, int n) { sh_bools("bm", -1, p, g_sh.bm, n); }

// ---- straight-line programs (C19): the machine is a local object whose address
// never leaves the function, so its registers are visible to the optimiser
inline long g_steps, g_visible;
template <class V> AI void dv(const V& v, int r) { V t = v; dump_v(&t, r - 1); }
template <class M> AI void dm(const M& m, int r) { M t = m; dump_m(&t, r - 1); }
template <int n> AI void dmem(const T* mem) { T t[n]; for (int i = 0; i < n; ++i) t[i] = mem[i]; dump_mem(t, n); }
template <int n> AI void dbm(const bool* bm) { bool t[n]; for (int i = 0; i < n; ++i) t[i] = bm[i]; dump_bm(t, n); }
NOI inline void visible(bool x) { ++g_steps; g_visible += x; }
template <Op op, class V, class M = typename V::mask_type>
AI void lit(V& D, V& A, V& B, M& MD, M& MA, M& MB, M& K, T* mem, bool* bm, int d, int a, int b, int k, int imm) {
  Out o;
  { const V y = A; const T x = y[0]; visible(__builtin_constant_p(x)); }
  ins<op, true, V>(D, A, B, MD, MA, MB, K, mem, bm, d, a, b, k, imm, o);
  sh_ins({op, d, a, b, k, imm}, o);
}
#define MACHINE V v1(T(0)), v2(T(0)), v3(T(0)), v4(T(0)); M m1(false), m2(false), m3(false); T mem[2 * V::size()] = {}; bool bm[2 * V::size()] = {}
