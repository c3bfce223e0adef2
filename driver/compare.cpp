#include "lanes.hpp"
using T = TY;
OP2(Eq, a == b) OP2(Ne, a != b) OP2(Lt, a < b) OP2(Le, a <= b) OP2(Gt, a > b) OP2(Ge, a >= b)
OP1(LNot, !a)
// masks: operands are bool lanes, produced by load and by comparison
OP2(MAnd, a && b) OP2(MOr, a || b) OP2(MBAnd, a & b) OP2(MBOr, a | b) OP2(MXor, a ^ b) OP2(MEq, a == b) OP2(MNe, a != b)
OP2C(MAndC, a &= b) OP2C(MOrC, a |= b) OP2C(MXorC, a ^= b)
OP1(MNot, !a) OP1(MCopy, a)
template <class M> NOI M from_cmp(const bool* p) {
  using V = stdx::simd<typename M::simd_type::value_type, typename M::abi_type>;
  T t[M::size()];
  for (size_t i = 0; i < M::size(); ++i) t[i] = p[i] ? T(3) : T(0);
  return ld<V>(opaque(t)) != V(T(0));
}
template <class M> M mld(const bool* p) { return ldm<M>(p); }
template <class M, class F, bool Cmp> NOI void mk2(const void* const* in, void* out) {
  M a, b;
  if constexpr (Cmp) { a = from_cmp<M>((const bool*)in[0]); b = from_cmp<M>((const bool*)in[1]); }
  else { a = mld<M>((const bool*)in[0]); b = mld<M>((const bool*)in[1]); }
  F()(a, b).copy_to((bool*)out, stdx::element_aligned);
}
template <class M, class F, bool Cmp> NOI void mk1(const void* const* in, void* out) {
  M a;
  if constexpr (Cmp) a = from_cmp<M>((const bool*)in[0]); else a = mld<M>((const bool*)in[0]);
  F()(a).copy_to((bool*)out, stdx::element_aligned);
}
template <class M> NOI void msub(const void* const* in, void* out) {
  M a = mld<M>((const bool*)in[0]);
  const M b = a;
  for (size_t i = 0; i < M::size(); ++i) ((bool*)out)[i] = (i & 1) ? bool(a[i]) : bool(b[i]);
}
template <class M> NOI void mset(const void* const* in, void* out) {
  M a(!((const bool*)in[0])[0]);
  for (size_t i = 0; i < M::size(); ++i) a[i] = ((const bool*)in[0])[i];
  a.copy_to((bool*)out, stdx::element_aligned);
}
template <class M> NOI void mbc(const void* const* in, void* out) {
  M a(((const bool*)in[0])[0]);
  a.copy_to((bool*)out, stdx::element_aligned);
}
NOI void mrun(const char* op, int ar, size_t N, Kern kern, bool uniform = false) {
  bool a[64], b[64], r[64];
  const void* in[2] = {a, b};
  rec_seed(mix64(N, 5));
  int rounds = int(N < 6 ? 1 << (2 * N) : 200);
  for (int k = 0; k < rounds; ++k) {
    u64 x = rec_rand(), y = rec_rand();
    if (N < 6) { x = k; y = k >> N; }
    if (k == 0) x = y = 0; if (k == 1) x = ~0ull; if (k == 2) { x = ~0ull; y = x; }
    if (uniform) x = (k & 1) ? ~0ull : 0;
    for (size_t i = 0; i < N; ++i) { a[i] = x >> i & 1; b[i] = y >> i & 1; }
    std::memset(r, 2, sizeof r);
    kern(in, r);
    for (size_t i = 0; i < N; ++i) {
      unsigned char rb; std::memcpy(&rb, &r[i], 1);
      Val v[3] = {{W(a[i]), 0}, {W(b[i]), 0}, {W(rb), 0}};
      if (ar == 1) { v[1] = v[2]; rec_lane(op, "bool", v, 2); } else rec_lane(op, "bool", v, 3);
    }
  }
}
void run_all() {
  auto pp = pair_pool<T>(std::is_floating_point_v<T> ? 900 : 600, 500);
  auto vp1 = value_pool<T>(100);
  for_all_abis<T>([&](auto* vp) {
    using V = VT;
    using M = typename V::mask_type;
    constexpr size_t N = V::size();
    lane2<V>("eq", "a==b", pp, Eq());
    lane2<V>("ne", "a!=b", pp, Ne());
    lane2<V>("lt", "a<b", pp, Lt());
    lane2<V>("le", "a<=b", pp, Le());
    lane2<V>("gt", "a>b", pp, Gt());
    lane2<V>("ge", "a>=b", pp, Ge());
    lane1<V>("lnot", "!a", vp1, LNot());
#define M2(op, what, F) prov<V>(what); mrun(op, 2, N, mk2<M, F, false>);
#define M2X(op, what, F) M2(op, what, F) mrun(op, 2, N, mk2<M, F, true>);
    M2X("mand", "k&&k", MAnd) M2("mor", "k||k", MOr) M2("mand", "k&k", MBAnd) M2("mor", "k|k", MBOr) M2("mxor", "k^k", MXor)
    M2X("meq", "k==k", MEq) M2X("mne", "k!=k", MNe) M2("mand", "k&=k", MAndC) M2("mor", "k|=k", MOrC) M2("mxor", "k^=k", MXorC)
    prov<V>("!k"); mrun("mnot", 1, N, mk1<M, MNot, false>); mrun("mnot", 1, N, mk1<M, MNot, true>);
    prov<V>("mask from comparison"); mrun("mcopy", 1, N, mk1<M, MCopy, true>);
    prov<V>("mask load/store"); mrun("mcopy", 1, N, mk1<M, MCopy, false>);
    prov<V>("mask subscript read"); mrun("mcopy", 1, N, msub<M>);
    prov<V>("mask subscript write"); mrun("mcopy", 1, N, mset<M>);
    prov<V>("mask broadcast"); mrun("mcopy", 1, N, mbc<M>, true);
  });
}
