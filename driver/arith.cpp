#include "lanes.hpp"
#ifndef TY
#define TY int
#endif
using T = TY;
constexpr bool FP = std::is_floating_point_v<T>;
#define NO_OVF(n) template <class U> bool no_ovf_##n(U a, U b) { if constexpr (std::is_floating_point_v<U> || std::is_unsigned_v<U> || sizeof(U) < 4) return true; else { U r; return !__builtin_##n##_overflow(a, b, &r); } }
NO_OVF(add) NO_OVF(sub) NO_OVF(mul)
// signed int/long overflow is undefined; keep such operands out
static bool ok_add(T a, T b) { return no_ovf_add(a, b); }
static bool ok_sub(T a, T b) { return no_ovf_sub(a, b); }
static bool ok_mul(T a, T b) { return no_ovf_mul(a, b); }
static bool ok_div(T a, T b) { if constexpr (FP) return true; else return b != 0 && !(std::is_signed_v<T> && a == std::numeric_limits<T>::min() && b == T(-1)); }
static bool ok_neg(T a) { if constexpr (FP || sizeof(T) < 4) return true; else return !(std::is_signed_v<T> && a == std::numeric_limits<T>::min()); }
static bool ok_inc(T a) { if constexpr (FP || sizeof(T) < 4) return true; else return !(std::is_signed_v<T> && a == std::numeric_limits<T>::max()); }

static bool ok_dec(T a) { return ok_sub(a, T(1)); }

OP2(Add, a + b) OP2(Sub, a - b) OP2(Mul, a * b) OP2(Div, a / b)
OP2C(AddC, a += b) OP2C(SubC, a -= b) OP2C(MulC, a *= b) OP2C(DivC, a /= b)
OP2(Rem, a % b) OP2C(RemC, a %= b)
OP1(Neg, -a) OP1(Pos, +a) OP1C(Inc, ++a) OP1C(Dec, --a) OP1C(PInc, a++) OP1C(PDec, a--) OP1(PIncV, a++) OP1(PDecV, a--)

// remainder events carry the quotient as a witness for the specification
NOI void rem2(size_t N, Kern kern, const Pairs<T>& p) {
  if constexpr (!FP) {
    Feeder fd(N, p.n(), 99);
    T a[64], b[64], r[64];
    const void* in[2] = {a, b};
    for (size_t k = fd.rounds(); k--;) {
      for (size_t i = 0; i < N; ++i) { size_t j = fd.next(); a[i] = p.a[j]; b[i] = p.b[j]; if (!ok_div(a[i], b[i])) { a[i] = T(1); b[i] = T(1); } }
      kern(in, r);
      for (size_t i = 0; i < N; ++i) { T q = T(a[i] / b[i]); Val v[4] = {val(a[i]), val(b[i]), val(q), val(r[i])}; rec_lane("rem", tname<T>(), v, 4); }
    }
  }
}
void run_all() {
  auto pp = pair_pool<T>(FP ? 700 : 500, FP ? 500 : 400);
  auto vp1 = value_pool<T>(150);
  for_all_abis<T>([&](auto* vp) {
    using V = VT;
    lane2<V>("add", "a+b", pp, Add(), ok_add);
    lane2<V>("sub", "a-b", pp, Sub(), ok_sub);
    lane2<V>("mul", "a*b", pp, Mul(), ok_mul);
    lane2<V>("div", "a/b", pp, Div(), ok_div);
    lane2<V>("add", "a+=b", pp, AddC(), ok_add);
    lane2<V>("sub", "a-=b", pp, SubC(), ok_sub);
    lane2<V>("mul", "a*=b", pp, MulC(), ok_mul);
    lane2<V>("div", "a/=b", pp, DivC(), ok_div);
    if constexpr (!FP) {
      prov<V>("a%b"); rem2(V::size(), kern2<V, Rem>, pp);
      prov<V>("a%=b"); rem2(V::size(), kern2<V, RemC>, pp);
    }
    lane1<V>("neg", "-a", vp1, Neg(), ok_neg);
    lane1<V>("pos", "+a", vp1, Pos());
    lane1<V>("inc", "++a", vp1, Inc(), ok_inc);
    lane1<V>("dec", "--a", vp1, Dec(), ok_dec);
    lane1<V>("inc", "a++ (object)", vp1, PInc(), ok_inc);
    lane1<V>("dec", "a-- (object)", vp1, PDec(), ok_dec);
    lane1<V>("pos", "a++ (value)", vp1, PIncV(), ok_inc);
    lane1<V>("pos", "a-- (value)", vp1, PDecV(), ok_dec);
  });
}
