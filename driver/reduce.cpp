// C12: reductions of simd objects and of where-expressions
#include "guard.hpp"
using T = TY;
using namespace stdx;
constexpr bool FP = std::is_floating_point_v<T>;
struct uplus { template <class A> A operator()(A a, A b) const { return a + b; } };
struct umin { template <class A> A operator()(const A& a, const A& b) const { return min(a, b); } };
struct umax { template <class A> A operator()(A a, A b) const { A r = a; where(a < b, r) = b; return r; } };
struct uxor { template <class A> A operator()(A a, A b) const { return (a | b) & ~(a & b); } };
enum { PLUS, MUL, AND, OR, XOR, MIN, MAX };
static const char* const opn[] = {"plus", "mul", "and", "or", "xor", "min", "max"};
typedef T (*RK)(const T*);
typedef T (*WK)(const bool*, const T*, T);
template <class V, class F> NOI T red(const T* a) { return F()(ld<V>(a)); }
template <class V, class F> NOI T wred(const bool* k, const T* a, T id) {
  auto m = ldm<typename V::mask_type>(k);
  V v = ld<V>(a);
  return F()(m, v, id);
}
#define RED(name, expr) struct name { template <class V> T operator()(V v) const { return expr; } };
RED(Rdef, reduce(v)) RED(Rplus, reduce(v, std::plus<>())) RED(Rmul, reduce(v, std::multiplies<>())) RED(Rand_, reduce(v, std::bit_and<>()))
RED(Ror, reduce(v, std::bit_or<>())) RED(Rxor, reduce(v, std::bit_xor<>())) RED(Rmin, hmin(v)) RED(Rmax, hmax(v))
RED(Ruplus, reduce(v, uplus())) RED(Rumin, reduce(v, umin())) RED(Rumax, reduce(v, umax())) RED(Ruxor, reduce(v, uxor()))
RED(Rlam, reduce(v, [](auto a, auto b) { return b + a; }))
#define WRED(name, expr) struct name { template <class M, class V> T operator()(M k, V& v, T id) const { return expr; } };
WRED(Wdef, reduce(where(k, v))) WRED(Wplus, reduce(where(k, v), std::plus<>())) WRED(Wmul, reduce(where(k, std::as_const(v)), std::multiplies<>()))
WRED(Wand, reduce(where(k, v), std::bit_and<>())) WRED(Wor, reduce(where(k, v), std::bit_or<>())) WRED(Wxor, reduce(where(k, v), std::bit_xor<>()))
WRED(Wmin, hmin(where(k, v))) WRED(Wmax, hmax(where(k, std::as_const(v)))) WRED(Wuplus, reduce(where(k, v), id, uplus())) WRED(Wumin, reduce(where(k, v), id, umin()))
WRED(Wuxor, reduce(where(k, std::as_const(v)), id, uxor())) WRED(Wumax, reduce(where(k, v), id, umax()))
NOI void words(const T* a, size_t n) { W w[64]; for (size_t i = 0; i < n; ++i) w[i] = bits(a[i]); ev_words(w, n, width<T>()); }
// lane contents for which every grouping gives the same exact result
template <class T> NOI void content(int kind, T* a, size_t N, const std::vector<T>& pool, int r) {
  size_t big = 0;
  for (size_t i = 0; i < N; ++i) {
    if (kind == MIN || kind == MAX) {
      do a[i] = pool[rec_rand() % pool.size()]; while (a[i] != a[i]);
      if constexpr (FP) if (r == 1) a[i] = kind == MIN ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
      if (r == 2) a[i] = T(kind == MIN ? 100 - int(i) : int(i) + 3);      // extreme in the last lane
      if (r == 3) a[i] = T(kind == MIN ? int(i) + 2 : 100 - int(i));
    } else if (kind == PLUS) {
      if constexpr (FP) a[i] = T(int(rec_rand() % 4001) - 2000);
      else if constexpr (sizeof(T) >= 4 && std::is_signed_v<T>) a[i] = T(rec_rand()) >> 7;
      else a[i] = T(rec_rand());
    } else if (kind == MUL) {
      if constexpr (FP || (sizeof(T) >= 4 && std::is_signed_v<T>)) {
        static const int f[] = {2, 3, -1, -2, 5, 1};
        u64 x = rec_rand();
        a[i] = x % N < 7 && big < 9 ? (++big, T(f[x / 64 % 6])) : T(x & 1 << 20 ? 1 : -1);
      } else a[i] = T(rec_rand() | (rec_rand() % 8 ? 1 : 0));
    } else a[i] = kind == AND ? T(rec_rand() | rec_rand() | rec_rand()) : T(rec_rand() & (rec_rand() | rec_rand()));
  }
}
NOI void drive(int kind, size_t N, RK f, const std::vector<T>& pool) {
  T a[64];
  for (int r = 0; r < (g_tier ? 40 : kind >= MIN ? 5 : 3); ++r) {
    content(kind, a, N, pool, r);
    opaque(a); dirty_stack(0x7f);
    T x = f(a);
    ev_begin("red", tname<T>()); ev_str(opn[kind]); words(a, N); ev_word(bits(x), width<T>()); ev_end();
  }
}
NOI void wdrive(int kind, size_t N, WK f, const std::vector<T>& pool, T id) {
  T a[64], b[64]; bool k[64];
  for (int r = 0; r < (g_tier ? 60 : 5); ++r) {
    u64 m = r == 0 ? 0 : r == 1 ? ~0ull : r == 2 ? 1ull << rec_rand() % N : rec_rand();
    content(kind, a, N, pool, r == 0 ? 0 : (r - 1) % 4);
    for (size_t i = 0; i < N; ++i) { k[i] = m >> i & 1; if (!k[i]) a[i] = pool[rec_rand() % pool.size()]; }
    opaque(a); opaque(k); dirty_stack(0x7f);
    T x = f(k, a, id);
    ev_begin("wred", tname<T>()); ev_str(opn[kind]); ev_bits((unsigned char*)k, N); words(a, N); ev_word(bits(id), width<T>()); ev_word(bits(x), width<T>()); ev_end();
  }
}
void run_all() {
  auto pool = value_pool<T>(60);
  using L = std::numeric_limits<T>;
  for_all_abis<T>([&](auto* vp) {
    using V = VT;
    constexpr size_t N = V::size();
    rec_seed(mix64(mix64(g_seed, ISA_IDX + 7), N * 3 + sizeof(V)));
#define R(kind, F) prov<V>("reduce " #F); drive(kind, N, &red<V, F>, pool);
#define X(kind, F, id) prov<V>("reduce(where) " #F); wdrive(kind, N, &wred<V, F>, pool, id);
    R(PLUS, Rdef) R(PLUS, Rplus) R(MUL, Rmul) R(MIN, Rmin) R(MAX, Rmax) R(PLUS, Ruplus) R(MIN, Rumin) R(MAX, Rumax) R(PLUS, Rlam)
    X(PLUS, Wdef, T(0)) X(PLUS, Wplus, T(0)) X(MUL, Wmul, T(1)) X(MIN, Wmin, L::max()) X(MAX, Wmax, L::lowest()) X(PLUS, Wuplus, T(0))
    X(MIN, Wumin, FP ? L::infinity() : L::max()) X(MAX, Wumax, FP ? -L::infinity() : L::lowest())
    if constexpr (!FP) {
      R(AND, Rand_) R(OR, Ror) R(XOR, Rxor) R(XOR, Ruxor)
      X(AND, Wand, T(~(long long)0)) X(OR, Wor, T(0)) X(XOR, Wxor, T(0)) X(XOR, Wuxor, T(0))
    }
  });
}
