// C11: broadcast, generator, subscript reads and chains of element updates
#include "guard.hpp"
using T = TY;
using namespace stdx;
enum Op { COPY, ICOPY, ADD, SUB, MUL, DIV, REM, AND, OR, XOR, SHL, SHR, PREI, POSTI, PRED, POSTD, SWAP, SWAPX, XSWAP, NOPS };
static const char* const opname[NOPS] = {"copy", "icopy", "add", "sub", "mul", "div", "rem", "and", "or", "xor", "shl", "shr", "inc", "pinc", "dec", "pdec", "swap", "swapx", "swapx"};
// one update of one object; returns what the expression yields
template <class V> NOI T step(V& v, int op, int i, int j, T& x) {
  switch (op) {
    case COPY: return v[i] = x;
    case ICOPY: return v[i] = int(x);
    case ADD: return v[i] += x;
    case SUB: return v[i] -= x;
    case MUL: return v[i] *= x;
    case DIV: return v[i] /= x;
    case PREI: return ++v[i];
    case POSTI: return v[i]++;
    case PRED: return --v[i];
    case POSTD: return v[i]--;
    case SWAP: swap(v[i], v[j]); return x;
    case SWAPX: swap(v[i], x); return x;
    case XSWAP: swap(x, v[i]); return x;
  }
  if constexpr (std::is_integral_v<T>) switch (op) {
    case REM: return v[i] %= x;
    case AND: return v[i] &= x;
    case OR: return v[i] |= x;
    case XOR: return v[i] ^= x;
    case SHL: return v[i] <<= x;
    case SHR: return v[i] >>= x;
  }
  __builtin_trap();
}
template <class V> NOI T rd(const V& v, int i) { return v[i]; }
template <class V> NOI T rdn(V& v, int i) { return T(v[i]) ; }
struct Ops { size_t n; T (*step)(void*, int, int, int, T&); T (*rd)(const void*, int); void (*load)(void*, const T*); void (*store)(const void*, T*); };
template <class V> void loadv(void* p, const T* x) { *(V*)p = ld<V>(x); }
template <class V> void storev(const void* p, T* x) { st(*(const V*)p, x); }
// makes (op, lane value, operand) admissible
template <class T> NOI void admissible(int& op, T a, T& x) {
  if constexpr (std::is_integral_v<T>) {
    using U = std::make_unsigned_t<T>;
    constexpr bool big = sizeof(T) >= 4;
    if (op == SHL || op == SHR) { x = T(U(x) % (big ? sizeof(T) * 8 : 32)); return; }
    if ((op == DIV || op == REM)) {
      if (x == 0) x = T(7);
      if (big && std::is_signed_v<T> && a == std::numeric_limits<T>::min() && x == T(-1)) x = T(3);
      return;
    }
    if (op == MUL && sizeof(T) == 2) { long long p = (long long)(a) * (long long)(x); if (p > 0x7fffffffll || p < -0x7fffffffll) x = T(3); }
    if (big && std::is_signed_v<T>) {
      T z;
      if ((op == ADD && __builtin_add_overflow(a, x, &z)) || (op == SUB && __builtin_sub_overflow(a, x, &z)) || (op == MUL && __builtin_mul_overflow(a, x, &z))) op = XOR;
      if ((op == PREI || op == POSTI) && a == std::numeric_limits<T>::max()) op = PRED;
      if ((op == PRED || op == POSTD) && a == std::numeric_limits<T>::min()) op = PREI;
    }
    if (op == ICOPY && sizeof(T) == 8) op = COPY;
  } else {
    if (op == ICOPY) { long double m = x; x = m == m && m < 2e9L && m > -2e9L ? T(int(x)) : T(77); }
    if (op == REM || (op >= AND && op <= SHR)) op = op == REM ? ADD : op == AND ? SUB : op == OR ? MUL : op == XOR ? DIV : SWAP;
  }
}
NOI void words(const T* a, size_t n) { W w[64]; for (size_t i = 0; i < n; ++i) w[i] = bits(a[i]); ev_words(w, n, width<T>()); }
NOI void chain(const Ops& o, void* v, const std::vector<T>& pool, int len, int& nextop, int& nexti) {
  const size_t N = o.n;
  T a[64];
  for (size_t i = 0; i < N; ++i) a[i] = pool[rec_rand() % pool.size()];
  opaque(a);
  o.load(v, a);
  ev_begin("chain", tname<T>());
  words(a, N);
  ev_open();
  for (int k = 0; k < len; ++k) {
    int op = nextop++ % NOPS, i = nexti++ % int(N), j = int(rec_rand() % N);
    if (rec_rand() % 3 == 0) i = int(rec_rand() % N);
    T x = pool[rec_rand() % pool.size()];
    admissible(op, o.rd(v, i), x);
    const T x0 = x, old = o.rd(v, i);
    T q{};
    if constexpr (std::is_integral_v<T>) if (op == REM) q = T(old / x);
    T r = o.step(v, opaque_int(op), opaque_int(i), opaque_int(j), *opaque(&x));
    const T now = o.rd(v, i);
    ev_open(); ev_str(opname[op]); ev_int(i);
    if (op == SWAP) ev_int(j);
    else {
      ev_open();
      if (op == SHL || op == SHR) ev_int((long long)x0);
      else if (op == ICOPY) ev_word(W(unsigned(int(x0))), 32);
      else if (op < PREI || op > SWAP) ev_word(bits(x0), width<T>());
      if (op == REM) ev_word(bits(q), width<T>());
      ev_close();
      ev_word(bits(now), width<T>()); ev_word(bits(r), width<T>());
    }
    ev_close();
  }
  ev_close();
  o.store(v, a);
  words(a, N);
  ev_end();
  // the same register through const and non-const subscripts
  T b[64]; for (size_t i = 0; i < N; ++i) b[i] = o.rd(v, int(i));
  ev_begin("same", tname<T>()); words(b, N); words(a, N); ev_end();
}
// ---- masks
enum { MASN, MAND, MOR, MXOR, MSWAP, MSWAPX, MXSWAP, MNOPS };
static const char* const mopname[MNOPS] = {"copy", "mand", "mor", "mxor", "swap", "swapx", "swapx"};
template <class M> NOI bool mstep(M& m, int op, int i, int j, bool& x) {
  switch (op) {
    case MASN: return m[i] = x;
    case MAND: return m[i] &= x;
    case MOR: return m[i] |= x;
    case MXOR: return m[i] ^= x;
    case MSWAP: swap(m[i], m[j]); return x;
    case MSWAPX: swap(m[i], x); return x;
    case MXSWAP: swap(x, m[i]); return x;
  }
  __builtin_trap();
}
template <class M> NOI bool mrd(const M& m, int i) { return m[i]; }
template <class M> NOI void mchain(int len, int& nextop, int& nexti) {
  constexpr size_t N = M::size();
  bool a[64]; u64 r = rec_rand();
  for (size_t i = 0; i < N; ++i) a[i] = r >> i & 1;
  opaque(a);
  M m; m.copy_from(a, element_aligned);
  ev_begin("chain", "bool"); ev_bits((unsigned char*)a, N); ev_open();
  for (int k = 0; k < len; ++k) {
    int op = nextop++ % MNOPS, i = nexti++ % int(N), j = int(rec_rand() % N);
    bool x = rec_rand() & 1, x0 = x;
    bool ret = mstep(m, opaque_int(op), opaque_int(i), opaque_int(j), *opaque(&x));
    unsigned char now; bool nb = mrd(m, i); std::memcpy(&now, &nb, 1);
    ev_open(); ev_str(mopname[op]); ev_int(i);
    if (op == MSWAP) ev_int(j);
    else { int q = x0; ev_ints(&q, 1); ev_int(now); ev_int(ret); }
    ev_close();
  }
  ev_close();
  m.copy_to(a, element_aligned);
  ev_bits((unsigned char*)a, N);
  ev_end();
  unsigned char b[64]; for (size_t i = 0; i < N; ++i) b[i] = mrd(m, int(i));
  ev_begin("same", "bool"); ev_bits(b, N); ev_bits((unsigned char*)a, N); ev_end();
  int tot = 0; for (size_t i = 0; i < N; ++i) tot += b[i];
  ev_begin("mobs", "bool"); ev_bits(b, N); ev_int(any_of(m)); ev_int(all_of(m)); ev_int(popcount(m) % 2); ev_end();
}
// ---- construction
template <class V, class U> NOI void bc(const void* u, T* o) { st(V(*(const U*)u), o); }
template <class V, class U> NOI void bci(const void* u, T* o) { V v = *(const U*)u; st(v, o); }
template <class U> NOI void drive_bc(size_t N, void (*f)(const void*, T*), bool imp) {
  auto p = conv_pool<T, U>(20);
  rec_seed(mix64(g_seed, N * 31 + uidx<U>() * 2 + imp));
  for (int k = 0; k < (g_tier ? 60 : 12); ++k) {
    U u = p[rec_rand() % p.size()];
    T o[64]; std::memset((void*)o, 0x5a, sizeof o);
    f(opaque(&u), o);
    for (size_t i = 0; i < N; ++i) { Val v[2] = {val(u), val(o[i])}; rec_lane(to_name<T>(false), tname<U>(), v, 2); }
  }
}
template <class V, class U> void bcast() {
  if constexpr (std::is_convertible_v<U, V>) {
    if constexpr (NPARTS == 1 || std::is_same_v<U, T> || std::is_same_v<U, int> || chosen<V, U>()) {
      prov<TL<V, U>>("broadcast"); drive_bc<U>(V::size(), &bci<V, U>, true);
    }
  }
}
template <class V, class... U> void bcasts(TL<U...>) { (bcast<V, U>(), ...); }
struct Box { T x; operator T() const { return x; } };
template <class V> NOI void bcbox(const void* u, T* o) { Box b{*(const T*)u}; V v = b; st(v, o); }
template <class V> NOI void gen(const T* g, int* calls, T* o) {
  V v([&](auto i) { static_assert(i < V::size()); ++calls[i]; return g[i]; });
  st(v, o);
}
// the value depends only on the constant index
template <class V> NOI void geni(const T*, int* calls, T* o) {
  V v([&](auto i) { ++calls[i]; return T(int(i) * 3 + 1); });
  st(v, o);
}
NOI void drive_gen(size_t N, void (*f)(const T*, int*, T*), const std::vector<T>& p, bool idx) {
  for (int k = 0; k < (g_tier ? 20 : idx ? 1 : 4); ++k) {
    T g[64], o[64]; int calls[64] = {};
    for (size_t i = 0; i < N; ++i) g[i] = idx ? T(int(i) * 3 + 1) : p[rec_rand() % p.size()];
    std::memset((void*)o, 0x5a, sizeof o);
    f(opaque(g), opaque(calls), o);
    ev_begin("gen", tname<T>()); ev_ints(calls, N); words(g, N); words(o, N); ev_end();
  }
}
template <class M> NOI void mbc(bool b, bool* o) { M m(b); for (size_t i = 0; i < M::size(); ++i) o[i] = m[i]; }
template <class M> NOI void mbc2(bool b, bool* o) { M m(b); m.copy_to(o, element_aligned); }
void run_all() {
  auto pool = value_pool<T>(60);
  for_all_abis<T>([&](auto* vp) {
    using V = VT; using M = typename V::mask_type;
    constexpr size_t N = V::size();
    alignas(V) unsigned char store[sizeof(V)];
    Ops o{N, [](void* p, int op, int i, int j, T& x) { return step<V>(*(V*)p, op, i, j, x); }, [](const void* p, int i) { return rd<V>(*(const V*)p, i); }, &loadv<V>, &storev<V>};
    new (store) V();
    rec_seed(mix64(mix64(g_seed, ISA_IDX), N * 3 + sizeof(V)));
    int nextop = rec_rand() % NOPS, nexti = 0;
    prov<V>("element updates");
    const int L = N > 16 ? 24 : 12, C = (g_tier ? 30 : 1) * (int(2 * N > 36 ? 2 * N : 36) / L);
    for (int k = 0; k < C; ++k) chain(o, store, pool, L, nextop, nexti);
    prov<M>("mask element updates");
    int no = 0, ni = 0;
    for (int k = 0; k < (g_tier ? 40 : 3); ++k) mchain<M>(L, no, ni);
    prov<V>("generator"); drive_gen(N, &gen<V>, pool, false);
    prov<V>("index generator"); drive_gen(N, &geni<V>, pool, true);
    bcasts<V>(AllU());
    prov<V>("broadcast of a class type"); drive_bc<T>(N, &bcbox<V>, false);
    prov<M>("mask broadcast");
    for (bool b : {false, true}) for (auto f : {&mbc<M>, &mbc2<M>}) {
      bool r[64]; std::memset((void*)r, 1 - b, sizeof r); f(*opaque(&b), r);
      for (size_t i = 0; i < N; ++i) { unsigned char c; std::memcpy(&c, r + i, 1); Val v[2] = {{W(b), 0}, {W(c), 0}}; rec_lane("mcopy", "bool", v, 2); }
    }
  });
}
