// Memory arena between inaccessible pages, with canary bytes and a fault handler
// that turns a fault inside the code under test into an observation.
#pragma once
#include "common.hpp"
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

constexpr size_t PG = 4096;
struct Arena {
  unsigned char *base, *lo, *hi;   // [lo, hi) is accessible: two pages
  unsigned char before[2 * PG];
  Arena() {
    base = (unsigned char*)mmap(0, 6 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    lo = base + 2 * PG; hi = lo + 2 * PG;
    mprotect(base, 2 * PG, PROT_NONE);
    mprotect(hi, 2 * PG, PROT_NONE);
  }
  void fill(u64 salt) {
    u64 x = mix64(salt, 0x1234567);
    for (size_t i = 0; i < 2 * PG; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; u64 y = x ^ x >> 29; std::memcpy(lo + i, &y, 8); }
  }
  void snap() { std::memcpy(before, lo, 2 * PG); }
  // bytes outside [p, p + n) that changed since snap()
  int foreign(const unsigned char* p, size_t n) const {
    int c = 0;
    for (size_t i = 0; i < 2 * PG; ++i) { const unsigned char* q = lo + i; if (q >= p && q < p + n) continue; c += *q != before[i]; }
    return c;
  }
  // kind 0: starts right behind the inaccessible page; 1: ends right before it;
  // 2: across the page boundary in the middle, at any multiple of align
  unsigned char* place(int kind, size_t bytes, size_t align, u64 r) {
    if (kind == 0) return lo;
    if (kind == 1) return lo + (2 * PG - bytes) / align * align;
    size_t off = PG - bytes + r % (bytes + 64);
    return lo + off / align * align;
  }
};
inline Arena& arena() { static Arena a; return a; }
inline sigjmp_buf g_jb;
inline volatile sig_atomic_t g_armed = 0;
inline void g_fault(int s) { if (g_armed) { g_armed = 0; siglongjmp(g_jb, s); } signal(s, SIG_DFL); raise(s); }
inline void guard_init() {
  struct sigaction sa{}; sa.sa_handler = g_fault; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS}) sigaction(s, &sa, 0);
}
// runs f; true when it completed
template <class F> NOI bool guarded(F f) {
  if (sigsetjmp(g_jb, 0)) return false;
  g_armed = 1;
  f();
  g_armed = 0;
  return true;
}
inline void ev_mem(const char* op, const char* kind, int foreign, bool faulted) {
  ev_begin(op, kind); ev_int(foreign); ev_int(faulted); ev_end();
}
// conversions that are defined: everything except floating point to integer out of range
template <class To, class From> bool conv_ok(From x) {
  if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To>) {
    if (!(x == x)) return false;
    const From lo = From(std::numeric_limits<To>::min());
    const From hi = std::ldexp(From(1), std::numeric_limits<To>::digits);
    return std::trunc(x) >= lo && std::trunc(x) < hi;
  } else return true;
}
template <class To, class From> std::vector<From> conv_pool(int nrand) {
  auto p = value_pool<From>(nrand);
  if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To>) {
    constexpr int d = std::numeric_limits<To>::digits;
    for (int k : {0, 7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63})
      if (k <= d) for (int s : {-1, 1}) for (int dl : {-2, -1, 0, 1, 2}) { From v = std::ldexp(From(1), k); From e = std::ldexp(From(1), k - std::numeric_limits<From>::digits); p.push_back(s * (v + dl * e)); p.push_back(s * (v + dl * From(0.5))); p.push_back(s * (v + dl)); }
    for (int i = 0; i < nrand; ++i) p.push_back(std::ldexp(From((long long)rec_rand()), -64 + int(rec_rand() % (d + 2))));
    std::vector<From> q;
    for (From x : p) if (conv_ok<To>(x)) q.push_back(x);
    return q;
  } else if constexpr (std::is_integral_v<From> && std::is_floating_point_v<To>) {
    // rounding boundaries: values just around half an ulp
    constexpr int m = std::numeric_limits<To>::digits;
    constexpr int dg = std::numeric_limits<From>::digits;
    if constexpr (dg > m) {
      // B significant bits of which the upper m are kept: exact tie, or one unit beside it
      for (int i = 0; i < 90; ++i) {
        int B = i % 3 == 0 ? dg : m + 1 + int(rec_rand() % (dg - m));
        u64 x = (rec_rand() | 1ull << 63) >> (64 - B); int tail = B - m;
        x = (x >> tail << tail) | (tail ? 1ull << (tail - 1) : 0);
        int k = rec_rand() % 4; if (k == 1) x += 1; if (k == 2) x -= 1; if (k == 3) x += rec_rand() % 64;
        if (std::is_signed_v<From> && (rec_rand() & 1)) x = -x;
        p.push_back(From(x));
      }
    }
    return p;
  } else if constexpr (std::is_floating_point_v<From> && std::is_floating_point_v<To> && sizeof(To) < sizeof(From)) {
    for (int i = 0; i < 80; ++i) {
      To a = random_value<To>(); if (i % 3 == 0) a = unbits<To>(rec_rand() % 5000);
      if (!(std::abs(a) <= std::numeric_limits<To>::max())) continue;
      To b = std::nextafter(a, std::numeric_limits<To>::infinity());
      From m = (From(a) + From(b)) / 2;
      p.push_back(m); p.push_back(std::nextafter(m, From(0))); p.push_back(std::nextafter(m, std::numeric_limits<From>::infinity()));
    }
    From M = std::numeric_limits<To>::max();
    p.push_back(M); p.push_back(std::nextafter(M, From(0))); From h = std::ldexp(From(1), std::numeric_limits<To>::max_exponent) * (From(1) - std::ldexp(From(1), -std::numeric_limits<To>::digits - 1));
    p.push_back(h); p.push_back(std::nextafter(h, From(0))); p.push_back(-h); p.push_back(-std::nextafter(h, From(0)));
    return p;
  } else return p;
}
template <class U> constexpr const char* to_name(bool w) {
  const char* n = tname<U>();
  struct P { const char *t, *a, *b; };
  constexpr P tab[] = {{"i8", "to_i8", "w_to_i8"}, {"u8", "to_u8", "w_to_u8"}, {"i16", "to_i16", "w_to_i16"}, {"u16", "to_u16", "w_to_u16"},
    {"i32", "to_i32", "w_to_i32"}, {"u32", "to_u32", "w_to_u32"}, {"i64", "to_i64", "w_to_i64"}, {"u64", "to_u64", "w_to_u64"},
    {"f32", "to_f32", "w_to_f32"}, {"f64", "to_f64", "w_to_f64"}, {"f80", "to_f80", "w_to_f80"}};
  for (auto& e : tab) if (!__builtin_strcmp(e.t, n)) return w ? e.b : e.a;
  return "?";
}
using AllU = TL<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, float, double, long double, char, wchar_t, char16_t, char32_t, long long, unsigned long long>;
template <class U> constexpr int uidx() {
  int i = 0, r = -1;
  auto f = [&](auto* p) { if (std::is_same_v<std::remove_pointer_t<decltype(p)>, U>) r = i; ++i; };
  f((signed char*)0); f((unsigned char*)0); f((short*)0); f((unsigned short*)0); f((int*)0); f((unsigned*)0); f((long*)0); f((unsigned long*)0);
  f((float*)0); f((double*)0); f((long double*)0); f((char*)0); f((wchar_t*)0); f((char16_t*)0); f((char32_t*)0); f((long long*)0); f((unsigned long long*)0);
  return r;
}
#ifndef NPARTS
#define NPARTS 7
#endif
#ifndef PART
#define PART 0
#endif
// pseudo-random but fixed choice of (V, U) combinations for this program
template <class V, class U, bool more = false> constexpr bool chosen() {
  using T = typename V::value_type;
  if (std::is_same_v<U, T>) return true;
  if (uidx<U>() >= 11 && PART == 0 && NPARTS > 1 && (uidx<U>() + uidx<T>() + ISA_IDX) % 3) return false;
  unsigned h = unsigned(V::size()) * 7 + unsigned(sizeof(V)) * 3 + uidx<U>() * 5 + uidx<T>() * 11 + ISA_IDX * 13;
  h = h * 2654435761u; h ^= h >> 15;
  return h % NPARTS == PART % NPARTS || (PART == 0 && more && h / 8 % 2 == 0);
}
