// C18: programs generated from the specification, run by an interpreter
#include "machine.hpp"
#include <fstream>
#include <sstream>
#include <string>
static std::vector<std::vector<Ins>> progs;
static void read_progs() {
  std::ifstream f(PROGS);
  std::string ln;
  while (std::getline(f, ln)) {
    std::istringstream s(ln);
    std::vector<Ins> p;
    std::string n;
    Ins x;
    while (s >> n >> x.d >> x.a >> x.b >> x.k >> x.imm) {
      x.op = -1;
      for (int i = 0; i < NOPS; ++i) if (n == opname[i]) x.op = i;
      if (x.op < 0 || !valid(x.op)) { fprintf(stderr, "unknown instruction %s\n", n.c_str()); exit(5); }
      p.push_back(x);
    }
    progs.push_back(p);
  }
  if (progs.empty()) { fprintf(stderr, "no programs\n"); exit(5); }
}
template <Op op, class V> NOI void one(Mach<V>& s, const Ins& x, Out& o) {
  ins<op, false, V>(s.v[x.d - 1], s.v[x.a - 1], s.v[x.b - 1], s.m[(x.d - 1) % 3], s.m[(x.a - 1) % 3], s.m[(x.b - 1) % 3], s.m[x.k - 1], s.mem, s.bm, x.d, x.a, x.b, x.k, x.imm, o);
}
template <class V, int... I> constexpr auto table(std::integer_sequence<int, I...>) {
  using F = void (*)(Mach<V>&, const Ins&, Out&);
  return std::array<F, NOPS>{[]() -> F { if constexpr (valid(I)) return &one<Op(I), V>; else return nullptr; }()...};
}
template <class V> NOI void run(size_t first, size_t last) {
  constexpr int N = V::size();
  static constexpr auto tab = table<V>(std::make_integer_sequence<int, NOPS>());
  static Mach<V> s;
  for (size_t k = first; k < last && k < progs.size(); ++k) {
    prov<V>(("program " + std::to_string(k)).c_str());
    init<V>(s);
    sh_begin(N);
    for (const Ins& x : progs[k]) {
      Out o;
      tab[x.op](s, x, o);
      sh_ins(x, o);
      for (int i = 0; i < 4; ++i) dump_v(&s.v[i], i);
      for (int i = 0; i < 3; ++i) dump_m(&s.m[i], i);
      dump_mem(s.mem, 2 * N);
      dump_bm(s.bm, 2 * N);
      sh_ins_end();
    }
    sh_end();
  }
}
// without ALLABIS every instruction-set level runs a different third of the ABIs
template <class V> constexpr bool chosen() {
#ifdef ALLABIS
  return true;
#else
  return std::is_same_v<V, native_simd<T>> || (V::size() * 5 + sizeof(T) + ISA_IDX + std::is_signed_v<T> + std::is_same_v<typename V::abi_type, simd_abi::fixed_size<V::size()>>) % 3 == 0;
#endif
}
void run_all() {
  read_progs();
  for_all_abis<T>([](auto* vp) { if constexpr (chosen<VT>()) run<VT>(0, progs.size()); });
}
