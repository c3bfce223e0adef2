#include "rec.h"
#include <cfenv>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
static FILE* f;
static std::string prov;
u64 g_seed = 1; int g_tier = 0;
static u64 st = 88172645463325252ull;
u64 mix64(u64 a, u64 b) {
  u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void rec_seed(u64 s) { st = mix64(s, 0x1234567); if (!st) st = 1; }
u64 rec_rand() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1Dull; }
void rec_open(const char* n) { f = fopen(n, "w"); if (!f) { perror(n); exit(3); } setvbuf(f, nullptr, _IOFBF, 1 << 20); }
void rec_close() { if (fclose(f)) { perror("close"); exit(3); } }
void rec_prov(const char* isa, const char* pretty, const char* what) {
  const char* q = strstr(pretty, "V = ");
  std::string v = q ? q + 4 : pretty;
  for (const char* drop : {"std::experimental::parallelism_v2::", "simd_abi::"})
    for (size_t p; (p = v.find(drop)) != std::string::npos;) v.erase(p, strlen(drop));
  if (!v.empty() && v.back() == ']') v.pop_back();
  prov = std::string(isa) + " " + v + " " + what;
}
struct Feeder { size_t N, P, step, off, k; Feeder(size_t, size_t, u64); };
static size_t gcd(size_t a, size_t b) { return b ? gcd(b, a % b) : a; }
Feeder::Feeder(size_t n, size_t p, u64 salt) : N(n), P(p), k(0) {
  step = 1 + (mix64(salt, N) % (P > 1 ? P - 1 : 1));
  while (gcd(step, P) != 1) step = step % P + 1;
  off = mix64(salt, N * 3 + 1) % P;
}
static void putw(std::string& o, W v, int w) {
  if (w == 0) { o += std::to_string((long long)v); return; }
  o += '[';
  int n = (w + 11) / 12;
  for (int i = 0; i < n; ++i) {
    if (i) o += ',';
    char t[8]; int x = int(v & 4095); v >>= 12; int k = 0;
    do { t[k++] = char('0' + x % 10); x /= 10; } while (x);
    while (k) o += t[--k];
  }
  o += ']';
}
struct H { size_t operator()(const std::string& s) const { return std::hash<std::string>()(s); } };
// binary keys: op ptr identity by name
static std::unordered_set<std::string> seen;
static std::string key;
// rounding direction the events are recorded under ("": the default one)
static const char* g_dir = "";
static int g_round = FE_TONEAREST;
static void fenv_event() { ev_begin("fenv", "int"); ev_int(g_round); ev_int(fegetround()); ev_end(); }
__attribute__((weak)) int rec_directed();
void rec_lane(const char* op, const char* type, const Val* v, int n) {
  if (*g_dir && fegetround() != g_round) { fenv_event(); fesetround(g_round); }
  key.clear();
  key.append(op); key.append(g_dir); key.push_back(0); key.append(type); key.push_back(0);
  for (int i = 0; i < n; ++i) {
    key.push_back(char(v[i].w));
    int bytes = v[i].w == 0 ? 4 : (v[i].w + 7) / 8;
    key.append((const char*)&v[i].v, bytes);
  }
  if (!seen.insert(key).second) return;
  std::string o = "L\t"; o += op; o += g_dir; o += '\t'; o += type; o += "\t[";
  for (int i = 0; i < n; ++i) { if (i) o += ','; putw(o, v[i].v, v[i].w); }
  o += "]\t"; o += prov; o += '\n';
  fwrite(o.data(), 1, o.size(), f);
}
static std::string ev;
void ev_begin(const char* op, const char* type) { ev = "[\""; ev += op; ev += "\",\""; ev += type; ev += '"'; }
void ev_words(const W* v, int n, int w) {
  if (ev.back() != '[') ev += ',';
  ev += '[';
  for (int i = 0; i < n; ++i) { if (i) ev += ','; putw(ev, v[i], w); }
  ev += ']';
}
void ev_open(bool) { if (ev.back() != '[') ev += ','; ev += '['; }
void ev_close() { ev += ']'; }
void ev_word(W v, int w) { if (ev.back() != '[') ev += ','; putw(ev, v, w); }
void ev_bits(const unsigned char* b, int n) {
  ev += ",[";
  for (int i = 0; i < n; ++i) { if (i) ev += ','; ev += char(b[i] > 1 ? '2' : '0' + b[i]); }
  ev += ']';
}
void ev_ints(const int* x, int n) {
  ev += ",[";
  for (int i = 0; i < n; ++i) { if (i) ev += ','; ev += std::to_string(x[i]); }
  ev += ']';
}
void ev_int(long long x) { if (ev.back() != '[') ev += ','; ev += std::to_string(x); }
void ev_str(const char* s) { ev += ev.back() == '[' ? "\"" : ",\""; ev += s; ev += '"'; }
void ev_end() {
  ev += ']';
  if (!seen.insert(ev).second) return;
  std::string o = "V\t"; o += ev; o += '\t'; o += prov; o += '\n';
  fwrite(o.data(), 1, o.size(), f);
}
void run_all();
#include <signal.h>
#include <unistd.h>
// A crash inside the code under test is an observation too: leave a marker line.
static void crash(int s) {
  static bool once = false; if (once) _exit(4); once = true;
  if (f) { fflush(f); fprintf(f, "X\tsignal %d\t%s\n", s, prov.c_str()); fflush(f); }
  _exit(0);
}
static char altstack[65536];
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  g_seed = strtoull(argv[2], 0, 10); g_tier = atoi(argv[3]);
  rec_open(argv[1]);
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
  struct sigaction sa{}; sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGFPE, SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, 0);
  rec_seed(g_seed);
  if (rec_directed && rec_directed())
    for (int m : {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}) {
      g_dir = m == FE_UPWARD ? "@u" : m == FE_DOWNWARD ? "@d" : "@z";
      g_round = m; fesetround(m);
      run_all();
      fenv_event();
    }
  else run_all();
  fesetround(FE_TONEAREST);
  rec_close();
}
