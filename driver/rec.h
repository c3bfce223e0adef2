// Trace recorder interface.  The implementation (rec.cpp) is compiled once with
// baseline flags; it never includes the library under test.
#pragma once
#include <cstdint>
#include <cstddef>
typedef unsigned long long u64;
typedef unsigned __int128 W;   // any lane value, zero-extended bit pattern

struct Val { W v; int w; };    // w: width in bits; 0 = plain small integer

// lane tuple event: op applied to in[0..n-2], result in[n-1]
void rec_lane(const char* op, const char* type, const Val* vals, int n);
void rec_prov(const char* isa, const char* pretty, const char* what);          // where it was observed
// vector event: JSON text built with these, then committed
void ev_begin(const char* op, const char* type);        // ["op","t"
void ev_words(const W* v, int n, int w);                // ,[[limbs],[limbs],...]
void ev_bits(const unsigned char* b, int n);            // ,[1,0,1,...]
void ev_ints(const int* x, int n);                     // ,[1,2,...]
void ev_int(long long x);                               // ,x
void ev_open(bool first = false); void ev_close();                        // ,[ ... ] around ev_words
void ev_str(const char* s);                             // ,"s"
void ev_word(W v, int w);
void ev_end();
void rec_open(const char* file);
void rec_close();
u64 rec_rand();          // deterministic generator, seeded from the command line
void rec_seed(u64 s);
extern u64 g_seed;
extern int g_tier;       // 0 quick, 1 thorough
u64 mix64(u64 a, u64 b);
