// Choice-sequence property-based testing engine (see DESIGN.md, "Engine").
// A property is a function void(Src&) that draws every random decision from Src.  The engine records the
// drawn choices in shared memory, so that any failure - a failed CHECK, an assert, a sanitizer report, a
// signal, a hang, a leak - leaves behind the exact sequence that produced it, which is then shrunk and
// becomes the replay file.
#pragma once
#include <cstdint>
#include <cstddef>
#include <initializer_list>
#include <string>

namespace pbt {
  class Src
  {
  public:
    // ---- primitive: uniform in [0,n); n==0 means all 64 bits.  0 is the simplest value. ----
    uint64_t draw(uint64_t n);
    // ---- derived generators ----
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; } // simplest: false
    bool boolean() { return draw(2) != 0; }
    int64_t range(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo + 1)); }
    uint64_t upto(uint64_t n) { return draw(n + 1); } // 0..n
    // "continue the list?"  expected number of true answers is the current length scale
    bool more();
    bool more(uint32_t mean);
    int pick(std::initializer_list<uint32_t> weights);
    // subset of n operations enabled for this case (swarm testing); 0 => everything
    uint64_t swarm(int n);
    // integers of [lo,hi] with boundary bias
    int64_t edgy(int64_t lo, int64_t hi);
    uint64_t bits64(); // any uint64, biased to boundaries, powers of two and small values
    double real(double lo, double hi);
    std::string bytes(int maxlen, int kind);
    uint32_t scale() const { return _scale; }

    // ---- bookkeeping ----
    void nontrivial(bool b = true) { if(b) _nontrivial = true; }
    void label(const char* l);
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool verbose() const { return _verbose; }
    void key(uint64_t k) { _key = (_key ^ k) * 0x9E3779B97F4A7C15ull; _key ^= _key >> 29; }

    // internal
    uint64_t _rng[2];
    const uint64_t* _pre; size_t _npre; bool _tailzero;
    size_t _pos; uint32_t _scale; bool _nontrivial, _verbose; uint64_t _key;
    uint64_t _next();
  };

  struct Discard {};
  [[noreturn]] void discard();
  [[noreturn]] void fail(const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

  enum { LEAKCHECK = 1, NOCOV = 2 };
  struct Sub { const char* name; const char* rule; void (*fn)(Src&); double weight; int flags; Sub* next; };
  struct Reg { Reg(Sub* s); };

  // live heap allocations made since the case began (needs ASan's malloc hooks)
  long live_allocs();
  void count_alloc_begin();
}

#define PROP(NAME, WEIGHT, FLAGS, RULE) \
  static void NAME(pbt::Src&); \
  static pbt::Sub sub_##NAME{#NAME, RULE, NAME, WEIGHT, FLAGS, nullptr}; \
  static pbt::Reg reg_##NAME(&sub_##NAME); \
  static void NAME(pbt::Src& s)
#define CHECK(cond, ...) do { if(!(cond)) pbt::fail(__FILE__, __LINE__, #cond " | " __VA_ARGS__); } while(0)
