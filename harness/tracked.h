// Instrumented element types: every live object owns a heap cell (so double destruction, use after
// destruction and leaks show up under ASan / the leak counter) and is counted.
#pragma once
#include "pbt.h"
#include <cstdlib>
#include <utility>
#include <vector>
#include <string>
#include <algorithm>
#include <memory>
#include <new>
#include <atomic>

namespace trk {
#ifdef __SANITIZE_THREAD__
  inline std::atomic<long> live{0};
#else
  inline long live = 0;
#endif
  static const uint32_t MAGIC = 0xA11FE5A1u, DEAD = 0xDEADDEADu;

  // Owns a resource; may be relocated bitwise (legal in SIMPLE/CONSTRUCT containers)
  struct Reloc
  {
    int* p; uint32_t magic;
    Reloc(int v = 0) : p(new int(v)), magic(MAGIC) { ++live; }
    Reloc(const Reloc& c) : p(new int(c.get())), magic(MAGIC) { ++live; }
    Reloc(Reloc&& m) : p(new int(m.get())), magic(MAGIC) { ++live; *m.p = -777; }
    ~Reloc() { CHECK(magic == MAGIC, "destructor run on something that is not a live object"); magic = DEAD; delete p; p = 0; --live; }
    Reloc& operator=(const Reloc& c) { int v = c.get(); get(); *p = v; return *this; }
    Reloc& operator=(Reloc&& m) { int v = m.get(); get(); *p = v; if(this != &m) *m.p = -777; return *this; }
    int get() const { CHECK(magic == MAGIC, "access to an object that is not live"); return *p; }
    bool operator==(const Reloc& r) const { return get() == r.get(); }
    bool operator!=(const Reloc& r) const { return get() != r.get(); }
    bool operator<(const Reloc& r) const { return get() < r.get(); }
    bool operator>(const Reloc& r) const { return get() > r.get(); }
  };
  // Additionally stores its own address: must never be relocated bitwise (ARRAY_SAFE)
  struct Safe
  {
    int* p; uint32_t magic; const Safe* self;
    Safe(int v = 0) : p(new int(v)), magic(MAGIC), self(this) { ++live; }
    Safe(const Safe& c) : p(new int(c.get())), magic(MAGIC), self(this) { ++live; }
    Safe(Safe&& m) : p(new int(m.get())), magic(MAGIC), self(this) { ++live; *m.p = -777; }
    ~Safe() { CHECK(magic == MAGIC, "destructor run on something that is not a live object"); CHECK(self == this, "object was relocated bitwise"); magic = DEAD; delete p; p = 0; --live; }
    Safe& operator=(const Safe& c) { int v = c.get(); get(); *p = v; return *this; }
    Safe& operator=(Safe&& m) { int v = m.get(); get(); *p = v; if(this != &m) *m.p = -777; return *this; }
    int get() const { CHECK(magic == MAGIC, "access to an object that is not live"); CHECK(self == this, "object was relocated bitwise"); return *p; }
    bool operator==(const Safe& r) const { return get() == r.get(); }
    bool operator!=(const Safe& r) const { return get() != r.get(); }
    bool operator<(const Safe& r) const { return get() < r.get(); }
    bool operator>(const Safe& r) const { return get() > r.get(); }
  };
  // Move-only and address-aware (ARRAY_MOVE)
  struct MoveOnly
  {
    int* p; uint32_t magic; const MoveOnly* self;
    MoveOnly(int v = 0) : p(new int(v)), magic(MAGIC), self(this) { ++live; }
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&& m) : p(new int(m.get())), magic(MAGIC), self(this) { ++live; *m.p = -777; }
    ~MoveOnly() { CHECK(magic == MAGIC, "destructor run on something that is not a live object"); CHECK(self == this, "object was relocated bitwise"); magic = DEAD; delete p; p = 0; --live; }
    MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly& operator=(MoveOnly&& m) { int v = m.get(); get(); *p = v; if(this != &m) *m.p = -777; return *this; }
    int get() const { CHECK(magic == MAGIC, "access to an object that is not live"); CHECK(self == this, "object was relocated bitwise"); return *p; }
    bool operator<(const MoveOnly& r) const { return get() < r.get(); }
    bool operator>(const MoveOnly& r) const { return get() > r.get(); }
    bool operator==(const MoveOnly& r) const { return get() == r.get(); }
  };
  inline int val(int v) { return v; }
  inline int val(unsigned v) { return (int)v; }
  inline int val(short v) { return v; }
  inline int val(unsigned char v) { return v; }
  inline int val(long v) { return (int)v; }
  inline int val(unsigned long v) { return (int)v; }
  inline int val(const Reloc& v) { return v.get(); }
  inline int val(const Safe& v) { return v.get(); }
  inline int val(const MoveOnly& v) { return v.get(); }
  template<class T> constexpr bool tracked = false;
  template<> constexpr bool tracked<Reloc> = true;
  template<> constexpr bool tracked<Safe> = true;
  template<> constexpr bool tracked<MoveOnly> = true;
  inline std::string str(const std::vector<int>& v) { std::string r = "["; for(size_t i = 0; i < v.size() && i < 60; ++i) { if(i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
  // random walk of a bidirectional iterator over n elements; at(it, i) checks that it stands on element i. FROMEND: the end can be stepped back from
  template<bool FROMEND, class It, class F> inline void walk(pbt::Src& s, It it, It end, size_t n, F at)
  {
    size_t pos = 0;
    for(int k = 0; k < 64 && s.more(8); ++k)
    {
      bool post = s.boolean(), back = s.boolean();
      if(back ? pos == 0 || (pos == n && !FROMEND) : pos == n) continue;
      size_t old = pos; It before(it);
      if(back) { --pos; if(post) { It r(it--); CHECK(r == before && !(r != before), "it-- does not return the old position (element %zu)", old); } else { It& r = --it; CHECK(&r == &it, "--it does not return the iterator"); } }
      else { ++pos; if(post) { It r(it++); CHECK(r == before && !(r != before), "it++ does not return the old position (element %zu)", old); } else { It& r = ++it; CHECK(&r == &it, "++it does not return the iterator"); } }
      CHECK(it != before && !(it == before), "stepping from element %zu does not move", old);
      CHECK((it == end) == (pos == n) && (it != end) == (pos != n), "iterator at %zu of %zu compares wrongly with end()", pos, n);
      if(pos < n) at(it, pos);
    }
  }
}
