// P31: bit streams, bit fields and stream buffers against plain bit and byte sequences.
// MODE: asan
// LIBS: bss_util.cpp bss_util_c.c ConvertUTF.c
// ASSUME: a BitStream with pending bits is moved, not copied; bits given to BitField::Set lie inside the mask; a DynArray is not changed behind its stream's back, and is looked at after a flush; seekp/tellp are not used on a DynArray stream
#include "tracked.h"
#include "pbt.h"
#include "bss-util/BitStream.h"
#include "bss-util/BitField.h"
#include "bss-util/stream.h"
#include "bss-util/DynArray.h"
#include <sstream>
#include <vector>
#include <memory>
#include <string>
using namespace bss;

// ---- bit streams --------------------------------------------------------------------------
static std::vector<bool> bitsOf(const std::string& d, int bits)
{
  std::vector<bool> r;
  for(int i = 0; i < bits; ++i) r.push_back(((unsigned char)d[i / 8] >> (i % 8)) & 1);
  return r;
}
struct Bits { std::vector<bool> w; size_t r = 0; size_t avail() const { return w.size() / 8 * 8 - r; } };

template<class BS> static void wr(pbt::Src& s, BS& b, Bits& m)
{
  switch(s.pick({ 6, 2, 1, 1, 1, 1 }))
  {
  case 0:
  {
    int bits = (int)s.draw(s.chance(1, 4) ? 70 : 18);
    std::string d = s.bytes(10, 3);
    d.resize((bits + 7) / 8 + 1, '\x5a');
    std::unique_ptr<char[]> p(new char[(bits + 7) / 8]); // exact size: reading past the last byte shows
    memcpy(p.get(), d.data(), (bits + 7) / 8);
    b.Write(p.get(), bits);
    for(bool x : bitsOf(d, bits)) m.w.push_back(x);
    break;
  }
  case 1: { bool v = s.boolean(); if(s.boolean()) b.Write(v); else b << v; m.w.push_back(v); break; }
  case 2: { int16_t v = (int16_t)s.bits64(); b << v; for(bool x : bitsOf(std::string((char*)&v, 2), 16)) m.w.push_back(x); break; }
  case 3: { int32_t v = (int32_t)s.bits64(); b << v; for(bool x : bitsOf(std::string((char*)&v, 4), 32)) m.w.push_back(x); break; }
  case 4: { uint64_t v = s.bits64(); b << v; for(bool x : bitsOf(std::string((char*)&v, 8), 64)) m.w.push_back(x); break; }
  case 5: { char v = (char)s.bits64(); b << v; for(bool x : bitsOf(std::string(&v, 1), 8)) m.w.push_back(x); break; }
  }
}
template<class BS> static void rd(pbt::Src& s, BS& b, Bits& m, size_t avail)
{
  int bits; std::string got;
  int k = s.pick({ 6, 2, 1, 1, 1 });
  if(k == 1 && avail < 1) return;
  if(k == 2 && avail < 16) return;
  if(k == 3 && avail < 32) return;
  if(k == 4 && avail < 64) return;
  switch(k)
  {
  case 0:
  {
    bits = (int)s.draw(std::min<size_t>(avail, s.chance(1, 4) ? 70 : 18) + 1);
    std::unique_ptr<char[]> p(new char[(bits + 7) / 8]);
    memset(p.get(), (char)s.bits64(), (bits + 7) / 8);
    b.Read(p.get(), bits);
    got.assign(p.get(), (bits + 7) / 8);
    if(bits & 7) CHECK(((unsigned char)got.back() >> (bits & 7)) == 0, "Read of %d bits left bits above them set", bits);
    break;
  }
  case 1:
  {
    bool v[2] = { s.boolean(), s.boolean() }; // destination holds something already
    bool other = v[1];
    b >> v[0];
    CHECK(v[1] == other, "Read<bool> wrote past its destination");
    bits = 1;
    got.assign(1, (char)v[0]);
    break;
  }
  case 2: { int16_t v = (int16_t)s.bits64(); b >> v; bits = 16; got.assign((char*)&v, 2); break; }
  case 3: { float v = 1.5f; b >> v; bits = 32; got.assign((char*)&v, 4); break; }
  default: { uint64_t v = s.bits64(); b >> v; bits = 64; got.assign((char*)&v, 8); break; }
  }
  auto g = bitsOf(got + '\0', bits);
  for(int i = 0; i < bits; ++i) CHECK(g[i] == m.w[m.r + i], "bit %d of a %d bit read at bit %zu is %d, expected %d", i, bits, m.r, (int)g[i], (int)m.w[m.r + i]);
  m.r += bits;
}

PROP(bitstream, 2, 0, "at least four writes and four reads at offsets that are not byte aligned")
{
  std::stringstream ss;
  Bits m;
  int nw = 0, nr = 0;
  {
    BitStream<std::ostream> b0(ss);
    std::ostringstream dummy;
    std::unique_ptr<BitStream<std::ostream>> b(new BitStream<std::ostream>(b0));
    while(s.more(10))
    {
      switch(s.pick({ 12, 2, 1, 1, 1 }))
      {
      case 0: if(m.w.size() & 7) ++nw; wr(s, *b, m); break;
      case 1: b->Flush(); while(m.w.size() & 7) m.w.push_back(false); break;
      case 2: { std::unique_ptr<BitStream<std::ostream>> c(new BitStream<std::ostream>(std::move(*b))); b = std::move(c); break; }
      case 3:
      {
        std::unique_ptr<BitStream<std::ostream>> c(new BitStream<std::ostream>(dummy));
        size_t pend = s.draw(8);
        char x = (char)0xff;
        if(pend) c->Write(&x, (int)pend);
        size_t before = dummy.str().size();
        *c = std::move(*b);
        CHECK(dummy.str().size() == before + (pend ? 1 : 0), "assigning a BitStream dropped %zu pending bits", pend);
        b = std::move(c);
        break;
      }
      case 4: { size_t before = ss.str().size(); auto& self = *b; if(s.boolean()) *b = self; else *b = std::move(self); CHECK(ss.str().size() == before, "assigning a BitStream to itself wrote to the stream"); break; }
      }
    }
  }
  size_t total = m.w.size();
  CHECK(ss.str().size() == (total + 7) / 8, "%zu bits became %zu bytes", total, ss.str().size());
  while(m.w.size() & 7) m.w.push_back(false);
  for(size_t i = 0; i < m.w.size(); ++i) CHECK((((unsigned char)ss.str()[i / 8] >> (i % 8)) & 1) == m.w[i], "bit %zu of the stream is wrong", i);
  BitStream<std::istream> in(ss);
  while(m.r < m.w.size() && s.more(12)) { if(m.r & 7) ++nr; rd(s, in, m, m.w.size() - m.r); }
  CHECK(!ss.fail(), "reading the bits that were written failed the stream");
  s.nontrivial(nw >= 4 && nr >= 4);
}

PROP(bitstream_interleaved, 1, 0, "at least four unaligned writes interleaved with at least four reads")
{
  std::stringstream ss;
  Bits m;
  int nw = 0, nr = 0;
  {
    BitStream<std::iostream> b(ss);
    while(s.more(20))
    {
      if(s.boolean()) { if(m.w.size() & 7) ++nw; wr(s, b, m); }
      else { if(m.avail()) ++nr; rd(s, b, m, m.avail()); }
      CHECK(ss.good(), "the stream went bad with %zu of %zu bits read", m.r, m.w.size());
    }
  }
  s.nontrivial(nw >= 4 && nr >= 4);
}

// ---- bssSerialize -----------------------------------------------------------------------------
PROP(serialize, .5, 0, "a string and a number")
{
  std::stringstream ss;
  int n = 0, k = 0;
  std::vector<std::pair<int, std::string>> m;
  while(s.more(8))
  {
    int t = s.pick({ 1, 1, 1, 1 });
    if(t == 0) { int v = (int)s.bits64(); bssSerialize<int>(v, ss); m.push_back({ 0, std::string((char*)&v, 4) }); ++n; }
    if(t == 1) { double v = s.real(-1e9, 1e9); bssSerialize<double>(v, ss); m.push_back({ 1, std::string((char*)&v, 8) }); ++n; }
    if(t >= 2) { std::string v = s.bytes(30, 2); bssSerialize<const char*>(v.c_str(), ss); m.push_back({ t, v }); ++k; }
  }
  for(auto& p : m)
  {
    if(p.first == 0) { int v; bssDeserialize<int>(v, ss); CHECK(std::string((char*)&v, 4) == p.second, "int changed"); }
    if(p.first == 1) { double v; bssDeserialize<double>(v, ss); CHECK(std::string((char*)&v, 8) == p.second, "double changed"); }
    if(p.first == 2) { std::string v("something"); bssDeserialize<std::string>(v, ss); CHECK(v == p.second, "string changed"); }
    if(p.first == 3) { Str v("something"); bssDeserialize<Str>(v, ss); CHECK(v == p.second.c_str() && v.size() == p.second.size(), "Str changed"); }
  }
  CHECK(ss.good(), "stream went bad");
  CHECK(ss.peek() == EOF, "not everything was read back");
  s.nontrivial(n && k);
}

// ---- bit fields -----------------------------------------------------------------------------
template<class T> static void field(pbt::Src& s)
{
  BitField<T> f((T)0); T m = 0;
  BitField<T> g((T)s.bits64()); T mg = g.Get();
  int n = 0;
  auto one = [&]() -> T { return (T)((T)1 << s.draw(sizeof(T) * 8)); };
  while(s.more(15))
  {
    ++n;
    T a = (T)s.bits64(), k = (T)s.bits64();
    switch(s.pick({ 1, 3, 3, 3, 2, 2, 2, 2, 1 }))
    {
    case 0: f.Set(a); m = a; break;
    case 1: f.Set((T)(a & k), k); m = (T)((m & ~k) | (a & k)); break;
    case 2: { T b = one(); bool v = s.boolean(); f[b] = v; m = v ? (T)(m | b) : (T)(m & ~b); break; }
    case 3: f(k) = a; m = (T)((m & ~k) | (a & k)); break;
    case 4: f += k; m |= k; break;
    case 5: f -= k; m = (T)(m & ~k); break;
    case 6: { T b = one(); f[b].flip(); m ^= b; break; }
    case 7: { T b = one(), c = one(); f[b] = g[c]; m = (mg & c) ? (T)(m | b) : (T)(m & ~b); break; }
    case 8: f(k) = g(k); m = (T)((m & ~k) | (mg & k)); break;
    }
    const BitField<T>& c = f;
    CHECK(c.Get() == m, "bits are %llx, expected %llx", (unsigned long long)c.Get(), (unsigned long long)m);
    T b = one();
    CHECK(c.Get(b) == ((m & b) != 0) && c[b] == ((m & b) != 0) && (bool)f[b] == ((m & b) != 0) && !f[b] == !(m & b), "bit %llx read wrongly", (unsigned long long)b);
    CHECK(c.GetGroup(k) == (T)(m & k) && c(k) == (T)(m & k) && (T)f(k) == (T)(m & k) && f(k) == (T)(m & k) && !(f(k) != (T)(m & k)) && !f(k) == !(m & k), "group %llx read wrongly", (unsigned long long)k);
    CHECK(g.Get() == mg, "another field changed");
  }
  s.nontrivial(n >= 5);
}
PROP(bitfield, .5, 0, "at least five operations")
{
  switch(s.draw(4)) { case 0: field<uint8_t>(s); break; case 1: field<uint16_t>(s); break; case 2: field<uint32_t>(s); break; case 3: field<uint64_t>(s); break; }
}

// ---- stream splitter --------------------------------------------------------------------------
PROP(splitter, 1, 0, "text was written to at least two targets added at different times")
{
  StreamSplitter sp;
  std::ostream out(&sp);
  std::ostringstream t[4]; std::string m[4];
  std::vector<int> on; std::string pend;
  auto sync = [&]() { for(int i : on) m[i] += pend; pend.clear(); };
  bool two = false;
  while(s.more(16))
  {
    switch(s.pick({ 6, 2, 2, 2, 1 }))
    {
    case 0: { std::string d = s.bytes(s.chance(1, 6) ? 700 : 20, 3); out.write(d.data(), d.size()); pend += d; break; }
    case 1: { int v = (int)s.range(-1000, 1000); out << v << 'x'; pend += std::to_string(v) + "x"; break; }
    case 2: out << std::flush; if(on.size() >= 2 && !pend.empty()) two = true; sync(); break;
    case 3: { int i = (int)s.draw(4); bool has = false; for(int x : on) has |= x == i; if(has) break; if(on.size() >= 2 && !pend.empty()) two = true; sync(); sp.AddTarget(&t[i]); on.push_back(i); break; }
    case 4: sync(); sp.ClearTargets(); on.clear(); break;
    }
    CHECK(out.good(), "the splitter's stream went bad");
    for(int i = 0; i < 4; ++i) CHECK(t[i].str() == m[i], "target %d received %zu bytes, expected %zu", i, t[i].str().size(), m[i].size());
  }
  s.nontrivial(two);
}

// ---- read only memory stream vs. std::istringstream ---------------------------------------------
template<class T> static void memread(pbt::Src& s)
{
  std::string d = s.bytes(60, s.boolean() ? 3 : 0);
  d.resize(d.size() / sizeof(T) * sizeof(T));
  size_t cnt = d.size() / sizeof(T);
  std::unique_ptr<T[]> p(new T[cnt]);
  memcpy(p.get(), d.data(), d.size());
  StreamBufArray<T> sb(p.get(), cnt);
  std::istream a(&sb);
  std::istringstream b(d);
  int n = 0, back = 0;
  while(s.more(20))
  {
    ++n;
    const char* what = "";
    switch(s.pick({ 5, 3, 4, 3, 3, 4, 2, 2, 2, 2 }))
    {
    case 0: what = "get"; CHECK(a.get() == b.get(), "get differs"); break;
    case 1: what = "peek"; CHECK(a.peek() == b.peek(), "peek differs"); break;
    case 2:
    {
      what = "read";
      int k = (int)s.draw(20);
      std::string x(k, 1), y(k, 1);
      a.read(&x[0], k); b.read(&y[0], k);
      CHECK(x == y, "read(%d) gives different bytes", k);
      break;
    }
    case 3: what = "unget"; ++back; a.unget(); b.unget(); break;
    case 4: { what = "putback"; ++back; auto pos = b.good() ? (long)b.tellg() : -1; char c = pos > 0 && s.chance(3, 4) ? d[pos - 1] : (char)s.bits64(); a.putback(c); b.putback(c); break; }
    case 5:
    {
      what = "seekg"; ++back;
      auto dir = s.draw(3) == 0 ? std::ios::beg : s.boolean() ? std::ios::cur : std::ios::end;
      long off = (long)s.range(dir == std::ios::beg ? -2 : -10, dir == std::ios::end ? 2 : 20);
      a.seekg(off, dir); b.seekg(off, dir);
      break;
    }
    case 6: what = "tellg"; CHECK(a.tellg() == b.tellg(), "tellg gives %ld, expected %ld", (long)a.tellg(), (long)b.tellg()); break;
    case 7: { what = "ignore"; int k = (int)s.draw(10); a.ignore(k); b.ignore(k); break; }
    case 8: { what = "getline"; std::string x, y; char dl = d.empty() ? 'a' : d[s.draw(d.size())]; std::getline(a, x, dl); std::getline(b, y, dl); CHECK(x == y, "getline differs"); break; }
    case 9: { what = "readsome"; char x[16] = { 0 }, y[16] = { 0 }; CHECK(a.readsome(x, 9) == b.readsome(y, 9) && !memcmp(x, y, 16), "readsome differs"); break; }
    }
    CHECK(a.rdstate() == b.rdstate(), "after %s the state is %d, expected %d", what, (int)a.rdstate(), (int)b.rdstate());
    CHECK(a.gcount() == b.gcount(), "after %s gcount is %ld, expected %ld", what, (long)a.gcount(), (long)b.gcount());
    if(!a.good() && s.boolean()) { a.clear(); b.clear(); }
  }
  a.clear(); b.clear();
  CHECK(a.tellg() == b.tellg(), "final position %ld, expected %ld", (long)a.tellg(), (long)b.tellg());
  s.nontrivial(n >= 5 && back >= 2 && d.size() > 4);
}
PROP(memory_read, 1.5, 0, "at least five operations, two of them moving backwards, over more than four bytes")
{
  switch(s.draw(3)) { case 0: memread<char>(s); break; case 1: memread<uint8_t>(s); break; case 2: memread<int>(s); break; }
}

// ---- read and write DynArray stream ---------------------------------------------------------------
template<class T> static void dyn(pbt::Src& s)
{
  const size_t W = sizeof(T);
  DynArray<T> arr;
  std::string m;
  size_t pre = s.draw(6);
  for(size_t i = 0; i < pre; ++i) { T v = (T)s.bits64(); arr.Add(v); m.append((char*)&v, W); }
  if(s.chance(1, 3)) arr.SetCapacity(arr.Length() + s.draw(10));
  size_t begin = s.chance(1, 3) ? s.draw(pre + 1) : 0;
  size_t base = begin * W, r = base;
  int nw = 0, nr = 0, put = 0;
  {
    std::unique_ptr<StreamBufDynArray<T>> sb(new StreamBufDynArray<T>(arr, begin));
    std::iostream io(sb.get());
    while(s.more(20))
    {
      size_t avail = m.size() / W * W - r;
      switch(s.pick({ 5, 4, 2, 4, 3, 2, 2, 2, 1 }))
      {
      case 0: { std::string d = s.bytes(s.chance(1, 5) ? 200 : 9, 3); io.write(d.data(), d.size()); m += d; ++nw; break; }
      case 1: { char c = (char)s.bits64(); io.put(c); m += c; ++put; break; }
      case 2: { int v = (int)s.range(-99999, 99999); io << v; m += std::to_string(v); ++nw; break; }
      case 3:
      {
        size_t k = s.draw(16);
        std::string x(k, 0);
        io.read(&x[0], k);
        size_t e = std::min(k, avail);
        CHECK((size_t)io.gcount() == e, "read(%zu) of %zu available bytes gives %ld", k, avail, (long)io.gcount());
        CHECK(!x.compare(0, e, m, r, e), "read gives other bytes than were written");
        CHECK(io.good() == (k <= avail), "read(%zu) of %zu available bytes leaves the stream %s", k, avail, io.good() ? "good" : "failed");
        io.clear();
        r += e; if(e) ++nr;
        break;
      }
      case 4:
      {
        int c = io.get();
        CHECK(c == (avail ? (unsigned char)m[r] : EOF), "get gives %d with %zu bytes available, expected %d", c, avail, avail ? (unsigned char)m[r] : EOF);
        io.clear();
        if(avail) { ++r; ++nr; }
        break;
      }
      case 5: { int c = io.peek(); CHECK(c == (avail ? (unsigned char)m[r] : EOF), "peek gives %d", c); io.clear(); break; }
      case 6:
      {
        auto dir = s.draw(3) == 0 ? std::ios::beg : s.boolean() ? std::ios::cur : std::ios::end;
        long off = (long)s.range(-12, 12);
        long size = (long)(m.size() / W * W - base);
        long to = off + (dir == std::ios::beg ? 0 : dir == std::ios::end ? size : (long)(r - base));
        io.seekg(off, dir);
        bool ok = to >= 0 && to <= size;
        CHECK(io.good() == ok, "seekg to %ld of %ld %s", to, size, ok ? "failed" : "succeeded");
        io.clear();
        if(ok) r = base + to;
        CHECK((long)io.tellg() == (long)(r - base), "tellg gives %ld, expected %ld", (long)io.tellg(), (long)(r - base));
        break;
      }
      case 7:
        io.flush();
        CHECK(arr.Length() == m.size() / W, "after a flush the array has %zu elements, expected %zu", (size_t)arr.Length(), m.size() / W);
        CHECK(!memcmp(arr.begin(), m.data(), m.size() / W * W) || !m.size(), "after a flush the array holds other bytes than were written");
        break;
      case 8: { std::unique_ptr<StreamBufDynArray<T>> n(new StreamBufDynArray<T>(std::move(*sb))); io.rdbuf(n.get()); sb = std::move(n); break; }
      }
      CHECK(io.good(), "the stream went bad");
    }
    io.flush();
  }
  CHECK(arr.Length() == m.size() / W, "the array has %zu elements, expected %zu", (size_t)arr.Length(), m.size() / W);
  if(arr.Length()) CHECK(!memcmp(arr.begin(), m.data(), m.size() / W * W), "the array holds other bytes than were written");
  s.nontrivial(nw >= 2 && nr >= 2 && put >= 2);
}
PROP(dynarray_stream, 2, pbt::LEAKCHECK, "at least two block writes, two single characters and two successful reads")
{
  switch(s.draw(4)) { case 0: dyn<char>(s); break; case 1: dyn<uint8_t>(s); break; case 2: dyn<short>(s); break; case 3: dyn<int>(s); break; }
}

// ---- transforming stream buffer -----------------------------------------------------------------
class XorBuf : public StreamBufFunction
{
public:
  XorBuf(std::istream& in, size_t n) : StreamBufFunction(in, n) {}
  XorBuf(std::ostream& out, size_t n) : StreamBufFunction(out, n) {}
  virtual int_type sync() override { if(_out) { _onwrite(); } return 0; }
protected:
  virtual void _onread() override
  {
    _in->read(_ibuf.get(), _sz);
    size_t n = (size_t)_in->gcount();
    for(size_t i = 0; i < n; ++i) _obuf[i] = _ibuf[i] ^ 0x55;
    setg(_obuf.get(), _obuf.get(), _obuf.get() + n);
  }
  virtual void _onwrite() override
  {
    size_t n = pbase() == _obuf.get() ? pptr() - pbase() : 0;
    for(size_t i = 0; i < n; ++i) _ibuf[i] = _obuf[i] ^ 0x55;
    _out->write(_ibuf.get(), n);
    setp(_obuf.get(), _obuf.get() + _sz);
  }
};
PROP(function_stream, 1, pbt::LEAKCHECK, "more data than the buffer holds was moved in both directions")
{
  size_t n = 1 + s.draw(12);
  std::string m;
  std::stringstream ss;
  {
    XorBuf b(static_cast<std::ostream&>(ss), n);
    std::ostream o(&b);
    while(s.more(8))
    {
      if(s.boolean()) { std::string d = s.bytes(30, 3); o.write(d.data(), d.size()); m += d; }
      else if(s.chance(1, 5)) o.flush();
      else { char c = (char)s.bits64(); o.put(c); m += c; }
      CHECK(o.good(), "writing failed the stream after %zu bytes", m.size());
    }
    o.flush();
  }
  std::string e = m;
  for(auto& c : e) c ^= 0x55;
  CHECK(ss.str() == e, "%zu bytes came out, expected %zu", ss.str().size(), e.size());
  XorBuf b(static_cast<std::istream&>(ss), n);
  std::istream in(&b);
  size_t r = 0; bool big = false;
  while(r < m.size() && s.more(10))
  {
    size_t av = m.size() - r;
    if(s.boolean())
    {
      size_t k = s.draw(30);
      std::string x(k, 0);
      in.read(&x[0], k);
      size_t g = std::min(k, av);
      CHECK((size_t)in.gcount() == g, "read(%zu) with %zu bytes to come gives %ld", k, av, (long)in.gcount());
      CHECK(!x.compare(0, g, m, r, g), "read gives other bytes");
      CHECK(in.good() == (k <= av), "stream state after read(%zu) with %zu bytes to come", k, av);
      in.clear(); r += g; big |= g > n;
    }
    else { CHECK(in.get() == (unsigned char)m[r], "get gives another byte at %zu", r); ++r; }
  }
  s.nontrivial(m.size() > n && big);
}
