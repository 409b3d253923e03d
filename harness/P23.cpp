// Integer, bit and floating-point helpers agree with exact reference arithmetic over their whole domain.
// LIBS: bss_util_c.c
// ASSUME: arguments inside each helper's stated domain (positive divisors, representable results, no NaN)
#include "tracked.h"
#include "bss-util/bss_util.h"
#include <cfloat>
#include <utility>
using namespace bss;
typedef __int128 I; typedef unsigned __int128 U;
namespace fallback { struct Any { unsigned long long v; template<class T> Any(T t) : v((unsigned long long)t) {} }; template<class T> static T _bssmultiplyextract(Any a, Any b, Any c) { return (T)((U)a.v * b.v >> (int)c.v); } } // used only if the library has no portable implementation of that name
template<class T> static T any(pbt::Src& s) { return (T)s.bits64(); }
template<class T> static void ints(pbt::Src& s, const char* name)
{
  typedef std::make_unsigned_t<T> N; typedef std::make_signed_t<T> Z; const int B = sizeof(T) * 8; T v = any<T>(s), w = any<T>(s); N n = (N)v; Z z = (Z)v; s.note("%s: %lld, %lld", name, (long long)v, (long long)w);
  int pc = 0, lg = 0; for(int i = 0; i < B; ++i) if(n >> i & 1) { ++pc; lg = i; }
  CHECK(BitCount<N>(n) == pc, "BitCount gives %d instead of %d", BitCount<N>(n), pc); 
  { int b = (int)s.draw(B); bool on = s.boolean(); N m = (N)((N)1 << b); CHECK(GetBitMask<N>(b) == m, "GetBitMask(%d)", b); CHECK(bssSetBit<N>(n, m, on) == (N)(on ? n | m : n & ~m), "bssSetBit of bit %d to %d", b, on); N many = (N)w; CHECK(bssSetBit<N>(n, many, on) == (N)(on ? n | many : n & ~many), "bssSetBit of mask to %d", on); }
  { N a[3] = { n, (N)w, any<N>(s) }; size_t i = s.draw(3 * B); CHECK(bssGetBit<N>(a, i) == (bool)(a[i / B] >> (i % B) & 1), "bssGetBit(%zu)", i); }
  { N p = (N)(n >> s.draw(B)); if(p && p <= (N)((N)1 << (B - 1))) { U q = 1; while(q < p) q <<= 1; CHECK(NextPow2(p) == (N)q, "NextPow2(%llu) is %llu", (unsigned long long)p, (unsigned long long)NextPow2(p)); } }
  if(sizeof(T) == 4) { CHECK(bssLog2((uint32_t)n) == (uint32_t)lg, "bssLog2"); CHECK(bssLog2_p2((uint32_t)1 << (lg & 31)) == (uint32_t)(lg & 31), "bssLog2_p2"); } if(sizeof(T) == 8) CHECK(bssLog2((uint64_t)n) == (uint32_t)lg, "bssLog2(64 bit) is %u instead of %d", bssLog2((uint64_t)n), lg);
  { U r = n; U lo = 0, hi = (U)1 << (B / 2); while(lo + 1 < hi) { U m = (lo + hi) / 2; if(m * m <= r) lo = m; else hi = m; } CHECK(IntFastSqrt<N>(n) == (N)lo, "square root of %llu is %llu instead of %llu", (unsigned long long)n, (unsigned long long)IntFastSqrt<N>(n), (unsigned long long)lo); if(z >= 0) CHECK(FastSqrt<Z>(z) == (Z)lo, "square root of signed %lld is %lld", (long long)z, (long long)FastSqrt<Z>(z)); }
  if(z != std::numeric_limits<Z>::min()) CHECK(bssAbs<Z>(z) == (N)(z < 0 ? 0 - n : n), "bssAbs"); CHECK(bssAbs<N>(n) == n, "bssAbs of an unsigned number"); CHECK(bssNegate<N>(n, 1) == (Z)(N)(0 - n) && bssNegate<N>(n, 0) == (Z)n, "bssNegate"); CHECK(tsign<Z>(z) == (z < 0 ? -1 : 1), "tsign"); CHECK(tsignzero<Z>(z) == (z > 0) - (z < 0) && tsignzero<N>(n) == (n > 0), "tsignzero");
  { Z d = (Z)((N)w >> 1); if(s.boolean()) d = (Z)(1 + s.draw(100)); if(d > 0) { I q = (I)z / d, r = (I)z % d; if(r < 0) { --q; r += d; } CHECK(IntDiv<Z>(z, d) == (Z)q, "IntDiv(%lld, %lld) is %lld", (long long)z, (long long)d, (long long)IntDiv<Z>(z, d)); CHECK(bssMod<Z>(z, d) == (Z)r, "bssMod(%lld, %lld) is %lld", (long long)z, (long long)d, (long long)bssMod<Z>(z, d)); } }
  CHECK((SafeShift<N, 3>(n)) == (N)(n << 3) && (SafeShift<N, -3>(n)) == (N)(n >> 3) && (SafeShift<N, 0>(n)) == n, "SafeShift");
  { N sh = (N)s.draw(B + 1); U p = (U)n * (N)w; CHECK(bssMultiplyExtract<N>(n, (N)w, sh) == (N)(p >> (int)sh), "bssMultiplyExtract(%llu, %llu, %d)", (unsigned long long)n, (unsigned long long)(N)w, (int)sh); I q = (I)z * (Z)w; CHECK(bssMultiplyExtract<Z>(z, (Z)w, (Z)sh) == (Z)(q >> (int)sh), "signed bssMultiplyExtract(%lld, %lld, %d)", (long long)z, (long long)(Z)w, (int)sh);
    if(sh < B) { using namespace fallback; using namespace internal; CHECK(_bssmultiplyextract<N>(n, (N)w, sh) == (N)(p >> (int)sh), "portable multiply of %llu, %llu, shift %d", (unsigned long long)n, (unsigned long long)(N)w, (int)sh); } }
  { T f = v; FlipEndian<T>(&f); T r = 0; for(int i = 0; i < B; i += 8) r |= (T)((N)((n >> i) & 0xFF) << (B - 8 - i)); CHECK(f == r, "FlipEndian"); uint8_t raw[17], w8[17]; int k = (int)s.draw(17); for(int i = 0; i < 17; ++i) raw[i] = w8[i] = (uint8_t)s.draw(256); FlipEndian(raw, (uint8_t)k); for(int i = 0; i < k / 2; ++i) std::swap(w8[i], w8[k - 1 - i]); CHECK(!memcmp(raw, w8, 17), "FlipEndian of %d bytes", k); }
  s.nontrivial(v != 0);
}
PROP(integers, 4, 0, "the operand is not zero")
{
  switch(s.draw(8)) { case 0: ints<uint8_t>(s, "uint8"); break; case 1: ints<int8_t>(s, "int8"); break; case 2: ints<uint16_t>(s, "uint16"); break; case 3: ints<int16_t>(s, "int16"); break; case 4: ints<uint32_t>(s, "uint32"); break; case 5: ints<int32_t>(s, "int32"); break; case 6: ints<uint64_t>(s, "uint64"); break; default: ints<int64_t>(s, "int64"); }
}
template<int B> static void limit(int b)
{
  if(b != B) return; typedef BitLimit<B> L; U um = B == 128 ? ~(U)0 : ((U)1 << B) - 1; I smax = (I)(um >> 1), smin = -smax - 1; size_t bytes = B <= 8 ? 1 : B <= 16 ? 2 : B <= 32 ? 4 : B <= 64 ? 8 : 16;
  CHECK(sizeof(typename L::SIGNED) == bytes && sizeof(typename L::UNSIGNED) == bytes, "%d bits are held in %zu bytes", B, sizeof(typename L::SIGNED)); CHECK((U)L::UNSIGNED_MAX == um && L::UNSIGNED_MIN == 0, "unsigned limits of %d bits", B); CHECK((I)L::SIGNED_MAX == smax && (I)L::SIGNED_MIN == smin, "signed limits of %d bits", B);
}
template<int... B> static void limits(int b, std::integer_sequence<int, B...>) { int x[] = { (limit<B + 1>(b), 0)... }; (void)x; }
PROP(constants, 0.3, 0, "every case") { int b = 1 + (int)s.draw(64); s.note("%d bits", b); s.nontrivial(); limits(b, std::make_integer_sequence<int, 64>()); }
static double fl(pbt::Src& s, double lo, double hi) { switch(s.draw(4)) { case 0: return s.real(lo, hi); case 1: return (double)s.range(-8, 8) * 0.5; case 2: return s.range(-1000, 1000); default: return ldexp(1.0 + s.draw(1 << 20) / (double)(1 << 20), (int)s.range(-10, 10)) * (s.boolean() ? 1 : -1); } }
static int64_t ord(float f) { int32_t i; memcpy(&i, &f, 4); return i < 0 ? -(int64_t)(i & 0x7fffffff) : i; }
static I ord(double f) { int64_t i; memcpy(&i, &f, 8); return i < 0 ? -(I)(i & 0x7fffffffffffffffll) : (I)i; }
template<class F, class D> static void cmp(pbt::Src& s, F a)
{
  F b = a; int64_t step = s.range(-20, 20); if(s.chance(1, 4)) b = (F)fl(s, -1e6, 1e6); else if(s.chance(1, 8)) b = -a; else for(int64_t k = 0; k < (step < 0 ? -step : step); ++k) b = std::nextafter(b, step < 0 ? -std::numeric_limits<F>::infinity() : std::numeric_limits<F>::infinity()); D m = (D)s.draw(24); auto d = ord(a) - ord(b); if(d < 0) d = -d; s.note("%.17g and %.17g, %lld units allowed", (double)a, (double)b, (long long)m);
  CHECK(fCompare(a, b, m) == (d <= m), "fCompare(%.17g, %.17g, %lld) but the distance is %lld", (double)a, (double)b, (long long)m, (long long)d); CHECK(fCompare(b, a, m) == (d <= m), "fCompare is not symmetric for %.17g, %.17g", (double)a, (double)b);
  F eps = (F)fabs(fl(s, -10, 10)); if(s.boolean()) eps = (F)fabs((double)b); CHECK(fSmall(a, eps) == (std::fabs(a) <= eps), "fSmall(%.17g, %.17g)", (double)a, (double)eps);
  if(a == 0) CHECK(fCompareSmall(a, b, m, eps) == (std::fabs(b) <= eps), "fCompareSmall with zero"); else if(b != 0) CHECK(fCompareSmall(a, b, m, eps) == (d <= m), "fCompareSmall"); CHECK(fsign(a) == (std::signbit(a) ? (F)-1 : (F)1), "fsign"); s.nontrivial(a != 0);
}
PROP(comparing, 3, 0, "the first number is not zero") { double a = s.chance(1, 6) ? 0 : fl(s, -1e6, 1e6); if(s.chance(1, 8)) a *= 1e-40; if(s.chance(1, 8)) a = std::ldexp(a, (int)s.range(-60, 60)); if(s.boolean()) cmp<float, int32_t>(s, (float)a); else cmp<double, int64_t>(s, a); }
PROP(approximating, 3, 0, "the operand is neither zero nor one")
{
  double a = fabs(fl(s, 0, 1e6)); if(s.boolean()) a = std::ldexp(a, (int)s.range(-60, 60)); s.note("%.17g", a); s.nontrivial(a != 0 && a != 1); float f = (float)a;
  { double r = FastSqrt<float>(f), w = sqrt((double)f); CHECK(fabs(r - w) <= 1e-5 * w, "float square root of %g is %g", f, r); double q = FastSqrt<double>(a), v = sqrt(a); CHECK(fabs(q - v) <= 1e-9 * v, "double square root of %.17g is %.17g instead of %.17g", a, q, v); }
  { double x = fl(s, -1e4, 1e4), y = fl(s, -1e4, 1e4); double l = fLength((float)x, (float)y), w = sqrt((double)(float)x * (float)x + (double)(float)y * (float)y); CHECK(fabs(l - w) <= 0.15 * w, "length of (%g, %g) is %g instead of %g", x, y, l, w); double X = fl(s, -1e4, 1e4), Y = fl(s, -1e4, 1e4); double d = Dist<double>(x, y, X, Y), e = sqrt((x - X) * (x - X) + (y - Y) * (y - Y)); CHECK(fabs(d - e) <= 1e-9 * e, "distance"); CHECK(DistSqr<int64_t>((int64_t)x, (int64_t)y, (int64_t)X, (int64_t)Y) == ((int64_t)x - (int64_t)X) * ((int64_t)x - (int64_t)X) + ((int64_t)y - (int64_t)Y) * ((int64_t)y - (int64_t)Y), "squared distance"); }
  { double x = fl(s, -1e9, 1e9); if(s.chance(1, 2)) x = s.range(-1000000, 1000000) + 0.5; if(s.chance(1, 4)) x = std::nextafter(x, s.boolean() ? 1e300 : -1e300); float y = (float)x; CHECK(fFastRound(x) == (int32_t)nearbyint(x), "fFastRound(%.17g) is %d", x, fFastRound(x)); CHECK(fFastTruncate(x) == (int32_t)x, "fFastTruncate(%.17g)", x); CHECK(fFastRound(y) == (int32_t)nearbyintf(y), "fFastRound(%gf)", y); CHECK(fFastTruncate(y) == (int32_t)y, "fFastTruncate(%gf)", y); }
}
PROP(angles, 2, 0, "the angles differ")
{
  double a = fl(s, -50, 50), b = fl(s, -50, 50); if(s.chance(1, 4)) a = s.range(-8, 8) * PI / 4; if(s.chance(1, 4)) b = s.range(-8, 8) * PI / 4; s.note("%.17g, %.17g", a, b); s.nontrivial(a != b); double tol = 1e-9 * (1 + fabs(a) + fabs(b)); double w = remainder(b - a, PI_DOUBLE);
  double d = AngleDist(a, b); CHECK(d >= -tol && d <= PI + tol && fabs(d - fabs(w)) <= tol, "AngleDist is %.17g instead of %.17g", d, fabs(w)); double g = AngleDistSigned(a, b); CHECK(g >= -PI - tol && g <= PI + tol, "AngleDistSigned is %.17g", g); CHECK(fabs(remainder(g - (b - a), PI_DOUBLE)) <= tol, "AngleDistSigned is %.17g instead of %.17g", g, w);
  double m = fabs(fl(s, 0.01, 50)); if(m > 0) { double r = bssFMod(a, m), x = fmod(a, m); if(x < 0) x += m; double dd = fabs(r - x); CHECK(r >= -tol * 1e3 && r <= m + tol * 1e3 && std::min(dd, fabs(dd - m)) <= tol * 1e3, "bssFMod(%.17g, %.17g) is %.17g", a, m, r); }
  { double t = s.real(0, 1); double r = lerp<double>(a, b, t); CHECK(fabs(r - (a + (b - a) * t)) <= tol, "lerp"); CHECK(lerp<double>(a, b, 0.0) == a && lerp<double>(a, b, 1.0) == b, "lerp at its ends"); CHECK(lerp<float>((float)a, (float)b, 1.0) == (float)b, "float lerp at its end"); }
}
PROP(aggregates, 2, 0, "at least three values")
{
  double mean = 0, var = 0, avg = 0, a2 = 0; std::vector<double> v; while(s.more() || v.empty()) { double x = fl(s, -1000, 1000); v.push_back(x); avg = bssAvg<double, int>(avg, x, (int)v.size()); bssVariance<double, int>(var, a2, x, (int)v.size()); } s.note("%zu values", v.size()); s.nontrivial(v.size() > 2);
  for(double x : v) mean += x; mean /= v.size(); double w = 0, mag = 1; for(double x : v) { w += (x - mean) * (x - mean); mag = std::max(mag, fabs(x)); } CHECK(fabs(avg - mean) <= 1e-9 * mag * v.size(), "average %.17g instead of %.17g", avg, mean); CHECK(fabs(a2 - mean) <= 1e-9 * mag * v.size(), "bssVariance's average %.17g instead of %.17g", a2, mean); CHECK(fabs(var - w) <= 1e-9 * mag * mag * v.size(), "sum of squared differences %.17g instead of %.17g", var, w);
}
PROP(calendar, 1, 0, "every case")
{
  int64_t y = s.range(-5000, 5000); unsigned m = 1 + (unsigned)s.draw(12); auto leap = [](int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }; static const int md[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; unsigned n = md[m - 1] + (m == 2 && leap(y)), d = 1 + (unsigned)s.draw(n); s.note("%lld-%u-%u", (long long)y, m, d); s.nontrivial();
  auto f = [](int64_t y) { int64_t k = y - 1; auto fd = [](int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }; return 365 * k + fd(k, 4) - fd(k, 100) + fd(k, 400); }; int64_t w = f(y) - f(1970); for(unsigned k = 1; k < m; ++k) w += md[k - 1] + (k == 2 && leap(y)); w += d - 1; CHECK(DaysFromCivil<int64_t>(y, m, d) == w, "DaysFromCivil is %lld instead of %lld", (long long)DaysFromCivil<int64_t>(y, m, d), (long long)w); CHECK(DaysFromCivil<int>((int)y, m, d) == (int)w, "DaysFromCivil in 32 bits");
}
PROP(hashes, 1, 0, "the text has at least two characters")
{
  std::string t; while(s.more(8)) t += (char)(1 + s.draw(255)); uint32_t a = 0x811c9dc5; uint64_t b = 0xcbf29ce484222325ull; for(unsigned char c : t) { a = (a ^ c) * 0x1000193u; b = (b ^ c) * 0x100000001b3ull; } s.note("%zu characters", t.size()); s.nontrivial(t.size() > 1);
  CHECK(hash_fnv1a(t.c_str()) == a, "hash_fnv1a"); CHECK(hash64_fnv1a(t.c_str()) == b, "hash64_fnv1a is %llx instead of %llx", (unsigned long long)hash64_fnv1a(t.c_str()), (unsigned long long)b);
  int c = (int)s.draw(0x110000); if(c >= 0xD800 && c < 0xE000) c = 'x'; std::string o = "p", w = "p"; if(c < 0x80) w += (char)c; else if(c < 0x800) { w += (char)(0xC0 | c >> 6); w += (char)(0x80 | (c & 63)); } else if(c < 0x10000) { w += (char)(0xE0 | c >> 12); w += (char)(0x80 | (c >> 6 & 63)); w += (char)(0x80 | (c & 63)); } else { w += (char)(0xF0 | c >> 18); w += (char)(0x80 | (c >> 12 & 63)); w += (char)(0x80 | (c >> 6 & 63)); w += (char)(0x80 | (c & 63)); } OutputUnicode(o, c); CHECK(o == w, "OutputUnicode of U+%X", c);
}
