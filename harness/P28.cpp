// Random generators, ranges, shuffles, alias tables and subdivisions have the distribution they promise.
// LIBS: bss_util.cpp bss_util_c.c ConvertUTF.c
// ASSUME: statistical bounds are seven standard deviations wide and every sample is a deterministic function of the generated seed; probabilities handed to an alias table sum to one; differences of range limits fit their type; XorshiftRand has been given a seed
#include "tracked.h"
#include "bss-util/algo.h"
#include "bss-util/RandomQueue.h"
#include "bss-util/AliasTable.h"
#include "bss-util/XorshiftEngine.h"
#include <cmath>
#include <map>
using namespace bss;
typedef double D; typedef uint64_t U;
static bool within(D got, D n, D p) { return std::fabs(got - n * p) <= 7 * std::sqrt(n * p * (1 - p)) + 5; }
// Vigna's published generators
static U ref64(U& x) { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x * 2685821657736338717ull; }
struct Ref { U s[16]; int p = 0; U next() { U s0 = s[p], s1 = s[p = (p + 1) & 15]; s1 ^= s1 << 31; s[p] = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30); return s[p] * 1181783497276652981ull; } };
template<class T> static void engine(pbt::Src& s)
{
  U sd = s.boolean() ? s.draw(4) : s.bits64(), x = sd; s.note("seed %llu, %d-bit outputs", (unsigned long long)sd, (int)sizeof(T) * 8); if(x) for(int i = 0; i < 3; ++i) { U y = x, r = ref64(y), z = x; CHECK(xorshift64star(z) == r && z == y, "xorshift64*"); x = y; }
  Ref r; U arr[16], st[17]; for(int i = 0; i < 16; ++i) arr[i] = r.s[i] = s.chance(1, 5) ? s.draw(3) : s.bits64(); bool any = false; for(U k : arr) any |= k != 0; if(!any) arr[3] = r.s[3] = 9; memcpy(st, arr, sizeof(arr)); st[16] = 0; XorshiftEngine<T> a(arr); int n = (int)s.range(1, 60); s.nontrivial(n > 16); for(int i = 0; i < n; ++i) { U e = r.next(); CHECK(xorshift1024star(st) == e, "xorshift1024* output %d", i); T g = a(); CHECK(g == (T)e, "engine output %d", i); CHECK(g >= a.min() && g <= a.max(), "output outside min..max"); }
  XorshiftEngine<T> b(sd), c(0x1234), d(b); c.seed(sd); CHECK(b == c && !(b != c), "engines seeded alike differ"); int k = (int)s.range(0, 40); b.discard(k); T last = 0; bool zero = true; for(int i = 0; i < k; ++i) last = c(); CHECK(b == c, "discard(%d) differs from %d calls", k, k); for(int i = 0; i < k; ++i) zero &= d() == 0; CHECK(b == d, "a copy diverged"); (void)last; (void)zero; d(); CHECK(b != d && !(b == d), "engines in different states compare equal"); U bits = 0, ones = 0; for(int i = 0; i < 512; ++i) { U v = (U)(typename std::make_unsigned<T>::type)b(); bits |= v; ones += __builtin_popcountll(v); } CHECK(bits == (U)(typename std::make_unsigned<T>::type)~(T)0, "some bits never appear in 512 outputs"); CHECK(within((D)ones, 512. * sizeof(T) * 8, .5), "%llu one bits in 512 outputs", (unsigned long long)ones);
  U w[17], v[17]; GenXor1024Seed(sd, w); GenXor1024Seed(sd + 1 + s.draw(5), v); CHECK(memcmp(w, v, sizeof(U) * 16), "different seeds give one state"); if(sd) { XorshiftEngine<U> e(sd); CHECK(XorshiftRand(sd) == e() && XorshiftRand() == e() && XorshiftRand() == e(), "XorshiftRand and the engine differ"); }
}
PROP(generators, 2, 0, "more than one round of the state") { switch(s.draw(3)) { case 0: engine<U>(s); break; case 1: engine<uint32_t>(s); break; case 2: engine<uint16_t>(s); break; } }
struct Script { typedef U result_type; std::vector<U> v; size_t i = 0; static constexpr U min() { return 0; } static constexpr U max() { return ~0ull; } U operator()() { return v[i++ % v.size()]; } };
static U edge(pbt::Src& s) { switch(s.draw(4)) { case 0: return s.bits64(); case 1: return ~0ull - s.draw(3000); case 2: return s.draw(4); } return 1ull << s.draw(64); }
template<class T> static void ranges(pbt::Src& s, T lo, T hi)
{
  Script e; int n = (int)s.range(1, 5); for(int i = 0; i < n; ++i) e.v.push_back(edge(s)); for(int i = 0; i < n; ++i) { T g = bssrand<T, Script>(lo, hi, e); CHECK(g >= lo && (std::is_integral<T>::value ? g < hi : g <= hi), "bssrand %.17g outside [%.17g,%.17g)", (D)g, (D)lo, (D)hi); }
  e.i = 0; for(int i = 0; i < n; ++i) { D c = bssGenCanonical<double, Script>(e); CHECK(c >= 0 && c < 1, "canonical %.17g", c); } U sd = s.bits64(); XorshiftEngine64 x(sd); const int N = 600; int h[2] = { 0, 0 }; D mean = 0; for(int i = 0; i < N; ++i) { T g = bssrand<T>(lo, hi, x); D f = (D)(g - lo) / (D)(hi - lo); mean += f; ++h[f >= .5]; CHECK(f >= 0 && f <= 1, "bssrand outside its range"); } if(!std::is_integral<T>::value || (D)(hi - lo) > 1000) CHECK(within(h[0], N, .5) && std::fabs(mean / N - .5) < 7 * .2887 / std::sqrt(N), "bssrand is not uniform: %d of %d in the lower half", h[0], N); else { D w = (D)(hi - lo), half = std::ceil(w / 2); CHECK(within(h[0], N, half / w), "bssrand over %g integers is not uniform", w); }
}
PROP(ranges_and_shuffles, 4, 0, "a wide range or at least three elements to shuffle")
{
  switch(s.draw(6))
  {
  case 0: { int lo = (int)s.edgy(INT_MIN / 2, INT_MAX / 2), w = (int)s.edgy(1, INT_MAX / 2); s.note("int [%d,%d)", lo, lo + w); s.nontrivial(w > 10); ranges<int>(s, lo, lo + w); break; }
  case 1: { int64_t lo = s.edgy(INT64_MIN / 2, INT64_MAX / 2), w = s.edgy(1, INT64_MAX / 2); s.note("int64 [%lld,%lld)", (long long)lo, (long long)(lo + w)); s.nontrivial(w > 10); if(w > (1ll << 52)) w = 1ll << 52; ranges<int64_t>(s, lo, lo + w); bssRandSeed(s.bits64()); for(int i = 0; i < 20; ++i) { int64_t g = bssRandInt(lo, lo + w); CHECK(g >= lo && g < lo + w, "bssRandInt"); } break; }
  case 2: { D lo = s.real(-1e6, 1e6), w = s.real(1e-3, 1e6); s.note("double [%g,%g)", lo, lo + w); s.nontrivial(); ranges<D>(s, lo, lo + w); bssRandSeed(s.bits64()); for(int i = 0; i < 20; ++i) { D g = bssRandReal(lo, lo + w); CHECK(g >= lo && g <= lo + w, "bssRandReal"); } break; }
  case 3: { // a shuffle permutes its elements
    int n = (int)s.range(0, 30); std::vector<trk::Safe> v; std::vector<int> a, b; for(int i = 0; i < n; ++i) { int k = (int)s.draw(12); v.push_back(trk::Safe(k)); a.push_back(k); } s.nontrivial(n >= 3); s.note("shuffle of %d", n); Script e; for(int i = 0; i < 7; ++i) e.v.push_back(edge(s)); switch(s.draw(3)) { case 0: Shuffle<trk::Safe, int, Script>(v.data(), n, e); break; case 1: Shuffle<trk::Safe, size_t, Script>(v.data(), n, e); break; case 2: Shuffle<trk::Safe, uint8_t, Script>(v.data(), (uint8_t)n, e); break; } for(auto& k : v) b.push_back(k.get()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "a shuffle lost or duplicated elements"); int c[5] = { 1, 2, 3, 4, 5 }; bssRandSeed(s.bits64()); Shuffle(c); Shuffle(c, 5); { int q[6] = { 1, 2, 3, 4, 5, 77 }; Shuffle(q, e); std::sort(q, q + 6); for(int i = 0; i < 5; ++i) CHECK(q[i] == i + 1, "shuffled array with an engine"); CHECK(q[5] == 77, "shuffled array with an engine"); } std::sort(c, c + 5); for(int i = 0; i < 5; ++i) CHECK(c[i] == i + 1, "shuffled array"); break; }
  case 4: { // every permutation is as likely as any other
    int n = (int)s.range(2, 4), f = n == 2 ? 2 : n == 3 ? 6 : 24; U sd = s.bits64(); XorshiftEngine64 e(sd); s.note("permutations of %d, seed %llu", n, (unsigned long long)sd); s.nontrivial(n > 2); std::map<int, int> h; const int N = 80 * f; for(int i = 0; i < N; ++i) { int p[4] = { 1, 2, 3, 4 }; if(i % 2) Shuffle<int, int, XorshiftEngine64>(p, n, e); else Shuffle<int, size_t, XorshiftEngine64>(p, n, e); int k = 0; for(int j = 0; j < n; ++j) k = k * 5 + p[j]; ++h[k]; } CHECK((int)h.size() == f, "%zu of %d permutations appeared in %d shuffles", h.size(), f, N); for(auto& k : h) CHECK(within(k.second, N, 1. / f), "a permutation appeared %d times in %d shuffles", k.second, N); break; }
  case 5: { // leaves of a random subdivision tile the rectangle
    float r[4] = { (float)s.range(-8, 8), (float)s.range(-8, 8), 0, 0 }; r[2] = r[0] + 1 + (float)s.draw(16); r[3] = r[1] + 1 + (float)s.draw(16); size_t maxd = s.range(0, 5); D stop = s.real(0, .6); bssRandSeed(s.bits64()); s.note("subdivide to depth %zu, stop %g", maxd, stop); std::vector<std::array<D, 4>> leaf; size_t deepest = 0; auto f1 = [&](size_t d, const float(&)[4]) -> D { deepest = std::max(deepest, d); return d >= maxd ? 1 : stop; }; auto f2 = [&](const float(&q)[4]) { leaf.push_back({ q[0], q[1], q[2], q[3] }); }; auto f3 = [&](size_t, const float(&)[4]) { return .25f * (1 + (float)s.draw(3)); }; StochasticSubdivider<float>(r, f1, f2, f3); s.nontrivial(leaf.size() > 2); D area = 0; for(auto& q : leaf) { CHECK(q[0] >= r[0] && q[1] >= r[1] && q[2] <= r[2] && q[3] <= r[3] && q[0] < q[2] && q[1] < q[3], "a leaf leaves the rectangle"); area += (q[2] - q[0]) * (q[3] - q[1]); } D full = (D)(r[2] - r[0]) * (r[3] - r[1]); CHECK(std::fabs(area - full) < full * 1e-3, "leaves cover %g of %g", area, full); for(size_t i = 0; i < leaf.size(); ++i) for(size_t j = 0; j < i; ++j) { auto &p = leaf[i], &q = leaf[j]; D w = std::fmin(p[2], q[2]) - std::fmax(p[0], q[0]), h = std::fmin(p[3], q[3]) - std::fmax(p[1], q[1]); CHECK(w < 1e-4 || h < 1e-4, "leaves overlap"); } CHECK(deepest <= maxd, "went to depth %zu", deepest); break; }
  }
}
template<class UI, class F> static void alias(pbt::Src& s)
{
  int n = (int)s.range(1, 24); std::vector<D> w; D sum = 0; for(int i = 0; i < n; ++i) { D k = s.pick({ 3, 1, 1 }) == 0 ? (D)s.range(1, 64) : s.boolean() ? 0 : (D)s.range(1, 2000); w.push_back(k); sum += k; } if(sum == 0) { w[0] = 1; sum = 1; } std::vector<F> p; std::string t; for(auto& k : w) { k /= sum; p.push_back((F)k); t += " " + std::to_string(k); } s.note("probabilities%s", t.c_str()); s.nontrivial(n >= 3); std::unique_ptr<F[]> in(new F[n]); std::copy(p.begin(), p.end(), in.get()); typedef AliasTable<UI, F> A; A a(in.get(), (UI)n); in.reset(); D tol = sizeof(F) == 4 ? 1e-4 : 1e-9;
  auto exact = [&](const A& q, const char* what) { CHECK(q.GetCount() == (UI)n, "%s: count", what); std::vector<D> g(n, 0); const F* pr = q.GetProbabilities(); const UI* al = q.GetAliases(); for(int i = 0; i < n; ++i) { D k = (D)pr[i]; if(k > 1 && k < 1 + tol) k = 1; CHECK(k >= 0 && k <= 1, "%s: cut %g of column %d", what, k, i); g[i] += k / n; if(k < 1) { CHECK((size_t)al[i] < (size_t)n, "%s: alias of column %d is out of range", what, i); g[(size_t)al[i]] += (1 - k) / n; } } for(int i = 0; i < n; ++i) CHECK(std::fabs(g[i] - w[i]) < tol, "%s: outcome %d has probability %g instead of %g", what, i, g[i], w[i]); };
  exact(a, "table"); U sd = s.bits64(); XorshiftEngine64 e(sd); const int N = 3000; std::vector<int> h(n, 0), h2(n, 0); std::vector<UI> seq; bssRandSeed(sd); for(int i = 0; i < N; ++i) { UI g = i % 2 ? a.Get(e) : a(e); CHECK((size_t)g < (size_t)n, "sample %zu of %d", (size_t)g, n); ++h[(size_t)g]; if(i < 200) seq.push_back(g); if(i < 300) { UI k = i % 2 ? a.Get() : a(); CHECK((size_t)k < (size_t)n, "sample with the default engine"); } } for(int i = 0; i < n; ++i) CHECK(within(h[i], N, w[i]), "outcome %d appeared %d times in %d samples with probability %g", i, h[i], N, w[i]);
  A c(a), d, m; if(s.boolean()) { int k = (int)s.range(1, 24); std::vector<F> prior(k, (F)1 / k); d = A(prior.data(), (UI)k); if(s.boolean()) m = d; } // assigned over a table of another size
  { A& self = a; a = self; } d = a; exact(a, "after copying"); exact(c, "copy"); exact(d, "copy-assigned"); auto same = [&](const A& q, const char* what) { XorshiftEngine64 e3(sd); for(int i = 0; i < 200; ++i) { UI g = i % 2 ? q.Get(e3) : q(e3); CHECK(g == seq[i], "a %s table samples differently", what); } }; same(c, "copied"); same(d, "copy-assigned"); A o(std::move(c)); exact(o, "moved"); same(o, "moved"); m = std::move(d); exact(m, "move-assigned"); same(m, "move-assigned"); F one[3] = { (F).5, (F).25, (F).25 }; A fx(one); CHECK(fx.GetCount() == 3, "from an array"); if constexpr(std::is_same<UI, size_t>::value) { std::array<F, 3> sa = { (F).5, (F).25, (F).25 }; A fy(sa); CHECK(fy.GetCount() == 3, "from a std::array"); for(int i = 0; i < 3; ++i) CHECK(fy.GetProbabilities()[i] == fx.GetProbabilities()[i], "from a std::array"); } m = fx; CHECK(m.GetCount() == 3 && m.GetProbabilities() != fx.GetProbabilities(), "assigned over"); A em; A ec(em); em = ec; CHECK(em.GetCount() == 0, "empty table"); A z(0, 0); CHECK(z.GetCount() == 0, "null list");
}
PROP(alias_tables, 3, pbt::LEAKCHECK, "at least three outcomes") { switch(s.draw(4)) { case 0: alias<size_t, D>(s); break; case 1: alias<uint32_t, D>(s); break; case 2: alias<size_t, float>(s); break; case 3: alias<uint16_t, float>(s); break; } }
template<class T> static void poisson(pbt::Src& s)
{ // points keep their distance, stay inside and leave no gap that a further point would fit in easily
  T r[4] = { (T)s.range(-20, 20), (T)s.range(-20, 20), 0, 0 }; r[2] = r[0] + (T)s.range(1, 30); r[3] = r[1] + (T)s.range(1, 30); T d = (T)(s.range(4, 40) / 8.); if((r[2] - r[0]) * (r[3] - r[1]) / (d * d) > 900) d *= 4; size_t tries = s.chance(1, 3) ? s.range(1, 10) : 30; U sd = s.bits64(); bssRandSeed(sd); const T before[4] = { r[0], r[1], r[2], r[3] };
  std::vector<std::array<D, 2>> v; auto f = [&](T* p) { v.push_back({ (D)p[0], (D)p[1] }); }; if(tries == 30 && s.boolean()) PoissonDiskSample<T>(r, d, f); else PoissonDiskSample<T>(r, d, f, tries); s.note("%s rectangle of %g by %g, distance %g, %zu tries, seed %llu: %zu points", sizeof(T) == 4 ? "float" : "double", (D)(r[2] - r[0]), (D)(r[3] - r[1]), (D)d, tries, (unsigned long long)sd, v.size()); s.nontrivial(v.size() > 5); CHECK(!v.empty(), "no points"); CHECK(std::equal(r, r + 4, before), "the rectangle was changed");
  for(size_t i = 0; i < v.size(); ++i) { CHECK(v[i][0] >= r[0] && v[i][0] <= r[2] && v[i][1] >= r[1] && v[i][1] <= r[3], "point %zu is outside of the rectangle", i); for(size_t j = 0; j < i; ++j) { D k = std::hypot(v[i][0] - v[j][0], v[i][1] - v[j][1]); CHECK(k > d * (1 - 1e-4), "points %zu and %zu are %g apart, less than %g", j, i, k, (D)d); } }
  if(tries == 30 && std::fmin(r[2] - r[0], r[3] - r[1]) >= 6 * d) for(int i = 0; i < 60; ++i) { D x = s.real(r[0], r[2]), y = s.real(r[1], r[3]), near = 1e9; for(auto& p : v) near = std::fmin(near, std::hypot(p[0] - x, p[1] - y)); CHECK(near < 4 * d, "no point within %g of (%g, %g) for a distance of %g", near, x, y, (D)d); }
}
PROP(poisson_disk, 1, pbt::LEAKCHECK, "more than five points") { if(s.boolean()) poisson<float>(s); else poisson<double>(s); }
PROP(normal, 1, 0, "always")
{
  U sd = s.bits64(); XorshiftEngine64 e(sd); s.note("seed %llu", (unsigned long long)sd); s.nontrivial(); NormalZig<> z(128, 9.91256303526217e-3, ZIGNOR_R, e); const int N = 20000; static const D cut[] = { -3.5, -3, -2, -1.5, -1, -.5, -.2, 0, .2, .5, 1, 1.5, 2, 3, 3.5 }; int h[16] = { 0 }; D m = 0, v = 0; for(int i = 0; i < N; ++i) { D x = i % 2 ? z.Get() : z(); m += x; v += x * x; int k = 0; while(k < 15 && x >= cut[k]) ++k; ++h[k]; } m /= N; v = v / N - m * m; CHECK(std::fabs(m) < 7 / std::sqrt(N), "mean %g", m); CHECK(std::fabs(v - 1) < 7 * std::sqrt(2. / N), "variance %g", v); D prev = 0; for(int k = 0; k < 16; ++k) { D c = k < 15 ? .5 * std::erfc(-cut[k] / std::sqrt(2)) : 1; CHECK(within(h[k], N, c - prev), "bin %d holds %d of %d samples, probability %g", k, h[k], N, c - prev); prev = c; }
  D dm = s.real(.3, 4); const int M = 4000; int t[4] = { 0 }; D a = std::erfc(dm / std::sqrt(2)); for(int i = 0; i < M; ++i) { bool neg = i % 3 == 0; D x = z.DRanNormalTail(dm, neg); CHECK(neg ? x <= -dm : x >= dm, "tail sample %g beyond %g, negative %d", x, dm, neg); x = std::fabs(x); ++t[x > dm + 1 ? 3 : x > dm + .5 ? 2 : x > dm + .2 ? 1 : 0]; } D at[5] = { 1, std::erfc((dm + .2) / std::sqrt(2)) / a, std::erfc((dm + .5) / std::sqrt(2)) / a, std::erfc((dm + 1) / std::sqrt(2)) / a, 0 }; for(int k = 0; k < 4; ++k) CHECK(within(t[k], M, at[k] - at[k + 1]), "tail beyond %g: bin %d holds %d of %d samples, probability %g", dm, k, t[k], M, at[k] - at[k + 1]);
}
