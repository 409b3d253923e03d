// Searching, Base64, curves, root finding and tree traversal agree with their mathematical definitions.
// LIBS: bss_util.cpp bss_util_c.c ConvertUTF.c
// ASSUME: polynomial roots well separated and coefficients moderate; curve error bounds well above the rounding of the coordinates; functions handed to the bracketing root finder are increasing over a bracket that holds the root
#include "tracked.h"
#include "bss-util/algo.h"
#include <cmath>
#include <deque>
using namespace bss;
typedef double D;
static bool near_(D a, D b, D rel, D abs_ = 0) { return std::fabs(a - b) <= rel * (std::fabs(b) + 1) + abs_; }
struct KV { int k; int v; };
static char cmpkv(const int& a, const KV& b) { return SGNCOMPARE(a, b.k); }
static char cmpvk(const KV& a, const int& b) { return SGNCOMPARE(a.k, b); }
template<class T, class CT> static void search(pbt::Src& s)
{
  std::vector<T> v; int span = (int)s.range(1, 60); while(s.more(12)) v.push_back((T)s.range(-span, span)); std::sort(v.begin(), v.end()); T x = s.boolean() && v.size() ? v[s.draw(v.size())] : (T)s.range(-span - 2, span + 2); size_t n = v.size(); size_t f = s.boolean() ? 0 : s.draw(n + 1), l = s.boolean() ? n : f + s.draw(n - f + 1); if(l < f) l = f;
  std::unique_ptr<T[]> a(new T[n]); std::copy(v.begin(), v.end(), a.get()); { std::string t; for(auto k : v) t += " " + std::to_string((D)k); s.note("%s; find %g in [%zu,%zu)", t.c_str(), (D)x, f, l); } s.nontrivial(n >= 3); const T* p = a.get();
  auto up = [&](size_t i, size_t j) { return std::upper_bound(v.begin() + i, v.begin() + j, x) - v.begin(); }; auto lo = [&](size_t i, size_t j) { return std::lower_bound(v.begin() + i, v.begin() + j, x) - v.begin(); };
  CHECK((BinarySearchBefore<T, CT, CompT<T>>(p, x, (CT)f, (CT)l)) == (CT)(up(f, l) - 1), "BinarySearchBefore in a range"); CHECK((BinarySearchBefore<T, CT, CompT<T>>(p, (CT)n, x)) == (CT)(up(0, n) - 1), "BinarySearchBefore"); CHECK((BinarySearchAfter<T, CT, CompT<T>>(p, x, (CT)f, (CT)l)) == (CT)lo(f, l), "BinarySearchAfter in a range"); CHECK((BinarySearchAfter<T, CT, CompT<T>>(p, (CT)n, x)) == (CT)lo(0, n), "BinarySearchAfter");
  CT e = BinarySearchExact<T, T, CT, CompT<T>>(p, x, (CT)f, (CT)l); bool has = std::binary_search(v.begin() + f, v.begin() + l, x); if(has) CHECK((size_t)e >= f && (size_t)e < l && v[(size_t)e] == x, "BinarySearchExact returned %lld", (long long)e); else CHECK(e == (CT)-1, "BinarySearchExact returned %lld for an absent value", (long long)e);
  if constexpr(std::is_same<T, int>::value) { std::vector<KV> q; for(size_t i = 0; i < n; ++i) q.push_back({ v[i], (int)i }); CHECK((BinarySearchNear<KV, int, CT, cmpkv, CompT_EQ<char>, 1>(q.data(), x, (CT)0, (CT)n)) == (CT)lo(0, n) && (BinarySearchNear<KV, int, CT, cmpkv, CompT_NEQ<char>, -1>(q.data(), x, (CT)0, (CT)n)) == (CT)up(0, n), "BinarySearchNear over records"); CT g = BinarySearchExact<KV, int, CT, cmpvk>(q.data(), x, 0, (CT)n); CHECK(std::binary_search(v.begin(), v.end(), x) ? (size_t)g < n && v[(size_t)g] == x : g == (CT)-1, "BinarySearchExact over records"); T c7[7]; for(int i = 0; i < 7; ++i) c7[i] = i * 3 - 9; CHECK((BinarySearchBefore<T, size_t, CompT<T>, 7>(c7, x)) == (size_t)(std::upper_bound(c7, c7 + 7, x) - c7 - 1) && (BinarySearchAfter<T, size_t, CompT<T>, 7>(c7, x)) == (size_t)(std::lower_bound(c7, c7 + 7, x) - c7), "searches over an array"); }
}
PROP(searching, 2, 0, "at least three elements") { switch(s.draw(5)) { case 0: search<int, size_t>(s); break; case 1: search<int, int>(s); break; case 2: search<int, uint16_t>(s); break; case 3: search<double, uint32_t>(s); break; case 4: search<int8_t, int64_t>(s); break; } }
PROP(base64, 2, 0, "at least four bytes of input")
{
  static const char* tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"; std::string in = s.bytes(80, 3); size_t n = in.size(); s.nontrivial(n >= 4); s.note("%zu bytes", n); std::string ref; for(size_t i = 0; i < n; i += 3) { uint32_t w = 0; size_t k = std::min<size_t>(3, n - i); for(size_t j = 0; j < 3; ++j) w = w << 8 | (j < k ? (uint8_t)in[i + j] : 0); for(size_t j = 0; j <= k; ++j) ref += tab[w >> (18 - 6 * j) & 63]; }
  std::unique_ptr<uint8_t[]> src(new uint8_t[n]); memcpy(src.get(), in.data(), n); size_t en = Base64Encode(src.get(), n, 0); CHECK(en == ref.size(), "encoded size %zu of %zu bytes", en, n); std::unique_ptr<char[]> out(new char[en]); CHECK(Base64Encode(src.get(), n, out.get()) == en, "return value of Base64Encode"); CHECK(!memcmp(out.get(), ref.data(), en), "encoding \"%.*s\" instead of \"%s\"", (int)en, out.get(), ref.c_str());
  size_t dn = Base64Decode(out.get(), en, 0); CHECK(dn == n, "decoded size %zu instead of %zu", dn, n); std::unique_ptr<uint8_t[]> back(new uint8_t[dn]); CHECK(Base64Decode(out.get(), en, back.get()) == n && !memcmp(back.get(), src.get(), n), "decoding differs from the original");
  std::string bad = s.bytes(24, (int)s.range(1, 4)); std::unique_ptr<char[]> b(new char[bad.size()]); memcpy(b.get(), bad.data(), bad.size()); size_t bn = Base64Decode(b.get(), bad.size(), 0); if(bad.size() % 4 == 1) CHECK(!bn, "impossible length accepted"); std::unique_ptr<uint8_t[]> o(new uint8_t[bn]); CHECK(Base64Decode(b.get(), bad.size(), o.get()) == bn, "arbitrary text: size announced and written differ");
}
static const float SM[4][4] = { { 1, 2, 3, 4 }, { 5, -6, 7, -8 }, { .5f, .25f, -3, 2 }, { 1, 0, 2, -1 } };
template<class T> static T bez3(T t, T a, T b, T c, T d) { T u = 1 - t; return u * u * u * a + 3 * u * u * t * b + 3 * u * t * t * c + t * t * t * d; }
template<class T> static void curves(pbt::Src& s)
{
  T p[4][2]; std::string n; for(auto& q : p) for(auto& k : q) { k = (T)s.range(-64, 64); n += " " + std::to_string((int)k); } T t = (T)s.draw(17) / 16; if(s.chance(1, 4)) t = (T)s.real(0, 1); s.note("points%s t=%g", n.c_str(), (D)t); D e = sizeof(T) == 4 ? 1e-3 : 1e-9; s.nontrivial(t > 0 && t < 1); auto X = [&](int i) { return (D)p[i][0]; }; D u = t;
  CHECK(near_(UniformQuadraticBSpline<T, T>(t, p[0][0], p[1][0], p[2][0]), ((1 - u) * (1 - u) * X(0) + (1 + 2 * u - 2 * u * u) * X(1) + u * u * X(2)) / 2, 0, e), "quadratic B-spline"); CHECK(near_(UniformCubicBSpline<T, T>(t, p[0][0], p[1][0], p[2][0], p[3][0]), ((1 - u) * (1 - u) * (1 - u) * X(0) + (3 * u * u * u - 6 * u * u + 4) * X(1) + (-3 * u * u * u + 3 * u * u + 3 * u + 1) * X(2) + u * u * u * X(3)) / 6, 0, e), "cubic B-spline"); CHECK(near_(CubicBSpline<T, T>(t, p[0][0], p[1][0], p[2][0], p[3][0]), X(1) + .5 * u * (X(2) - X(0) + u * (2 * X(0) - 5 * X(1) + 4 * X(2) - X(3) + u * (3 * (X(1) - X(2)) + X(3) - X(0)))), 0, e), "cubic interpolation");
  D b3 = bez3<D>(u, X(0), X(1), X(2), X(3)); if constexpr(sizeof(T) == 4) { CHECK(near_(BezierCurve<T, T>(t, p[0][0], p[1][0], p[2][0], p[3][0]), b3, 0, e), "bezier curve"); T q[4] = { p[0][0], p[1][0], p[2][0], p[3][0] }; D r = 0; for(int i = 0; i < 4; ++i) r += X(i) * (((SM[0][i] * u + SM[1][i]) * u + SM[2][i]) * u + SM[3][i]); CHECK(near_(StaticGenericSpline<float, float, SM>(t, q), r, 1e-5, 1e-2), "generic spline"); }
  CHECK(near_(QuadraticBezierCurve<T, T>(t, p[0][0], p[1][0], p[2][0]), (1 - u) * (1 - u) * X(0) + 2 * u * (1 - u) * X(1) + u * u * X(2), 0, e), "quadratic bezier");
  T n1[2], n2[2], n3[2], r1[2], r2[2]; SplitCubic<T, 2>(t, p[0], p[1], p[2], p[3], n1, n2, n3, r1, r2); D w = s.real(0, 1); for(int i = 0; i < 2; ++i) { auto B = [&](D z) { return bez3<D>(z, p[0][i], p[1][i], p[2][i], p[3][i]); }; CHECK(near_(bez3<D>(w, p[0][i], n1[i], n2[i], n3[i]), B(w * u), 0, e) && near_(bez3<D>(w, n3[i], r1[i], r2[i], p[3][i]), B(u + w * (1 - u)), 0, e), "the halves of a split cubic leave the curve"); }
  SplitQuadratic<T, 2>(t, p[0], p[1], p[2], n1, n2, r1); for(int i = 0; i < 2; ++i) { auto B = [&](D z, D a, D b, D c) { return (1 - z) * (1 - z) * a + 2 * z * (1 - z) * b + z * z * c; }; CHECK(near_(B(w, p[0][i], n1[i], n2[i]), B(w * u, p[0][i], p[1][i], p[2][i]), 0, e) && near_(B(w, n2[i], r1[i], p[2][i]), B(u + w * (1 - u), p[0][i], p[1][i], p[2][i]), 0, e), "the halves of a split quadratic leave the curve"); }
  { T r[2]; CubicInflectionPoints<T>(p[0], p[1], p[2], p[3], r); D A[2], B[2], G[2]; for(int i = 0; i < 2; ++i) { A[i] = p[1][i] - (D)p[0][i]; B[i] = p[2][i] - (D)p[1][i] - A[i]; G[i] = p[3][i] - (D)p[2][i] - A[i] - 2 * B[i]; } D qa = std::fabs(B[0] * G[1] - B[1] * G[0]), qb = std::fabs(A[0] * G[1] - A[1] * G[0]); if(qa > .05 * qb) for(T z : r) if(z >= -2 && z <= 2) { auto d1 = [&](int i) { D v = z, q = 1 - v; return 3 * (q * q * (p[1][i] - (D)p[0][i]) + 2 * q * v * (p[2][i] - (D)p[1][i]) + v * v * (p[3][i] - (D)p[2][i])); }; auto d2 = [&](int i) { D v = z; return 6 * ((1 - v) * (p[2][i] - 2 * (D)p[1][i] + p[0][i]) + v * (p[3][i] - 2 * (D)p[2][i] + p[1][i])); }; D c = d1(0) * d2(1) - d1(1) * d2(0), m = 1; for(int i = 0; i < 2; ++i) m += (std::fabs(d1(i)) + 50) * (std::fabs(d2(1 - i)) + 50); CHECK(std::fabs(c) < m * 2e-2, "curvature at the inflection point %g is %g", (D)z, c); } }
  // a quadratic with the same end points: approximations stay within the bound
  D me = s.pick({ 1, 2, 1 }) == 0 ? 5 : s.real(.05, 1.5); std::vector<std::array<D, 2>> curve; for(int i = 0; i <= 600; ++i) { D z = i / 600.; curve.push_back({ bez3<D>(z, p[0][0], p[1][0], p[2][0], p[3][0]), bez3<D>(z, p[0][1], p[1][1], p[2][1], p[3][1]) }); }
  auto dist = [&](D x, D y) { D b = 1e18; for(size_t i = 0; i + 1 < curve.size(); ++i) { D ax = curve[i][0], ay = curve[i][1], dx = curve[i + 1][0] - ax, dy = curve[i + 1][1] - ay, A = dx * dx + dy * dy, q = A > 0 ? ((x - ax) * dx + (y - ay) * dy) / A : 0; q = q < 0 ? 0 : q > 1 ? 1 : q; b = std::fmin(b, std::hypot(ax + q * dx - x, ay + q * dy - y)); } return b; };
  T last[2] = { p[0][0], p[0][1] }; int segs = 0; bool cont = true; D worst = 0; ApproxCubic<T>(p[0], p[1], p[2], p[3], [&](const T(&a)[2], const T(&c)[2], const T(&b)[2]) { cont &= a[0] == last[0] && a[1] == last[1]; last[0] = b[0]; last[1] = b[1]; if(++segs <= 40) for(int i = 0; i <= 4; ++i) { D z = i / 4., q = 1 - z; worst = std::fmax(worst, dist(q * q * a[0] + 2 * q * z * c[0] + z * z * b[0], q * q * a[1] + 2 * q * z * c[1] + z * z * b[1])); } }, (T)me);
  CHECK(segs > 0 && cont && last[0] == p[3][0] && last[1] == p[3][1], "the approximating quadratics do not join end to end"); CHECK(worst <= me + .02, "an approximating quadratic is %g away from the cubic, bound %g", worst, me);
  if(segs == 2) s.label("cubic approximated by two quadratics");
}
PROP(splines, 3, 0, "a parameter strictly inside the curve") { if(s.boolean()) curves<float>(s); else curves<double>(s); }
static D poly(D x, D a, D b, D c, D d, D e, D f, D g, D h, D i, D j) { D p[10] = { a, b, c, d, e, f, g, h, i, j }, r = 0; for(int k = 9; k >= 0; --k) r = r * x + p[k]; return r; }
template<int N> static D quad(const D* p, D a, D b) { return GaussianQuadrature<D, N, D, D, D, D, D, D, D, D, D, D>(a, b, &poly, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9]); }
PROP(solvers, 3, 0, "a cubic with three real roots or a curved function")
{
  switch(s.draw(4))
  {
  case 0: { // quadratics and cubics from known roots
    D r[3]; for(auto& k : r) k = (D)s.range(-20, 20) / 2; D a = (D)s.range(1, 6) * (s.boolean() ? 1 : -1); std::sort(r, r + 3); s.note("roots %g %g %g leading coefficient %g", r[0], r[1], r[2], a); { double q[2]; float g[2]; SolveQuadratic<double>(a, -a * (r[0] + r[1]), a * r[0] * r[1], q); SolveQuadratic<float>((float)a, (float)(-a * (r[0] + r[1])), (float)(a * r[0] * r[1]), g); if(r[0] != r[1]) { std::sort(q, q + 2); std::sort(g, g + 2); CHECK(near_(q[0], r[0], 1e-6) && near_(q[1], r[1], 1e-6), "quadratic roots %g %g instead of %g %g", q[0], q[1], r[0], r[1]); CHECK(near_(g[0], r[0], 1e-3) && near_(g[1], r[1], 1e-3), "float quadratic roots %g %g", g[0], g[1]); } }
    if(r[1] - r[0] >= .5 && r[2] - r[1] >= .5) { s.nontrivial(true); D q[3]; int n = solveCubic<D>(a, -a * (r[0] + r[1] + r[2]), a * (r[0] * r[1] + r[0] * r[2] + r[1] * r[2]), -a * r[0] * r[1] * r[2], q); CHECK(n == 3, "%d roots of a cubic with three", n); std::sort(q, q + 3); for(int i = 0; i < 3; ++i) CHECK(near_(q[i], r[i], 1e-3), "cubic root %g instead of %g", q[i], r[i]); float g[3]; n = solveCubic<float>((float)a, (float)(-a * (r[0] + r[1] + r[2])), (float)(a * (r[0] * r[1] + r[0] * r[2] + r[1] * r[2])), (float)(-a * r[0] * r[1] * r[2]), g); if(r[1] - r[0] >= 1 && r[2] - r[1] >= 1) { CHECK(n == 3, "%d roots of a float cubic with three", n); std::sort(g, g + 3); for(int i = 0; i < 3; ++i) CHECK(near_(g[i], r[i], 2e-2), "float cubic root %g instead of %g", (D)g[i], r[i]); } }
    { D m = (D)s.range(-10, 10) / 2, k = (D)s.range(1, 40) / 4, x = r[0], q[3]; int n = solveCubic<D>(a, a * (-x - 2 * m), a * (m * m + k + 2 * m * x), -a * x * (m * m + k), q); CHECK(n == 1 && near_(q[0], x, 1e-2), "the single real root %g came out as %g (%d roots)", x, q[0], n); } break; }
  case 1: { // integration: N points integrate polynomials of degree 2N-1 exactly
    D p[10] = { 0 }; int N = (int)s.range(1, 5); std::string t; for(int i = 0; i < 2 * N; ++i) { p[i] = (D)s.range(-9, 9); t += " " + std::to_string((int)p[i]); } s.nontrivial(N > 1); D a = (D)s.range(-4, 4) / 2, b = (D)s.range(-4, 4) / 2, e = 0, m = 1; for(int i = 0; i < 10; ++i) { e += p[i] * (std::pow(b, i + 1) - std::pow(a, i + 1)) / (i + 1); m += std::fabs(p[i]) * std::pow(2, i + 1); } s.note("integral from %g to %g of%s with %d points", a, b, t.c_str(), N); D g = N == 1 ? quad<1>(p, a, b) : N == 2 ? quad<2>(p, a, b) : N == 3 ? quad<3>(p, a, b) : N == 4 ? quad<4>(p, a, b) : quad<5>(p, a, b); CHECK(std::fabs(g - e) < m * 1e-10, "integral %g instead of %g", g, e); break; }
  case 2: { // increasing functions with a known root
    D r = s.real(-5, 5), k1 = s.real(.1, 4), k3 = s.boolean() ? 0 : s.real(0, 4), lo = r - s.real(.1, 10), hi = r + s.real(.1, 10), x0 = lo + (hi - lo) * s.real(0, 1); s.nontrivial(k3 > 0); s.note("k1 %g k3 %g root %g bracket [%g,%g] start %g", k1, k3, r, lo, hi, x0); auto F = [&](D x) { D d = x - r; return k1 * d + k3 * d * d * d; }; auto dF = [&](D x) { D d = x - r; return k1 + 3 * k3 * d * d; }; D x = NewtonRaphsonBisection<D>(x0, lo, hi, F, dF, 1e-9); CHECK(x >= lo && x <= hi && std::fabs(F(x)) <= 1e-6, "bracketing root finder: %g instead of %g", x, r); { int c = 0; D y = NewtonRaphsonBisection<D>(x0, lo, hi, [&](D v) { ++c; return k1 * (v - r); }, [&](D) { return k1; }, 1e-9); CHECK(std::fabs(y - r) < 1e-7 && c <= 3, "the bracketing root finder took %d evaluations for a straight line", c); } auto bad = [&](D) { return s.boolean() ? 1e-9 : 1e9; }; x = NewtonRaphsonBisection<D>(x0, lo, hi, F, bad, 1e-7, 4000); CHECK(x >= lo && x <= hi, "bracketing root finder left its bracket: %g", x);
    D y = -77; if(NewtonRaphson<D>(y, x0, F, dF, 1e-9, 60)) CHECK(std::fabs(F(y)) <= 1e-9, "Newton's method claims a root at %g", y); else CHECK(false, "Newton's method failed on an increasing cubic"); y = -77; auto up = [&](D v) { return v * v + 1; }; CHECK(!NewtonRaphson<D>(y, x0, up, [](D v) { return 2 * v; }, 1e-9) && y == -77, "Newton's method found a root of x^2+1"); int calls = 0; NewtonRaphson<D>(y, 1., [&](D v) { ++calls; return v * v + 1; }, [](D v) { return 2 * v + .1; }, 1e-9, 7); CHECK(calls <= 8, "Newton's method made %d evaluations for 7 iterations", calls); break; }
  case 3: { D x[3], y[3]; for(int i = 0; i < 3; ++i) { x[i] = (D)(i * 12 + s.range(-5, 5)) / 2; y[i] = (D)s.range(-20, 20); } std::swap(x[0], x[s.draw(3)]); std::swap(x[1], x[1 + s.draw(2)]); s.nontrivial(true); s.note("(%g,%g) (%g,%g) (%g,%g)", x[0], y[0], x[1], y[1], x[2], y[2]); for(int i = 0; i < 3; ++i) CHECK(near_(QuadraticFit<D>(x[i], x[0], y[0], x[1], y[1], x[2], y[2]), y[i], 1e-9, 1e-7), "the quadratic misses point %d", i); D m = s.real(.1, .9); CHECK(near_(QuadraticCanonicalFit<D>(0, 0, m, 1), 0, 1e-9) && near_(QuadraticCanonicalFit<D>(m, 0, m, 1), .5, 1e-9) && near_(QuadraticCanonicalFit<D>(1, 0, m, 1), 1, 1e-9), "the canonical quadratic misses a point"); break; }
  }
}
struct TN { TN* l = 0; TN* r = 0; int id; }; static std::vector<int> seen; static int stopat;
static bool act(TN* n) { seen.push_back(n->id); return n->id == stopat; } static TN* lc(TN* n) { return n->l; } static TN* rc(TN* n) { return n->r; }
PROP(trees, 1, 0, "at least three nodes")
{
  size_t n = s.range(1, 40); int shape = (int)s.draw(3); std::vector<TN> t(n); for(size_t i = 0; i < n; ++i) t[i].id = (int)i; for(size_t i = 1; i < n; ++i) { TN** q; if(shape == 0) q = i % 2 ? &t[(i - 1) / 2].l : &t[(i - 1) / 2].r; else { TN* c = &t[0]; for(;;) { q = s.boolean() ? &c->l : &c->r; if(!*q) break; c = *q; } } *q = &t[i]; } s.nontrivial(n >= 3); stopat = s.boolean() ? -1 : (int)s.draw(n); std::deque<TN*> q{ &t[0] }; std::vector<int> ref; while(!q.empty()) { TN* c = q.front(); q.pop_front(); ref.push_back(c->id); if(c->id == stopat) break; if(c->l) q.push_back(c->l); if(c->r) q.push_back(c->r); } s.note("%zu nodes, %s, stop at %d", n, shape ? "random shape" : "complete", stopat); seen.clear(); BreadthFirstTree<TN, act, lc, rc>(&t[0], n); CHECK(seen == ref, "breadth-first traversal visited %zu nodes in the wrong order or number, expected %zu", seen.size(), ref.size());
}
