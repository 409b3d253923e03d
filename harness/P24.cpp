// Exact rationals, fixed-point numbers and dual numbers agree with reference arithmetic.
// ASSUME: 64-bit fixed-point division is exact to the 62-bit reciprocal it is documented to use; results and intermediate products are representable; no division by zero; rational comparisons of moderate numerators and denominators (documented limit); functions differentiable at the point
#include "tracked.h"
#include "bss-util/Rational.h"
#include "bss-util/FixedPt.h"
#include "bss-util/Dual.h"
#include "bss-util/literals.h"
using namespace bss;
typedef __int128 I;
static I gcd(I a, I b) { if(a < 0) a = -a; if(b < 0) b = -b; while(b) { I t = a % b; a = b; b = t; } return a; }
struct Q { I n, d; void fix() { if(d < 0) { n = -n; d = -d; } I g = gcd(n, d); if(g) { n /= g; d /= g; } } };
template<class T> static bool fits(I v) { return v <= (I)(std::numeric_limits<T>::max() / 2) && v >= -(I)(std::numeric_limits<T>::max() / 2); }
template<class T> static void rationals(pbt::Src& s)
{
  const int64_t L = sizeof(T) == 8 ? 1 << 20 : 1 << 12; auto num = [&] { return s.boolean() ? s.range(-12, 12) : s.edgy(-L, L); }; Rational<T> a[3]; Q m[3] = { { 0, 1 }, { 0, 1 }, { 0, 1 } }; int n = 0;
  while(s.more())
  {
    int i = (int)s.draw(3), j = (int)s.draw(3); T k = (T)num(); int op = (int)s.draw(16); ++n; Q r = m[i], o = m[j]; s.note("op %d: %d (%lld/%lld) with %d (%lld/%lld), %lld", op, i, (long long)r.n, (long long)r.d, j, (long long)o.n, (long long)o.d, (long long)k);
    if(op >= 2 && op <= 5) { I c = o.n * r.d, e = r.n * o.d, f = r.d * o.d, h = r.n * o.n; if(!fits<T>(c) || !fits<T>(e) || !fits<T>(f) || !fits<T>(h) || !fits<T>(c + e) || !fits<T>(e - c)) op = 0; } if(op >= 6 && op <= 9 && (!fits<T>(r.n * k) || !fits<T>(r.d * k) || !fits<T>(r.n + k * r.d) || !fits<T>(r.n - k * r.d))) op = 0;
    switch(op)
    {
    case 0: { T d = (T)num(); if(!d) d = 1; if(s.boolean()) a[i] = Rational<T>(k, d); else a[i].SetFraction(k, d); r = { k, d }; break; }
    case 1: a[i] = k; r = { k, 1 }; break;
    case 2: if(s.boolean()) a[i] += a[j]; else a[i] = a[i] + a[j]; r = { r.n * o.d + o.n * r.d, r.d * o.d }; break;
    case 3: if(s.boolean()) a[i] -= a[j]; else a[i] = a[i] - a[j]; r = { r.n * o.d - o.n * r.d, r.d * o.d }; break;
    case 4: if(s.boolean()) a[i] *= a[j]; else a[i] = a[i] * a[j]; r = { r.n * o.n, r.d * o.d }; break;
    case 5: if(!o.n) break; if(s.boolean()) a[i] /= a[j]; else a[i] = a[i] / a[j]; r = { r.n * o.d, r.d * o.n }; break;
    case 6: switch(s.draw(3)) { case 0: a[i] += k; break; case 1: a[i] = a[i] + k; break; default: a[i] = k + a[i]; } r.n += k * r.d; break;
    case 7: switch(s.draw(3)) { case 0: a[i] -= k; r.n -= k * r.d; break; case 1: a[i] = a[i] - k; r.n -= k * r.d; break; default: a[i] = k - a[i]; r.n = k * r.d - r.n; } break;
    case 8: switch(s.draw(3)) { case 0: a[i] *= k; break; case 1: a[i] = a[i] * k; break; default: a[i] = k * a[i]; } r.n *= k; break;
    case 9: switch(s.draw(3)) { case 0: if(!k) break; a[i] /= k; r.d *= k; break; case 1: if(!k) break; a[i] = a[i] / k; r.d *= k; break; default: if(!r.n) break; a[i] = k / a[i]; r = { k * r.d, r.n }; } break;
    case 10: if(fits<T>(r.n + r.d)) { ++a[i]; r.n += r.d; } break;
    case 11: if(fits<T>(r.n - r.d)) { --a[i]; r.n -= r.d; } break;
    case 12: a[i] = a[i].Abs(); if(r.n < 0) r.n = -r.n; break;
    case 13: { I c = r.n * o.d, e = o.n * r.d; auto big = [](Q q) { return q.n > 1 << 24 || q.n < -(1 << 24) || q.d > 1 << 24; }; CHECK((a[i] == a[j]) == (c == e) && (a[i] != a[j]) == (c != e), "equality"); if(big(r) || big(o)) break; CHECK((a[i] < a[j]) == (c < e) && (a[i] > a[j]) == (c > e) && (a[i] <= a[j]) == (c <= e) && (a[i] >= a[j]) == (c >= e), "order of %lld/%lld and %lld/%lld", (long long)r.n, (long long)r.d, (long long)o.n, (long long)o.d); break; }
    case 14: { if(s.boolean()) k = (T)(r.n / r.d + s.range(-1, 1)); I e = (I)k * r.d; CHECK((a[i] < k) == (r.n < e) && (a[i] > k) == (r.n > e) && (a[i] <= k) == (r.n <= e) && (a[i] >= k) == (r.n >= e) && (a[i] == k) == (r.n == e) && (a[i] != k) == (r.n != e), "comparison of %lld/%lld with %lld", (long long)r.n, (long long)r.d, (long long)k); CHECK((k < a[i]) == (e < r.n) && (k > a[i]) == (e > r.n) && (k <= a[i]) == (e <= r.n) && (k >= a[i]) == (e >= r.n) && (k == a[i]) == (e == r.n) && (k != a[i]) == (e != r.n), "comparison of %lld with %lld/%lld", (long long)k, (long long)r.n, (long long)r.d); break; }
    default: { double w = (double)r.n / (double)r.d; CHECK((double)a[i] == w && (float)a[i] == (float)w, "value as floating point"); CHECK(a[i].Truncate() == (T)(r.n / r.d), "Truncate"); CHECK(!a[i] == (r.n == 0), "operator!"); }
    }
    r.fix(); m[i] = r; for(int q = 0; q < 3; ++q) CHECK(a[q].N() == (T)m[q].n && a[q].D() == (T)m[q].d, "number %d is %lld/%lld instead of %lld/%lld", q, (long long)a[q].N(), (long long)a[q].D(), (long long)m[q].n, (long long)m[q].d);
  }
  s.nontrivial(n >= 4);
}
PROP(rational, 3, 0, "at least four operations") { if(s.boolean()) rationals<int>(s); else rationals<int64_t>(s); }

static double fl(pbt::Src& s, double lim) { double r; switch(s.draw(4)) { case 0: r = (double)s.range(-8, 8); break; case 1: r = s.range(-64, 64) / 16.0; break; default: r = s.real(-lim, lim); } return std::max(-lim, std::min(lim, r)); }
template<int D, class T, int B> static void fixeds(pbt::Src& s)
{
  typedef Fixed<D, T> F; typedef Fixed<B, T> G; const int bits = sizeof(T) * 8; double u = std::ldexp(1.0, -D), ub = std::ldexp(1.0, -B); double lim = std::ldexp(1.0, std::min(40, bits - 2 - std::max(D, B))); double x = fl(s, lim), y = fl(s, lim); F a(x); G b(y); F c(y); s.note("Fixed<%d,%d> %.17g and Fixed<%d> %.17g", D, bits, x, B, y); s.nontrivial(x != 0 && y != 0);
  auto val = [](I bts, int d) { return std::ldexp((long double)bts, -d); }; I ab = a.Bits(), bb = b.Bits(), cb = c.Bits(); long double av = val(ab, D), bv = val(bb, B), cv = val(cb, D);
  CHECK(std::fabs(av - x) < u && std::fabs(av) <= std::fabs(x), "construction from %.17g gives %.17Lg", x, av); CHECK(F((float)x).Bits() == (T)((double)(float)x / u) || std::fabs(x) * 4 > std::ldexp(1.0, bits - 1 - D), "construction from float"); CHECK(std::fabs((double)a - (double)av) <= std::max(std::fabs((double)av), 1.0) * 1e-15, "conversion to double gives %.17g", (double)a); CHECK(std::fabs((float)a - (float)av) <= std::max(std::fabs((double)av), 1.0) * 3e-7, "conversion to float gives %.9g", (float)a); CHECK((T)a == (T)(ab >> D), "conversion to integer"); { T k = (T)s.range(-100, 100); if(std::fabs((double)k) < lim) CHECK((double)F(k) == (double)k && (T)F(k) == k, "construction from an integer"); }
  auto ok = [&](long double v) { return std::fabs(v) < std::ldexp(1.0L, bits - 1 - D) * 0.99L; }; auto near = [&](F g, long double w, long double tol) { return std::fabs(val(g.Bits(), D) - w) <= tol; };
  if(ok(av + bv)) { F r = a + b; CHECK(near(r, av + bv, u + ub), "sum is %.17g", (double)r); F q = a; q += b; CHECK(q == r, "+="); } if(ok(av - bv)) { F r = a - b; CHECK(near(r, av - bv, u + ub), "difference is %.17g", (double)r); F q = a; q -= b; CHECK(q == r, "-="); }
  if(ok(av + cv)) CHECK((a + c).Bits() == (T)(ab + cb), "sum of the same format"); if(ok(av - cv)) CHECK((a - c).Bits() == (T)(ab - cb), "difference of the same format"); if(ok(av * cv)) CHECK((a * c).Bits() == (T)((ab * cb) >> D), "product of the same format");
  if(ok(av * bv)) { F r = a * b; CHECK(near(r, av * bv, u), "product is %.17g instead of %.17Lg", (double)r, av * bv); F q = a; q *= b; CHECK(q == r, "*="); }
  if(bb && ok(av / bv)) { F r = a / b; CHECK(near(r, av / bv, u + (bits == 64 ? std::fabs(av) * std::ldexp(1.0L, B - 61) : 0)), "quotient is %.17g instead of %.17Lg", (double)r, av / bv); F q = a; q /= b; CHECK(q == r, "/="); } if(cb) CHECK((a % c).Bits() == (T)(ab % cb), "remainder");
  auto mixed = [&](auto y, const char* nm) { F c(y); I cb = c.Bits(); long double dv = val(cb, D); if(ok(av + dv)) { CHECK(near(a + y, av + dv, u) && near(y + a, av + dv, u), "sum with a %s", nm); F q = a; q += y; CHECK(q == a + y, "+= %s", nm); } if(ok(av - dv)) { CHECK(near(a - y, av - dv, u) && near(y - a, dv - av, u), "difference with a %s", nm); F q = a; q -= y; CHECK(q == a - y, "-= %s", nm); } if(ok(av * dv)) { CHECK(near(a * y, av * dv, u) && near(y * a, av * dv, u), "product with a %s", nm); F q = a; q *= y; CHECK(q == a * y, "*= %s", nm); } if(cb && ok(av / dv)) { CHECK(near(a / y, av / dv, u + (bits == 64 ? std::fabs(av) * std::ldexp(1.0L, D - 61) : 0)), "quotient by a %s", nm); F q = a; q /= y; CHECK(q == a / y, "/= %s", nm); } if(ab && ok(dv / av)) CHECK(near(y / a, dv / av, u + (bits == 64 ? std::fabs(dv) * std::ldexp(1.0L, D - 61) : 0)), "quotient of a %s", nm); decltype(y) e = y; e += a; CHECK(e == y + (decltype(y))a, "%s += fixed", nm); e = y; e *= a; CHECK(e == y * (decltype(y))a, "%s *= fixed", nm); e = y; e -= a; CHECK(e == y - (decltype(y))a, "%s -= fixed", nm); if(ab) { e = y; e /= a; CHECK(e == y / (decltype(y))a, "%s /= fixed", nm); } }; mixed(y, "double"); { float yf = (float)y; if(std::fabs(yf) < lim) mixed(yf, "float"); }
  CHECK((-a).Bits() == (T)-ab, "negation"); CHECK((a == c) == (ab == cb) && (a != c) == (ab != cb) && (a < c) == (ab < cb) && (a > c) == (ab > cb) && (a <= c) == (ab <= cb) && (a >= c) == (ab >= cb), "comparison"); { T k = (T)s.draw(4); CHECK((a >> k).Bits() == (T)(ab >> (int)k), ">>"); if(ok(av * (1 << k))) CHECK((a << k).Bits() == (T)(ab * (1 << k)), "<<"); }
  { G g(a); CHECK(std::fabs(val(g.Bits(), B) - av) < ub + (D > B ? 0 : 1e-30L), "conversion to %d decimal bits gives %.17g", B, (double)g); G h(0.0); h = a; CHECK(h == g, "assignment from another format"); typedef Fixed<D, std::conditional_t<sizeof(T) == 8, int32_t, int64_t>> O; if(sizeof(T) == 4) { O o(a); CHECK(std::fabs(val(o.Bits(), D) - av) < 1e-30L, "conversion to another width"); } }
  if(std::fabs(av) >= 4 * std::ldexp(1.0L, D - (bits - 1)) * 2 && ab > 4) { auto r = a.Reciprocal(); long double rv = val(r.Bits(), bits - D); CHECK(std::fabs(rv - 1 / av) <= 4 * std::ldexp(1.0L, D - bits), "reciprocal is %.17Lg instead of %.17Lg", rv, 1 / av); }
}
PROP(fixedpoint, 3, 0, "both operands are not zero") { switch(s.draw(5)) { case 0: fixeds<12, int32_t, 12>(s); break; case 1: fixeds<13, int32_t, 8>(s); break; case 2: fixeds<8, int32_t, 20>(s); break; case 3: fixeds<23, int64_t, 31>(s); break; default: fixeds<31, int64_t, 16>(s); } }
PROP(narrowing, 0.5, 0, "every case") { double lim = 1 << 15; double x = fl(s, lim); Fixed<31, int64_t> a(x); Fixed<12, int32_t> b(a); s.note("%.17g", x); s.nontrivial(); CHECK(std::fabs((double)b - (double)a) <= 1.0 / 4096, "conversion from 64 to 32 bits gives %.17g", (double)b); Fixed<12, int32_t> c(0.0); c = a; CHECK(c == b, "assignment"); }

// truncated Taylor series as an independent implementation of differentiation
template<class R> struct Ser
{
  R c[5]; // c[k] = k-th derivative / k!
  static Ser con(R v) { Ser r; for(auto& x : r.c) x = 0; r.c[0] = v; return r; }
  friend Ser operator+(const Ser& a, const Ser& b) { Ser r; for(int i = 0; i < 5; ++i) r.c[i] = a.c[i] + b.c[i]; return r; }
  friend Ser operator-(const Ser& a, const Ser& b) { Ser r; for(int i = 0; i < 5; ++i) r.c[i] = a.c[i] - b.c[i]; return r; }
  friend Ser operator*(const Ser& a, const Ser& b) { Ser r; for(int i = 0; i < 5; ++i) { r.c[i] = 0; for(int j = 0; j <= i; ++j) r.c[i] += a.c[j] * b.c[i - j]; } return r; }
  friend Ser operator/(const Ser& a, const Ser& b) { Ser r; for(int i = 0; i < 5; ++i) { R v = a.c[i]; for(int j = 1; j <= i; ++j) v -= b.c[j] * r.c[i - j]; r.c[i] = v / b.c[0]; } return r; }
  static Ser exp(const Ser& a) { Ser r; r.c[0] = std::exp(a.c[0]); for(int i = 1; i < 5; ++i) { R v = 0; for(int j = 1; j <= i; ++j) v += (R)j * a.c[j] * r.c[i - j]; r.c[i] = v / (R)i; } return r; }
  static Ser log(const Ser& a) { Ser r; r.c[0] = std::log(a.c[0]); for(int i = 1; i < 5; ++i) { R v = (R)i * a.c[i]; for(int j = 1; j < i; ++j) v -= (R)j * r.c[j] * a.c[i - j]; r.c[i] = v / ((R)i * a.c[0]); } return r; }
  static void sc(const Ser& a, Ser& S, Ser& C) { S.c[0] = std::sin(a.c[0]); C.c[0] = std::cos(a.c[0]); for(int i = 1; i < 5; ++i) { R u = 0, v = 0; for(int j = 1; j <= i; ++j) { u += (R)j * a.c[j] * C.c[i - j]; v -= (R)j * a.c[j] * S.c[i - j]; } S.c[i] = u / (R)i; C.c[i] = v / (R)i; } }
};
struct Node { int op, a, b; double k; };
template<class V, class F> static bool build(const std::vector<Node>& t, const V& x, V& out, F f) { std::vector<V> v; v.push_back(x); for(auto& n : t) { V r; if(!f(n, v, r)) return false; v.push_back(r); } out = v.back(); return true; }
template<class R> static bool step(const Node& n, const std::vector<Ser<R>>& v, Ser<R>& r)
{
  const Ser<R>&a = v[n.a], &b = v[n.b], k = Ser<R>::con((R)n.k); Ser<R> q;
  switch(n.op) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: if(std::fabs(b.c[0]) < (R)0.05) return false; r = a / b; break; case 4: Ser<R>::sc(a, r, q); break; case 5: Ser<R>::sc(a, q, r); break; case 6: if(a.c[0] > 5) return false; r = Ser<R>::exp(a); break; case 7: if(a.c[0] < (R)0.05) return false; r = Ser<R>::log(a); break; case 8: if(a.c[0] < (R)0.05) return false; r = Ser<R>::log(a) * Ser<R>::con(1 / std::log((R)10)); break; case 9: if(a.c[0] < (R)0.05) return false; r = Ser<R>::exp(Ser<R>::log(a) * k); break; case 10: if(a.c[0] < (R)0.05) return false; r = Ser<R>::exp(b * Ser<R>::log(a)); break; case 11: r = Ser<R>::con(0) - a; break; case 12: if(std::fabs(a.c[0]) < (R)0.01) return false; r = a.c[0] < 0 ? Ser<R>::con(0) - a : a; break; case 13: r = a + k; break; case 14: r = a * k; break; case 15: if(n.k == 0) return false; r = a / k; break; case 16: r = k - a; break; default: if(std::fabs(a.c[0]) < (R)0.05) return false; r = k / a; }
  for(int i = 0; i < 5; ++i) if(!(std::fabs(r.c[i]) < (R)1e6)) return false; return true;
}
template<int O> static void duals(pbt::Src& s)
{
  typedef Dual<double, O> D; double x = s.boolean() ? s.range(-40, 40) / 10.0 : s.real(-4, 4); std::vector<Node> t; do { Node n; n.op = (int)s.draw(18); n.a = s.boolean() ? (int)t.size() : (int)s.draw(t.size() + 1); n.b = (int)s.draw(t.size() + 1); n.k = n.op == 9 ? (double)s.range(-6, 8) / 2 : s.range(-30, 30) / 8.0; t.push_back(n); } while(s.more(3) && t.size() < 8);
  Ser<long double> lx = Ser<long double>::con(x), lr; lx.c[1] = 1; Ser<double> dx = Ser<double>::con(x), dr; dx.c[1] = 1; if(!build(t, lx, lr, step<long double>) || !build(t, dx, dr, step<double>)) pbt::discard();
  D r; build(t, D(x, 1), r, [](const Node& n, const std::vector<D>& v, D& r) { const D&a = v[n.a], &b = v[n.b]; switch(n.op) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; case 4: r = a.sin(); break; case 5: r = a.cos(); break; case 6: r = a.exp(); break; case 7: r = a.log(); break; case 8: r = a.log10(); break; case 9: r = a ^ n.k; break; case 10: r = a ^ b; break; case 11: r = -a; break; case 12: r = a.Abs(); break; case 13: r = n.b % 2 ? n.k + a : n.b % 3 ? a + n.k : a - -n.k; break; case 14: r = n.b % 2 ? a * n.k : n.k * a; break; case 15: r = a / n.k; break; case 16: r = n.k - a; break; default: r = n.k / a; } return true; });
  if(s.verbose()) for(auto& n : t) s.note("op %d of %d, %d, constant %g", n.op, n.a, n.b, n.k); s.note("at %.17g, order %d", x, O); s.nontrivial(t.size() > 1); long double fact = 1;
  for(int k = 0; k <= O; ++k) { if(k) fact *= k; long double w = lr.c[k] * fact, e = std::fabs(lr.c[k] - (long double)dr.c[k]) * fact; CHECK(std::fabs(r(k) - w) <= 1e-7L * (1 + std::fabs(w)) + 1e4L * e, "derivative %d is %.17g instead of %.17Lg", k, r(k), w); }
}
PROP(dual, 3, 0, "the expression has at least two operations") { switch(s.draw(3)) { case 0: duals<1>(s); break; case 1: duals<2>(s); break; default: duals<3>(s); } }
