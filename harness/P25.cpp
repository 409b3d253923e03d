// Vectors, matrices and SSE lanes agree with scalar reference arithmetic.
// LIBS: bss_util.cpp bss_util_c.c ConvertUTF.c
// ASSUME: components small enough that every intermediate is exact in the element type, except where a relative tolerance is stated; arrays handed to the raw 4-lane functions are 16-byte aligned as asserted; right shifts of 16- and 64-bit lanes on non-negative values (documented as logical); float floor and ceil within the 32-bit range; no division by zero; invertible matrices; quaternions of unit length
#include "tracked.h"
#include "bss-util/vector.h"
#include <cmath>
using namespace bss;
typedef double D;
template<class T> static bool near_(T a, D b, D rel, D abs_ = 0) { return std::fabs((D)a - b) <= rel * (std::fabs(b) + 1) + abs_; }
template<class T> static D sq_tol() { return sizeof(T) == 4 ? 2e-5 : 1e-8; }
template<class T, int N> struct Off { alignas(16) char pad[16]; Vector<T, N> v; };
template<class T, int N> static void fillv(pbt::Src& s, T(&v)[N], int m) { for(int i = 0; i < N; ++i) v[i] = (T)s.range(-m, m); }
template<class T, int N> static bool is(const Vector<T, N>& v, const D* e, D rel = 1e-6) { for(int i = 0; i < N; ++i) if(!near_(v.v[i], e[i], std::is_integral<T>::value ? 0 : rel)) return false; return true; }
template<class T, int N> static void vectors(pbt::Src& s)
{
  Vector<T, N> a, b; fillv(s, a.v, 40); fillv(s, b.v, 40); if(s.chance(1, 3)) for(int i = 0; i < N; ++i) if(s.boolean()) b.v[i] = a.v[i]; T k = (T)s.range(-9, 9); D e[N]; constexpr bool INT = std::is_integral<T>::value;
  { std::string t; for(int i = 0; i < N; ++i) t += " " + std::to_string((D)a.v[i]) + "," + std::to_string((D)b.v[i]); s.note("N=%d size=%d pairs%s scalar %g", N, (int)sizeof(T), t.c_str(), (D)k); }
#define EACH(expr) do { for(int i = 0; i < N; ++i) { D x = (D)a.v[i], y = (D)b.v[i]; (void)x; (void)y; e[i] = (expr); if(INT) e[i] = std::trunc(e[i]); } } while(0)
  switch(s.draw(10))
  {
  case 0: EACH(x + y); CHECK(is(a + b, e), "a + b"); { auto c = a; auto& r = (c += b); CHECK(is(c, e) && &r == &c, "a += b"); } EACH(x - y); CHECK(is(a - b, e), "a - b"); { auto c = a; c -= b; CHECK(is(c, e), "a -= b"); } EACH(x * y); CHECK(is(a * b, e), "a * b"); { auto c = a; c *= b; CHECK(is(c, e), "a *= b"); } { auto c = a; c += c; EACH(2 * x); CHECK(is(c, e), "a += a"); } break;
  case 1: { for(int i = 0; i < N; ++i) if(!(D)b.v[i]) b.v[i] = 1; EACH(x / y); CHECK(is(a / b, e), "a / b"); auto c = a; c /= b; CHECK(is(c, e), "a /= b"); T q = k ? k : (T)3; EACH(x / (D)q); CHECK(is(a / q, e), "a / scalar"); c = a; c /= q; CHECK(is(c, e), "a /= scalar"); EACH((D)k / y); CHECK(is(k / b, e), "scalar / a"); break; }
  case 2: { EACH(x + (D)k); CHECK(is(a + k, e) && is(k + a, e), "a + scalar"); auto c = a; c += k; CHECK(is(c, e), "a += scalar"); EACH(x - (D)k); CHECK(is(a - k, e), "a - scalar"); c = a; c -= k; CHECK(is(c, e), "a -= scalar"); EACH((D)k - x); CHECK(is(k - a, e), "scalar - a"); EACH(x * (D)k); CHECK(is(a * k, e) && is(k * a, e), "a * scalar"); c = a; c *= k; CHECK(is(c, e), "a *= scalar"); EACH(-x); CHECK(is(-a, e), "-a"); break; }
  case 3: { bool eq = true; int c = 0; for(int i = 0; i < N; ++i) { if(a.v[i] != b.v[i]) eq = false; if(!c) c = a.v[i] < b.v[i] ? -1 : a.v[i] > b.v[i]; } CHECK((a == b) == eq && (a != b) == !eq, "equality"); CHECK((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "lexicographic order"); break; }
  case 4: { if(s.boolean()) for(int i = 0; i < N; ++i) if(s.chance(4, 5)) a.v[i] = k; bool g = true, l = true, ge = true, le = true, eq = true; for(int i = 0; i < N; ++i) { T x = a.v[i]; g &= x > k; l &= x < k; ge &= x >= k; le &= x <= k; eq &= x == k; } CHECK((a > k) == g && (a < k) == l && (a >= k) == ge && (a <= k) == le && (a == k) == eq && (a != k) == !eq, "comparison of every component with a scalar"); break; }
  case 5: { D d = 0, q = 0; for(int i = 0; i < N; ++i) { d += (D)a.v[i] * b.v[i]; q += ((D)a.v[i] - b.v[i]) * ((D)a.v[i] - b.v[i]); } CHECK(((D)a.Dot(b) == d && (D)b.Dot(a) == d && (D)NVectorDot<T, N>(a.v, b.v) == d), "Dot is %g instead of %g", (D)a.Dot(b), d); CHECK(((D)a.DistanceSq(b) == q && (D)NVectorDistanceSq<T, N>(a.v, b.v) == q), "DistanceSq is %g instead of %g", (D)a.DistanceSq(b), q); break; }
  case 6: EACH(std::fabs(x)); CHECK(is(a.Abs(), e), "Abs"); { alignas(16) T o[N]; NVectorAbs<T, N>(a.v, o); CHECK((is(Vector<T, N>(o), e)), "NVectorAbs"); } break;
  case 7: if constexpr(!INT) { D d = 0, q = 0; for(int i = 0; i < N; ++i) { d += (D)a.v[i] * a.v[i]; q += ((D)a.v[i] - b.v[i]) * ((D)a.v[i] - b.v[i]); } d = std::sqrt(d); q = std::sqrt(q); D t = sq_tol<T>(); if(!d || !q) break; CHECK(near_(a.Length(), d, t) , "Length is %g instead of %g", (D)a.Length(), d); CHECK((near_(a.Distance(b), q, t) && near_(NVectorDistance<T, N>(a.v, b.v), q, t)), "Distance"); EACH(x / d); CHECK(is(a.Normalize(), e, t), "Normalize"); alignas(16) T o[N]; NVectorNormalize<T, N>(a.v, o); CHECK((is(Vector<T, N>(o), e, t)), "NVectorNormalize");
      Vector<T, N> c; fillv(s, c.v, 40); D u = 0, v = 0, w = 0; for(int i = 0; i < N; ++i) { D p = (D)b.v[i] - a.v[i], r = (D)c.v[i] - a.v[i]; u += p * p; v += r * r; w += p * r; } D area = std::sqrt(std::fmax(0, u * v - w * w)) / 2; if(area * 4 > std::fmax(u, v)) CHECK((near_(NTriangleArea<T, N>(a.v, b.v, c.v), area, 1e-3)), "NTriangleArea is %g instead of %g", (D)NTriangleArea<T, N>(a.v, b.v, c.v), area); } break;
  case 8: { T o[N][3]; Vector<T, 3> c; fillv(s, c.v, 9); a.Outer(c, o); for(int i = 0; i < N; ++i) for(int j = 0; j < 3; ++j) CHECK(o[i][j] == a.v[i] * c.v[j], "Outer at %d,%d", i, j); break; }
  default: { Vector<int, N> i1; Vector<double, N> d1; for(int i = 0; i < N; ++i) { d1.v[i] = (D)s.range(-99, 99) + (s.boolean() ? .5 : 0); i1.v[i] = (int)s.range(-99, 99); } Vector<T, N> c(d1), f(i1), g(k), h(a.v); for(int i = 0; i < N; ++i) CHECK(c.v[i] == (T)d1.v[i] && f.v[i] == (T)i1.v[i] && g.v[i] == k && h.v[i] == a.v[i], "construction, component %d", i); c = i1; for(int i = 0; i < N; ++i) CHECK(c.v[i] == (T)i1.v[i], "assignment from another type"); EACH(x + (T)i1.v[i]); CHECK(is(a + i1, e), "adding a vector of another type"); EACH(x * (T)i1.v[i]); CHECK(is(a * i1, e), "multiplying by a vector of another type"); break; }
  }
#undef EACH
  bool nz = false; for(int i = 1; i < N; ++i) if(a.v[i] != a.v[0]) nz = true; s.nontrivial(nz);
}
PROP(vectors, 3, 0, "a vector with at least two different components")
{
  switch(s.draw(12)) { case 0: return vectors<float, 2>(s); case 1: return vectors<float, 3>(s); case 2: case 3: return vectors<float, 4>(s); case 4: return vectors<float, 5>(s); case 5: return vectors<double, 2>(s); case 6: return vectors<double, 3>(s); case 7: return vectors<double, 4>(s); case 8: return vectors<double, 6>(s); case 9: return vectors<int, 3>(s); case 10: return vectors<int, 4>(s); default: return vectors<int, 7>(s); }
}
template<class T, int N, int K> static void swizzled(const Vector<T, N>& from, const Vector<T, K>& to, const char* how) { for(int i = 0; i < K; ++i) { int k = how[i] == 'w' ? 3 : how[i] - 'x'; CHECK(to.v[i] == from.v[k], "swizzle %s of a vector of %d: component %d", how, N, i); } }
#define SW(v, f) swizzled(v, v.f(), #f);
template<class T> static void plane(pbt::Src& s)
{
  Vector<T, 2> a((T)s.real(-50, 50), (T)s.real(-50, 50)), b((T)s.real(-50, 50), (T)s.real(-50, 50)); T r = (T)s.real(-7, 7); D t = sizeof(T) == 4 ? 2e-5 : 1e-9;
  D c = std::cos((D)r), n = std::sin((D)r), x = (D)a.x - b.x, y = (D)a.y - b.y; auto v = a.Rotate(r, b), w = a.Rotate(r, b.x, b.y); D ex = x * c - y * n + b.x, ey = x * n + y * c + b.y; CHECK(near_(v.x, ex, t, 100 * t) && near_(v.y, ey, t, 100 * t) && v == w, "Rotate (%g,%g) by %g about (%g,%g): (%g,%g) instead of (%g,%g)", (D)a.x, (D)a.y, (D)r, (D)b.x, (D)b.y, (D)v.x, (D)v.y, ex, ey);
  D cr = (D)a.x * b.y - (D)b.x * a.y; CHECK(near_(a.Cross(b), cr, t, 1000 * t) && a.Cross(b.x, b.y) == a.Cross(b), "Cross");
  auto p = Vector<T, 2>::ToPolar(a); D len = std::hypot((D)a.x, (D)a.y); if(len > 1e-3) { CHECK(near_(p.x, len, sq_tol<T>()) && near_(p.y, std::atan2((D)a.y, (D)a.x), t), "ToPolar"); auto q = Vector<T, 2>::FromPolar(p); CHECK(near_(q.x, a.x, 2e-5, len * 2e-5) && near_(q.y, a.y, 2e-5, len * 2e-5), "FromPolar does not invert ToPolar"); }
  Vector<T, 3> u, z; fillv(s, u.v, 30); fillv(s, z.v, 30); auto o = u.Cross(z); D e[3] = { (D)u.y * z.z - (D)u.z * z.y, (D)u.z * z.x - (D)u.x * z.z, (D)u.x * z.y - (D)u.y * z.x }; CHECK(is(o, e), "3D Cross"); CHECK((D)o.Dot(u) == 0 && (D)o.Dot(z) == 0 && o == -z.Cross(u), "cross product is orthogonal and antisymmetric");
  CHECK((u.xy == (Vector<T, 2>(u.v[0], u.v[1])) && u.zyx() == (Vector<T, 3>(u.v[2], u.v[1], u.v[0])) && u.yz() == (Vector<T, 2>(u.v[1], u.v[2]))), "swizzles");
  Vector<T, 4> f; fillv(s, f.v, 99); CHECK((f.wzyx() == (Vector<T, 4>(f.w, f.z, f.y, f.x)) && f.xzwy() == (Vector<T, 4>(f.v[0], f.v[2], f.v[3], f.v[1])) && f.zwx() == (Vector<T, 3>(f.v[2], f.v[3], f.v[0])) && f.xyz == (Vector<T, 3>(f.v[0], f.v[1], f.v[2])) && f.g == f.v[1] && f.a == f.v[3]), "4D swizzles");
  SW(a, yx) SW(u, xz) SW(u, zx) SW(u, zy) SW(u, yz) SW(u, yx) SW(u, xzy) SW(u, zxy) SW(u, zyx) SW(u, yzx) SW(u, yxz)
  SW(f, xz) SW(f, xw) SW(f, zx) SW(f, zy) SW(f, zw) SW(f, yz) SW(f, yx) SW(f, yw) SW(f, xyw) SW(f, xzy) SW(f, xzw) SW(f, xwy) SW(f, xwz) SW(f, zxy) SW(f, zxw) SW(f, zyx) SW(f, zyw) SW(f, zwx) SW(f, zwy) SW(f, wxy) SW(f, wxz) SW(f, wyx) SW(f, wyz) SW(f, wzx) SW(f, wzy) SW(f, xywz) SW(f, xzyw) SW(f, xzwy) SW(f, xwyz) SW(f, xwzy) SW(f, zxyw) SW(f, zxwy) SW(f, zyxw) SW(f, zywx) SW(f, zwxy) SW(f, zwyx) SW(f, wxyz) SW(f, wxzy) SW(f, wyxz) SW(f, wyzx) SW(f, wzxy) SW(f, wzyx)
  s.nontrivial(len > 1e-3 && std::fabs(n) > 1e-3);
}
template<class T, int N, size_t... I> static Vector<T, N> vlist(const T* f, std::index_sequence<I...>) { return Vector<T, N>{ f[I]... }; }
template<class T, int M, int N, size_t... I> static Matrix<T, M, N> mlist(const T* f, std::index_sequence<I...>) { return Matrix<T, M, N>{ f[I]... }; }
template<class T, class U, int N> static void vmade(pbt::Src& s)
{
  T a[N]; std::array<T, N> r; for(int i = 0; i < N; ++i) r[i] = a[i] = (T)s.range(-90, 90); Vector<T, N> k[4] = { Vector<T, N>(a), Vector<T, N>(r), vlist<T, N>(a, std::make_index_sequence<N>()), Vector<T, N>(Vector<U, N>(Vector<T, N>(a))) }; for(int q = 0; q < 4; ++q) for(int i = 0; i < N; ++i) CHECK(k[q].v[i] == a[i], "constructor %d of a vector of %d, component %d", q, N, i); Vector<T, N> sc(a[0]); for(int i = 0; i < N; ++i) CHECK(sc.v[i] == a[0], "vector of one value");
}
template<class T, class U, int M, int N> static void mmade(pbt::Src& s)
{
  T a[M][N]; for(auto& x : a) for(auto& y : x) y = (T)s.range(-90, 90); Matrix<T, M, N> k[4] = { Matrix<T, M, N>(a), mlist<T, M, N>(&a[0][0], std::make_index_sequence<M * N>()), Matrix<T, M, N>(Matrix<U, M, N>(Matrix<T, M, N>(a))), Matrix<T, M, N>() }; k[3] = k[0]; for(int q = 0; q < 4; ++q) for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) CHECK(k[q].v[i][j] == a[i][j], "constructor %d of a %dx%d matrix, element %d,%d", q, M, N, i, j);
}
PROP(construction, .5, 0, "always") { s.nontrivial(); switch(s.draw(12)) { case 0: return vmade<float, double, 2>(s); case 1: return vmade<double, int, 3>(s); case 2: return vmade<float, int, 4>(s); case 3: return vmade<int, float, 5>(s); case 4: return vmade<double, float, 4>(s); case 5: return mmade<float, double, 2, 2>(s); case 6: return mmade<double, float, 3, 3>(s); case 7: return mmade<float, double, 4, 4>(s); case 8: return mmade<double, float, 4, 4>(s); case 9: return mmade<float, double, 2, 3>(s); case 10: return mmade<double, float, 4, 3>(s); default: return mmade<float, double, 3, 5>(s); } }
PROP(rotating, 1, 0, "a point away from the origin and an angle that is not a multiple of pi") { if(s.boolean()) plane<float>(s); else plane<double>(s); }
template<class T, int M, int N> struct Box { T first; Matrix<T, M, N> m; };
template<class T, int M, int N> static void fillm(pbt::Src& s, Matrix<T, M, N>& m, int lim) { for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) m.v[i][j] = (T)s.range(-lim, lim); }
template<class T, int M, int N, int P> static void products(pbt::Src& s)
{
  Box<T, M, N> ba; Box<T, N, P> bb; Box<T, M, P> bc; Box<T, N, N> bn; auto &a = ba.m; auto &b = bb.m; auto &n = bn.m; fillm(s, a, 12); fillm(s, b, 12); fillm(s, n, 12); s.note("%dx%d times %dx%d, element size %d", M, N, N, P, (int)sizeof(T));
  bc.m = a * b; auto& c = bc.m; for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) { D e = 0; for(int k = 0; k < N; ++k) e += (D)a.v[i][k] * b.v[k][j]; CHECK((D)c.v[i][j] == e, "product at %d,%d is %g instead of %g", i, j, (D)c.v[i][j], e); }
  Vector<T, M> x; Vector<T, N> y; fillv(s, x.v, 12); fillv(s, y.v, 12); auto r = x * a; for(int j = 0; j < N; ++j) { D e = 0; for(int i = 0; i < M; ++i) e += (D)x.v[i] * a.v[i][j]; CHECK((D)r.v[j] == e, "row vector times matrix at %d", j); } auto q = a * y; for(int i = 0; i < M; ++i) { D e = 0; for(int j = 0; j < N; ++j) e += (D)a.v[i][j] * y.v[j]; CHECK((D)q.v[i] == e, "matrix times column vector at %d", i); }
  Box<T, M, N> bd; bd.m = a; bd.m *= n; for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) { D e = 0; for(int k = 0; k < N; ++k) e += (D)a.v[i][k] * n.v[k][j]; CHECK((D)bd.m.v[i][j] == e, "A *= B at %d,%d", i, j); }
  if(M == N && s.boolean()) { Matrix<T, N, N> sq = n, res; sq *= sq; for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) { D e = 0; for(int k = 0; k < N; ++k) e += (D)n.v[i][k] * n.v[k][j]; CHECK((D)sq.v[i][j] == e, "A *= A at %d,%d", i, j); } }
  auto y2 = y; y2 *= n; for(int j = 0; j < N; ++j) { D e = 0; for(int i = 0; i < N; ++i) e += (D)y.v[i] * n.v[i][j]; CHECK((D)y2.v[j] == e, "v *= M at %d", j); }
  // component-wise
  Matrix<T, M, N> g; fillm(s, g, 12); T k = (T)s.range(-9, 9); if(!k) k = 2; auto sum = a + g, dif = a - g, had = a ^ g, add = a + k, mul = k * a, rs = k - a, neg = -a, sub = a - k; bool eq = true, eqk = true; for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) { T u = a.v[i][j], v = g.v[i][j]; if(u != v) eq = false; if(u != k) eqk = false; CHECK(sum.v[i][j] == u + v && dif.v[i][j] == u - v && had.v[i][j] == u * v && add.v[i][j] == u + k && mul.v[i][j] == u * k && rs.v[i][j] == k - u && neg.v[i][j] == -u && sub.v[i][j] == u - k, "component-wise operation at %d,%d", i, j); if(v == 0) g.v[i][j] = 1; } CHECK((a == k) == eqk && (a != k) == !eqk && a == a && !(a != a), "comparison"); (void)eq;
  auto dv = a / g, ds = a / k, sd = k / g; for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) { D tol = std::is_integral<T>::value ? 0 : 1e-6; auto fix = [](D d) { return std::is_integral<T>::value ? std::trunc(d) : d; }; CHECK(near_(dv.v[i][j], fix((D)a.v[i][j] / g.v[i][j]), tol) && near_(ds.v[i][j], fix((D)a.v[i][j] / k), tol) && near_(sd.v[i][j], fix((D)k / g.v[i][j]), tol), "component-wise division at %d,%d", i, j); }
  { auto z = a; int i = (int)s.draw(M), j = (int)s.draw(N); z.v[i][j] += 1; CHECK(z != a && !(z == a), "matrices differing at %d,%d compare equal", i, j); }
  if constexpr(M == N) { auto t = ~a, t2 = a.Transpose(); for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) CHECK(t.v[j][i] == a.v[i][j] && t2.v[j][i] == a.v[i][j], "transpose at %d,%d", i, j); auto z = a; z.Transpose(z); CHECK(z == t, "transposing a matrix onto itself"); auto id = Matrix<T, M, N>::Identity(); CHECK(id * a == a && a * id == a, "identity"); T dg[M]; for(int i = 0; i < M; ++i) dg[i] = (T)s.range(-9, 9); auto dm = Matrix<T, M, N>::Diagonal(dg); for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) CHECK(dm.v[i][j] == (i == j ? dg[i] : (T)0), "Diagonal at %d,%d", i, j); }
  s.nontrivial(true);
}
PROP(products, 3, 0, "every case: multiplies matrices of generated content")
{
  switch(s.draw(12)) { case 0: case 1: return products<float, 4, 4, 4>(s); case 2: return products<int, 4, 4, 4>(s); case 3: return products<float, 3, 3, 3>(s); case 4: return products<float, 2, 2, 2>(s); case 5: return products<double, 4, 4, 4>(s); case 6: return products<float, 3, 4, 4>(s); case 7: return products<float, 2, 3, 4>(s); case 8: return products<double, 3, 3, 3>(s); case 9: return products<int, 6, 4, 4>(s); case 10: return products<int, 5, 4, 2>(s); default: return products<double, 2, 2, 5>(s); }
}
static D det(int n, const D* m) { if(n == 1) return m[0]; D r = 0; D sub[9]; for(int c = 0; c < n; ++c) { int k = 0; for(int i = 1; i < n; ++i) for(int j = 0; j < n; ++j) if(j != c) sub[k++] = m[i * n + j]; r += (c & 1 ? -1 : 1) * m[c] * det(n - 1, sub); } return r; }
template<class T, int N> static void inverses(pbt::Src& s)
{
  Matrix<T, N, N> m; fillm(s, m, 9); D f[16]; for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) f[i * N + j] = (D)m.v[i][j]; D e = det(N, f); CHECK(((D)m.Determinant() == e && (D)MatrixDeterminant<T, N>(m.v) == e), "determinant of a %dx%d matrix is %g instead of %g", N, N, (D)m.Determinant(), e);
  if constexpr(!std::is_integral<T>::value)
  {
    D a[N][N] = {}, b[N][N] = {}; int dg[N]; for(int i = 0; i < N; ++i) { static const D V[6] = { 1, -1, 2, .5, -4, -.25 }; a[i][i] = V[s.draw(6)]; b[i][i] = 1 / a[i][i]; dg[i] = i; }
    int ops = (int)s.range(0, 7); while(ops--) { int i = (int)s.draw(N), j = (int)s.draw(N - 1); if(j >= i) ++j; if(s.chance(1, 4)) { for(int k = 0; k < N; ++k) { std::swap(a[i][k], a[j][k]); std::swap(b[k][i], b[k][j]); } } else { D k = (D)s.range(-2, 2); for(int c = 0; c < N; ++c) { a[i][c] += k * a[j][c]; b[c][j] -= k * b[c][i]; } } }
    Matrix<T, N, N> x; bool ok = true; D big = 0; for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) { x.v[i][j] = (T)a[i][j]; if(std::fabs(a[i][j]) > 64 || std::fabs(b[i][j]) > 64) ok = false; big = std::fmax(big, std::fabs(b[i][j])); } if(!ok) return; auto y = x.Inverse(); for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) CHECK(near_(y.v[i][j], b[i][j], 1e-4, big * 1e-4), "inverse of a %dx%d matrix at %d,%d is %g instead of %g", N, N, i, j, (D)y.v[i][j], b[i][j]);
    auto z = x; z.Inverse(z.v); CHECK(z == y, "inverting a matrix onto itself"); Matrix<T, N, N> w; x.Inverse(w); CHECK(w == y, "Inverse(out)"); s.nontrivial(true);
  } else s.nontrivial(e != 0);
}
PROP(inverses, 2, 0, "an invertible matrix with a known inverse, or an integer matrix with a non-zero determinant")
{
  switch(s.draw(8)) { case 0: case 1: return inverses<float, 4>(s); case 2: return inverses<float, 3>(s); case 3: return inverses<float, 2>(s); case 4: return inverses<double, 4>(s); case 5: return inverses<double, 3>(s); case 6: return inverses<double, 2>(s); default: return inverses<int, 4>(s); }
}
template<class T, int N> static void apply(const Matrix<T, N, N>& m, const D* p, D* o) { for(int i = 0; i < N; ++i) { o[i] = 0; for(int j = 0; j < N; ++j) o[i] += (D)m.v[i][j] * p[j]; } }
template<class T, int N> static void same(const char* what, const Matrix<T, N, N>& m, const Matrix<T, N, N>& t, const D* p, const D* e) { D o[N]; apply<T, N>(m, p, o); for(int i = 0; i < N; ++i) { CHECK(near_(o[i], e[i], 2e-5, 2e-3), "%s: component %d is %g instead of %g", what, i, o[i], e[i]); for(int j = 0; j < N; ++j) CHECK(m.v[i][j] == t.v[j][i], "%s: the transposed variant differs at %d,%d", what, i, j); } }
template<class T> static void affine(pbt::Src& s)
{
  T r = (T)s.real(-7, 7), x = (T)s.real(-20, 20), y = (T)s.real(-20, 20), z = (T)s.real(-20, 20), cx = (T)s.real(-20, 20), cy = (T)s.real(-20, 20); D c = std::cos((D)r), n = std::sin((D)r), p[4] = { s.real(-20, 20), s.real(-20, 20), s.real(-20, 20), 1 }, q[3] = { p[0], p[1], 1 }; typedef Matrix<T, 4, 4> M4; typedef Matrix<T, 3, 3> M3; typedef Matrix<T, 2, 2> M2; M4 m, t; M3 m3, t3; M2 m2, t2; s.nontrivial(std::fabs(n) > 1e-3); s.note("angle %g", (D)r);
  { D e[2] = { q[0] * c - q[1] * n, q[0] * n + q[1] * c }; M2::Rotation(r, m2); M2::Rotation_T(r, t2); same<T, 2>("2x2 rotation", m2, t2, q, e); }
  { D e[3] = { q[0] * c - q[1] * n, q[0] * n + q[1] * c, 1 }; M3::AffineRotation(r, m3); M3::AffineRotation_T(r, t3); same<T, 3>("3x3 affine rotation", m3, t3, q, e); }
  { D e[3] = { q[0] + x, q[1] + y, 1 }; M3::Translation(x, y, m3); M3::Translation_T(x, y, t3); same<T, 3>("3x3 translation", m3, t3, q, e); }
  { D u = q[0] - cx, v = q[1] - cy, e[3] = { u * c - v * n + cx + x, u * n + v * c + cy + y, 1 }; M3::AffineTransform(x, y, r, cx, cy, m3); M3::AffineTransform_T(x, y, r, cx, cy, t3); same<T, 3>("3x3 affine transform", m3, t3, q, e); }
  { D e[3] = { q[0] * x, q[1] * y, 1 }; M3::AffineScaling(x, y, m3); same<T, 3>("3x3 scaling", m3, m3, q, e); }
  for(int k = 0; k < 3; ++k) { int a = (k + 1) % 3, b = (k + 2) % 3; D e[4] = { p[0], p[1], p[2], 1 }; e[a] = p[a] * c - p[b] * n; e[b] = p[a] * n + p[b] * c; switch(k) { case 0: M3::RotationX(r, m3); M3::RotationX_T(r, t3); M4::AffineRotationX(r, m); M4::AffineRotationX_T(r, t); break; case 1: M3::RotationY(r, m3); M3::RotationY_T(r, t3); M4::AffineRotationY(r, m); M4::AffineRotationY_T(r, t); break; default: M3::RotationZ(r, m3); M3::RotationZ_T(r, t3); M4::AffineRotationZ(r, m); M4::AffineRotationZ_T(r, t); } same<T, 3>("3x3 rotation about an axis", m3, t3, p, e); same<T, 4>("4x4 rotation about an axis", m, t, p, e); }
  { D e[4] = { p[0] + x, p[1] + y, p[2] + z, 1 }; M4::Translation(x, y, z, m); M4::Translation_T(x, y, z, t); same<T, 4>("4x4 translation", m, t, p, e); }
  { D u = p[0] - cx, v = p[1] - cy, e[4] = { u * c - v * n + cx + x, u * n + v * c + cy + y, p[2] + z, 1 }; M4::AffineTransform(x, y, z, r, cx, cy, m); M4::AffineTransform_T(x, y, z, r, cx, cy, t); same<T, 4>("4x4 affine transform", m, t, p, e); }
  { D e[4] = { p[0] * x, p[1] * y, p[2] * z, 1 }; M4::AffineScaling(x, y, z, m); same<T, 4>("4x4 scaling", m, m, p, e); }
  { // quaternion: compare with q v q*
    D w[4]; D l = 0; for(auto& k : w) { k = s.real(-1, 1); l += k * k; } l = std::sqrt(l); if(l < .1) return; alignas(16) T f[4]; for(int i = 0; i < 4; ++i) f[i] = (T)(w[i] /= l); D X = w[0], Y = w[1], Z = w[2], W = w[3]; D cr[3] = { Y * p[2] - Z * p[1] + W * p[0], Z * p[0] - X * p[2] + W * p[1], X * p[1] - Y * p[0] + W * p[2] }; D e[4] = { p[0] + 2 * (Y * cr[2] - Z * cr[1]), p[1] + 2 * (Z * cr[0] - X * cr[2]), p[2] + 2 * (X * cr[1] - Y * cr[0]), 1 };
    alignas(16) T o[4][4]; FromQuaternion<T, 4>(f, o); T o3[3][3]; FromQuaternion<T, 3>(f, o3); for(int i = 0; i < 4; ++i) { D v = 0, v3 = 0; for(int j = 0; j < 4; ++j) { v += (D)o[i][j] * p[j]; if(i < 3 && j < 3) v3 += (D)o3[i][j] * p[j]; } CHECK(near_(v, e[i], 2e-5, 2e-4), "FromQuaternion (4x4): component %d of the rotated point is %g instead of %g", i, v, e[i]); if(i < 3) CHECK(near_(v3, e[i], 2e-5, 2e-4), "FromQuaternion (3x3): component %d is %g instead of %g", i, v3, e[i]); } }
}
PROP(transforms, 1, 0, "an angle that is not a multiple of pi") { if(s.boolean()) affine<float>(s); else affine<double>(s); }
PROP(splines, 1, 0, "a parameter strictly between 0 and 1")
{
  alignas(16) float p[4], m[4][4]; for(auto& x : p) x = (float)s.range(-20, 20); for(auto& r : m) for(auto& x : r) x = (float)s.range(-12, 12) / 4; float t = (float)s.draw(17) / 16; s.nontrivial(t > 0 && t < 1); D a[4] = { (D)t * t * t, (D)t * t, t, 1 }, e = 0; for(int j = 0; j < 4; ++j) { D c = 0; for(int i = 0; i < 4; ++i) c += a[i] * m[i][j]; e += c * p[j]; } D g = GenericBSpline(t, p, m); CHECK(near_(g, e, 1e-5, 1e-3), "GenericBSpline at %g is %g instead of %g", t, g, e);
  alignas(16) float o[4]; alignas(16) float v[4] = { p[3], p[0], p[2], p[1] }; MatrixMultiply1x4<float>(v, m).Set(o); for(int j = 0; j < 4; ++j) { D c = 0; for(int i = 0; i < 4; ++i) c += (D)v[i] * m[i][j]; CHECK(near_(o[j], c, 1e-6), "MatrixMultiply1x4 at %d", j); }
  alignas(16) int im[4][4], iv[4], io[4]; for(auto& r : im) for(auto& x : r) x = (int)s.edgy(-30000, 30000); for(auto& x : iv) x = (int)s.range(-9000, 9000); MatrixMultiply1x4<int>(iv, im).Set(io); for(int j = 0; j < 4; ++j) { int64_t c = 0; for(int i = 0; i < 4; ++i) c += (int64_t)iv[i] * im[i][j]; CHECK(io[j] == (int)c, "integer MatrixMultiply1x4 at %d", j); }
}
// SSE lanes
template<class T> struct U_ { typedef typename std::make_unsigned<T>::type type; }; template<> struct U_<float> { typedef uint32_t type; }; template<> struct U_<double> { typedef uint64_t type; };
template<class T> static T lane(pbt::Src& s) { if constexpr(std::is_integral<T>::value) { return s.boolean() ? (T)s.range(-4, 4) : (T)s.edgy(std::numeric_limits<T>::min(), std::numeric_limits<T>::max()); } else return (T)(s.boolean() ? (D)s.range(-6, 6) / 2 : s.real(-1e6, 1e6)); }
template<class V, class T, uint8_t P> static void shuffled(const T* a) // words of the register move as the four 2-bit positions say
{
  alignas(16) T in[16 / sizeof(T)], out[16 / sizeof(T)]; memcpy(in, a, 16); V x(in); uint32_t w[4], g[4]; uint16_t h[8], k[8]; memcpy(w, in, 16); memcpy(h, in, 16);
  V r = V::template Shuffle<P>(x); r.Set(out); memcpy(g, out, 16); for(int i = 0; i < 4; ++i) CHECK(g[i] == w[(P >> (2 * i)) & 3], "Shuffle<%d>, word %d", P, i);
  if constexpr(std::is_integral<T>::value) { V lo = V::template ShuffleLo<P>(x); lo.Set(out); memcpy(k, out, 16); for(int i = 0; i < 8; ++i) CHECK(k[i] == (i < 4 ? h[(P >> (2 * i)) & 3] : h[i]), "ShuffleLo<%d>, half word %d", P, i); V hi = V::template ShuffleHi<P>(x); hi.Set(out); memcpy(k, out, 16); for(int i = 0; i < 8; ++i) CHECK(k[i] == (i < 4 ? h[i] : h[4 + ((P >> (2 * (i - 4))) & 3)]), "ShuffleHi<%d>, half word %d", P, i); }
}
template<class T> static void lanes(pbt::Src& s)
{
  constexpr int N = 16 / sizeof(T); typedef sseVecT<T> V; typedef typename U_<T>::type U; constexpr bool INT = std::is_integral<T>::value; alignas(16) T a[N], b[N], o[N]; char raw[48]; for(int i = 0; i < N; ++i) { a[i] = lane<T>(s); b[i] = s.chance(1, 4) ? a[i] : lane<T>(s); } bool diff = false; for(int i = 1; i < N; ++i) if(a[i] != a[0]) diff = true; s.nontrivial(diff);
  int off = (int)s.draw(16); V x(a), y(b); T* un = (T*)(raw + off); memcpy(raw + off, b, 16); V y2{ BSS_UNALIGNED<const T>((const T*)(raw + off)) }; s.note("%d lanes of %d bytes, offset %d", N, (int)sizeof(T), off);
#define LANES(name, vec, expr) do { V r_ = (vec); r_.Set(o); for(int i = 0; i < N; ++i) { T e = (T)(expr); CHECK(!memcmp(&e, &o[i], sizeof(T)) || e == o[i], name " lane %d", i); } } while(0)
#define MASKS(name, vec, expr) do { V r_ = (vec); r_.Set(o); for(int i = 0; i < N; ++i) { U e = (expr) ? (U)~(U)0 : (U)0, g; memcpy(&g, &o[i], sizeof(U)); CHECK(e == g, name " lane %d", i); } } while(0)
  LANES("load", x, a[i]); LANES("unaligned load", y2, b[i]); { V z(a); z = b; LANES("assign", z, b[i]); z = BSS_UNALIGNED<const T>((const T*)(raw + off)); LANES("unaligned assign", z, b[i]); z = a[0]; LANES("broadcast assign", z, a[0]); }
  LANES("broadcast", V(b[N - 1]), b[N - 1]); LANES("zero", V::ZeroVector(), 0); { memset(raw, 0x5a, 48); x.Set(BSS_UNALIGNED<T>((T*)(raw + off))); CHECK(!memcmp(raw + off, a, 16), "unaligned store"); for(int i = 0; i < 48; ++i) if(i < off || i >= off + 16) CHECK(raw[i] == 0x5a, "unaligned store wrote outside its 16 bytes"); T f; x.Set(f); CHECK(f == a[0], "first lane"); } (void)un;
  if constexpr(INT)
  {
    LANES("+", x + y, (U)a[i] + (U)b[i]); LANES("-", x - y, (U)a[i] - (U)b[i]); { V z(x); z += y; LANES("+=", z, (U)a[i] + (U)b[i]); z = V(a); z -= y; LANES("-=", z, (U)a[i] - (U)b[i]); z = V(a); z &= y; LANES("&=", z, a[i] & b[i]); z = V(a); z |= y; LANES("|=", z, a[i] | b[i]); z = V(a); z ^= y; LANES("^=", z, a[i] ^ b[i]); }
    LANES("&", x & y, a[i] & b[i]); LANES("|", x | y, a[i] | b[i]); LANES("^", x ^ y, a[i] ^ b[i]); LANES("~", ~x, ~a[i]);
    if constexpr(sizeof(T) <= 4) { MASKS("==", x == y, a[i] == b[i]); MASKS("!=", x != y, a[i] != b[i]); MASKS("<", x < y, a[i] < b[i]); MASKS("<=", x <= y, a[i] <= b[i]); MASKS(">", x > y, a[i] > b[i]); MASKS(">=", x >= y, a[i] >= b[i]); MASKS("!", !x, a[i] == 0); }
    if constexpr(sizeof(T) > 1) { int k = (int)s.draw(sizeof(T) * 8); LANES("<<", x << k, (U)a[i] << k); { V z(a); z <<= k; LANES("<<=", z, (U)a[i] << k); } if(sizeof(T) != 4) { for(auto& v : a) if(v < 0) v = (T)(~v); x = V(a); } LANES(">>", x >> k, a[i] >> k); { V z(a); z >>= k; LANES(">>=", z, a[i] >> k); } }
    if constexpr(sizeof(T) == 4) { LANES("*", x * y, (U)a[i] * (U)b[i]); { V z(x); z *= y; LANES("*=", z, (U)a[i] * (U)b[i]); } LANES("min", x.min(y), a[i] < b[i] ? a[i] : b[i]); LANES("max", x.max(y), a[i] > b[i] ? a[i] : b[i]); CHECK((U)x.Sum() == (U)a[0] + (U)a[1] + (U)a[2] + (U)a[3], "Sum"); { static const int P[4] = { 2, 0, 3, 1 }; V z = x.template Shuffle<2, 0, 3, 1>(); LANES("Shuffle", z, a[P[i]]); } sseVec f((BSS_SSE_M128i)x); alignas(16) float g[4]; f.Set(g); for(int i = 0; i < 4; ++i) CHECK(g[i] == (float)a[i], "conversion to float"); }
    if constexpr(sizeof(T) == 8) { CHECK((U)x.Sum() == (U)a[0] + (U)a[1], "Sum"); LANES("Swap", x.Swap(), a[1 - i]); }
  }
  else
  {
    LANES("+", x + y, a[i] + b[i]); LANES("-", x - y, a[i] - b[i]); LANES("*", x * y, a[i] * b[i]); for(int i = 0; i < N; ++i) if(b[i] == 0) b[i] = 3; y = V(b); LANES("/", x / y, a[i] / b[i]); { V z(x); z += y; LANES("+=", z, a[i] + b[i]); z = V(a); z -= y; LANES("-=", z, a[i] - b[i]); z = V(a); z *= y; LANES("*=", z, a[i] * b[i]); z = V(a); z /= y; LANES("/=", z, a[i] / b[i]); }
    LANES("min", x.min(y), a[i] < b[i] ? a[i] : b[i]); LANES("max", x.max(y), a[i] > b[i] ? a[i] : b[i]); MASKS("==", x == y, a[i] == b[i]); MASKS("!=", x != y, a[i] != b[i]); MASKS("<", x < y, a[i] < b[i]); MASKS("<=", x <= y, a[i] <= b[i]); MASKS(">", x > y, a[i] > b[i]); MASKS(">=", x >= y, a[i] >= b[i]);
    if constexpr(sizeof(T) == 4) { LANES("floor", x.floor(), std::floor(a[i])); LANES("ceil", x.ceil(), std::ceil(a[i])); D e = (D)a[0] + a[1] + a[2] + a[3], w = std::fabs((D)a[0]) + std::fabs((D)a[1]) + std::fabs((D)a[2]) + std::fabs((D)a[3]); CHECK(std::fabs(x.Sum() - e) <= w * 1e-6, "Sum"); static const int P[4] = { 1, 3, 0, 2 }; V z = x.template Shuffle<1, 3, 0, 2>(); LANES("Shuffle", z, a[P[i]]); alignas(16) int g[4]; sseVeci((BSS_SSE_M128)x).Set(g); for(int i = 0; i < 4; ++i) CHECK(g[i] == (int)a[i], "truncation"); sseVeci((BSS_SSE_M128)x, (char)1).Set(g); for(int i = 0; i < 4; ++i) CHECK(std::fabs((D)g[i] - a[i]) <= .5, "rounding"); }
    else { CHECK(x.Sum() == a[0] + a[1], "Sum"); LANES("Swap", x.Swap(), a[1 - i]); }
  }
  switch(s.draw(4)) { case 0: shuffled<V, T, 0x1b>(a); break; case 1: shuffled<V, T, 0x8d>(a); break; case 2: shuffled<V, T, 0xe1>(a); break; default: shuffled<V, T, 0x4c>(a); break; }
}
PROP(lanes, 3, 0, "lanes that are not all the same")
{
  switch(s.draw(6)) { case 0: return lanes<float>(s); case 1: return lanes<double>(s); case 2: return lanes<char>(s); case 3: return lanes<int16_t>(s); case 4: return lanes<int32_t>(s); default: return lanes<int64_t>(s); }
}
