// Geometric predicates, distances, intersections and shapes agree with their definitions.
// LIBS: bss_util.cpp bss_util_c.c ConvertUTF.c
// ASSUME: finite coordinates of moderate size; exact predicates on integer coordinates, tolerances stated otherwise; lines through two different points; circles that are not concentric; parallel segments excluded from segment collision; polygon membership away from the outline; ellipses whose axes differ by a factor of three at most; circle sectors judged outside a small band around touching; a polygon containing a whole sector is not an intersection of their outlines
#include "tracked.h"
#include "bss-util/Geometry.h"
#include <cmath>
#include <vector>
#include <algorithm>
using namespace bss;
typedef double D; typedef long long L;
template<class T> static D tol() { return sizeof(T) == 4 ? 3e-4 : 1e-6; }
static bool near_(D a, D b, D t) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
static L C(pbt::Src& s) { return s.boolean() ? s.range(-6, 6) : s.range(-40, 40); }
static L cross(L ax, L ay, L bx, L by) { return ax * by - ay * bx; }
template<class T> static void circles(pbt::Src& s)
{
  typedef Vector<T, 2> V; D t = tol<T>(); L x = C(s), y = C(s), r = s.range(1, 30), X = C(s), Y = C(s), R = s.range(1, 30), px = C(s), py = C(s); s.note("circle (%lld,%lld) r %lld, circle (%lld,%lld) r %lld, point (%lld,%lld)", x, y, r, X, Y, R, px, py);
  Circle<T> c((T)x, (T)y, (T)r), d((T)X, (T)Y, (T)R); L d2 = (X - x) * (X - x) + (Y - y) * (Y - y), q2 = (px - x) * (px - x) + (py - y) * (py - y); s.nontrivial(d2 > 0);
  CHECK(c.ContainsPoint((T)px, (T)py) == (q2 < r * r) && c.ContainsPoint(V((T)px, (T)py)) == (q2 < r * r) && (CircleContainsPoint<T>(x, y, r, px, py)) == (q2 < r * r), "circle contains point");
  bool in = r > R && d2 < (r - R) * (r - R), hit = d2 < (r + R) * (r + R); CHECK(c.ContainsCircle((T)X, (T)Y, (T)R) == in && c.ContainsCircle(d) == in && c.ContainsCircle(V((T)X, (T)Y), (T)R) == in && (CircleContainsCircle<T>(x, y, r, X, Y, R)) == in, "circle contains circle"); CHECK(c.CircleCollide((T)X, (T)Y, (T)R) == hit && c.CircleCollide(V((T)X, (T)Y), (T)R) == hit && (CircleCircleCollide<T>(x, y, r, X, Y, R)) == hit, "circle collides with circle");
  CHECK(near_(c.Area(), M_PI * r * r, 1e-6) && near_(c.Circumference(), 2 * M_PI * r, 1e-6) && (D)c.Diameter() == 2 * r, "circle measures");
  if(q2) { T ox, oy; c.NearestPoint((T)px, (T)py, ox, oy); D l = std::sqrt((D)q2), ex = x + r * (px - x) / l, ey = y + r * (py - y) / l; CHECK(near_(ox, ex, t) && near_(oy, ey, t), "nearest point on circle (%g,%g) instead of (%g,%g)", (D)ox, (D)oy, ex, ey); c.NearestPoint(V((T)px, (T)py), ox, oy); CHECK(near_(ox, ex, t) && near_(oy, ey, t), "nearest point on circle"); CircleNearestPoint<T>(x, y, r, px, py, ox, oy); CHECK(near_(ox, ex, t) && near_(oy, ey, t), "CircleNearestPoint"); }
  if(d2) { V o[2], o2[2]; int n = CircleCircleIntersect<T>(x, y, r, X, Y, R, o), n2 = c.CircleIntersect((T)X, (T)Y, (T)R, o2); L mx = (r + R) * (r + R), mn = (r - R) * (r - R); bool touch = d2 == mx || d2 == mn; if(!touch) { bool e = d2 < mx && d2 > mn; CHECK(n == (e ? 2 : 0) && n2 == n, "circle intersection: %d points", n); for(int i = 0; i < n; ++i) { D a = std::hypot((D)o[i].x - x, (D)o[i].y - y), b = std::hypot((D)o[i].x - X, (D)o[i].y - Y); CHECK(near_(a, r, 20 * t) && near_(b, R, 20 * t), "intersection point (%g,%g) is not on both circles", (D)o[i].x, (D)o[i].y); CHECK(o[i] == o2[i], "Circle::CircleIntersect differs"); } if(n && (mx - d2 > 1) && (d2 - mn > 1)) CHECK(std::hypot((D)o[0].x - o[1].x, (D)o[0].y - o[1].y) > 1e-2, "the two intersection points coincide"); } }
  // spheres
  Vector<T, 3> a, b; for(int i = 0; i < 3; ++i) { a.v[i] = (T)C(s); b.v[i] = (T)C(s); } D e2 = 0; for(int i = 0; i < 3; ++i) e2 += ((D)a.v[i] - b.v[i]) * ((D)a.v[i] - b.v[i]); Sphere<T> u(a, (T)r), v(b, (T)R); CHECK(u.ContainsPoint(b) == (e2 < r * r) && u.SphereCollide(v) == (e2 < (r + R) * (r + R)) && u.ContainsSphere(v) == (r > R && e2 < (r - R) * (r - R)) && u.SphereCollide(b, (T)R) == u.SphereCollide(v), "spheres"); CHECK(near_(u.Volume(), 4 * M_PI * r * r * r / 3, 1e-6) && near_(u.SurfaceArea(), 4 * M_PI * r * r, 1e-6), "sphere measures");
  Vector<T, 4> a4, b4; D f2 = 0; for(int i = 0; i < 4; ++i) { a4.v[i] = (T)C(s); b4.v[i] = (T)C(s); f2 += ((D)a4.v[i] - b4.v[i]) * ((D)a4.v[i] - b4.v[i]); } CHECK((SphereContainsPoint<T, 4>(b4, a4, (T)r)) == (f2 < r * r) && (SphereSphereCollide<T, 4>(a4, (T)r, b4, (T)R)) == (f2 < (r + R) * (r + R)), "4-dimensional spheres");
}
PROP(circles, 2, 0, "two circles with different centers") { if(s.boolean()) circles<float>(s); else circles<double>(s); }
template<class T> static void linecircle(pbt::Src& s)
{
  typedef Vector<T, 2> V; L x = C(s), y = C(s), r = s.range(1, 30), x1 = C(s), y1 = C(s), x2 = C(s), y2 = C(s); if(x1 == x2 && y1 == y2) pbt::discard(); L dx = x2 - x1, dy = y2 - y1, fx = x1 - x, fy = y1 - y, A = dx * dx + dy * dy, B = fx * dx + fy * dy, K = fx * fx + fy * fy - r * r, disc = B * B - A * K; s.note("circle (%lld,%lld) r %lld, (%lld,%lld)-(%lld,%lld)", x, y, r, x1, y1, x2, y2); s.nontrivial(disc > 0); Circle<T> c((T)x, (T)y, (T)r);
  if(disc == 0) return; D sq = disc > 0 ? std::sqrt((D)disc) : 0, t0 = (-(D)B - sq) / A, t1 = (-(D)B + sq) / A, m = 1e-3; auto amb = [&](D v, D k) { return std::fabs(v - k) < m; };
  auto check = [&](const char* what, int kind, bool got, bool gotp, V* o) { D want[2]; int n = 0; if(disc > 0) for(D k : { t0, t1 }) { if(kind >= 1 && amb(k, 0)) return; if(kind == 2 && amb(k, 1)) return; if((kind < 1 || k >= 0) && (kind < 2 || k <= 1)) want[n++] = k; } CHECK(got == (n > 0) && gotp == (n > 0), "%s: collision %d/%d instead of %d", what, got, gotp, n > 0); for(int i = 0; i < n; ++i) CHECK(near_(o[i].x, x1 + dx * want[i], 40 * tol<T>()) && near_(o[i].y, y1 + dy * want[i], 40 * tol<T>()), "%s: point %d is (%g,%g) instead of (%g,%g)", what, i, (D)o[i].x, (D)o[i].y, x1 + dx * want[i], y1 + dy * want[i]); };
  if(disc > 0 && (D)disc / A < r * r * 1e-2) return; // nearly tangent: badly conditioned
  V o[2]; bool p; p = c.LineIntersect((T)x1, (T)y1, (T)x2, (T)y2, o); check("line", 0, c.LineCollide((T)x1, (T)y1, (T)x2, (T)y2), p, o); p = c.RayIntersect((T)x1, (T)y1, (T)x2, (T)y2, o); check("ray", 1, c.RayCollide((T)x1, (T)y1, (T)x2, (T)y2), p, o); p = c.LineSegmentIntersect((T)x1, (T)y1, (T)x2, (T)y2, o); check("segment", 2, c.LineSegmentCollide((T)x1, (T)y1, (T)x2, (T)y2), p, o);
}
PROP(linecircle, 1, 0, "the line meets the circle in two points") { if(s.boolean()) linecircle<float>(s); else linecircle<double>(s); }
template<class T> static void lines(pbt::Src& s)
{
  typedef Vector<T, 2> V; D t = tol<T>(); L x1 = C(s), y1 = C(s), x2 = C(s), y2 = C(s), X1 = C(s), Y1 = C(s), X2 = C(s), Y2 = C(s), px = C(s), py = C(s); if((x1 == x2 && y1 == y2) || (X1 == X2 && Y1 == Y2)) pbt::discard(); if(s.chance(1, 4)) { X1 = x1; Y1 = y1; if(X1 == X2 && Y1 == Y2) pbt::discard(); } s.note("(%lld,%lld)-(%lld,%lld), (%lld,%lld)-(%lld,%lld), point (%lld,%lld)", x1, y1, x2, y2, X1, Y1, X2, Y2, px, py);
  L dx = x2 - x1, dy = y2 - y1, A = dx * dx + dy * dy; D u = (D)((px - x1) * dx + (py - y1) * dy) / A, dist = std::fabs((D)cross(dx, dy, px - x1, py - y1)) / std::sqrt((D)A); CHECK(near_(LinePointParametricProject<T>(x1, y1, x2, y2, px, py), u, t), "projection"); T ox, oy; LineNearestPoint<T>(x1, y1, x2, y2, px, py, ox, oy); CHECK(near_(ox, x1 + u * dx, t) && near_(oy, y1 + u * dy, t), "nearest point on line"); D ur = u < 0 ? 0 : u, us = ur > 1 ? 1 : ur; RayNearestPoint<T>(x1, y1, x2, y2, px, py, ox, oy); CHECK(near_(ox, x1 + ur * dx, t) && near_(oy, y1 + ur * dy, t), "nearest point on ray"); LineSegmentNearestPoint<T>(x1, y1, x2, y2, px, py, ox, oy); CHECK(near_(ox, x1 + us * dx, t) && near_(oy, y1 + us * dy, t), "nearest point on segment");
  D ds = std::hypot(x1 + us * dx - px, y1 + us * dy - py); CHECK(near_(LinePointDistanceSqr<T>(x1, y1, x2, y2, px, py), dist * dist, t), "squared distance from line"); CHECK(near_(LinePointDistance<T>(x1, y1, x2, y2, px, py), dist, t), "distance from line %g instead of %g", (D)LinePointDistance<T>(x1, y1, x2, y2, px, py), dist); CHECK(near_(LineSegmentPointDistanceSqr<T>(x1, y1, x2, y2, px, py), ds * ds, t), "squared distance from segment"); CHECK(near_(LineSegmentPointDistance<T>(x1, y1, x2, y2, px, py), ds, t), "distance from segment %g instead of %g", (D)LineSegmentPointDistance<T>(x1, y1, x2, y2, px, py), ds);
  L ex = X2 - X1, ey = Y2 - Y1, den = cross(dx, dy, ex, ey), tn = cross(X1 - x1, Y1 - y1, ex, ey), un = cross(X1 - x1, Y1 - y1, dx, dy); bool par = !den; if(den < 0) { den = -den; tn = -tn; un = -un; } bool seg = !par && tn >= 0 && tn <= den && un >= 0 && un <= den; bool edge = !par && (tn == 0 || tn == den || un == 0 || un == den); D ix = par ? 0 : x1 + dx * ((D)tn / den), iy = par ? 0 : y1 + dy * ((D)tn / den); V o; s.nontrivial(!par && seg);
  bool ll = LineLineIntersect<T>(x1, y1, x2, y2, X1, Y1, X2, Y2, o); CHECK(ll == !par, "lines intersect: %d", ll); if(ll) CHECK(near_(o.x, ix, t * 100) && near_(o.y, iy, t * 100), "intersection of lines (%g,%g) instead of (%g,%g)", (D)o.x, (D)o.y, ix, iy); bool ss = LineSegmentLineSegmentIntersect<T>(x1, y1, x2, y2, X1, Y1, X2, Y2, o); CHECK(ss == seg, "segments intersect: %d instead of %d", ss, seg); if(ss) CHECK(near_(o.x, ix, t) && near_(o.y, iy, t), "intersection of segments"); (void)edge;
  if(!par) CHECK((LineSegmentLineSegmentCollide<T>(x1, y1, x2, y2, X1, Y1, X2, Y2)) == seg, "segments collide");
  if(dx && Y1 != Y2) { L n = (X1 - x1), d = dx; if(d < 0) { n = -n; d = -d; } bool e = n >= 0 && n <= d; if(e) { L yn = y1 * d + (dx < 0 ? -dy : dy) * (X1 - x1); L lo = std::min(Y1, Y2) * d, hi = std::max(Y1, Y2) * d; e = yn >= lo && yn <= hi; bool amb = yn == lo || yn == hi; if(!amb) CHECK((LineSegmentLineVertCollide<T>(x1, y1, x2, y2, X1, Y1, Y2)) == e, "vertical segment"); } else CHECK(!(LineSegmentLineVertCollide<T>(x1, y1, x2, y2, X1, Y1, Y2)), "vertical segment beside the line"); }
  if(dy && X1 != X2) { L n = (Y1 - y1), d = dy; if(d < 0) { n = -n; d = -d; } bool e = n >= 0 && n <= d; if(e) { L xn = x1 * d + (dy < 0 ? -dx : dx) * (Y1 - y1); L lo = std::min(X1, X2) * d, hi = std::max(X1, X2) * d; e = xn >= lo && xn <= hi; bool amb = xn == lo || xn == hi; if(!amb) CHECK((LineSegmentLineHorzCollide<T>(x1, y1, x2, y2, X1, X2, Y1)) == e, "horizontal segment"); } else CHECK(!(LineSegmentLineHorzCollide<T>(x1, y1, x2, y2, X1, X2, Y1)), "horizontal segment beside the line"); }
  Line<T> l((T)x1, (T)y1, (T)x2, (T)y2); CHECK(near_(l.Length(), std::sqrt((D)A), t), "line length"); D k = s.real(-2, 2); V pp = l.ParametricPoint((T)k); CHECK(near_(pp.x, x1 + k * dx, t) && near_(pp.y, y1 + k * dy, t), "parametric point"); Line<int> li; li = l; CHECK(li.x1 == x1 && li.y1 == y1 && li.x2 == x2 && li.y2 == y2, "assigning a line of another type"); Line3d<T> l3((T)x1, (T)y1, (T)X1, (T)x2, (T)y2, (T)X2); auto q3 = l3.ParametricPoint((T)k); CHECK(near_(l3.Length(), std::sqrt((D)A + (X2 - X1) * (X2 - X1)), t) && near_(q3.z, X1 + k * (X2 - X1), t), "3D line");
}
PROP(lines, 3, 0, "two segments that cross") { if(s.boolean()) lines<float>(s); else lines<double>(s); }
template<class T> struct Shift { T pad; Rect<T> r; };
template<class T> static void rects(pbt::Src& s)
{
  typedef Vector<T, 2> V; L v[8]; for(auto& x : v) x = C(s); if(v[0] > v[2]) std::swap(v[0], v[2]); if(v[1] > v[3]) std::swap(v[1], v[3]); if(v[4] > v[6]) std::swap(v[4], v[6]); if(v[5] > v[7]) std::swap(v[5], v[7]); L l = v[0], t = v[1], r = v[2], b = v[3], px = C(s), py = C(s), R = s.range(1, 25), x2 = C(s), y2 = C(s); s.note("rect %lld,%lld,%lld,%lld and %lld,%lld,%lld,%lld, points (%lld,%lld) (%lld,%lld), radius %lld", l, t, r, b, v[4], v[5], v[6], v[7], px, py, x2, y2, R); Shift<T> sh, sh2; sh.r = Rect<T>((T)l, (T)t, (T)r, (T)b); auto& q = sh.r; Rect<T> o((T)v[4], (T)v[5], (T)v[6], (T)v[7]);
  bool hit = v[4] <= r && v[6] >= l && v[5] <= b && v[7] >= t; s.nontrivial(hit && l < r && t < b); CHECK(q.RectCollide(o) == hit && o.RectCollide(q) == hit, "rectangles collide"); CHECK(q.ContainsRect(o) == (v[4] >= l && v[5] >= t && v[6] <= r && v[7] <= b), "rectangle contains rectangle"); CHECK(q.ContainsPoint((T)px, (T)py) == (px >= l && px < r && py >= t && py < b), "rectangle contains point");
  if(hit) { auto i = q.Intersection(o); CHECK((D)i.left == std::max(l, v[4]) && (D)i.top == std::max(t, v[5]) && (D)i.right == std::min(r, v[6]) && (D)i.bottom == std::min(b, v[7]), "intersection"); } else CHECK(q.Intersection(o).Area() == 0, "intersection of rectangles that are apart"); auto un = q.Union(o); CHECK((D)un.left == std::min(l, v[4]) && (D)un.top == std::min(t, v[5]) && (D)un.right == std::max(r, v[6]) && (D)un.bottom == std::max(b, v[7]), "union");
  Rect<T> ex = q.ExpandTo(V((T)px, (T)py)), ey = q; RectExpandTo(ey, V((T)px, (T)py)); CHECK((D)ex.left == std::min(l, px) && (D)ex.top == std::min(t, py) && (D)ex.right == std::max(r, px) && (D)ex.bottom == std::max(b, py) && ex == ey, "expanding to a point");
  CHECK((D)q.Area() == (r - l) * (b - t) && (D)q.Dim().x == r - l && (D)q.Dim().y == b - t && (D)q.Center().x == (l + r) / 2.0 && (D)q.Center().y == (t + b) / 2.0, "measures of a rectangle"); if(std::is_floating_point<T>::value && R >= 0) { auto pj = q.Project((T)R); D z = (D)R + 1; CHECK(near_(pj.left, (D)(T)l / z, tol<T>()) && near_(pj.top, (D)(T)t / z, tol<T>()) && near_(pj.right, (D)(T)r / z, tol<T>()) && near_(pj.bottom, (D)(T)b / z, tol<T>()), "projection"); } auto in = q.Inflate((T)R); CHECK((D)in.left == l - R && (D)in.top == t - R && (D)in.right == r + R && (D)in.bottom == b + R, "inflate"); Rect<T> fl((T)r, (T)b, (T)l, (T)t); CHECK(fl.Canonical() == q && q.IsCanonical() && (fl.IsCanonical() == (l == r && t == b)), "canonical form"); auto bc = q.BoundingCircle(); CHECK((D)bc.x == (l + r) / 2.0 && (D)bc.y == (t + b) / 2.0 && near_(bc.r, std::hypot((r - l) / 2.0, (b - t) / 2.0), tol<T>()), "bounding circle"); auto ab = q.Abs(); CHECK((D)ab.left == std::llabs(l) && (D)ab.bottom == std::llabs(b) && (D)ab.top == std::llabs(t) && (D)ab.right == std::llabs(r), "Abs");
  L cx = px < l ? l - px : px > r ? px - r : 0, cy = py < t ? t - py : py > b ? py - b : 0; CHECK(q.CircleCollide((T)px, (T)py, (T)R) == (cx * cx + cy * cy <= R * R) && q.CircleCollide(Circle<T>((T)px, (T)py, (T)R)) == q.CircleCollide(V((T)px, (T)py), (T)R) && (Circle<T>((T)px, (T)py, (T)R).RectCollide((T)l, (T)t, (T)r, (T)b)) == q.CircleCollide((T)px, (T)py, (T)R), "rectangle and circle");
  { L sx = x2 - px, sy = y2 - py; bool box = !(std::max(px, x2) < l || std::min(px, x2) > r || std::max(py, y2) < t || std::min(py, y2) > b); L k[4] = { cross(sx, sy, l - px, t - py), cross(sx, sy, r - px, t - py), cross(sx, sy, l - px, b - py), cross(sx, sy, r - px, b - py) }; int pos = 0, neg = 0, zero = 0; for(L z : k) { pos += z > 0; neg += z < 0; zero += z == 0; } bool e = box && !(pos == 4 || neg == 4); bool g = q.LineCollide((T)px, (T)py, (T)x2, (T)y2); CHECK(g == q.LineCollide(V((T)px, (T)py), V((T)x2, (T)y2)) && g == q.LineCollide(Line<T>((T)px, (T)py, (T)x2, (T)y2)), "line collision overloads"); CHECK(g == e, "rectangle and line segment: %d instead of %d", g, e); }
  auto is = [&](const char* what, const Rect<T>& z, D a, D c, D d, D f) { CHECK(near_(z.left, a, 1e-6) && near_(z.top, c, 1e-6) && near_(z.right, d, 1e-6) && near_(z.bottom, f, 1e-6), "rectangle %s", what); }; V w((T)px, (T)py); T k = (T)R; is("+ rect", q + o, l + v[4], t + v[5], r + v[6], b + v[7]); is("- rect", q - o, l - v[4], t - v[5], r - v[6], b - v[7]); is("* rect", q * o, l * v[4], t * v[5], r * v[6], b * v[7]); is("+ vector", q + w, l + px, t + py, r + px, b + py); is("- vector", q - w, l - px, t - py, r - px, b - py); is("* vector", q * w, l * px, t * py, r * px, b * py); is("+ scalar", q + k, l + R, t + R, r + R, b + R); is("- scalar", q - k, l - R, t - R, r - R, b - R); is("* scalar", q * k, l * R, t * R, r * R, b * R); is("/ scalar", q / k, (D)l / R, (D)t / R, (D)r / R, (D)b / R); is("negation", -q, -l, -t, -r, -b); if(px && py) is("/ vector", q / w, (D)l / px, (D)t / py, (D)r / px, (D)b / py);
  { auto z = q; z += o; is("+=", z, l + v[4], t + v[5], r + v[6], b + v[7]); z -= o; is("-=", z, l, t, r, b); z *= w; is("*= vector", z, l * px, t * py, r * px, b * py); z = q; z += w; z -= k; is("+= vector, -= scalar", z, l + px - R, t + py - R, r + px - R, b + py - R); z = q; z *= k; z /= k; is("*= /=", z, l, t, r, b); z = q; z *= o; is("*= rect", z, l * v[4], t * v[5], r * v[6], b * v[7]); if(v[4] && v[5] && v[6] && v[7]) { z /= o; is("/= rect", z, l, t, r, b); is("/ rect", q / o, (D)l / v[4], (D)t / v[5], (D)r / v[6], (D)b / v[7]); } z = q; z -= w; z += k; is("-= vector, += scalar", z, l - px + R, t - py + R, r - px + R, b - py + R); }
  { int c = 0; L a4[4] = { l, t, r, b }; for(int i = 0; i < 4 && !c; ++i) c = a4[i] < v[4 + i] ? -1 : a4[i] > v[4 + i]; CHECK((q == o) == !c && (q != o) == !!c && (q < o) == (c < 0) && (q > o) == (c > 0) && (q <= o) == (c <= 0) && (q >= o) == (c >= 0), "ordering of rectangles"); }
  if constexpr(sizeof(T) == 4) { sh2.r = Rect<T>(q.ToSSE()); CHECK(sh2.r == q, "SSE round trip"); sh2.r = o.ToSSE(); CHECK(sh2.r == o, "SSE assignment"); }
  Rect<int> ri(q); CHECK(ri.left == l && ri.bottom == b, "conversion"); Rect<T> pd(V((T)l, (T)t), V((T)R, (T)R)), pe((T)l, (T)t, V((T)R, (T)R)); CHECK((D)pd.right == l + R && (D)pd.bottom == t + R && pd == pe, "position and size");
}
PROP(rectangles, 3, 0, "two overlapping rectangles with a non-empty first") { if(s.boolean()) rects<float>(s); else rects<double>(s); }
static D segdist(D px, D py, D ax, D ay, D bx, D by) { D dx = bx - ax, dy = by - ay, A = dx * dx + dy * dy, u = A > 0 ? ((px - ax) * dx + (py - ay) * dy) / A : 0; u = u < 0 ? 0 : u > 1 ? 1 : u; return std::hypot(ax + u * dx - px, ay + u * dy - py); }
template<class T> static void polygons(pbt::Src& s)
{
  typedef Vector<T, 2> V; // star-shaped polygon around the origin, vertices in angular order, then shifted
  int n = (int)s.range(3, 9); std::vector<std::pair<L, L>> p; bool conv = s.boolean(); if(conv) { std::vector<std::pair<L, L>> in; for(int i = 0; i < n + 4; ++i) in.push_back({ s.range(-30, 30), s.range(-30, 30) }); std::sort(in.begin(), in.end()); in.erase(std::unique(in.begin(), in.end()), in.end()); if(in.size() < 3) pbt::discard(); std::vector<std::pair<L, L>> h(2 * in.size()); size_t k = 0; for(size_t i = 0; i < in.size(); ++i) { while(k >= 2 && cross(h[k - 1].first - h[k - 2].first, h[k - 1].second - h[k - 2].second, in[i].first - h[k - 2].first, in[i].second - h[k - 2].second) <= 0) --k; h[k++] = in[i]; } for(size_t i = in.size() - 1, t = k + 1; i-- > 0;) { while(k >= t && cross(h[k - 1].first - h[k - 2].first, h[k - 1].second - h[k - 2].second, in[i].first - h[k - 2].first, in[i].second - h[k - 2].second) <= 0) --k; h[k++] = in[i]; } h.resize(k - 1); p = h; }
  else { for(int i = 0; i < n; ++i) { D a = (i + s.real(0, .8)) * 2 * M_PI / n, r = (D)s.range(6, 30); p.push_back({ (L)std::lround(std::cos(a) * r), (L)std::lround(std::sin(a) * r) }); } } if(p.size() < 3) pbt::discard(); L ox = s.range(-20, 20), oy = s.range(-20, 20); for(auto& q : p) { q.first += ox; q.second += oy; } if(s.boolean()) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + s.draw(p.size()), p.end());
  size_t m = p.size(); L a2 = 0; D cx = 0, cy = 0; int sg = 0; for(size_t i = 0; i < m; ++i) { auto& u = p[i]; auto& v = p[(i + 1) % m]; auto& w = p[(i + 2) % m]; L c = cross(u.first, u.second, v.first, v.second); a2 += c; cx += (D)(u.first + v.first) * c; cy += (D)(u.second + v.second) * c; L z = cross(v.first - u.first, v.second - u.second, w.first - v.first, w.second - v.second); sg |= z < 0 ? 1 : z > 0 ? 2 : 0; } if(!a2) pbt::discard(); if(!conv) { for(size_t i = 0; i < m; ++i) { L c = cross(p[i].first - ox, p[i].second - oy, p[(i + 1) % m].first - ox, p[(i + 1) % m].second - oy); if((c > 0) != (a2 > 0) || !c) pbt::discard(); } }
  { std::string t; for(auto& q : p) t += " (" + std::to_string(q.first) + "," + std::to_string(q.second) + ")"; s.note("%s polygon%s", conv ? "convex" : "star-shaped", t.c_str()); } s.nontrivial(m > 3); std::vector<V> vv; for(auto& q : p) vv.push_back(V((T)q.first, (T)q.second)); Polygon<T> P(vv.data(), m); CHECK(P.GetCount() == m && P[m - 1] == vv[m - 1], "vertices"); CHECK((D)P.Area() == a2 / 2.0, "area %g instead of %g", (D)P.Area(), a2 / 2.0); CHECK(P.IsConvex() == (sg != 3), "convexity"); auto ce = P.Centroid(); if(std::llabs(a2) > 200) CHECK(near_(ce.x, cx / (3.0 * a2), sizeof(T) == 4 ? 1e-2 : 1e-6) && near_(ce.y, cy / (3.0 * a2), sizeof(T) == 4 ? 1e-2 : 1e-6), "centroid (%g,%g) instead of (%g,%g)", (D)ce.x, (D)ce.y, cx / (3.0 * a2), cy / (3.0 * a2)); auto bb = P.AABB(); L lo = 1000, hi = -1000, to = 1000, bo = -1000; for(auto& q : p) { lo = std::min(lo, q.first); hi = std::max(hi, q.first); to = std::min(to, q.second); bo = std::max(bo, q.second); } CHECK((D)bb.left == lo && (D)bb.right == hi && (D)bb.top == to && (D)bb.bottom == bo, "bounding box");
  for(int k = 0; k < 6; ++k) { L x = s.range(-35, 35), y = s.range(-35, 35); if(s.chance(1, 3)) { x = p[s.draw(m)].first; y = p[s.draw(m)].second; } bool on = false; int wn = 0; for(size_t i = 0; i < m; ++i) { auto& u = p[i]; auto& v = p[(i + 1) % m]; L c = cross(v.first - u.first, v.second - u.second, x - u.first, y - u.second); if(!c && x >= std::min(u.first, v.first) && x <= std::max(u.first, v.first) && y >= std::min(u.second, v.second) && y <= std::max(u.second, v.second)) on = true; if(u.second <= y) { if(v.second > y && c > 0) ++wn; } else if(v.second <= y && c < 0) --wn; } if(on) { if(sg != 3) CHECK(P.ConvexContainsPoint(V((T)x, (T)y)), "(%lld,%lld) on the outline of a convex polygon", x, y); continue; } CHECK(P.ContainsPoint(V((T)x, (T)y)) == (wn != 0), "polygon contains (%lld,%lld)", x, y); if(sg != 3) CHECK(P.ConvexContainsPoint(V((T)x, (T)y)) == (wn != 0), "convex polygon contains (%lld,%lld)", x, y); }
  if(std::llabs(a2) > 200) { Polygon<T> q(P); q.CenterPolygon(); auto c2 = q.Centroid(); CHECK(near_(c2.x, 0, 1e-2) && near_(c2.y, 0, 1e-2), "centered polygon"); CHECK(P[0] == vv[0], "copy changed its source"); } Polygon<T> q; q.SetVertices(vv.data(), (uint16_t)m); CHECK(q.GetCount() == m && std::equal(q.begin(), q.end(), vv.begin()), "SetVertices"); q = P; CHECK(std::equal(q.begin(), q.end(), P.begin()), "assignment");
  // triangle
  Triangle<T> t; L z[6]; for(auto& k : z) k = C(s); for(int i = 0; i < 3; ++i) t.v[i] = V((T)z[2 * i], (T)z[2 * i + 1]); L tw = cross(z[2] - z[0], z[3] - z[1], z[4] - z[0], z[5] - z[1]), x = C(s), y = C(s); CHECK((D)t.Area() == tw / 2.0, "triangle area"); if(tw) { L c[3]; int in = 1; for(int i = 0; i < 3; ++i) { int j = (i + 1) % 3; c[i] = cross(z[2 * j] - z[2 * i], z[2 * j + 1] - z[2 * i + 1], x - z[2 * i], y - z[2 * i + 1]); if(tw < 0) c[i] = -c[i]; if(c[i] < 0) in = 0; else if(!c[i] && in) in = 2; } bool anyzero = !c[0] || !c[1] || !c[2]; if(!anyzero) CHECK(t.ContainsPoint((T)x, (T)y) == (in == 1), "triangle contains point: %d", !in); }
}
PROP(polygons, 3, 0, "a polygon with more than three vertices") { if(s.boolean()) polygons<float>(s); else polygons<double>(s); }
template<class T> static void ellipses(pbt::Src& s)
{
  D a = s.real(3, 20), b = a * s.real(1 / 3., 3), x = s.real(-20, 20), y = s.real(-20, 20), px = s.real(-50, 50), py = s.real(-50, 50), R = s.real(.5, 30); s.note("ellipse (%g,%g) axes %g,%g point (%g,%g) radius %g", x, y, a, b, px, py, R); Ellipse<T> e((T)x, (T)y, (T)a, (T)b); D q = (px - x) * (px - x) / (a * a) + (py - y) * (py - y) / (b * b); if(std::fabs(q - 1) > 1e-4) CHECK(e.ContainsPoint((T)px, (T)py) == (q < 1), "ellipse contains point"); CHECK(near_(e.Area(), M_PI * a * b, 1e-5), "area"); s.nontrivial(q > 1);
  D best = 1e18; for(int i = 0; i < 720; ++i) { D t = i * M_PI / 360, d = std::hypot(x + a * std::cos(t) - px, y + b * std::sin(t) - py); if(d < best) best = d; } if(q < 1) best = 0; D slack = 0; if(q > 1) { D w = 2 * std::fmax(a, b) * M_PI / 720; slack = w * w / 2 / std::fmax(best, .01) + (best < 1 ? w : 0); }
  T ox, oy; e.NearestPoint((T)px, (T)py, ox, oy); if(q > 1.001) { D f = ((D)ox - x) * ((D)ox - x) / (a * a) + ((D)oy - y) * ((D)oy - y) / (b * b); CHECK(std::fabs(f - 1) < 1e-3, "nearest point (%g,%g) is not on the ellipse", (D)ox, (D)oy); D d = std::hypot((D)ox - px, (D)oy - py); CHECK(d <= best + slack + .02 * (a + b), "nearest point is %g away instead of %g", d, best); } else if(q < .999) CHECK(near_(ox, px, 1e-5) && near_(oy, py, 1e-5), "nearest point to a point inside");
  if(std::fabs(best - R) > .05 * (a + b) + slack) CHECK(e.CircleCollide((T)px, (T)py, (T)R) == (best < R) && e.CircleCollide(Circle<T>((T)px, (T)py, (T)R)) == (best < R) && (Circle<T>((T)px, (T)py, (T)R).EllipseCollide((T)x, (T)y, (T)a, (T)b)) == (best < R), "ellipse and circle: distance %g, radius %g", best, R);
  D l = px, t = py, r = px + R, bo = py + s.real(.5, 30); D nx = (std::fmin(std::fmax(x, l), r) - x) / a, ny = (std::fmin(std::fmax(y, t), bo) - y) / b, f = nx * nx + ny * ny; if(std::fabs(f - 1) > 1e-3) CHECK(e.RectCollide((T)l, (T)t, (T)r, (T)bo) == (f < 1) && (e.RectCollide(Rect<T>((T)l, (T)t, (T)r, (T)bo))) == (f < 1), "ellipse and rectangle"); Ellipse<T> fc(Circle<T>((T)x, (T)y, (T)a)); CHECK(fc.a == (T)a && fc.b == (T)a && fc.x == (T)x && fc.y == (T)y, "ellipse from circle");
}
PROP(ellipses, 1, 0, "the point lies outside the ellipse") { if(s.boolean()) ellipses<float>(s); else ellipses<double>(s); }
struct Sector { D x, y, in, out, min, range; bool ang(D px, D py) const { if(range >= 2 * M_PI) return true; D a = std::atan2(-(py - y), px - x) - min; a = std::fmod(a, 2 * M_PI); if(a < 0) a += 2 * M_PI; return a <= range; }
  D sd(D px, D py) const { D r = std::hypot(px - x, py - y); D e = 1e18; if(range < 2 * M_PI) for(D t : { min, min + range }) e = std::fmin(e, segdist(px, py, x + std::cos(t) * in, y - std::sin(t) * in, x + std::cos(t) * out, y - std::sin(t) * out)); if(ang(px, py)) { D o = std::fmax(r - out, in - r); if(o > 0) return std::fmin(o, e) ; return -std::fmin(-o, e); } return e; } };
static Sector gensector(pbt::Src& s) { Sector c; c.x = s.real(-10, 10); c.y = s.real(-10, 10); c.out = s.real(3, 15); c.in = s.boolean() ? 0 : c.out * s.real(.1, .8); c.min = s.real(0, 6.28); c.range = s.chance(1, 6) ? 6.2831853071795864770 : s.real(.3, 6); return c; }
PROP(sectors, 3, 0, "a line or circle that reaches the sector")
{
  Sector c = gensector(s); CircleSector<D> k(c.x, c.y, c.in, c.out, c.min, c.range); s.note("sector (%g,%g) radius %g..%g angle %g range %g", c.x, c.y, c.in, c.out, c.min, c.range); D eps = .05;
  CHECK(near_(k.Area(), (c.out * c.out - c.in * c.in) * c.range / 2, 1e-9) && near_(k.ArcLengthOuter(), c.out * c.range, 1e-9) && near_(k.ArcLengthInner(), c.in * c.range, 1e-9), "sector measures");
  D px = s.real(-25, 25), py = s.real(-25, 25), d = c.sd(px, py); if(std::fabs(d) > 1e-6) CHECK(k.ContainsPoint(px, py) == (d < 0), "sector contains (%g,%g), distance %g", px, py, d); if(std::fabs(d) > 1e-6) CHECK((CircleSectorContainsPoint<D>(c.x, c.y, c.in, c.out, c.min, c.range, px, py)) == (d < 0), "CircleSectorContainsPoint");
  D R = s.real(.5, 12); if(std::fabs(d - R) > eps) CHECK(k.CircleCollide(px, py, R) == (d < R), "sector and circle (%g,%g) r %g, distance %g", px, py, R, d);
  D qx = s.real(-25, 25), qy = s.real(-25, 25), len = std::hypot(qx - px, qy - py), lo = 1e18; int N = (int)(len / eps) + 2; for(int i = 0; i <= N; ++i) { D t = (D)i / N; lo = std::fmin(lo, c.sd(px + (qx - px) * t, py + (qy - py) * t)); } s.nontrivial(d < R || lo < 0); if(lo < -eps || lo > eps) CHECK(k.IntersectLine(px, py, qx, qy) == (lo < 0), "sector and segment (%g,%g)-(%g,%g): distance %g", px, py, qx, qy, lo);
  typedef Vector<D, 2> V; int n = (int)s.range(1, 4); V v[5]; for(int i = 0; i < n; ++i) v[i] = V(s.real(-25, 25), s.real(-25, 25)); D lw = 1e18; for(int i = 0; i < n; ++i) { V a = v[i], b = v[(i + 1) % n]; int M = (int)(std::hypot(b.x - a.x, b.y - a.y) / eps) + 2; for(int j = 0; j <= M; ++j) { D t = (D)j / M; lw = std::fmin(lw, c.sd(a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t)); } } if(lw < -eps || (lw > eps && n < 3)) CHECK(k.IntersectPolygon(v, n) == (lw < 0), "sector and outline of %d points: distance %g", n, lw); else if(lw > eps && n == 3) { D mx = c.x + std::cos(c.min + c.range / 2) * (c.in + c.out) / 2, my = c.y - std::sin(c.min + c.range / 2) * (c.in + c.out) / 2; D a = (v[1].x - v[0].x) * (my - v[0].y) - (v[1].y - v[0].y) * (mx - v[0].x), b = (v[2].x - v[1].x) * (my - v[1].y) - (v[2].y - v[1].y) * (mx - v[1].x), e = (v[0].x - v[2].x) * (my - v[2].y) - (v[0].y - v[2].y) * (mx - v[2].x); bool in = (a > 0) == (b > 0) && (b > 0) == (e > 0); if(!in) CHECK(!k.IntersectPolygon(v, n), "sector and a triangle apart from it: distance %g", lw); }
}
PROP(sectorpairs, 2, 0, "two sectors whose outer circles overlap")
{
  Sector a = gensector(s), b = gensector(s); a.min += .0131; b.min += .0277; if(s.chance(1, 8)) { b.x = a.x; b.y = a.y; } else { b.x += .0173; b.y += .0391; } // sectors that share an edge are not judged: rounding decides them
  CircleSector<D> k(a.x, a.y, a.in, a.out, a.min, a.range); s.note("sectors (%g,%g) radius %g..%g angle %g range %g and (%g,%g) radius %g..%g angle %g range %g", a.x, a.y, a.in, a.out, a.min, a.range, b.x, b.y, b.in, b.out, b.min, b.range); D h = .35, lo = 1e18, eps = h; int nr = (int)((a.out - a.in) / h) + 2; for(int i = 0; i <= nr; ++i) { D r = a.in + (a.out - a.in) * i / nr; int na = (int)(r * a.range / h) + 1; for(int j = 0; j <= na; ++j) { D t = a.min + a.range * j / na; lo = std::fmin(lo, b.sd(a.x + std::cos(t) * r, a.y - std::sin(t) * r)); } }
  s.nontrivial(std::hypot(a.x - b.x, a.y - b.y) < a.out + b.out); if(lo < -.02 || lo > eps) CHECK(k.CircleSectorCollide(b.x, b.y, b.in, b.out, b.min, b.range) == (lo < 0), "sectors: nearest sampled point at %g", lo);
}
