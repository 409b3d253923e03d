// P30: keyframed animation, the scheduler and the high precision timer against a timeline computed directly from the frames.
// RELEASE: 0.4
// MODE: asan
// LIBS: HighPrecisionTimer.cpp bss_util.cpp bss_util_c.c ConvertUTF.c
// ASSUME: times are exact binary fractions; a looping animation has 0 <= loop < length; relative interpolation starts with a frame at time 0; the clock is a stand-in for clock_gettime
#include "tracked.h"
#include "pbt.h"
#include "bss-util/Serializer.h"
#include "bss-util/Animation.h"
#include "bss-util/Scheduler.h"
#include <functional>
#include <map>
#include <set>
#include <vector>
#include <cmath>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
using namespace bss;
using namespace pbt;

// ---- a clock the harness controls -------------------------------------------------------
static bool virt = false;
static uint64_t vnow = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
  if(virt)
  {
    ts->tv_sec = vnow / 1000000000;
    ts->tv_nsec = vnow % 1000000000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
struct Virt { Virt(uint64_t t) { vnow = t; virt = true; } ~Virt() { virt = false; } };

// ---- animation data -----------------------------------------------------------------------
typedef AniData<int, void, ARRAY_SIMPLE, 1> Disc;
typedef AniDataSmooth<float, void, ARRAY_SIMPLE, 2> Smooth;
typedef AniDataInterval<trk::Safe, ARRAY_SAFE, 3> Interval;
typedef Animation<Disc, Smooth, Interval> Ani;

struct FD { double t; int v; };
struct FS { double t; float v; };
struct FI { double t; int v; double d; };
struct Model
{
  std::vector<FD> d; std::vector<FS> s; std::vector<FI> i;
  double length = -1, loop = -1;
  double end() const
  {
    double e = 0;
    for(auto& f : d) e = std::max(e, f.t);
    for(auto& f : s) e = std::max(e, f.t);
    for(auto& f : i) e = std::max(e, f.t + f.d);
    return e;
  }
};

static double qt(pbt::Src& s, int max = 40) { return s.draw(max) / 4.0; }

template<class M, class F> static void insertAt(std::vector<M>& v, size_t r, const M& f, F&& what)
{
  CHECK(r <= v.size(), "Add returned index %zu with %zu frames", r, v.size());
  v.insert(v.begin() + r, f);
  for(size_t i = 1; i < v.size(); ++i) CHECK(v[i - 1].t <= v[i].t, "%s: frame at %g added at index %zu is out of order", what, f.t, r);
}
static void same(const Ani& a, const Model& m, const char* after)
{
  auto d = a.Get<Disc>().Frames();
  auto f = a.Get<Smooth>().Frames();
  auto n = a.Get<Interval>().Frames();
  CHECK(d.length == m.d.size() && f.length == m.s.size() && n.length == m.i.size(), "after %s: %zu/%zu/%zu frames, expected %zu/%zu/%zu", after, d.length, f.length, n.length, m.d.size(), m.s.size(), m.i.size());
  for(size_t i = 0; i < d.length; ++i) CHECK(d[i].time == m.d[i].t && d[i].value == m.d[i].v, "after %s: discrete frame %zu is (%g,%d), expected (%g,%d)", after, i, d[i].time, d[i].value, m.d[i].t, m.d[i].v);
  for(size_t i = 0; i < f.length; ++i) CHECK(f[i].time == m.s[i].t && f[i].value == m.s[i].v, "after %s: smooth frame %zu is (%g,%g), expected (%g,%g)", after, i, f[i].time, f[i].value, m.s[i].t, m.s[i].v);
  for(size_t i = 0; i < n.length; ++i) CHECK(n[i].time == m.i[i].t && n[i].value.get() == m.i[i].v && n[i].data == m.i[i].d, "after %s: interval frame %zu is (%g,%d,%g), expected (%g,%d,%g)", after, i, n[i].time, n[i].value.get(), n[i].data, m.i[i].t, m.i[i].v, m.i[i].d);
  CHECK(a.Get<Disc>().Begin() == (m.d.empty() ? 0.0 : m.d.front().t) && a.Get<Disc>().End() == (m.d.empty() ? 0.0 : m.d.back().t), "after %s: discrete Begin/End wrong", after);
  CHECK(a.Get<Smooth>().End() == (m.s.empty() ? 0.0 : m.s.back().t), "after %s: smooth End wrong", after);
  double e = 0;
  for(auto& x : m.i) e = std::max(e, x.t + x.d);
  CHECK(a.Get<Interval>().End() == e, "after %s: interval End %g, expected %g", after, a.Get<Interval>().End(), e);
  double len = m.length < 0 ? m.end() : m.length;
  CHECK(a.GetLength() == len, "after %s: length %g, expected %g", after, a.GetLength(), len);
  CHECK(a.GetLoop() == m.loop, "after %s: loop %g, expected %g", after, a.GetLoop(), m.loop);
}
static void addOne(pbt::Src& s, Ani& a, Model& m, int kind)
{
  double t = qt(s);
  int v = (int)s.range(-50, 50);
  if(kind == 0)
  {
    size_t r;
    if(s.boolean()) r = a.Add<Disc>(t, v);
    else { Disc::FRAME f = { t, v }; r = a.Add<Disc>(f); }
    insertAt(m.d, r, FD{ t, v }, "discrete");
  }
  else if(kind == 1)
  {
    size_t r = a.Add<Smooth>(t, (float)v);
    insertAt(m.s, r, FS{ t, (float)v }, "smooth");
  }
  else
  {
    double d = qt(s, 24);
    size_t r;
    if(s.boolean())
    {
      Interval::FRAME f = { t, trk::Safe(v), d };
      r = a.Add<Interval>(f);
    }
    else
    {
      r = a.Get<Interval>().Add(t, trk::Safe(v), d);
      a.SetLength(m.length); // documented: recalculates
    }
    insertAt(m.i, r, FI{ t, v, d }, "interval");
  }
}
static void build(pbt::Src& s, Ani& a, Model& m)
{
  while(s.more(7)) addOne(s, a, m, (int)s.draw(3));
}

PROP(animation_data, 2, LEAKCHECK, "at least 8 operations, at least one Remove or Set, and frames with equal times")
{
  Ani a; Model m;
  int n = 0, rem = 0;
  while(s.more(20))
  {
    ++n;
    switch(s.pick({ 10, 3, 2, 1, 1, 1 }))
    {
    case 0: addOne(s, a, m, (int)s.draw(3)); same(a, m, "Add"); break;
    case 1:
    {
      ++rem;
      int k = (int)s.draw(3);
      size_t sz = k == 0 ? m.d.size() : k == 1 ? m.s.size() : m.i.size();
      if(!sz) break;
      size_t i = s.draw(sz);
      bool r = k == 0 ? a.Remove<Disc>(i) : k == 1 ? a.Remove<Smooth>(i) : a.Remove<Interval>(i);
      CHECK(r, "Remove(%zu) of %zu failed", i, sz);
      if(k == 0) m.d.erase(m.d.begin() + i); else if(k == 1) m.s.erase(m.s.begin() + i); else m.i.erase(m.i.begin() + i);
      same(a, m, "Remove");
      break;
    }
    case 2:
      m.length = s.boolean() ? -1.0 : qt(s); a.SetLength(m.length);
      m.loop = s.boolean() ? -1.0 : qt(s); a.SetLoop(m.loop);
      same(a, m, "SetLength");
      break;
    case 3:
    {
      Ani b(a);
      same(b, m, "copy");
      Model mb = m;
      addOne(s, b, mb, (int)s.draw(3));
      same(b, mb, "Add to a copy");
      same(a, m, "Add to another copy");
      if(s.boolean()) { a = b; m = mb; same(a, m, "assignment"); same(b, mb, "being assigned from"); }
      break;
    }
    case 4:
    {
      Ani b(std::move(a));
      same(b, m, "move");
      a = std::move(b);
      same(a, m, "move assignment");
      break;
    }
    case 5:
    {
      ++rem;
      size_t len = s.draw(6);
      double t = 0;
      if(s.boolean())
      {
        std::vector<Disc::FRAME> fr; m.d.clear();
        for(size_t i = 0; i < len; ++i) { t += qt(s, 8); int v = (int)s.draw(100); fr.push_back({ t, v }); m.d.push_back({ t, v }); }
        a.Set<Disc>(fr.data(), fr.size());
      }
      else
      {
        std::vector<Interval::FRAME> fr; m.i.clear();
        for(size_t i = 0; i < len; ++i) { t += qt(s, 8); int v = (int)s.draw(100); double d = qt(s, 24); fr.push_back({ t, trk::Safe(v), d }); m.i.push_back({ t, v, d }); }
        a.Set<Interval>(fr.data(), fr.size());
        Interval other(fr.data(), fr.size());
        CHECK(other.End() == a.Get<Interval>().End(), "the same frames give two end times");
      }
      same(a, m, "Set");
      break;
    }
    }
  }
  bool eq = false;
  for(size_t i = 1; i < m.d.size(); ++i) eq = eq || m.d[i].t == m.d[i - 1].t;
  for(size_t i = 1; i < m.i.size(); ++i) eq = eq || m.i[i].t == m.i[i - 1].t;
  s.nontrivial(n >= 8 && rem && eq);
}

// ---- playing an animation -----------------------------------------------------------------
struct Obj
{
  std::vector<int> events;
  std::vector<std::pair<int, float>> sets; // just the last call counts
  int nset = 0; float val = 0;
  int next = 1;
  std::map<int, int> active; // handle -> value
  std::vector<int> started, ended;
  bool bad = false;
  void event(int v) { events.push_back(v); }
  void set(float f) { ++nset; val = f; }
  int start(const trk::Safe& p) { started.push_back(p.get()); active[next] = p.get(); return next++; }
  void stop(int h)
  {
    auto i = active.find(h);
    if(i == active.end()) { bad = true; return; }
    ended.push_back(i->second);
    active.erase(i);
  }
};
typedef AniState<Obj, Ani, AniStateDiscrete<Obj, Disc, int, &Obj::event>, AniStateSmooth<Obj, Smooth, float, &Obj::set>, AniStateInterval<Obj, Interval, const trk::Safe&, int, &Obj::start, &Obj::stop>> State;

// the value a smooth track has at time t; false if the animation does not set one
static bool smoothAt(const Model& m, int mode, double t, float init, float& out)
{
  auto& f = m.s;
  size_t c = 0;
  while(c < f.size() && f[c].t <= t) ++c;
  bool rel = mode >= 2;
  if(c == f.size())
  {
    if(f.size() <= 1) return false;
    out = f.back().v + (rel ? init : 0);
    return true;
  }
  if(mode & 1)
  { // hold the previous value
    out = (c ? f[c - 1].v : init) + (rel ? init : 0);
    return true;
  }
  double t0 = c ? f[c - 1].t : 0.0, v0 = c ? f[c - 1].v : init;
  out = (float)(v0 + (f[c].v - v0) * ((t - t0) / (f[c].t - t0)) + (rel ? init : 0));
  return true;
}

PROP(animation_play, 4, LEAKCHECK, "at least one interval was active between two calls, several discrete frames played, and the animation wrapped or ended")
{
  Ani a; Model m;
  int mode = (int)s.draw(4); // 0 lerp, 1 hold, 2 lerp relative, 3 hold relative
  build(s, a, m);
  if(mode >= 2 && !m.s.empty() && m.s.front().t != 0.0) { size_t r = a.Add<Smooth>(0.0, 3.0f); insertAt(m.s, r, FS{ 0.0, 3.0f }, "smooth"); }
  a.Get<Smooth>().SetInterpolation(mode == 0 ? &Smooth::LerpInterpolate : mode == 1 ? &Smooth::NoInterpolate : mode == 2 ? &Smooth::LerpInterpolateRel : &Smooth::NoInterpolateRel);
  if(s.chance(1, 4)) { m.length = qt(s); a.SetLength(m.length); }
  double len = m.length < 0 ? m.end() : m.length;
  if(s.boolean() && len > 0) { m.loop = s.draw((uint64_t)(len * 4)) / 4.0; a.SetLoop(m.loop); }
  same(a, m, "building");
  bool wrapped = false, overlap = false; size_t played = 0;
  Obj o;
  {
    State st(&o, &a);
    float init = (float)s.range(-20, 20);
    st.SetValues(std::make_tuple(init));
    CHECK(std::get<0>(st.GetValues()) == init, "GetValues does not return what SetValues set");
    double t = 0;        // model time
    double done = -1;    // everything at or before this time has been played in this pass
    int calls = 0;
    while(s.more(12))
    {
      int op = s.pick({ 20, 2, 2 });
      if(op == 1)
      {
        st.Reset();
        t = 0; done = -1;
        CHECK(o.active.empty(), "Reset left %zu intervals active", o.active.size());
        CHECK(!o.bad, "Reset ended an interval that was not active");
        CHECK(st.GetTime() == 0.0, "Reset left the time at %g", st.GetTime());
        s.label("reset");
        continue;
      }
      if(op == 2)
      {
        double nt = qt(s, (int)(len * 4) + 2);
        if(nt < t) { done = -1; s.label("rewind"); }
        bool rew = nt < t;
        t = nt;
        st.SetTime(nt);
        if(rew) CHECK(o.active.empty(), "rewinding left %zu intervals active", o.active.size());
        CHECK(st.GetTime() == nt, "SetTime(%g) gives GetTime() %g", nt, st.GetTime());
        continue;
      }
      double delta = s.pick({ 5, 1, 2 }) == 0 ? qt(s, 8) : s.boolean() ? 0.0 : qt(s, 60);
      o.events.clear(); o.started.clear(); o.ended.clear(); o.nset = 0;
      bool r = st.Interpolate(delta);
      ++calls;
      if(s.verbose()) s.note("Interpolate(%g) from %g (length %g, loop %g)", delta, t, len, m.loop);
      CHECK(!o.bad, "an interval ended that was not active");
      if(t >= len && m.loop < 0)
      {
        CHECK(!r && o.events.empty() && o.started.empty() && o.ended.empty() && !o.nset, "an animation that was over at %g did something", t);
        CHECK(st.GetTime() == t, "an animation that was over changed its time");
        continue;
      }
      t += delta;
      std::vector<int> ev, sta; std::vector<double> stt;
      int nset = 0; float val = 0; float v;
      auto pass = [&](double upto) {
        for(auto& f : m.d) if(f.t > done && f.t <= upto) ev.push_back(f.v);
        for(auto& f : m.i) if(f.t > done && f.t <= upto) { sta.push_back(f.v); }
        if(smoothAt(m, mode, upto, init, v)) { ++nset; val = v; }
        done = std::max(done, upto);
      };
      pass(t);
      bool wrap = false;
      if(t >= len && m.loop >= 0)
      {
        wrap = wrapped = true;
        t = m.loop + std::fmod(t - len, len - m.loop);
        done = -1;
        pass(t);
        s.label("wrap");
      }
      CHECK(st.GetTime() == t, "after Interpolate(%g) the time is %g, expected %g", delta, st.GetTime(), t);
      CHECK(r == (t < len), "Interpolate returned %d at %g of %g", r, t, len);
      CHECK(o.events == ev, "at %g: %zu discrete frames played, expected %zu%s", t, o.events.size(), ev.size(), o.events.size() == ev.size() ? " (others, or in another order)" : "");
      CHECK(o.started == sta, "at %g: %zu intervals started, expected %zu%s", t, o.started.size(), sta.size(), o.started.size() == sta.size() ? " (others, or in another order)" : "");
      std::multiset<int> exp, got;
      for(auto& f : m.i) if(f.t <= done && f.t + f.d > t && f.t <= t) exp.insert(f.v);
      for(auto& p : o.active) got.insert(p.second);
      CHECK(exp == got, "at %g: %zu intervals are active, expected %zu", t, got.size(), exp.size());
      overlap = overlap || !exp.empty();
      played += ev.size();
      CHECK(!nset == !o.nset, "at %g the smooth value was %sset", t, o.nset ? "" : "not ");
      if(nset) CHECK(std::fabs(o.val - val) <= 1e-4 * (1 + std::fabs(val)), "at %g the smooth value is %g, expected %g (mode %d)", t, o.val, val, mode);
      if(t >= len) wrapped = true;
    }
    (void)calls;
  }
  CHECK(o.active.empty(), "destroying the state left %zu intervals active", o.active.size());
  CHECK(!o.bad, "destroying the state ended an interval twice");
  s.nontrivial(wrapped && overlap && played >= 3);
}

// an animation advanced in any number of steps ends up where one step takes it (no wrap)
PROP(animation_steps, 1, 0, "at least three steps over at least three frames")
{
  Ani a; Model m;
  build(s, a, m);
  a.Get<Smooth>().SetInterpolation(&Smooth::LerpInterpolate);
  double len = m.end();
  Obj o1, o2;
  {
    State s1(&o1, &a), s2(&o2, &a);
    s1.SetValues(std::make_tuple(2.0f)); s2.SetValues(std::make_tuple(2.0f));
    double sum = 0; int n = 0;
    bool r1 = sum < len;
    while(s.more(6)) { double d = qt(s, 10); if(sum + d >= len) break; sum += d; ++n; r1 = s1.Interpolate(d); }
    if(n) {
      bool r2 = s2.Interpolate(sum);
      CHECK(r1 == r2, "steps and one jump disagree on whether the animation goes on");
      CHECK(o1.events == o2.events && o1.started == o2.started, "steps and one jump play different frames");
      std::multiset<int> x, y;
      for(auto& p : o1.active) x.insert(p.second);
      for(auto& p : o2.active) y.insert(p.second);
      CHECK(x == y, "steps and one jump leave different intervals active");
      if(m.s.size() != 1) CHECK(!o1.nset == !o2.nset && (!o1.nset || o1.val == o2.val), "steps and one jump give different values");
    }
    s.nontrivial(n >= 3 && o1.events.size() + o1.started.size() >= 3);
  }
  CHECK(!o1.bad && !o2.bad && o1.active.empty() && o2.active.empty(), "intervals left over");
}

// ---- easing curves --------------------------------------------------------------------------
static double bez(double s, double p1, double p2) { double i = 1 - s; return 3 * i * i * s * p1 + 3 * i * s * s * p2 + s * s * s; }
static double quadLen(const double&, const double&, const double&) { return 1; }
static double cubLen(const double&, const double&, const double&, const double&) { return 1; }
PROP(easing, 1, 0, "control times away from 0 and 1 and from each other")
{
  typedef AniLinearData<float> L;
  typedef AniDataSmooth<float, L, ARRAY_SIMPLE, 4> D;
  double t1 = s.draw(101) / 100.0, t2 = s.draw(101) / 100.0, s1 = s.range(-50, 150) / 100.0, s2 = s.range(-50, 150) / 100.0;
  double t = s.draw(1001) / 1000.0;
  float v0 = (float)s.range(-100, 100), v1 = (float)s.range(-100, 100);
  // time curve is monotonic for control times in [0,1]
  double lo = 0, hi = 1;
  for(int i = 0; i < 100; ++i) { double mid = (lo + hi) / 2; (bez(mid, t1, t2) < t ? lo : hi) = mid; }
  D::FRAME f[2] = { { 0.0, v0, L() }, { 1.0, v1, L(t1, s1, t2, s2) } };
  float got = L::LinearInterpolate(f, 2, 1, t, 0.0f);
  double slope = (bez(std::min(1.0, lo + 1e-4), t1, t2) - bez(std::max(0.0, lo - 1e-4), t1, t2)) / 2e-4;
  if(slope > .05)
  {
    double want = v0 + (v1 - v0) * bez(lo, s1, s2);
    CHECK(std::fabs(got - want) <= .01 + std::fabs(v1 - v0) * 1e-3, "easing (%g,%g,%g,%g) at %g of %g..%g gives %g, expected %g", t1, s1, t2, s2, t, v0, v1, got, want);
    float init = (float)s.range(-50, 50);
    float rel = L::LinearInterpolateRel(f, 2, 1, t, init);
    CHECK(std::fabs(rel - init - got) <= 1e-3, "relative easing gives %g, expected %g + %g", rel, init, got);
    float fst = L::LinearInterpolate(f + 1, 1, 0, t, v0);
    CHECK(std::fabs(fst - got) <= 1e-3, "easing from the initial value gives %g, from an equal frame %g", fst, got);
  }
  else s.label("flat time curve: value not judged");
  // curve and derivative functions
  double u = s.draw(1001) / 1000.0, h = 1e-5;
  CHECK(std::fabs(AniCubicEasing::TimeBezier(u, s1, s2) - bez(u, s1, s2)) < 1e-9, "TimeBezier");
  double nd = (bez(u + h, s1, s2) - bez(u - h, s1, s2)) / (2 * h);
  CHECK(std::fabs(AniCubicEasing::TimeBezierD(u, s1, s2) - nd) < 1e-5, "TimeBezierD(%g,%g,%g) is %g, the slope is %g", u, s1, s2, AniCubicEasing::TimeBezierD(u, s1, s2), nd);
  double p[4];
  for(auto& x : p) x = s.range(-100, 100) / 10.0;
  typedef AniQuadData<double, &quadLen> Q;
  typedef AniCubicData<double, &cubLen> C;
  auto q = [&](double x) { double i = 1 - x; return i * i * p[0] + 2 * i * x * p[1] + x * x * p[2]; };
  auto c = [&](double x) { double i = 1 - x; return i * i * i * p[0] + 3 * i * i * x * p[1] + 3 * i * x * x * p[2] + x * x * x * p[3]; };
  CHECK(std::fabs(Q::Bezier<double>(u, p[0], p[1], p[2]) - q(u)) < 1e-9, "quadratic Bezier");
  CHECK(std::fabs(Q::BezierD<double>(u, p[0], p[1], p[2]) - (q(u + h) - q(u - h)) / (2 * h)) < 1e-4, "quadratic BezierD");
  CHECK(std::fabs(C::Bezier(u, p[0], p[1], p[2], p[3]) - c(u)) < 1e-9, "cubic Bezier");
  CHECK(std::fabs(C::BezierD<double>(u, p[0], p[1], p[2], p[3]) - (c(u + h) - c(u - h)) / (2 * h)) < 1e-4, "cubic BezierD");
  double a0[3], a1[3], a2[3], a3[3], eq = 0, ec = 0;
  for(int i = 0; i < 3; ++i)
  {
    a0[i] = s.range(-50, 50) / 10.0; a1[i] = s.range(-50, 50) / 10.0; a2[i] = s.range(-50, 50) / 10.0; a3[i] = s.range(-50, 50) / 10.0;
    double dq = 2 * (1 - u) * (a1[i] - a0[i]) + 2 * u * (a2[i] - a1[i]);
    double dc = 3 * (1 - u) * (1 - u) * (a1[i] - a0[i]) + 6 * (1 - u) * u * (a2[i] - a1[i]) + 3 * u * u * (a3[i] - a2[i]);
    eq += dq * dq; ec += dc * dc;
  }
  double lq = Q::Length<double, 3>(u, a0, a1, a2), lc = C::Length<double, 3>(u, a0, a1, a2, a3);
  CHECK(std::fabs(lq - sqrt(eq)) <= .1 + .05 * sqrt(eq), "quadratic speed %g, expected %g", lq, sqrt(eq));
  CHECK(std::fabs(lc - sqrt(ec)) <= .1 + .05 * sqrt(ec), "cubic speed %g, expected %g", lc, sqrt(ec));
  s.nontrivial(t1 > .05 && t1 < .95 && t2 > .05 && t2 < .95 && std::fabs(t1 - t2) > .05 && slope > .05 && v0 != v1);
}

// ---- timer ------------------------------------------------------------------------------------
PROP(timer, 1, 0, "at least five updates, one of them warped, overridden or while the clock went backwards")
{
  Virt v(1000000000000ull + s.draw(1000000000));
  HighPrecisionTimer t;
  uint64_t base = vnow, total = 0, delta = 0;
  double dms = 0;
  int n = 0, odd = 0;
  bool warped = false;
  CHECK(t.GetDelta() == 0 && t.GetDeltaNS() == 0 && t.GetTime() == 0 && t.GetTimeNS() == 0, "a new timer is not at zero");
  while(s.more(12))
  {
    ++n;
    uint64_t step = s.pick({ 3, 1 }) == 0 ? s.draw(50000000) : s.edgy(0, 5000000000ll);
    bool back = s.chance(1, 8);
    if(back) { vnow -= std::min<uint64_t>(step, 1000000000); ++odd; }
    else vnow += step;
    double r = 0; bool upd = true;
    switch(s.pick({ 8, 3, 2, 2, 1, 1 }))
    {
    case 0:
      delta = vnow > base ? vnow - base : 0;
      r = t.Update(); dms = delta / 1e6;
      base = std::max(base, vnow);
      break;
    case 1:
    {
      double w = s.pick({ 1, 1 }) ? (1 << s.draw(5)) : 1.0 / (1 << s.draw(5));
      uint64_t raw = vnow > base ? vnow - base : 0;
      r = t.Update(w); ++odd;
      dms = raw / 1e6 / w; delta = (uint64_t)(raw / w);
      base = std::max(base, vnow);
      break;
    }
    case 2: { uint64_t o = s.draw(100000000); t.Override(o); delta = o; dms = o / 1e6; base = vnow; r = dms; ++odd; break; }
    case 3: { double o = s.draw(100000) / 8.0; t.Override(o); dms = o; delta = (uint64_t)(o * 1e6); base = vnow; r = o; ++odd; break; }
    case 4: t.ResetTime(); total = 0; upd = false; break;
    case 5: t.ResetDelta(); delta = 0; dms = 0; base = vnow; upd = false; break;
    }
    if(upd) { total += delta; CHECK(std::fabs(r - dms) <= 1e-9 * (1 + dms), "Update returned %g ms, expected %g", r, dms); }
    uint64_t g = t.GetDeltaNS();
    CHECK(g == delta || (warped = true, g + 1 >= delta && g <= delta + 1), "delta is %llu ns, expected %llu", (unsigned long long)g, (unsigned long long)delta);
    CHECK(std::fabs(t.GetDelta() - dms) <= 1e-9 * (1 + dms), "delta is %g ms, expected %g", t.GetDelta(), dms);
    g = t.GetTimeNS();
    CHECK(g + n >= total && g <= total + n, "time is %llu ns, expected %llu", (unsigned long long)g, (unsigned long long)total);
    CHECK(std::fabs(t.GetTime() - g / 1e6) <= 1e-6 * (1 + g / 1e6), "time is %g ms but %llu ns", t.GetTime(), (unsigned long long)g);
  }
  uint64_t p = HighPrecisionTimer::OpenProfiler();
  uint64_t d = s.draw(1000000);
  vnow += d;
  CHECK(HighPrecisionTimer::CloseProfiler(p) == d, "the profiler did not measure %llu ns", (unsigned long long)d);
  CHECK(HighPrecisionTimer::NanosecondDiff(d + 5000000000ull, d) == 5.0, "NanosecondDiff");
  s.nontrivial(n >= 5 && odd);
}

// ---- scheduler ----------------------------------------------------------------------------------
struct Ev { int id; double due; std::vector<double> again; std::vector<std::pair<double, int>> spawn; };
PROP(scheduler, 2, LEAKCHECK, "an event was rescheduled, an event scheduled another, and at least one Update ran several events")
{
  typedef Scheduler<std::function<double()>> Sch;
  Virt v(5000000000000ull);
  std::map<int, double> due;          // model: pending events
  std::vector<std::pair<double, int>> fired; // (time it was due, id)
  int nid = 0, resched = 0, spawned = 0, multi = 0;
  double now = 0;
  std::function<std::function<double()>(int, std::vector<double>, int)> make;
  Sch* cur = nullptr;
  bool unknown = false;
  make = [&](int id, std::vector<double> again, int spawn) -> std::function<double()> {
    size_t k = 0;
    return [&, id, again, spawn, k]() mutable -> double {
      if(!due.count(id)) { unknown = true; return 0; }
      fired.push_back({ due[id], id });
      due.erase(id);
      if(spawn > 0)
      {
        int c = nid++;
        due[c] = now + spawn; ++spawned;
        cur->Add((double)spawn, make(c, {}, 0));
      }
      double r = k < again.size() ? again[k++] : 0.0;
      if(r > 0) { due[id] = now + r; ++resched; }
      return r;
    };
  };
  {
    Sch sch;
    cur = &sch;
    while(s.more(14))
    {
      if(s.boolean())
      {
        int id = nid++;
        double t = (double)s.draw(30) - (s.chance(1, 10) ? 5 : 0);
        std::vector<double> again;
        while(again.size() < 6 && s.more(2)) again.push_back((double)s.range(0, 12));
        int spawn = s.chance(1, 3) ? (int)s.range(1, 15) : 0;
        due[id] = now + t;
        if(s.boolean()) { auto f = make(id, again, spawn); sch.Add(t, f); }
        else sch.Add(t, make(id, again, spawn));
      }
      else
      {
        uint64_t d = s.draw(20);
        vnow += d * 1000000;
        now += (double)d;
        std::map<int, double> before = due;
        fired.clear();
        sch.Update();
        CHECK(!unknown, "an event ran that was not scheduled");
        std::multiset<int> exp, got;
        for(auto& p : before) if(p.second <= now) exp.insert(p.first);
        for(size_t i = 0; i < fired.size(); ++i)
        {
          got.insert(fired[i].second);
          CHECK(!i || fired[i - 1].first <= fired[i].first, "an event due at %g ran after one due at %g", fired[i].first, fired[i - 1].first);
        }
        CHECK(exp == got, "at %g ms %zu events ran, expected %zu", now, got.size(), exp.size());
        if(got.size() > 1) ++multi;
      }
      CHECK(sch.Length() == due.size(), "%zu events pending, expected %zu", (size_t)sch.Length(), due.size());
      if(s.chance(1, 12))
      { // a copy has the same events pending
        Sch c(sch);
        CHECK(c.Length() == due.size(), "a copy has %zu events pending, expected %zu", (size_t)c.Length(), due.size());
      }
    }
  }
  s.nontrivial(resched && spawned && multi);
}
