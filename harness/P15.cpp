// MODE: sched
// LIBS:
// ASSUME: interleavings are sequentially consistent (reorderings by the CPU are not modelled); threads are preempted only at memory accesses, atomic operations and function entries of the code under test; a thread spinning on a condition is scheduled fairly after the generated schedule prefix
// Locks, thread pool, threads and atomic primitives under generated schedules.
#include "vsched.h"
#include "tracked.h"
#include "bss-util/RWLock.h"
#include "bss-util/ThreadPool.h"
#include "bss-util/lockless.h"
#include <memory>
#include <thread>
#include <unistd.h>
#include <time.h>
using namespace bss;

// ------------------------------------------------------------------ RWLock
struct Shared
{
  std::unique_ptr<RWLock> l; long a = 0, b = 0; int readers = 0, writers = 0; long writes = 0; bool wr[8] = {}, rd[8] = {};
  void enterR(int me) { sched::quiet z; CHECK(writers == 0, "thread %d holds a read lock while another thread holds the write lock", me); ++readers; rd[me] = true; }
  void leaveR(int me) { sched::quiet z; --readers; rd[me] = false; }
  void enterW(int me) { sched::quiet z; CHECK(writers == 0, "two threads hold the write lock"); CHECK(readers == 0, "thread %d holds the write lock while %d threads hold a read lock", me, readers); ++writers; }
  void leaveW() { sched::quiet z; --writers; }
  long read() { long x = a; long y = b; CHECK(x == y, "a reader saw a half-finished update"); return x; }
  void write() { long x = a; a = x + 1; b = b + 1; sched::quiet z; ++writes; }
};
PROP(rwlock, 3, 0, ">=2 threads, >=1 write and more context switches than threads")
{
  Shared sh; { sh.l.reset(new RWLock()); } RWLock& l = *sh.l; int nt = 2 + (int)s.draw(3); std::vector<std::vector<int>> ops(nt); bool strict = s.boolean(); int up = 0;
  for(auto& o : ops) { int k = 1 + (int)s.draw(5); for(int i = 0; i < k; ++i) o.push_back((int)s.draw(8)); }
  std::vector<std::function<void()>> th;
  for(int i = 0; i < nt; ++i) th.push_back([&, i] {
    for(int o : ops[i]) switch(o)
    {
    case 0: case 6: l.RLock(); sh.enterR(i); sh.read(); sh.read(); sh.leaveR(i); l.RUnlock(); break;
    case 1: l.Lock(); sh.enterW(i); sh.write(); sh.leaveW(); l.Unlock(); break;
    case 2: if(l.AttemptLock()) { sh.enterW(i); sh.write(); sh.leaveW(); l.Unlock(); } break;
    case 3: if(l.AttemptStrictLock()) { sh.enterW(i); sh.write(); sh.leaveW(); l.Unlock(); } break;
    case 4: if(l.AttemptRLock()) { sh.enterR(i); sh.read(); sh.leaveR(i); l.RUnlock(); } break;
    case 5: l.RLock(); sh.enterR(i); sh.read(); sh.leaveR(i); l.Upgrade(); sh.enterW(i); sh.write(); sh.leaveW(); l.Downgrade(); sh.enterR(i); sh.read(); sh.leaveR(i); l.RUnlock(); { sched::quiet z; ++up; } break;
    case 7: { l.RLock(); sh.enterR(i); long v = sh.read(); sh.leaveR(i); if(l.AttemptUpgrade()) { sh.enterW(i); CHECK(sh.read() == v, "the data changed while a read lock was being upgraded"); sh.write(); v = sh.read(); sh.leaveW(); l.Downgrade(); sh.enterR(i); CHECK(sh.read() == v, "the data changed while a write lock was being downgraded"); sh.leaveR(i); sched::quiet z; ++up; } l.RUnlock(); break; }
    }
  });
  sched::run(s, th); CHECK(l.IsFree() && l.ReaderCount() == 0, "the lock is not free after every thread released it"); CHECK(sh.a == sh.writes && sh.b == sh.writes, "%ld writes made, value is %ld", sh.writes, sh.a);
  s.note("%d threads, %ld writes, %d upgrades, %u switches", nt, sh.writes, up, sched::switches()); s.nontrivial(sh.writes && sched::switches() > (uint32_t)nt); if(up > 1) s.label("several upgrades"); if(sched::switches() > 20) s.label("more than 20 context switches");
}
PROP(rwlock_sequential, 1, 0, ">=5 operations")
{ // what each operation reports when the lock's state is known
  RWLock l; int r = 0, ops = 0; bool w = false, upg = false;
  while(s.more())
  {
    switch(s.draw(9))
    {
    case 0: if(!w) { l.RLock(); ++r; } break;
    case 1: if(r > (upg ? 1 : 0)) { if(!upg) { l.RUnlock(); --r; } } break;
    case 2: if(!w && !r) { l.Lock(); w = true; } break;
    case 3: if(w && !upg) { l.Unlock(); w = false; } break;
    case 4: { bool ok = l.AttemptRLock(); CHECK(ok == !w, "AttemptRLock gave %d with%s a writer", ok, w ? "" : "out"); if(ok) ++r; break; }
    case 5: { bool ok = l.AttemptStrictLock(); CHECK(ok == (!w && !r), "AttemptStrictLock gave %d with %d readers, writer %d", ok, r, w); if(ok) w = true; break; }
    case 6: if(w || !r) { bool ok = l.AttemptLock(); CHECK(ok == !w, "AttemptLock gave %d, writer %d", ok, w); if(ok) w = true; } break;
    case 7: if(r == 1 && !w) { if(s.boolean()) l.Upgrade(); else CHECK(l.AttemptUpgrade(), "AttemptUpgrade of the only read lock failed"); w = upg = true; } break;
    case 8: if(upg) { l.Downgrade(); w = upg = false; } break;
    }
    CHECK(l.ReaderCount() == (size_t)r, "ReaderCount %zu expected %d", l.ReaderCount(), r); CHECK(l.IsFree() == (!r && !w), "IsFree"); ++ops;
  }
  s.nontrivial(ops >= 5); s.note("%d ops", ops);
}
// ------------------------------------------------------------------ ThreadPool
typedef internal::LQ_QNode<std::pair<void(*)(void*), void*>> TNODE; typedef PolymorphicAllocator<TNODE, LocklessBlockPolicy> TALLOC;
struct Task { ThreadPool* pool; int runs; int want; Task* child; int childn; bool running; long x; };
static void work(void* p) { Task* t = (Task*)p; long v = t->x; if(t->child) t->pool->AddTask(work, t->child, t->childn); { sched::quiet z; ++t->runs; CHECK(t->runs <= t->want, "a task added %d times ran %d times", t->want, t->runs); } }
static int fsum; static void addsum(int a, int b) { sched::quiet z; fsum += a * 1000 + b; }
static long fut(int a, long b) { long v; { sched::quiet z; v = a * 100000l + b; } return v; }
PROP(threadpool, 3, 0, ">=2 tasks, >=1 worker and >5 context switches")
{
  TALLOC::DefaultPolicy(); sched::heap h; *TALLOC::DefaultPolicy() = LocklessBlockPolicy<TNODE>(8);
  { int nw = 1 + (int)s.draw(3), total = 0; std::vector<Task> tasks(1 + s.draw(6)); int exp = 0; fsum = 0; int waits = 0;
    int feeders = (int)s.draw(2), late = (int)s.draw(2); std::vector<std::function<void()>> th; std::vector<int> kinds, inst; for(auto& t : tasks) { t = Task{ 0, 0, 0, 0, 0, false, 0 }; kinds.push_back((int)s.draw(7)); inst.push_back((int)s.draw(4)); }
    std::unique_ptr<ThreadPool> pool; volatile bool ready = false, fed = !feeders;
    th.push_back([&] {
      pool.reset(new ThreadPool(nw)); if(late) pool->AddThreads(1); int n = nw + late; size_t half = feeders ? tasks.size() / 2 : 0;
      for(size_t i = 0; i < tasks.size(); ++i) { Task& t = tasks[i]; t.pool = pool.get(); t.want += inst[i] ? inst[i] : n; }
      for(size_t i = 0; i < tasks.size(); ++i) if(kinds[i] == 1 && i + 1 < tasks.size() && kinds[i + 1] != 1) { Task& t = tasks[i]; t.child = &tasks[i + 1]; t.childn = 1; tasks[i + 1].want += t.want; }
      ready = true; typedef Future<long, int, long> FT; std::vector<std::pair<std::unique_ptr<FT>, long>> futs; auto look = [&](bool all) { for(auto& k : futs) { long* r = k.first->Result(); CHECK(r || !all, "Wait returned before a future had its result"); if(r) { CHECK(*r == k.second, "a future has the result %ld, expected %ld", *r, k.second); CHECK(k.first->Result() == r, "a future lost its result"); } } };
      for(size_t i = half; i < tasks.size(); ++i)
      {
        pool->AddTask(work, &tasks[i], inst[i]);
        if(kinds[i] == 6) { futs.emplace_back(std::unique_ptr<FT>(new FT(*pool, &fut, (int)i + 1, 77l)), ((long)i + 1) * 100000 + 77); look(false); }
        if(kinds[i] == 2) { pool->AddFunc<void, int, int>(&addsum, i + 1, 7); exp += ((int)i + 1) * 1000 + 7; }
        if(kinds[i] == 3 && !feeders) { pool->Wait(); ++waits; look(true); for(size_t j = half; j <= i; ++j) if(!(j > 0 && tasks[j - 1].child == &tasks[j]) && !(j == i && false)) CHECK(tasks[j].runs == tasks[j].want, "Wait returned although a task added %d times had run %d times", tasks[j].want, tasks[j].runs); CHECK(fsum == exp, "Wait returned before a function finished"); CHECK(pool->Busy() == 0, "Busy() is %zu after Wait", pool->Busy()); }
      }
      while(!fed) sched::yield();
      if(s.chance(1, 3)) { while(pool->Busy()) sched::yield(); } // the workers finish everything on their own
      if(s.chance(1, 2)) { pool->Wait(); CHECK(pool->Busy() == 0, "Busy() is %zu after Wait", pool->Busy()); look(true); } pool.reset(); look(true);
    });
    if(feeders) th.push_back([&] { while(!ready) sched::yield(); for(size_t i = 0; i < tasks.size() / 2; ++i) pool->AddTask(work, &tasks[i], inst[i]); fed = true; });
    sched::run(s, th);
    for(auto& t : tasks) { CHECK(t.runs == t.want, "a task added %d times ran %d times by the time the pool was destroyed", t.want, t.runs); total += t.runs; } CHECK(fsum == exp, "functions ran with the wrong arguments or the wrong number of times");
    s.note("%d workers, %d runs, %d waits, %u switches", nw + late, total, waits, sched::switches()); s.nontrivial(total >= 2 && sched::switches() > 5); if(feeders) s.label("second producer"); for(auto& t : tasks) if(t.child) { s.label("task adds task"); break; } if(sched::switches() > 40) s.label("more than 40 context switches"); }
  { LocklessBlockPolicy<TNODE> out(std::move(*TALLOC::DefaultPolicy())); }
  CHECK(h.live() == 0, "%ld heap blocks leaked", h.live());
}
// ------------------------------------------------------------------ Thread, Semaphore
PROP(thread, 1, 0, ">=2 threads started")
{
  int n = 1 + (int)s.draw(4), how = 0; std::vector<int> done(n), mode(n); for(auto& m : mode) m = (int)s.draw(5); std::vector<size_t> ms(n); for(auto& m : ms) m = 1 + s.draw(5000);
  sched::run(s, { [&] {
    std::vector<std::unique_ptr<Thread>> t; for(int i = 0; i < n; ++i) t.emplace_back(new Thread([&done, i](int k) { for(int j = 0; j < k; ++j) sched::yield(); done[i] = k; }, i + 1));
    for(int i = 0; i < n; ++i) { switch(mode[i]) { case 0: t[i].reset(); break; case 1: t[i]->join(); break; case 2: { size_t r = t[i]->join(ms[i]); CHECK(r == 0, "join with a timeout gave up although the thread ended in time"); CHECK(!t[i]->joinable(), "still joinable after join"); break; } case 3: { while(t[i]->join(0) == (size_t)~0) { CHECK(t[i]->joinable(), "not joinable after an unsuccessful join"); sched::yield(); } CHECK(!t[i]->joinable(), "still joinable after join"); break; } case 4: { Thread m(std::move(*t[i])); CHECK(!t[i]->joinable() && m.joinable(), "move"); Thread k; k = std::move(m); CHECK(k.joinable() && !m.joinable(), "move assignment"); k.join(); break; } }
      CHECK(done[i] == i + 1, "the join of thread %d returned before it ended", i); how |= 1 << mode[i]; }
  } });
  s.note("%d threads", n); s.nontrivial(n >= 2);
}
PROP(semaphore, 1, 0, ">=2 waits and more context switches than threads")
{
  Semaphore sem; int np = 1 + (int)s.draw(2), nc = 1 + (int)s.draw(3); std::vector<std::vector<size_t>> posts(np); size_t total = 0; for(auto& p : posts) for(int k = (int)s.draw(4); k > 0; --k) { p.push_back(1 + s.draw(3)); total += p.back(); } std::vector<int> waits(nc); { size_t left = total; for(int i = 0; i < nc; ++i) { size_t k = i == nc - 1 ? left : s.draw(left + 1); waits[i] = (int)k; left -= k; } } int posted = 0, taken = 0;
  std::vector<std::function<void()>> th; for(int i = 0; i < np; ++i) th.push_back([&, i] { for(size_t c : posts[i]) { { sched::quiet z; posted += (int)c; } CHECK(sem.Notify(c), "Notify"); } }); for(int i = 0; i < nc; ++i) th.push_back([&, i] { for(int k = 0; k < waits[i]; ++k) { CHECK(sem.Wait(), "Wait"); sched::quiet z; ++taken; CHECK(taken <= posted, "a Wait returned without a Notify"); } });
  sched::run(s, th); CHECK((size_t)taken == total, "waits"); s.note("%zu posts", total); s.nontrivial(total >= 2 && sched::switches() > (uint32_t)(np + nc));
}
// ------------------------------------------------------------------ atomic primitives
template<class T> struct alignas(16) Cell { T pre; T v; T post; };
template<class T> static T mk(pbt::Src& s) { return (T)(s.draw(3) == 0 ? s.draw(4) : s.draw(2) ? s.bits64() : (uint64_t)0 - s.draw(3)); }
template<class T> static void prim(pbt::Src& s)
{
  Cell<T> c; c.pre = mk<T>(s); c.v = mk<T>(s); c.post = mk<T>(s); T pre = c.pre, post = c.post, m = c.v; int ops = 0;
  while(s.more())
  {
    T x = mk<T>(s), o = s.boolean() ? m : mk<T>(s);
    switch(s.draw(5))
    {
    case 0: { T r = atomic_xadd<T>(&c.v, x); CHECK(r == m, "atomic_xadd<%zu> returned the wrong old value", sizeof(T)); m = (T)(m + x); break; }
    case 1: { bool r = asmcas<T>(&c.v, x, o) != 0; CHECK(r == (m == o), "asmcas<%zu> said %d", sizeof(T), r); if(m == o) m = x; break; }
    case 2: { struct { T a, ret, b; } q{ pre, 0, post }; bool r = asmcasr<T>(&c.v, x, o, q.ret); CHECK(r == (m == o), "asmcasr<%zu> said %d", sizeof(T), r); CHECK(q.ret == m, "asmcasr<%zu> returned the wrong old value", sizeof(T)); CHECK(q.a == pre && q.b == post, "asmcasr<%zu> wrote outside its result", sizeof(T)); if(m == o) m = x; break; }
    case 3: if constexpr(sizeof(T) >= 4) { T b = (T)s.draw(sizeof(T) * 8); bool r = asmbts<T>(&c.v, b); CHECK(r == (bool)(m >> b & 1), "asmbts<%zu> bit %d said %d", sizeof(T), (int)b, r); m |= (T)1 << b; } break;
    case 4: if constexpr(sizeof(T) >= 4) { T b = (T)s.draw(sizeof(T) * 8); bool r = asmbtr<T>(&c.v, b); CHECK(r == (bool)(m >> b & 1), "asmbtr<%zu> bit %d said %d", sizeof(T), (int)b, r); m &= ~((T)1 << b); } break;
    }
    CHECK(c.v == m, "the %zu-byte variable has the wrong value", sizeof(T)); CHECK(c.pre == pre && c.post == post, "an operation on a %zu-byte variable changed its neighbour", sizeof(T)); ++ops;
  }
  s.note("%zu bytes, %d ops", sizeof(T), ops); s.nontrivial(ops >= 2);
}
static void prim16(pbt::Src& s)
{
  typedef bss_PTag<char> P; alignas(16) P c = { (char*)s.bits64(), s.bits64() }; P m = c; int ops = 0;
  while(s.more()) { P x = { (char*)s.draw(4), s.draw(4) }, o = s.boolean() ? m : P{ s.boolean() ? m.p : (char*)s.draw(4), s.boolean() ? m.tag : s.draw(4) }, ret = { 0, 0 }; bool eq = m.p == o.p && m.tag == o.tag; if(s.boolean()) { bool r = asmcas<P>(&c, x, o) != 0; CHECK(r == eq, "asmcas<16> said %d", r); } else { bool r = asmcasr<P>(&c, x, o, ret); CHECK(r == eq, "asmcasr<16> said %d", r); CHECK(ret.p == m.p && ret.tag == m.tag, "asmcasr<16> returned the wrong old value"); } if(eq) m = x; CHECK(c.p == m.p && c.tag == m.tag, "value after a 16-byte compare-exchange"); ++ops; }
  s.note("16 bytes, %d ops", ops); s.nontrivial(ops >= 2);
}
PROP(primitives, 1, 0, ">=2 operations") { switch(s.draw(5)) { case 0: prim<uint8_t>(s); break; case 1: prim<uint16_t>(s); break; case 2: prim<uint32_t>(s); break; case 3: prim<uint64_t>(s); break; case 4: prim16(s); break; } }
// real threads: the read-modify-write operations lose no update
PROP(atomicity, 1, 0, ">=2 real threads and >=1000 operations each")
{
  int nt = 2 + (int)s.draw(3); int n = 1000 + (int)s.draw(4000); int kind = (int)s.draw(4); alignas(64) static volatile uint64_t v8; alignas(64) static volatile uint32_t v4; alignas(64) static volatile uint16_t v2; alignas(64) static volatile uint64_t lockw; static volatile uint64_t plain; v8 = 0; v4 = 0; v2 = 0; lockw = 0; plain = 0; uint64_t inc = 1 + s.draw(100);
  std::vector<std::thread> t; std::atomic<int> go{ 0 };
  for(int i = 0; i < nt; ++i) t.emplace_back([&] { ++go; while(go < nt); for(int k = 0; k < n; ++k) switch(kind) { case 0: atomic_xadd<uint64_t>(&v8, inc); atomic_xadd<uint32_t>(&v4, (uint32_t)inc); atomic_xadd<uint16_t>(&v2, (uint16_t)inc); break; case 1: { uint64_t o = v8; while(!asmcas<uint64_t>(&v8, o + inc, o)) o = v8; uint32_t p = v4; while(!asmcas<uint32_t>(&v4, p + (uint32_t)inc, p)) p = v4; uint16_t q = v2; while(!asmcas<uint16_t>(&v2, (uint16_t)(q + inc), q)) q = v2; break; } case 2: { uint64_t o = v8, r = 0; while(!asmcasr<uint64_t>(&v8, o + inc, o, r)) o = r; uint32_t p = v4, q = 0; while(!asmcasr<uint32_t>(&v4, p + (uint32_t)inc, p, q)) p = q; break; } case 3: { while(asmbts<uint64_t>((uint64_t*)&lockw, 37)); uint64_t x = plain; plain = x + inc; asmbtr<uint64_t>((uint64_t*)&lockw, 37); break; } } });
  for(auto& x : t) x.join(); uint64_t want = (uint64_t)nt * n * inc;
  if(kind < 3) { CHECK(v8 == want, "8-byte updates lost"); CHECK(v4 == (uint32_t)want, "4-byte updates lost"); if(kind < 2) CHECK(v2 == (uint16_t)want, "2-byte updates lost"); } else CHECK(plain == want, "a lock made of asmbts and asmbtr let two threads in");
  s.note("%d threads x %d, kind %d", nt, n, kind); s.nontrivial(true);
}
// real threads and the real clock: a join gives up after its timeout, not before and not (much) later
PROP(timed_join, 1, 0, "the first join times out")
{
  size_t ms = 1 + s.draw(s.chance(1, 6) ? 1100 : 40) + 4, later = s.draw(20); bool early = s.chance(1, 4); std::atomic<int> go{ early }, done{ 0 }; s.note("timeout %zu ms, thread ends %s", ms, early ? "at once" : "after it"); Thread t([&] { while(!go) usleep(500); usleep((useconds_t)later * 1000); done = 1; });
  auto now = [] { struct timespec q; clock_gettime(CLOCK_MONOTONIC, &q); return q.tv_sec * 1000. + q.tv_nsec / 1e6; }; if(s.chance(1, 4)) for(struct timespec q;;) { clock_gettime(CLOCK_REALTIME, &q); if(q.tv_nsec / 1e6 > 1000 - ms * .7) { s.label("the deadline is in the next second"); break; } usleep(300); }
  double t0 = now(); size_t r;
  if(!early) { r = t.join(ms); double el = now() - t0; CHECK(r == (size_t)~0 && t.joinable() && !done, "joining a running thread succeeded"); CHECK(el > ms * .8 - 1, "the join gave up after %g ms instead of %zu", el, ms); CHECK(el < ms + 8000, "the join gave up after %g ms instead of %zu", el, ms); s.nontrivial(true); go = 1; }
  r = t.join(30000); CHECK(r == 0 && done, "a join with plenty of time left gave up"); CHECK(!t.joinable(), "still joinable after join");
}
