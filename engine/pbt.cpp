#include "pbt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <atomic>
#include <exception>
#include <typeinfo>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>

using std::string;
using std::vector;

namespace pbt {
  static const size_t MAXC = 1 << 16;
  static const size_t MAXNOTE = 1 << 16;
  static const int NLAB = 96;
  static const size_t HSLOTS = 1 << 22;
  static const int MAXW = 16;

  struct WorkerShm
  {
    std::atomic<uint64_t> heartbeat; // number of cases started
    std::atomic<uint32_t> nchoice;
    std::atomic<uint32_t> incase;
    uint64_t choice[MAXC];
    uint32_t failed; // a CHECK failed / leak / exception
    uint32_t kind;
    char msg[4096];
    uint32_t nnote;
    char notes[MAXNOTE];
    uint64_t evals, discards, fails, exhausted, corpus;
    uint64_t caseid;
  };
  struct Label { std::atomic<uint64_t> tag; char name[48]; std::atomic<uint64_t> count; };
  struct Shared
  {
    WorkerShm w[MAXW + 1];
    Label labels[NLAB];
    std::atomic<uint64_t> distinct;
    std::atomic<uint64_t> nontriv;
    std::atomic<uint32_t> nsamples;
    char samples[8][4096];
    std::atomic<uint32_t> stop;
    std::atomic<uint64_t> hset[HSLOTS];
  };
  static Shared* G;
  static WorkerShm* W; // mine
  static Sub* g_subs;
  static bool g_cov = false;

  Reg::Reg(Sub* s) { Sub** p = &g_subs; while(*p) p = &(*p)->next; *p = s; }

  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

  uint64_t Src::_next()
  {
    uint64_t s1 = _rng[0]; const uint64_t s0 = _rng[1];
    _rng[0] = s0; s1 ^= s1 << 23; _rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return _rng[1] + s0;
  }
  uint64_t Src::draw(uint64_t n)
  {
    uint64_t v;
    if(_pos < _npre) v = _pre[_pos];
    else v = _tailzero ? 0 : _next();
    if(n) v = (n == 1) ? 0 : (v < n ? v : ((_pos < _npre) ? v % n : (uint64_t)(((unsigned __int128)_next() * n) >> 64)));
    if(_pos >= MAXC) { W->exhausted++; discard(); }
    W->choice[_pos++] = v;
    W->nchoice.store((uint32_t)_pos, std::memory_order_relaxed);
    return v;
  }
  bool Src::more() { return more(_scale); }
  bool Src::more(uint32_t mean)
  {
    bool r = draw((uint64_t)mean + 1) != 0;
    W->choice[_pos - 1] = r; // recorded as 0/1, so that a replay does not depend on the length scale
    return r;
  }
  int Src::pick(std::initializer_list<uint32_t> w)
  {
    uint64_t t = 0; for(uint32_t x : w) t += x;
    uint64_t v = draw(t); int i = 0;
    for(uint32_t x : w) { if(v < x) return i; v -= x; ++i; }
    return 0;
  }
  uint64_t Src::swarm(int n)
  {
    uint64_t all = n >= 64 ? ~0ull : ((1ull << n) - 1);
    if(draw(3) < 2) return all; // a third of the cases restrict the operation set
    uint64_t m = draw(0) & all;
    return m ? m : all;
  }
  int64_t Src::edgy(int64_t lo, int64_t hi)
  {
    switch(draw(8))
    {
    case 0: { int64_t v = (lo <= 0 && hi >= 0) ? 0 : lo; return v; }
    case 1: return lo;
    case 2: return hi;
    case 3: { uint64_t k = draw(4); uint64_t sp = (uint64_t)hi - (uint64_t)lo; return (int64_t)((uint64_t)lo + std::min<uint64_t>(k, sp)); }
    case 4: { uint64_t k = draw(4); uint64_t sp = (uint64_t)hi - (uint64_t)lo; return (int64_t)((uint64_t)hi - std::min<uint64_t>(k, sp)); }
    case 5: { int64_t k = (int64_t)draw(33) - 16; return (k < lo) ? lo : (k > hi ? hi : k); }
    case 6: { uint64_t p = 1ull << draw(64); int64_t k = (int64_t)(p + (uint64_t)((int64_t)draw(3) - 1)); if(boolean()) k = (int64_t)(0 - (uint64_t)k); return (k < lo) ? lo : (k > hi ? hi : k); }
    default: { uint64_t sp = (uint64_t)hi - (uint64_t)lo + 1; return (int64_t)((uint64_t)lo + draw(sp)); }
    }
  }
  uint64_t Src::bits64()
  {
    switch(draw(5))
    {
    case 0: return draw(17);
    case 1: return (1ull << draw(64)) + draw(3) - 1;
    case 2: return ~draw(17);
    case 3: { uint64_t v = draw(0); return v >> draw(64); }
    default: return draw(0);
    }
  }
  double Src::real(double lo, double hi)
  {
    switch(draw(6))
    {
    case 0: { double k = (double)((int64_t)draw(9) - 4); return k < lo ? lo : (k > hi ? hi : k); }
    case 1: return lo;
    case 2: return hi;
    case 3: { double k = ((int64_t)draw(65) - 32) / 4.0; return k < lo ? lo : (k > hi ? hi : k); }
    default: return lo + (hi - lo) * (draw(1ull << 40) / (double)(1ull << 40));
    }
  }
  string Src::bytes(int maxlen, int kind)
  {
    string r;
    uint32_t m = (uint32_t)std::min<int64_t>(maxlen, 1 + (int64_t)draw(3) * 8);
    while((int)r.size() < maxlen && more(m))
    {
      switch(kind)
      {
      case 0: r += (char)('a' + draw(3)); break;                      // tiny alphabet
      case 1: r += (char)(32 + draw(95)); break;                      // printable
      case 2: r += (char)(1 + draw(255)); break;                      // any nonzero byte
      case 3: r += (char)draw(256); break;                            // any byte
      default: { static const char set[] = "aB01_-.,:;=+*/\\\"'<>[]{}() \t\n&#%@!?"; r += set[draw(sizeof(set) - 1)]; break; }
      }
    }
    return r;
  }
  void Src::label(const char* l)
  {
    uint64_t h = 1469598103934665603ull; for(const char* p = l; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    if(!h) h = 1;
    for(int i = 0, j = h % NLAB; i < NLAB; ++i, j = (j + 1) % NLAB)
    {
      uint64_t c = G->labels[j].tag.load();
      if(c == 0) { if(G->labels[j].tag.compare_exchange_strong(c, h)) { strncpy(G->labels[j].name, l, 47); c = h; } }
      if(c == h) { G->labels[j].count++; return; }
    }
  }
  void Src::note(const char* fmt, ...)
  {
    if(!_verbose || W->nnote >= MAXNOTE - 2) return;
    va_list a; va_start(a, fmt);
    int r = vsnprintf(W->notes + W->nnote, MAXNOTE - W->nnote - 1, fmt, a);
    va_end(a);
    if(r > 0) W->nnote = std::min<uint32_t>(W->nnote + r, MAXNOTE - 2);
    W->notes[W->nnote++] = '\n'; W->notes[W->nnote] = 0;
    if(W->nnote >= MAXNOTE - 1) W->nnote = MAXNOTE - 2;
  }
  void discard() { throw Discard(); }
  void fail(const char* file, int line, const char* fmt, ...)
  {
    const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
    int n = snprintf(W->msg, sizeof(W->msg), "%s:%d: ", b, line);
    va_list a; va_start(a, fmt); vsnprintf(W->msg + n, sizeof(W->msg) - n, fmt, a); va_end(a);
    W->failed = 1; W->kind = 1;
    _exit(77);
  }

  // ---- allocation accounting ----
  static thread_local int t_dummy;
  static std::atomic<long> g_live(0);
  static void mhook(const volatile void* p, size_t) { if(p) g_live.fetch_add(1, std::memory_order_relaxed); }
  static void fhook(const volatile void* p) { if(p) g_live.fetch_sub(1, std::memory_order_relaxed); }
  static long g_live0;
  long live_allocs() { return g_live.load() - g_live0; }
  void count_alloc_begin() { g_live0 = g_live.load(); }

  // ---- coverage ----
  static uint8_t cmap[1 << 16];
  static uint32_t touched[1 << 16]; static uint32_t ntouched;
  static uint8_t seen[1 << 16];
  static uintptr_t covprev;
  static bool covon;
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc()
{
  using namespace pbt;
  if(!covon) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  uint32_t i = (uint32_t)(((pc ^ (covprev >> 1)) * 0x9E3779B1u) >> 7) & 0xFFFF;
  covprev = pc;
  if(cmap[i] == 0) touched[ntouched++] = i;
  if(cmap[i] != 255) cmap[i]++;
}
extern "C" __attribute__((weak)) const char* pbt_property_id();

namespace pbt {
  static int bucket(uint8_t c) { return c <= 3 ? c - 1 : c < 8 ? 3 : c < 16 ? 4 : c < 32 ? 5 : c < 128 ? 6 : 7; }
  static bool covcollect()
  {
    bool fresh = false;
    for(uint32_t k = 0; k < ntouched; ++k)
    {
      uint32_t i = touched[k]; uint8_t b = (uint8_t)(1 << bucket(cmap[i]));
      if(!(seen[i] & b)) { seen[i] |= b; fresh = true; }
      cmap[i] = 0;
    }
    ntouched = 0; covprev = 0;
    return fresh;
  }

  static void seedrng(Src& s, uint64_t a) { s._rng[0] = mix(a); s._rng[1] = mix(a ^ 0xD1B54A32D192ED03ull); if(!s._rng[0] && !s._rng[1]) s._rng[1] = 1; }
  static void initsrc(Src& s) { s._pre = 0; s._npre = 0; s._tailzero = false; s._pos = 0; s._scale = 16; s._nontrivial = false; s._verbose = false; s._key = 0x1234567; }

  // runs one case in this process. returns 0 ok, 1 discard. failures do not return.
  static int runcase(Sub* sub, Src& s)
  {
    W->nchoice.store(0); W->failed = 0; W->nnote = 0; W->notes[0] = 0; W->msg[0] = 0;
    W->incase.store(1);
    int rc = 0;
    count_alloc_begin();
    try { covon = g_cov; sub->fn(s); covon = false; }
    catch(Discard&) { covon = false; rc = 1; }
    catch(std::exception& e) { covon = false; fail("uncaught", 0, "uncaught exception %s: %s", typeid(e).name(), e.what()); }
    catch(...) { covon = false; fail("uncaught", 0, "uncaught exception"); }
    return rc;
  }
  static const uint32_t SCALES[] = { 3, 6, 12, 24, 48, 100, 200 };
  static int rerun(Sub* sub, const uint64_t* c, size_t n, bool verbose)
  {
    Src s; initsrc(s); s._pre = c; s._npre = n; s._tailzero = true; s._verbose = verbose;
    int r = runcase(sub, s);
    return r;
  }
  static bool g_verboseleak;
  static void checkleak(Sub* sub)
  {
    if(!(sub->flags & LEAKCHECK) || live_allocs() <= 0) return;
    vector<uint64_t> c(W->choice, W->choice + W->nchoice.load());
    for(int i = 0; i < 3; ++i) { rerun(sub, c.data(), c.size(), g_verboseleak); if(live_allocs() <= 0) return; }
    long l = live_allocs();
    fail("leak", 0, "memory leak: %ld allocation(s) made during the case were still live at its end", l);
  }

  // ---- worker: runs case ids start, start+step, ... until stop ----
  static void worker(Sub* sub, uint64_t seed, uint64_t& next, uint64_t step, double deadline)
  {
    struct Entry { vector<uint64_t> c; uint32_t scale; };
    vector<Entry> corpus;
    Src meta; initsrc(meta); seedrng(meta, seed * 77 + next + 5);
    bool usecov = g_cov && !(sub->flags & NOCOV);
    while(!G->stop.load() && now() < deadline)
    {
      uint64_t id = next; next += step; W->caseid = next;
      Src s; initsrc(s);
      uint64_t h = mix(seed ^ mix(id));
      seedrng(s, h);
      s._scale = SCALES[h % (sizeof(SCALES) / sizeof(*SCALES))];
      vector<uint64_t> pre;
      if(usecov && corpus.size() > 4 && (meta._next() % 100) < 45)
      {
        const Entry& e = corpus[(meta._next() % 3 == 0) ? meta._next() % corpus.size() : corpus.size() - 1 - (meta._next() % std::min<size_t>(corpus.size(), 32))];
        pre = e.c; s._scale = e.scale;
        int nm = 1 + meta._next() % 4;
        for(int k = 0; k < nm && !pre.empty(); ++k)
        {
          size_t p = meta._next() % pre.size();
          switch(meta._next() % 7)
          {
          case 0: pre[p] = meta._next(); break;
          case 1: pre[p] = pre[p] + 1; break;
          case 2: if(pre[p]) pre[p]--; break;
          case 3: pre.resize(p); break;
          case 4: { size_t n = 1 + meta._next() % 8; pre.erase(pre.begin() + p, pre.begin() + std::min(pre.size(), p + n)); break; }
          case 5: { size_t n = std::min<size_t>(pre.size() - p, 1 + meta._next() % 16); vector<uint64_t> b(pre.begin() + p, pre.begin() + p + n); size_t q = meta._next() % (pre.size() + 1); pre.insert(pre.begin() + q, b.begin(), b.end()); break; }
          case 6: { const Entry& o = corpus[meta._next() % corpus.size()]; size_t q = meta._next() % (o.c.size() + 1); pre.resize(p); pre.insert(pre.end(), o.c.begin() + q, o.c.end()); break; }
          }
          if(pre.size() > 20000) pre.resize(20000);
        }
        s._pre = pre.data(); s._npre = pre.size();
      }
      W->heartbeat++;
      int rc = runcase(sub, s);
      size_t n = W->nchoice.load();
      bool fresh = g_cov ? covcollect() : false;
      if(rc == 1) { W->discards++; W->incase.store(0); continue; }
      checkleak(sub);
      W->evals++;
      if(usecov && fresh && n < 8000)
      {
        corpus.push_back(Entry{ vector<uint64_t>(W->choice, W->choice + n), s._scale });
        if(corpus.size() > 400) corpus.erase(corpus.begin(), corpus.begin() + 100);
        W->corpus++;
      }
      if(s._nontrivial)
      {
        G->nontriv++;
        uint64_t k = 0x51ED270B; for(size_t i = 0; i < n; ++i) k = mix(k ^ W->choice[i]);
        k = mix(k ^ s._key); if(!k) k = 1;
        bool isnew = false;
        for(size_t j = k & (HSLOTS - 1), t = 0; t < 64; ++t, j = (j + 1) & (HSLOTS - 1))
        {
          uint64_t c = G->hset[j].load(std::memory_order_relaxed);
          if(c == 0 && G->hset[j].compare_exchange_strong(c, k)) { G->distinct++; isnew = true; break; }
          if(c == k) break;
        }
        uint64_t d = G->distinct.load();
        if(isnew && G->nsamples.load() < 6 && (d == 3 || d == 40 || d == 400 || d == 4000 || d == 20000))
        {
          uint32_t slot = G->nsamples.fetch_add(1);
          if(slot < 6)
          {
            vector<uint64_t> c(W->choice, W->choice + n);
            rerun(sub, c.data(), c.size(), true);
            strncpy(G->samples[slot], W->notes, 4095);
          }
        }
      }
      W->incase.store(0);
    }
  }

  static string g_scratch;
  static void childsetup(int idx)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    string p = g_scratch + "/err" + std::to_string(idx);
    int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    int nul = open("/dev/null", O_RDONLY); if(nul >= 0) { dup2(nul, 0); close(nul); }
    rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 256u << 20; setrlimit(RLIMIT_FSIZE, &rl);
    W = &G->w[idx];
    if(__sanitizer_install_malloc_and_free_hooks) { static bool once = false; if(!once) { once = true; __sanitizer_install_malloc_and_free_hooks(mhook, fhook); } }
  }
  static string readerr(int idx, size_t max = 3000)
  {
    string p = g_scratch + "/err" + std::to_string(idx), r; FILE* f = fopen(p.c_str(), "rb"); if(!f) return r;
    char buf[4096]; size_t n; while(r.size() < 200000 && (n = fread(buf, 1, sizeof(buf), f)) > 0) r.append(buf, n);
    fclose(f);
    size_t a = r.find("ERROR: AddressSanitizer"); if(a == string::npos) a = r.find("Assertion"); if(a == string::npos) a = 0; else a = a > 120 ? a - 120 : 0;
    return r.substr(a, max);
  }
  static double cputime(pid_t p)
  {
    char path[64]; snprintf(path, 64, "/proc/%d/stat", p); FILE* f = fopen(path, "r"); if(!f) return 0;
    char b[1024]; size_t n = fread(b, 1, 1023, f); fclose(f); b[n] = 0; char* q = strrchr(b, ')'); if(!q) return 0;
    unsigned long ut = 0, st = 0; sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
    return (ut + st) / (double)sysconf(_SC_CLK_TCK);
  }
  static double rssmb(pid_t p)
  {
    char path[64]; snprintf(path, 64, "/proc/%d/statm", p); FILE* f = fopen(path, "r"); if(!f) return 0;
    long a = 0, b = 0; if(fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return b * 4096.0 / 1048576.0;
  }
  static const double CASE_CPU = 10.0;   // CPU seconds before a case counts as hung (confirmed in fresh processes)
  static const double MAX_RSS = 6000;

  enum { K_OK = 0, K_CHECK = 1, K_CRASH = 2, K_HANG = 3, K_MEM = 4 };
  struct Result { int kind; string msg; vector<uint64_t> used; string notes; };

  // run one choice sequence in a fresh process
  static Result isolated(Sub* sub, const vector<uint64_t>& c, bool verbose, double cpu)
  {
    int idx = MAXW;
    WorkerShm* w = &G->w[idx];
    w->failed = 0; w->nchoice = 0; w->nnote = 0; w->notes[0] = 0; w->msg[0] = 0;
    fflush(0);
    pid_t p = fork();
    if(p == 0)
    {
      childsetup(idx);
      rlimit rl; rl.rlim_cur = (rlim_t)cpu + 1; rl.rlim_max = (rlim_t)cpu + 2; setrlimit(RLIMIT_CPU, &rl);
      g_verboseleak = verbose; rerun(sub, c.data(), c.size(), verbose);
      checkleak(sub);
      _exit(0);
    }
    Result r; int st = 0; bool killed = false, mem = false; double t0 = now();
    int spins = 0;
    for(;;)
    {
      pid_t q = waitpid(p, &st, WNOHANG);
      if(q == p) break;
      usleep(spins++ < 200 ? 100 : 2000);
      if((spins & 31) == 0 && spins > 200)
      {
        if(cputime(p) > cpu || now() - t0 > cpu * 6 + 30) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
        if(rssmb(p) > MAX_RSS) { kill(p, SIGKILL); waitpid(p, &st, 0); mem = true; break; }
      }
    }
    r.used.assign(w->choice, w->choice + std::min<size_t>(w->nchoice.load(), MAXC));
    r.notes = w->notes;
    if(killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU))) { r.kind = K_HANG; r.msg = "case did not terminate"; }
    else if(mem) { r.kind = K_MEM; r.msg = "case consumed unbounded memory"; }
    else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) r.kind = K_OK;
    else if(WIFEXITED(st) && WEXITSTATUS(st) == 77 && w->failed) { r.kind = K_CHECK; r.msg = w->msg; }
    else if(WIFSIGNALED(st)) { r.kind = K_CRASH; r.msg = "killed by signal " + std::to_string(WTERMSIG(st)) + "\n" + readerr(idx); }
    else { r.kind = K_CRASH; r.msg = "abnormal exit " + std::to_string(WEXITSTATUS(st)) + "\n" + readerr(idx); }
    return r;
  }

  static Result shrink(Sub* sub, Result cur, double budget)
  {
    double end = now() + budget; int runs = 0;
    double cpu = cur.kind == K_HANG ? 4 : CASE_CPU;
    auto attempt = [&](const vector<uint64_t>& c) -> bool {
      if(now() > end) return false;
      ++runs;
      Result r = isolated(sub, c, false, cpu);
      if(r.kind != cur.kind) return false;
      vector<uint64_t> u = r.used.size() <= c.size() ? r.used : c;
      if(u.size() < cur.used.size() || (u.size() == cur.used.size() && u < cur.used)) { cur = r; cur.used = u; return true; }
      return false;
    };
    bool progress = true;
    while(progress && now() < end)
    {
      progress = false;
      for(size_t len : { (size_t)4096, (size_t)1024, (size_t)256, (size_t)64, (size_t)32, (size_t)16, (size_t)8, (size_t)6, (size_t)5, (size_t)4, (size_t)3, (size_t)2, (size_t)1 })
      {
        for(size_t i = cur.used.size(); i-- > 0 && now() < end;)
        {
          if(i + len > cur.used.size()) { if(len > cur.used.size()) break; i = cur.used.size() - len; }
          vector<uint64_t> c = cur.used; c.erase(c.begin() + i, c.begin() + i + len);
          if(attempt(c)) progress = true; else i = i >= (len > 1 ? len / 2 : 0) ? i - (len > 1 ? len / 2 : 0) : 0;
          if(i == 0) break;
        }
      }
      for(size_t len : { (size_t)16, (size_t)4, (size_t)1 })
        for(size_t i = 0; i + len <= cur.used.size() && now() < end; i += len)
        {
          vector<uint64_t> c = cur.used; bool nz = false; for(size_t k = 0; k < len; ++k) { nz |= c[i + k] != 0; c[i + k] = 0; }
          if(nz && attempt(c)) progress = true;
        }
      for(size_t i = 0; i < cur.used.size() && now() < end; ++i)
      {
        uint64_t lo = 0; // binary search the smallest failing value (assumes monotone; harmless otherwise)
        for(int k = 0; k < 64 && i < cur.used.size() && cur.used[i] > lo && now() < end; ++k)
        {
          uint64_t mid = lo + (cur.used[i] - lo) / 2;
          vector<uint64_t> c = cur.used; c[i] = mid;
          if(attempt(c)) progress = true; else lo = mid + 1;
        }
      }
    }
    fprintf(stderr, "shrink: %d candidate runs, %zu choices left\n", runs, cur.used.size());
    return cur;
  }

  static string jesc(const string& s)
  {
    string r; char b[8];
    for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if(c == '\n') r += "\\n"; else if(c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; }
    return r;
  }

  struct SubStats { uint64_t evals, discards, distinct, nontriv, corpus, unconfirmed; double secs; vector<string> samples; std::map<string, uint64_t> labels; };

  static bool writereplay(const string& path, const char* prop, Sub* sub, const Result& r)
  {
    FILE* f = fopen(path.c_str(), "w"); if(!f) return false;
    fprintf(f, "property %s\nsub %s\nkind %d\nchoices %zu", prop, sub->name, r.kind, r.used.size());
    for(uint64_t v : r.used) fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\n\n--- failure ---\n%s\n--- minimal case ---\n%s\n", r.msg.c_str(), r.notes.c_str());
    fclose(f); return true;
  }

  // returns true if violation found (result in out)
  static bool runsub(Sub* sub, uint64_t seed, double secs, int nw, SubStats& st, Result& out, double shrinkbudget)
  {
    memset((void*)G->labels, 0, sizeof(G->labels)); memset((void*)G->hset, 0, sizeof(G->hset)); memset(G->samples, 0, sizeof(G->samples));
    G->distinct = 0; G->nontriv = 0; G->nsamples = 0; G->stop = 0;
    for(int i = 0; i <= MAXW; ++i) { WorkerShm* w = &G->w[i]; w->heartbeat = 0; w->evals = w->discards = w->fails = w->exhausted = w->corpus = 0; w->incase = 0; w->nchoice = 0; }
    double t0 = now(), deadline = t0 + secs;
    uint64_t sseed = seed; for(const char* p = sub->name; *p; ++p) sseed = mix(sseed ^ (unsigned char)*p);
    vector<pid_t> pid(nw); vector<uint64_t> next(nw), beat(nw, 0); vector<double> beatcpu(nw, 0);
    vector<bool> live(nw, true);
    auto spawn = [&](int i) {
      fflush(0);
      G->w[i].caseid = next[i]; G->w[i].incase = 0; G->w[i].failed = 0;
      pid_t p = fork();
      if(p == 0) { childsetup(i); uint64_t n = next[i]; worker(sub, sseed, n, nw, deadline); _exit(0); }
      pid[i] = p; beat[i] = 0; beatcpu[i] = 0;
    };
    for(int i = 0; i < nw; ++i) { next[i] = i; spawn(i); }
    bool found = false; st.unconfirmed = 0;
    int nlive = nw; int tick = 0; int suspects = 0;
    vector<std::pair<vector<uint64_t>, string>> cand;
    while(nlive > 0)
    {
      usleep(5000); ++tick;
      for(int i = 0; i < nw; ++i)
      {
        if(!live[i]) continue;
        int status = 0; pid_t q = waitpid(pid[i], &status, WNOHANG); WorkerShm* w = &G->w[i];
        bool suspicious = false; double needcpu = CASE_CPU;
        if(q == pid[i])
        {
          if(WIFEXITED(status) && WEXITSTATUS(status) == 0) { live[i] = false; --nlive; continue; }
          suspicious = true;
        }
        else if((tick % 40) == 0)
        {
          uint64_t hb = w->heartbeat.load(); double c = cputime(pid[i]);
          if(hb != beat[i]) { beat[i] = hb; beatcpu[i] = c; }
          else if(w->incase && c - beatcpu[i] > CASE_CPU) { kill(pid[i], SIGKILL); waitpid(pid[i], &status, 0); suspicious = true; }
          else if(rssmb(pid[i]) > MAX_RSS) { kill(pid[i], SIGKILL); waitpid(pid[i], &status, 0); suspicious = true; }
          else if(now() > deadline + 60 && c - beatcpu[i] < 1 && now() > deadline + 200) { kill(pid[i], SIGKILL); waitpid(pid[i], &status, 0); suspicious = true; }
        }
        if(!suspicious) continue;
        if(w->incase)
        {
          vector<uint64_t> c(w->choice, w->choice + std::min<size_t>(w->nchoice.load(), MAXC));
          Result r = isolated(sub, c, false, needcpu);
          if(r.kind == K_OK) { r = isolated(sub, c, false, needcpu); }
          if(r.kind != K_OK)
          {
            r.used = c.size() < r.used.size() || r.used.empty() ? c : r.used;
            G->stop = 1; found = true; out = r;
            if(out.used.size() > c.size()) out.used = c;
          }
          else
          {
            st.unconfirmed++; ++suspects;
            fprintf(stderr, "note: worker %d died in %s but the case does not fail on its own (status %x): %s %s\n", i, sub->name, status, w->msg, readerr(i, 600).c_str());
          }
        }
        else { ++suspects; fprintf(stderr, "note: worker %d of %s died outside a case (status %x)\n", i, sub->name, status); }
        if(found) { for(int k = 0; k < nw; ++k) if(live[k]) { kill(pid[k], SIGKILL); waitpid(pid[k], &status, 0); live[k] = false; } nlive = 0; break; }
        next[i] = w->caseid;
        if(now() < deadline && suspects < 200) spawn(i); else { live[i] = false; --nlive; }
      }
    }
    st.secs = now() - t0; st.evals = st.discards = st.corpus = 0;
    for(int i = 0; i < nw; ++i) { st.evals += G->w[i].evals; st.discards += G->w[i].discards; st.corpus += G->w[i].corpus; }
    st.distinct = G->distinct; st.nontriv = G->nontriv;
    for(uint32_t i = 0; i < std::min<uint32_t>(6, G->nsamples); ++i) if(G->samples[i][0]) st.samples.push_back(G->samples[i]);
    for(int i = 0; i < NLAB; ++i) if(G->labels[i].tag) st.labels[G->labels[i].name] = G->labels[i].count;
    if(found)
    {
      Result orig = out; out = shrink(sub, out, shrinkbudget);
      // confirm three times in fresh processes, with the human-readable trace; a case that depends on something else as well (the clock) may only fail reliably before shrinking
      auto confirm = [&](Result& c) { int ok = 0; Result r; for(int k = 0; k < 3; ++k) { r = isolated(sub, c.used, true, CASE_CPU); if(r.kind != K_OK) ++ok; } vector<uint64_t> u = c.used; if(ok == 3) { c = r; c.used = u; return true; } fprintf(stderr, "note: candidate in %s reproduced only %d/3 times\n", sub->name, ok); return false; };
      if(!confirm(out))
      {
        if(confirm(orig)) { out = orig; return true; }
        static int retries = 0; st.unconfirmed++;
        if(now() > deadline - .5 || ++retries > 12) return false;
        SubStats prev = st; bool f = runsub(sub, mix(seed + 0x9e37), deadline - now(), nw, st, out, std::min(shrinkbudget, 5.)); // keep searching
        st.evals += prev.evals; st.discards += prev.discards; st.nontriv += prev.nontriv; st.distinct += prev.distinct; st.unconfirmed += prev.unconfirmed; st.secs += prev.secs; for(auto& l : prev.labels) st.labels[l.first] += l.second;
        return f;
      }
    }
    return found;
  }
}

using namespace pbt;
extern "C" __attribute__((weak)) void pbt_setup(); // a harness may define this to fill process-wide pools before anything is counted
int main(int argc, char** argv)
{
  if(pbt_setup) // tried in a child first: code that breaks here breaks in the generated cases too, where it is reported
  {
    fflush(0); pid_t p = fork(); if(p == 0) { int fd = open("/dev/null", O_WRONLY); if(fd >= 0) { dup2(fd, 1); dup2(fd, 2); } alarm(60); pbt_setup(); _exit(0); }
    int st = 1; if(p > 0) waitpid(p, &st, 0);
    if(st == 0) pbt_setup();
  }
  string prop = "P00", tier = "quick", evidence, replaydir = ".", replay, only, level = "exploration", assumptions;
  double budget = 20; uint64_t seed = 1; int nw = 8; bool list = false;
  for(int i = 1; i < argc; ++i)
  {
    string a = argv[i]; auto val = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
    if(a == "--prop") prop = val(); else if(a == "--tier") tier = val(); else if(a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if(a == "--budget") budget = atof(val().c_str()); else if(a == "--evidence") evidence = val(); else if(a == "--replaydir") replaydir = val();
    else if(a == "--replay") replay = val(); else if(a == "--only") only = val(); else if(a == "--workers") nw = atoi(val().c_str());
    else if(a == "--cov") g_cov = true; else if(a == "--scratch") g_scratch = val(); else if(a == "--list") list = true;
    else if(a == "--assume") assumptions += (assumptions.empty() ? "" : ", ") + string("\"") + jesc(val()) + "\"";
  }
  if(nw < 1) nw = 1; if(nw > MAXW) nw = MAXW;
  if(list) { for(Sub* s = g_subs; s; s = s->next) printf("%s\n", s->name); return 0; }
  signal(SIGPIPE, SIG_IGN);
  if(g_scratch.empty()) { g_scratch = "/tmp/pbt." + std::to_string(getpid()); }
  mkdir(g_scratch.c_str(), 0700);
  if(chdir(g_scratch.c_str())) return 3;
  G = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(G == MAP_FAILED) { perror("mmap"); return 3; }
  W = &G->w[MAXW];
  double t0 = now();
  if(!replay.empty())
  {
    FILE* f = fopen(replay.c_str(), "r"); if(!f) { perror("replay"); return 3; }
    char p[64], sn[128]; int kind; size_t n;
    if(fscanf(f, "property %63s sub %127s kind %d choices %zu", p, sn, &kind, &n) != 4) return 3;
    vector<uint64_t> c(n); for(auto& v : c) { unsigned long long x; if(fscanf(f, "%llu", &x) != 1) return 3; v = x; }
    fclose(f);
    for(Sub* s = g_subs; s; s = s->next) if(string(sn) == s->name)
    {
      Result r = isolated(s, c, true, CASE_CPU);
      printf("%s\n%s\n%s\n", r.kind == K_OK ? "PASSES" : "FAILS", r.msg.c_str(), r.notes.c_str());
      return r.kind == K_OK ? 0 : 1;
    }
    return 3;
  }
  double tw = 0; for(Sub* s = g_subs; s; s = s->next) if(only.empty() || only == s->name) tw += s->weight;
  string subs, samples, rules; uint64_t ev = 0, dn = 0, disc = 0; int viol = 0; string first;
  for(Sub* s = g_subs; s; s = s->next)
  {
    if(!only.empty() && only != s->name) continue;
    SubStats st; Result r; 
    bool bad = runsub(s, seed, budget * s->weight / tw, nw, st, r, tier == "quick" ? 40 : 120);
    ev += st.evals; dn += st.distinct; disc += st.discards;
    fprintf(stderr, "%-28s evals %-9llu nontrivial %-9llu distinct %-9llu discards %-7llu corpus %-6llu %.1fs%s\n", s->name, (unsigned long long)st.evals, (unsigned long long)st.nontriv, (unsigned long long)st.distinct, (unsigned long long)st.discards, (unsigned long long)st.corpus, st.secs, bad ? "  VIOLATION" : "");
    for(auto& l : st.labels) fprintf(stderr, "      %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    string lab; for(auto& l : st.labels) lab += (lab.empty() ? "" : ", ") + string("\"") + jesc(l.first) + "\": " + std::to_string(l.second);
    subs += (subs.empty() ? "" : ",\n   ") + string("{\"name\": \"") + s->name + "\", \"evaluations\": " + std::to_string(st.evals) + ", \"nontrivial\": " + std::to_string(st.nontriv) + ", \"distinct_nontrivial\": " + std::to_string(st.distinct) + ", \"discards\": " + std::to_string(st.discards) + ", \"coverage_corpus\": " + std::to_string(st.corpus) + ", \"unconfirmed\": " + std::to_string(st.unconfirmed) + ", \"labels\": {" + lab + "}}";
    rules += (rules.empty() ? "" : " | ") + string(s->name) + ": " + s->rule;
    int k = 0; for(auto& x : st.samples) if(k++ < 2) samples += (samples.empty() ? "" : ",\n   ") + string("{\"sub\": \"") + s->name + "\", \"case\": \"" + jesc(x.substr(0, 900)) + "\"}";
    if(bad)
    {
      string path = replaydir + "/" + prop + "-" + s->name + ".replay";
      writereplay(path, prop.c_str(), s, r);
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
      printf("  sub-check %s: %s\n%s\n", s->name, r.msg.c_str(), r.notes.substr(0, 4000).c_str());
      fflush(stdout);
      viol++;
      break;
    }
  }
  double wall = now() - t0;
  if(!evidence.empty())
  {
    string tmp = evidence + ".tmp"; FILE* f = fopen(tmp.c_str(), "w");
    if(!f) { perror("evidence"); return 3; }
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": \"%s\",\n  \"discards\": %llu,\n  \"subchecks\": [\n   %s\n  ],\n  \"samples\": [\n   %s\n  ]\n },\n \"assumptions\": [%s],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n",
      prop.c_str(), tier.c_str(), (unsigned long long)seed, level.c_str(), (unsigned long long)ev, (unsigned long long)dn, jesc(rules).c_str(), (unsigned long long)disc, subs.c_str(), samples.c_str(), assumptions.c_str(), wall, viol);
    fclose(f); rename(tmp.c_str(), evidence.c_str());
  }
  return viol ? 1 : 0;
}
