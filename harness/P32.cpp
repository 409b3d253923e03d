// P32: logger, profiler and small system services against the text and numbers they should produce.
// MODE: asan
// LIBS: Logger.cpp profiler.cpp HighPrecisionTimer.cpp bss_util.cpp bss_util_c.c ConvertUTF.c
// ASSUME: entries exactly at the maximum level are not judged (header and code disagree); a stream is not both target and assimilated; a moved-from logger is only destroyed or assigned; at most 15 profile points; clock, time of day and font configuration are stand-ins; log files live in a scratch directory
#include "tracked.h"
#include "pbt.h"
#include "bss-util/bss_util.h"
#include "bss-util/Logger.h"
#include "bss-util/stream.h"
#include "bss-util/Profiler.h"
#include "bss-util/os.h"
#include "bss-util/bss_util_c.h"
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
using namespace bss;

static bool virt = false;
static uint64_t vnow = 0;
static int64_t vtime = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
  if(virt) { ts->tv_sec = vnow / 1000000000; ts->tv_nsec = vnow % 1000000000; return 0; }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" time_t time(time_t* t) noexcept
{
  time_t r;
  if(virt) r = vtime;
  else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
  if(t) *t = r;
  return r;
}
struct Virt { Virt() { virt = true; } ~Virt() { virt = false; } };

// font configuration stand-in: the "match" is whatever file the case chose
static std::string fcFile; static bool fcMatch = true; static int fcLive = 0;
extern "C" {
  void* FcInitLoadConfigAndFonts() { return (void*)&fcFile; }
  void* FcNameParse(const unsigned char*) { ++fcLive; return (void*)&fcLive; }
  int FcConfigSubstitute(void*, void*, int) { return 1; }
  void FcDefaultSubstitute(void*) {}
  void* FcFontMatch(void*, void*, int*) { if(!fcMatch) return nullptr; ++fcLive; return (void*)&fcLive; }
  int FcPatternGetString(void*, const char*, int, unsigned char** s) { if(fcFile.empty()) return 1; *s = (unsigned char*)&fcFile[0]; return 0; }
  void FcPatternDestroy(void*) { --fcLive; }
}

static char scratch[64];
static std::string logFile(int i)
{
  static pid_t owner = 0;
  if(!scratch[0] || owner != getpid())
  {
    strcpy(scratch, "./p32-XXXXXX");
    if(!mkdtemp(scratch)) abort();
    owner = getpid();
  }
  return std::string(scratch) + "/log" + char('0' + i);
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); return ss.str(); }

static void zone(int minutes)
{ // POSIX TZ has the opposite sign
  char b[32];
  int m = -minutes;
  snprintf(b, sizeof b, "XXX%c%d:%02d", m < 0 ? '-' : '+', abs(m) / 60, abs(m) % 60);
  setenv("TZ", b, 1);
  tzset();
}
static std::string dateText(int64_t t, int tz, bool timeonly)
{
  time_t x = t + tz * 60;
  struct tm r; gmtime_r(&x, &r);
  char b[64];
  if(timeonly) snprintf(b, sizeof b, "%d:%02d:%02d", r.tm_hour, r.tm_min, r.tm_sec);
  else snprintf(b, sizeof b, "%04d-%02d-%02d %d:%02d:%02d", r.tm_year + 1900, r.tm_mon + 1, r.tm_mday, r.tm_hour, r.tm_min, r.tm_sec);
  return b;
}

// ---- logger ---------------------------------------------------------------------------------
struct Spec
{
  std::string format, nullformat; bool hasnull = true;
  std::map<int, std::string> levels;
  int maxlevel = 127;
  int tz = 0;
};
static std::string genFormat(pbt::Src& s, bool src)
{
  std::string f;
  int n = (int)s.draw(6);
  for(int i = 0; i < n; ++i)
  {
    if(s.chance(2, 3)) { int k = (int)s.draw(6); if(!k && !src) k = 1; f += '{'; if(s.chance(1, 6)) f += '0'; f += char('0' + k); f += '}'; }
    else f += s.bytes(5, 1);
  }
  // literal text must not complete a placeholder by accident
  return f;
}
static std::string expand(const std::string& f, const char* source, const std::string& file, size_t line, const std::string& level, int tz)
{
  std::string r;
  for(size_t i = 0; i < f.size();)
  {
    size_t e = 0; int n = 0;
    if(f[i] == '{' && i + 2 < f.size() && isdigit((unsigned char)f[i + 1]))
    {
      if(f[i + 2] == '}') { n = f[i + 1] - '0'; e = 3; }
      else if(i + 3 < f.size() && isdigit((unsigned char)f[i + 2]) && f[i + 3] == '}') { n = (f[i + 1] - '0') * 10 + f[i + 2] - '0'; e = 4; }
    }
    if(!e) { r += f[i++]; continue; }
    i += e;
    switch(n)
    {
    case 0: if(source) r += source; break;
    case 1: r += file; break;
    case 2: r += std::to_string(line); break;
    case 3: r += level; break;
    case 4: r += dateText(vtime, tz, true); break;
    case 5: r += dateText(vtime, tz, false); break;
    }
  }
  return r;
}
static const char* LEVELTEXT[] = { "", "L1 ", "{0}", "level: ", "TRACE: " };
static const char* DIRS[] = { "", "a/", "a\\b\\", "/x/y\\", "\\", "c:\\d/e f/", "./" };

PROP(logger, 4, pbt::LEAKCHECK, "at least three entries were written, with more than one target or assimilated stream, after a level, format or ownership change")
{
  Virt v;
  vtime = 1500000000 + (int64_t)s.draw(100000000);
  Spec sp;
  sp.tz = (int)s.range(-48, 56) * 15;
  zone(sp.tz);
  CHECK(GetTimeZoneMinutes() == sp.tz, "GetTimeZoneMinutes is %ld, expected %d", GetTimeZoneMinutes(), sp.tz);
  sp.format = "{4} [{0}] ({1}:{2}) {3}"; sp.nullformat = "{4} ({1}:{2}) {3}"; // Logger::DEFAULTFORMAT and DEFAULTNULLFORMAT
  sp.format = Logger::DEFAULTFORMAT; sp.nullformat = Logger::DEFAULTNULLFORMAT;
  const char* def[] = { "FATAL: ", "ERROR: ", "WARNING: ", "NOTICE: ", "INFO: ", "DEBUG: " };
  for(int i = 0; i < 6; ++i) sp.levels[i] = def[i];
  std::ostringstream tgt[3]; std::string exp[3], fexp[2];
  std::vector<int> on; std::vector<int> fon; // active stream and file targets
  std::ostringstream asOwn[2]; // streams to assimilate
  std::vector<int> assim;
  std::vector<std::unique_ptr<std::string>> keep; // formats must outlive the logger
  std::string pend;
  auto emit = [&](const std::string& t) { pend += t; };
  auto sync = [&]() { for(int i : on) exp[i] += pend; for(int i : fon) fexp[i] += pend; pend.clear(); };
  int entries = 0, changes = 0; bool multi = false;
  {
    std::unique_ptr<Logger> lg;
    switch(s.draw(3))
    {
    case 0: lg.reset(new Logger()); break;
    case 1: lg.reset(new Logger(&tgt[0])); on.push_back(0); break;
    case 2: lg.reset(new Logger(logFile(0).c_str(), &tgt[1])); fon.push_back(0); on.push_back(1); break;
    }
    while(s.more(18))
    {
      switch(s.pick({ 4, 3, 3, 2, 3, 2, 1, 2, 2, 2, 1, 1, 2 }))
      {
      case 0: case 1: case 2: case 12:
      { // an entry
        bool nosrc = s.boolean();
        std::string src = s.bytes(6, 1);
        std::string file = std::string(DIRS[s.draw(7)]) + "f" + std::to_string(s.draw(20)) + ".cpp";
        std::string base = file.substr(file.find_last_of("/\\") == std::string::npos ? 0 : file.find_last_of("/\\") + 1);
        size_t line = s.draw(5000);
        int level;
        if(s.chance(1, 8)) level = -(int)s.range(1, 3);
        else { size_t k = s.draw(sp.levels.size()); auto it = sp.levels.begin(); std::advance(it, k); level = it->first; }
        std::string lt = level < 0 ? "" : sp.levels[level];
        const char* srcp = nosrc ? nullptr : src.c_str();
        std::string head = expand(nosrc && sp.hasnull ? sp.nullformat : sp.format, srcp, base, line, lt, sp.tz);
        int kind = (int)s.draw(4);
        if(kind != 3 && level == sp.maxlevel) break; // not judged
        bool shown = level < sp.maxlevel || kind == 3;
        int a = (int)s.range(-1000, 1000); std::string t = s.bytes(12, 1); if(t.find('{') != std::string::npos) t = "t";
        std::string body;
        if(kind == 0)
        {
          lg->Log(srcp, file.c_str(), line, (int8_t)level, a, ' ', t.c_str(), 2.5);
          body = std::to_string(a) + " " + t + "2.5\n";
        }
        else if(kind == 1)
        {
          lg->LogFormat(srcp, file.c_str(), line, (int8_t)level, "<{1}> {0}{2}{1}", a, t.c_str(), 7);
          body = "<" + t + "> " + std::to_string(a) + "7" + t + "\n";
        }
        else if(kind == 2)
        {
          int r = lg->PrintLog(srcp, file.c_str(), line, (int8_t)level, "%s|%5d|%%", t.c_str(), a);
          char b[64]; snprintf(b, sizeof b, "%s|%5d|%%", t.c_str(), a);
          body = std::string(b) + "\n";
          CHECK(r == (shown ? (int)strlen(b) : 0), "PrintLog returned %d, expected %d", r, shown ? (int)strlen(b) : 0);
        }
        else { lg->LogHeader(srcp, file.c_str(), line, (int8_t)level) << a << std::endl; body = std::to_string(a) + "\n"; }
        if(shown) { if(on.size() + fon.size() + assim.size() > 1) multi = true; ++entries; emit(head + body); sync(); }
        break;
      }
      case 3: vtime += s.draw(200000); break;
      case 4: { int k = (int)s.draw(5); int l = s.chance(1, 4) ? (int)s.draw(30) : (int)s.draw(8); lg->SetLevel((uint8_t)l, LEVELTEXT[k]); sp.levels[l] = LEVELTEXT[k]; ++changes; break; }
      case 5:
        ++changes;
        if(s.boolean()) { keep.emplace_back(new std::string(genFormat(s, true))); lg->SetFormat(keep.back()->c_str()); sp.format = *keep.back(); }
        else if(s.chance(1, 4)) { lg->SetNullFormat(nullptr); sp.hasnull = false; }
        else { keep.emplace_back(new std::string(genFormat(s, false))); lg->SetNullFormat(keep.back()->c_str()); sp.nullformat = *keep.back(); sp.hasnull = true; }
        break;
      case 6: sp.maxlevel = s.boolean() ? 127 : (int)s.draw(10); lg->SetMaxLevel((uint8_t)sp.maxlevel); break;
      case 7: { int i = (int)s.draw(3); bool has = false; for(int x : on) has |= x == i; if(has) break; sync(); lg->AddTarget(tgt[i]); on.push_back(i); break; }
      case 8: { int i = (int)s.draw(2); bool has = false; for(int x : fon) has |= x == i; if(has) break; sync(); lg->AddTarget(logFile(i).c_str()); fon.push_back(i); fexp[i].clear(); break; }
      case 9:
      { // redirect another stream into the log, possibly a second time
        int i = (int)s.draw(2);
        if(assim.size() < 4) { lg->Assimilate(asOwn[i]); assim.push_back(i); s.label("assimilate"); }
        break;
      }
      case 10:
        sync();
        lg->ClearTargets();
        for(int i : fon) { std::string g = slurp(logFile(i)); CHECK(g == fexp[i], "log file %d holds %zu bytes, expected %zu", i, g.size(), fexp[i].size()); CHECK(bssFileSize(logFile(i).c_str()) == g.size(), "bssFileSize is wrong"); }
        on.clear(); fon.clear();
        break;
      case 11:
      {
        ++changes;
        if(s.boolean()) { std::unique_ptr<Logger> o(new Logger(std::move(*lg))); lg = std::move(o); s.label("move"); }
        else
        { // assign over a logger with a life of its own
          std::ostringstream other, mine;
          std::streambuf* own = mine.rdbuf();
          {
            std::unique_ptr<Logger> o(new Logger(&other));
            bool as = s.boolean();
            if(as) o->Assimilate(mine);
            if(s.boolean()) o->SetLevel(2, "OTHER ");
            if(as) mine << "text";
            *o = std::move(*lg);
            if(as) CHECK(other.str() == "text", "assigning a logger lost what was written to it");
            CHECK(mine.rdbuf() == own, "assigning a logger did not give an assimilated stream its buffer back");
            lg = std::move(o);
          }
          s.label("move assign");
        }
        break;
      }
      }
      if(!assim.empty() && s.chance(1, 3))
      {
        int i = assim[s.draw(assim.size())];
        std::string t = s.bytes(8, 1);
        asOwn[i] << t << std::flush;
        emit(t); sync();
      }
      CHECK(lg->GetStream().good(), "the log's stream went bad");
      for(int i = 0; i < 3; ++i) CHECK(tgt[i].str() == exp[i], "target %d holds:\n%s\nexpected:\n%s", i, tgt[i].str().c_str(), exp[i].c_str());
      for(int i : fon) CHECK(slurp(logFile(i)) == fexp[i], "log file %d differs from what was logged", i);
    }
    lg.reset();
  }
  sync();
  for(int i = 0; i < 3; ++i) CHECK(tgt[i].str() == exp[i], "after destruction target %d holds:\n%s\nexpected:\n%s", i, tgt[i].str().c_str(), exp[i].c_str());
  for(int i = 0; i < 2; ++i)
  { // an assimilated stream has its own buffer back
    asOwn[i] << "own" << i;
    CHECK(asOwn[i].str() == std::string("own") + char('0' + i), "stream %d was not given its buffer back", i);
  }
  s.nontrivial(entries >= 3 && changes && multi);
}

// ---- profiler -------------------------------------------------------------------------------
struct Path { double sum = 0, code = 0; uint64_t n = 0; };
static Profiler::ProfilerData* points[8];
static void resetNode(Profiler::PROF_TRIENODE* n)
{
  if(!n) return;
  n->avg = n->codeavg = 0; n->total = (uint64_t)-1; n->inner = 0;
  for(auto c : n->_children) resetNode(c);
}
static const char* NAMES[8] = { "alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta" };
static void runBlocks(pbt::Src& s, int depth, const std::string& path, std::map<std::string, Path>& m, uint64_t& childTime, int& maxd)
{
  maxd = std::max(maxd, depth);
  int k = 0;
  while(k < 5 && s.more(2))
  {
    ++k;
    int p = (int)s.draw(5);
    std::string np = path + char('0' + p);
    uint64_t inner = 0, start = vnow;
    {
      ProfilerBlock b(points[p]->id, Profiler::profiler.GetCur());
      vnow += s.draw(2000);
      if(depth < 3 && s.boolean()) runBlocks(s, depth + 1, np, m, inner, maxd);
      vnow += s.draw(500);
    }
    uint64_t t = vnow - start;
    Path& e = m[np];
    e.sum += (double)t; e.code += (double)(t - inner); ++e.n;
    childTime += t;
    vnow += s.draw(100);
  }
}
PROP(profiler, 1.5, 0, "nested at least three deep with one point reached along two paths or twice along one")
{
  Virt v;
  vnow = 1000000000;
  if(!points[0]) for(int i = 0; i < 8; ++i) points[i] = new Profiler::ProfilerData(NAMES[i], "dir/sub\\prof.cpp", 100 + i);
  resetNode(Profiler::profiler.GetRoot());
  std::map<std::string, Path> m; uint64_t t = 0; int maxd = 0;
  Profiler::PROF_TRIENODE* cur = Profiler::profiler.GetCur();
  runBlocks(s, 1, "", m, t, maxd);
  CHECK(Profiler::profiler.GetCur() == cur, "the profiler did not return to where it started");
  std::map<int, Path> flat;
  bool twice = false;
  for(auto& p : m)
  {
    Profiler::PROF_TRIENODE* n = Profiler::profiler.GetRoot();
    for(char c : p.first) { n = n->_children[points[c - '0']->id]; CHECK(n, "no node for a path that was profiled"); }
    CHECK(n->total == p.second.n, "path %s ran %llu times, expected %llu", p.first.c_str(), (unsigned long long)n->total, (unsigned long long)p.second.n);
    double a = p.second.sum / p.second.n, c = p.second.code / p.second.n;
    CHECK(fabs(n->avg - a) <= 1e-6 * (1 + a), "path %s took %g ns on average, expected %g", p.first.c_str(), n->avg, a);
    CHECK(fabs(n->codeavg - c) <= 1e-6 * (1 + a), "path %s took %g ns of its own on average, expected %g", p.first.c_str(), n->codeavg, c);
    Path& f = flat[p.first.back() - '0'];
    twice |= f.n > 0 || p.second.n > 1;
    f.sum += p.second.sum; f.n += p.second.n;
  }
  std::stringstream tree, fl;
  Profiler::profiler.WriteToStream(tree, Profiler::OUTPUT_TREE);
  Profiler::profiler.WriteToStream(fl, Profiler::OUTPUT_FLAT);
  std::string line; size_t lines = 0;
  std::getline(tree, line);
  std::string at; // the path of the line before
  std::set<std::string> seen;
  while(std::getline(tree, line)) if(!line.empty())
  {
    ++lines;
    size_t ind = line.find('[');
    CHECK(ind != std::string::npos && ind % 2 == 0 && ind / 2 <= at.size(), "tree output: odd indentation in \"%s\"", line.c_str());
    char name[32] = { 0 }; double val = -1; int ln = 0;
    CHECK(sscanf(line.c_str() + ind, "[prof.cpp:%d] %31[a-z]: %lf", &ln, name, &val) == 3, "tree output: \"%s\"", line.c_str());
    int id = ln - 100;
    CHECK(id >= 0 && id < 8 && !strcmp(NAMES[id], name), "tree output: name and line disagree in \"%s\"", line.c_str());
    at = at.substr(0, ind / 2) + char('0' + id);
    CHECK(m.count(at), "tree output: a path that was not profiled");
    CHECK(seen.insert(at).second, "tree output: a path twice");
    double a = m[at].sum / m[at].n;
    CHECK(fabs(val - a) <= 1e-4 * (1 + a), "tree output: %g ns, expected %g", val, a);
  }
  CHECK(lines == m.size(), "tree output has %zu lines for %zu paths", lines, m.size());
  std::getline(fl, line);
  double last = 1e300; size_t found = 0;
  while(std::getline(fl, line)) if(!line.empty())
  {
    char name[32] = { 0 }; double val = -1; int ln = 0;
    CHECK(sscanf(line.c_str(), "[prof.cpp:%d] %31[a-z]: %lf", &ln, name, &val) == 3, "flat output: \"%s\"", line.c_str());
    int id = ln - 100;
    CHECK(id >= 0 && id < 8 && !strcmp(NAMES[id], name), "flat output: name and line disagree in \"%s\"", line.c_str());
    double a = flat.count(id) ? flat[id].sum / flat[id].n : 0;
    CHECK(fabs(val - a) <= 1e-4 * (1 + a), "flat output: %s took %g ns, expected %g", name, val, a);
    CHECK(val <= last * 1.0001, "flat output is not sorted");
    last = val; ++found;
  }
  CHECK(found == 8, "flat output has %zu lines for 8 points", found);
  std::stringstream heat;
  Profiler::profiler.WriteToStream(heat, Profiler::OUTPUT_HEATMAP);
  size_t hl = 0, code = 0;
  std::getline(heat, line);
  at.clear();
  while(std::getline(heat, line)) if(!line.empty())
  {
    size_t ind = line.find('[');
    CHECK(ind != std::string::npos && ind % 2 == 0 && ind / 2 <= at.size(), "heat output: odd indentation in \"%s\"", line.c_str());
    char name[32] = { 0 }; double val = -1; int ln = 0;
    if(sscanf(line.c_str() + ind, "[code]: %lf", &val) == 1)
    {
      std::string up = at.substr(0, ind / 2);
      CHECK(m.count(up), "heat output: code of a path that was not profiled");
      double c = m[up].code / m[up].n;
      CHECK(fabs(val - c) <= 1e-4 * (1 + m[up].sum / m[up].n), "heat output: %g ns of its own, expected %g", val, c);
      ++code;
      continue;
    }
    CHECK(sscanf(line.c_str() + ind, "[prof.cpp:%d] %31[a-z]: %lf", &ln, name, &val) == 3, "heat output: \"%s\"", line.c_str());
    int id = ln - 100;
    CHECK(id >= 0 && id < 8 && !strcmp(NAMES[id], name), "heat output: name and line disagree in \"%s\"", line.c_str());
    at = at.substr(0, ind / 2) + char('0' + id);
    CHECK(m.count(at), "heat output: a path that was not profiled");
    double a = m[at].sum / m[at].n;
    CHECK(fabs(val - a) <= 1e-4 * (1 + a), "heat output: %g ns, expected %g", val, a);
    ++hl;
  }
  size_t parents = 0;
  for(auto& p : m) { auto n = m.upper_bound(p.first); if(n != m.end() && !n->first.compare(0, p.first.size(), p.first)) ++parents; }
  CHECK(hl == m.size(), "heat output has %zu lines for %zu paths", hl, m.size());
  CHECK(code == parents, "heat output has %zu code lines for %zu paths with children", code, parents);
  s.nontrivial(maxd >= 3 && twice);
}

// ---- system services --------------------------------------------------------------------------
PROP(fonts_and_files, .5, pbt::LEAKCHECK, "a font was matched and a file has content")
{
  fcFile = s.bytes(60, 2); fcMatch = s.chance(4, 5);
  auto p = GetFontPath("family", 400, s.boolean());
  bool want = fcMatch && !fcFile.empty();
  CHECK((p.get() != nullptr) == want, "GetFontPath %s", want ? "found nothing" : "found something");
  if(want) CHECK(fcFile == p.get(), "GetFontPath gives another path than the font's file");
  CHECK(fcLive == 0, "GetFontPath left %d patterns behind", fcLive);
  delete[] p.release();
  std::string d = s.bytes(300, 3), f = logFile(2);
  { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(d.data(), d.size()); }
  CHECK(bssFileSize(f.c_str()) == d.size(), "bssFileSize is %llu, expected %zu", bssFileSize(f.c_str()), d.size());
  CHECK(bssFileSize(scratch) == (unsigned long long)-1, "bssFileSize of a directory");
  CHECK(bssFileSize((f + "x").c_str()) == (unsigned long long)-1, "bssFileSize of a file that does not exist");
  s.nontrivial(want && !d.empty());
}
