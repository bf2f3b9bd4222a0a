// simhost check|replay|gen|determinism ...
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include "case.h"

namespace sim {

std::vector<CorpusEntry> g_corpus;

static std::string readReal(const std::string& p, bool* ok = nullptr)
{
  std::string s;
  int fd = open(p.c_str(), O_RDONLY);
  if (ok) *ok = fd >= 0;
  if (fd < 0) return s;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n));
  close(fd);
  return s;
}
static bool writeReal(const std::string& p, const std::string& s)
{
  std::string t = p + ".tmp" + std::to_string(getpid());
  int fd = open(t.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return false;
  size_t o = 0;
  while (o < s.size())
  {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) break;
    o += static_cast<size_t>(n);
  }
  close(fd);
  return rename(t.c_str(), p.c_str()) == 0 && o == s.size();
}
static void say(const char* f, ...) __attribute__((format(printf, 1, 2)));
static void say(const char* f, ...)
{
  char b[16384];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n > static_cast<int>(sizeof b) - 1) n = sizeof b - 1;
  for (int o = 0; o < n;)
  {
    ssize_t k = write(1, b + o, static_cast<size_t>(n - o));
    if (k <= 0) break;
    o += static_cast<int>(k);
  }
}
static double now()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

static void walk(const std::string& root, const std::string& rel)
{
  std::string d = rel.empty() ? root : root + "/" + rel;
  DIR* h = opendir(d.c_str());
  if (!h) return;
  std::vector<std::string> names;
  while (dirent* e = readdir(h))
    if (e->d_name[0] != '.') names.push_back(e->d_name);
  closedir(h);
  std::sort(names.begin(), names.end());
  for (auto& n : names)
  {
    std::string r = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (stat((root + "/" + r).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) walk(root, r);
    else g_corpus.push_back({r, readReal(root + "/" + r)});
  }
}
void loadCorpus(const std::string& dir) { g_corpus.clear(); walk(dir, ""); }

std::string serializeCase(const Case& c)
{
  std::string o = "property " + c.prop + "\nseed " + std::to_string(c.seed) + "\n";
  for (auto& k : c.kv) o += "kv " + k.first + " " + esc(k.second) + "\n";
  o += "world\n" + serialize(c.w);
  return o;
}
bool parseCase(const std::string& s, Case& c)
{
  size_t pos = 0;
  while (pos < s.size())
  {
    size_t e = s.find('\n', pos);
    if (e == std::string::npos) return false;
    std::string l = s.substr(pos, e - pos);
    pos = e + 1;
    if (l == "world") return deserialize(s, pos, c.w);
    size_t sp = l.find(' ');
    if (sp == std::string::npos) { if (l.empty() || l[0] == '#') continue; return false; }
    std::string k = l.substr(0, sp), v = l.substr(sp + 1);
    if (k == "property") c.prop = v;
    else if (k == "seed") c.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "kv")
    {
      size_t q = v.find(' ');
      c.kv[v.substr(0, q)] = q == std::string::npos ? "" : unesc(v.substr(q + 1));
    }
    else if (k[0] != '#') return false;
  }
  return false;
}

Result Ctx::run(const World& w)
{
  Result r = sim::run(w, wantTrace);
  runs++;
  for (int i = 0; i < F_KINDS; i++)
  {
    fired[i] += r.fired[i];
    if (r.fired[i]) runsWith[i]++;
  }
  shortReads += r.shortReads;
  blockedReads += r.blockedReads;
  clockReads += r.clockReads;
  clockJumps += r.clockJumps;
  reuses += r.reuses;
  events += r.events;
  allocs += r.allocs;
  frees += r.frees;
  simSec += 1e-9 * static_cast<double>(r.simNs);
  ends[r.end]++;
  if (hashes.size() < 2000000) hashes.insert(r.hash);
  // (allocation and event counts and output are all part of r.hash)
  combined = (combined ^ r.hash) * 0x100000001b3ull + static_cast<uint64_t>(r.end);
  if (wantTrace)
    traces += "--- run: " + describe(r) + "\nstdout: " + esc(r.out) + "\nstderr: " + esc(r.err) + "\n" + r.trace;
  return r;
}

static uint64_t caseSeed(uint64_t seed, const std::string& prop, uint64_t i)
{
  Rng r(hashStr(prop) ^ (seed * 0x9E3779B97F4A7C15ull));
  r.s ^= i * 0xD1B54A32D192ED03ull;
  r.next();
  return r.next() >> 1;
}

// ------------------------------------------------------------- minimisation
struct Minimiser
{
  const Property& p;
  std::string cls;
  double deadline;
  uint64_t tries = 0;
  bool fails(const Case& c)
  {
    if (now() > deadline) return false;
    tries++;
    Ctx x;
    Verdict v = p.judge(c, x);
    return v.viol && v.cls == cls;
  }
};

// splits text into top-level forms (with what precedes each)
std::vector<std::string> topForms(const std::string& s)
{
  std::vector<std::string> v;
  size_t st = 0, i = 0;
  int d = 0;
  while (i < s.size())
  {
    char c = s[i];
    if (c == ';') { while (i < s.size() && s[i] != '\n') i++; continue; }
    if (c == '"') { i++; while (i < s.size() && s[i] != '"') i++; i++; continue; }
    if (c == '|') { i++; while (i < s.size() && s[i] != '|') i++; i++; continue; }
    i++;
    if (c == '(') d++;
    if (c == ')')
    {
      d--;
      if (d <= 0)
      {
        d = 0;
        if (i < s.size() && s[i] == '\n') i++;
        v.push_back(s.substr(st, i - st));
        st = i;
      }
    }
  }
  if (st < s.size()) v.push_back(s.substr(st));
  return v;
}
static double minimiseUntil;
template <class T, class F>
static bool ddmin(std::vector<T>& v, F test)
{
  bool any = false;
  size_t n = std::max<size_t>(1, v.size() / 2);
  while (true)
  {
    bool red = false;
    for (size_t i = 0; i < v.size();)
    {
      if (now() > minimiseUntil) return any;
      std::vector<T> t(v.begin(), v.begin() + static_cast<long>(i));
      t.insert(t.end(), v.begin() + static_cast<long>(std::min(v.size(), i + n)), v.end());
      if (t.size() < v.size() && test(t)) { v = t; red = any = true; }
      else i += n;
    }
    if (n == 1) { if (!red) break; }
    else n = std::max<size_t>(1, n / 2);
  }
  return any;
}

static Case minimise(const Property& p, const Case& c0, const std::string& cls, double secs, uint64_t* tries)
{
  Minimiser m{p, cls, now() + secs};
  minimiseUntil = m.deadline;
  Case c = c0;
  auto attempt = [&](const Case& t) { if (m.fails(t)) { c = t; return true; } return false; };
  for (int round = 0; round < 3 && now() < m.deadline; round++)
  {
    bool any = false;
    { auto v = c.w.faults; if (ddmin(v, [&](const std::vector<Fault>& t) { Case d = c; d.w.faults = t; return m.fails(d); })) { c.w.faults = v; any = true; } }
    auto reset = [&](auto f) { Case d = c; f(d); if (serializeCase(d) != serializeCase(c)) any |= attempt(d); };
    reset([](Case& d) { d.w.fileChunk = Chunk(); });
    reset([](Case& d) { d.w.stdinChunk = Chunk(); });
    reset([](Case& d) { d.w.outChunk = Chunk(); });
    reset([](Case& d) { d.w.alloc.order = 0; });
    reset([](Case& d) { d.w.alloc.fillNew = 0; });
    reset([](Case& d) { d.w.alloc.fillFree = -1; });
    reset([](Case& d) { d.w.alloc.reuse = 0; });
    reset([](Case& d) { d.w.alloc.guard = 0; });
    reset([](Case& d) { d.w.alloc.seed = 0; });
    reset([](Case& d) { d.w.clock = 0; });
    reset([](Case& d) { d.w.clockSeed = 0; });
    reset([](Case& d) { d.w.tty = false; });
    if (!c.w.input.empty())
    {
      auto v = c.w.input;
      if (ddmin(v, [&](const std::vector<Msg>& t) { Case d = c; d.w.input = t; return m.fails(d); })) { c.w.input = v; any = true; }
    }
    std::vector<std::string> names;
    for (auto& f : c.w.files) names.push_back(f.first);
    if (ddmin(names, [&](const std::vector<std::string>& t) {
          Case d = c;
          d.w.files.clear();
          for (auto& n : t) d.w.files[n] = c.w.files[n];
          return m.fails(d);
        }))
    {
      std::map<std::string, std::string> nf;
      for (auto& n : names) nf[n] = c.w.files[n];
      c.w.files = nf;
      any = true;
    }
    auto join = [](const std::vector<std::string>& t) { std::string s; for (auto& x : t) s += x; return s; };
    for (auto& n : names)
    {
      auto v = topForms(c.w.files[n]);
      if (ddmin(v, [&](const std::vector<std::string>& t) { Case d = c; d.w.files[n] = join(t); return m.fails(d); })) { c.w.files[n] = join(v); any = true; }
    }
    for (size_t i = 0; i < c.w.input.size() && now() < m.deadline; i++)
    {
      auto v = topForms(c.w.input[i].data);
      if (v.size() < 2) continue;
      if (ddmin(v, [&](const std::vector<std::string>& t) { Case d = c; d.w.input[i].data = join(t); return m.fails(d); })) { c.w.input[i].data = join(v); any = true; }
    }
    for (size_t i = 0; i < c.w.argv.size(); i++)
      reset([&](Case& d) { d.w.argv.erase(d.w.argv.begin() + static_cast<long>(i)); });
    for (auto& k : std::map<std::string, std::string>(c.kv))
      if (k.first.compare(0, 2, "t_") == 0)  // parts a case may do without
      {
        auto v = topForms(k.second);
        if (ddmin(v, [&](const std::vector<std::string>& t) { Case d = c; d.kv[k.first] = join(t); return m.fails(d); })) { c.kv[k.first] = join(v); any = true; }
      }
    for (size_t i = 0; i < c.w.faults.size(); i++)
      for (uint64_t t : {uint64_t(0), uint64_t(1), c.w.faults[i].at / 2, c.w.faults[i].at - 1})
        if (t < c.w.faults[i].at) reset([&](Case& d) { d.w.faults[i].at = t; });
    if (!any) break;
  }
  *tries = m.tries;
  return c;
}

// ------------------------------------------------------------------ workers
static void putU(std::string& o, uint64_t v) { o.append(reinterpret_cast<char*>(&v), 8); }
static uint64_t getU(const std::string& s, size_t& p)
{
  uint64_t v = 0;
  if (p + 8 <= s.size()) memcpy(&v, s.data() + p, 8);
  p += 8;
  return v;
}
static std::string pack(const Ctx& x)
{
  std::string o;
  for (uint64_t v : {x.runs, x.cases, x.nontrivial, x.inconclusive, x.shortReads, x.blockedReads, x.clockReads, x.clockJumps, x.reuses, x.events, x.allocs, x.frees, static_cast<uint64_t>(x.simSec * 1e6)}) putU(o, v);
  for (int i = 0; i < F_KINDS; i++) { putU(o, x.fired[i]); putU(o, x.runsWith[i]); }
  for (int i = 0; i < 8; i++) putU(o, x.ends[i]);
  putU(o, x.probes.size());
  for (auto& k : x.probes) { putU(o, k.first.size()); o += k.first; putU(o, k.second); }
  putU(o, x.hashes.size());
  for (uint64_t h : x.hashes) putU(o, h);
  putU(o, x.ntCases.size());
  for (uint64_t h : x.ntCases) putU(o, h);
  return o;
}
static void unpack(const std::string& s, size_t& p, Ctx& x)
{
  for (uint64_t* v : {&x.runs, &x.cases, &x.nontrivial, &x.inconclusive, &x.shortReads, &x.blockedReads, &x.clockReads, &x.clockJumps, &x.reuses, &x.events, &x.allocs, &x.frees}) *v += getU(s, p);
  x.simSec += static_cast<double>(getU(s, p)) * 1e-6;
  for (int i = 0; i < F_KINDS; i++) { x.fired[i] += getU(s, p); x.runsWith[i] += getU(s, p); }
  for (int i = 0; i < 8; i++) x.ends[i] += getU(s, p);
  uint64_t n = getU(s, p);
  for (uint64_t i = 0; i < n; i++) { uint64_t l = getU(s, p); std::string k = s.substr(p, l); p += l; x.probes[k] += getU(s, p); }
  n = getU(s, p);
  for (uint64_t i = 0; i < n; i++) x.hashes.insert(getU(s, p));
  n = getU(s, p);
  for (uint64_t i = 0; i < n; i++) x.ntCases.insert(getU(s, p));
}

struct Known { std::string prop, match, text; };
static std::vector<Known> loadKnown(const std::string& file)
{
  // lines: KNOWN property=<id> class=<violation class> input=<hash of minimised
  // input or *> :: text     /   fixed: property=<id> <commit> <text>
  std::vector<Known> v;
  std::string s = readReal(file);
  size_t p = 0;
  while (p < s.size())
  {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(p, e - p);
    p = e + 1;
    if (l.compare(0, 6, "known:") != 0) continue;
    size_t a = l.find("property="), b = l.find(" match="), c = l.find(" :: ");
    if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
    v.push_back({l.substr(a + 9, b - a - 9), unesc(l.substr(b + 7, c - b - 7)), l.substr(c + 4)});
  }
  return v;
}

struct Args
{
  std::string prop, tier = "quick", outDir = "out", evidence, known, variant = "release";
  uint64_t seed = 1, count = 0;
  double wall = 0;
  int workers = 0;
};

static std::string jstr(const std::string& s)
{
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}

static int check(const Args& a, const char* self)
{
  const Property* p = findProperty(a.prop);
  if (!p) { say("unknown property %s\n", a.prop.c_str()); return 2; }
  double t0 = now();
  uint64_t n = a.count ? a.count : a.tier == "thorough" ? p->thorough : p->quick;
  double wall = a.wall > 0 ? a.wall : a.tier == "thorough" ? 780 : 300;
  int W = a.workers ? a.workers : 8;
  say("%s tier=%s seed=%llu cases=%llu workers=%d\n", p->id, a.tier.c_str(), static_cast<unsigned long long>(a.seed), static_cast<unsigned long long>(n), W);
  std::vector<Known> known = loadKnown(a.known);
  mkdir(a.outDir.c_str(), 0755);
  std::string base = a.outDir + "/" + a.prop + "-" + std::to_string(getpid());
  std::vector<pid_t> pids;
  for (int k = 0; k < W; k++)
  {
    pid_t pid = fork();
    if (pid < 0) { say("fork failed\n"); return 2; }
    if (pid == 0)
    {
      Ctx x;
      std::string extra;
      uint64_t violI = ~0ull, done = 0, knownHits = 0;
      std::string vcls, vdet, vcase;
      std::map<std::string, uint64_t> kh;
      for (uint64_t i = static_cast<uint64_t>(k); i < n; i += static_cast<uint64_t>(W))
      {
        if (now() - t0 > wall) break;
        Case c = p->gen(caseSeed(a.seed, a.prop, i));
        c.prop = a.prop;
        x.combined = 0;
        Verdict v = p->judge(c, x);
        x.cases++;
        done++;
        if (v.inconclusive) x.inconclusive++;
        if (v.nontrivial) { x.nontrivial++; if (x.ntCases.size() < 1000000) x.ntCases.insert(hashStr(serialize(c.w))); }
        if (v.viol)
        {
          bool isKnown = false;
          for (auto& q : known)
            if (q.prop == a.prop && (v.cls + " " + v.detail).find(q.match) != std::string::npos) { isKnown = true; kh[q.text]++; break; }
          if (isKnown) { knownHits++; continue; }
          if (getenv("SIM_ALL")) { say("case %llu %s: %s\n", static_cast<unsigned long long>(i), v.cls.c_str(), v.detail.substr(0, 300).c_str()); continue; }
          violI = i;
          vcls = v.cls;
          vdet = v.detail;
          vcase = serializeCase(c);
          break;
        }
      }
      std::string o = pack(x);
      putU(o, done);
      putU(o, violI);
      for (auto* s : {&vcls, &vdet, &vcase}) { putU(o, s->size()); o += *s; }
      putU(o, kh.size());
      for (auto& q : kh) { putU(o, q.first.size()); o += q.first; putU(o, q.second); }
      o += "OK";
      writeReal(base + ".w" + std::to_string(k), o);
      _exit(0);
    }
    pids.push_back(pid);
  }
  bool bad = false;
  for (pid_t pid : pids)
  {
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true;
  }
  Ctx x;
  uint64_t done = 0, violI = ~0ull;
  std::string vcls, vdet, vcase;
  std::map<std::string, uint64_t> kh;
  for (int k = 0; k < W; k++)
  {
    std::string f = base + ".w" + std::to_string(k);
    std::string s = readReal(f);
    unlink(f.c_str());
    if (s.size() < 2 || s.substr(s.size() - 2) != "OK") { bad = true; continue; }
    size_t q = 0;
    unpack(s, q, x);
    done += getU(s, q);
    uint64_t vi = getU(s, q);
    std::string t[3];
    for (auto& u : t) { uint64_t l = getU(s, q); u = s.substr(q, l); q += l; }
    if (vi < violI) { violI = vi; vcls = t[0]; vdet = t[1]; vcase = t[2]; }
    uint64_t nk = getU(s, q);
    for (uint64_t j = 0; j < nk; j++) { uint64_t l = getU(s, q); std::string u = s.substr(q, l); q += l; kh[u] += getU(s, q); }
  }
  if (bad) { say("a worker process was lost\n"); return 2; }
  double tRun = now() - t0;
  for (auto& k : kh) say("KNOWN-FINDING: property=%s %s (%llu cases)\n", a.prop.c_str(), k.first.c_str(), static_cast<unsigned long long>(k.second));
  int rc = 0;
  int nviol = 0;
  std::string replay;
  if (violI != ~0ull)
  {
    Case c;
    if (!parseCase(vcase, c)) { say("internal: cannot reread the case\n"); return 2; }
    // the same case must fail the same way, twice, event for event
    Ctx c1, c2;
    Verdict v1 = p->judge(c, c1), v2 = p->judge(c, c2);
    if (!v1.viol || !v2.viol || v1.cls != vcls || v2.cls != vcls || c1.combined != c2.combined)
    {
      say("a violation did not repeat: case %llu class %s (%d %s / %d %s, %llx %llx)\n", static_cast<unsigned long long>(violI), vcls.c_str(), v1.viol, v1.cls.c_str(), v2.viol, v2.cls.c_str(), static_cast<unsigned long long>(c1.combined), static_cast<unsigned long long>(c2.combined));
      return 2;
    }
    uint64_t tries = 0;
    Case m = minimise(*p, c, vcls, a.tier == "thorough" ? 120 : 60, &tries);
    Ctx c3;
    Verdict v3 = p->judge(m, c3);
    if (!v3.viol || v3.cls != vcls) { m = c; Ctx c4; v3 = p->judge(m, c4); c3.combined = c4.combined; }
    char hx[32];
    snprintf(hx, sizeof hx, "%016llx", static_cast<unsigned long long>(c3.combined));
    replay = a.outDir + "/" + a.prop + "-seed" + std::to_string(a.seed) + "-case" + std::to_string(violI) + ".replay";
    std::string det;
    for (char ch : v3.detail) { det += ch; if (ch == '\n') det += "# "; }
    writeReal(replay, "# replay with: " + std::string(self) + " replay <this file>\n# class " + vcls + "\n# " + det + "\nkv expect_class " + esc(vcls) + "\nkv expect_hash " + hx + "\n" + serializeCase(m));
    // and in a process of its own
    pid_t pid = fork();
    if (pid == 0)
    {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      execl(self, self, "replay", replay.c_str(), static_cast<char*>(nullptr));
      _exit(9);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1)
    {
      say("the replay in a fresh process differs (status %x): %s\n", st, replay.c_str());
      return 2;
    }
    say("%s: case %llu, class %s, minimised in %llu tries\n%s\n", a.prop.c_str(), static_cast<unsigned long long>(violI), vcls.c_str(), static_cast<unsigned long long>(tries), v3.detail.c_str());
    say("VIOLATION property=%s replay=%s\n", a.prop.c_str(), replay.c_str());
    rc = 1;
    nviol = 1;
  }
  // ---- evidence
  double wallS = now() - t0;
  std::string e = "{\n";
  auto kv = [&](const char* k, const std::string& v, bool last = false) { e += "  " + jstr(k) + ": " + v + (last ? "\n" : ",\n"); };
  kv("property", jstr(a.prop));
  kv("tier", jstr(a.tier));
  kv("seed", std::to_string(a.seed));
  kv("level", jstr("exploration"));
  std::string cov = "{";
  auto ckv = [&](const char* k, const std::string& v) { if (cov.size() > 1) cov += ","; cov += "\n    " + jstr(k) + ": " + v; };
  auto u = [](uint64_t v) { return std::to_string(v); };
  ckv("evaluations", u(x.cases));
  ckv("distinct_nontrivial", u(x.ntCases.size()));
  ckv("rule", jstr(p->rule));
  std::string smp = "[";
  for (uint64_t i = 0; i < 3 && i < n; i++)
  {
    uint64_t cs = caseSeed(a.seed, a.prop, i);
    Case c = p->gen(cs);
    std::string s = serializeCase([&]{ Case d = c; d.prop = a.prop; return d; }());
    if (s.size() > 1500) s = s.substr(0, 1500) + "...";
    if (i) smp += ",";
    smp += "\n      {\"case_index\": " + u(i) + ", \"case_seed\": " + u(cs) + ", \"case\": " + jstr(s) + "}";
  }
  ckv("samples", smp + "]");
  ckv("planned_cases", u(n));
  ckv("stopped_by_wall_clock", x.cases < n && violI == ~0ull ? "true" : "false");
  ckv("inconclusive_cases", u(x.inconclusive));
  ckv("simulated_runs", u(x.runs));
  ckv("simulated_runs_per_hour", u(static_cast<uint64_t>(static_cast<double>(x.runs) / (tRun > 0 ? tRun : 1) * 3600)));
  ckv("seeds_per_hour", u(static_cast<uint64_t>(static_cast<double>(x.cases) / (tRun > 0 ? tRun : 1) * 3600)));
  ckv("simulated_seconds_covered", u(static_cast<uint64_t>(x.simSec)));
  ckv("distinct_event_sequences", u(x.hashes.size()));
  ckv("distinct_measure", jstr("64-bit hash of the whole simulated event log of a run: every system call with operands and result, every output byte, the sequence of allocation sizes and addresses, and how it ended"));
  std::string ff = "{", fr = "{";
  for (int i = 1; i < F_KINDS; i++)
  {
    if (i > 1) { ff += ", "; fr += ", "; }
    ff += jstr(faultNames[i]) + ": " + u(x.fired[i]);
    fr += jstr(faultNames[i]) + ": " + u(x.runsWith[i]);
  }
  ckv("faults_fired", ff + "}");
  ckv("runs_with_fault_fired", fr + "}");
  ckv("short_transfers", u(x.shortReads));
  ckv("reads_that_waited_for_the_peer", u(x.blockedReads));
  ckv("clock_reads", u(x.clockReads));
  ckv("clock_jumps", u(x.clockJumps));
  ckv("allocations", u(x.allocs));
  ckv("blocks_reused", u(x.reuses));
  ckv("simulated_events", u(x.events));
  static const char* en[] = {"exit", "abort", "signal", "deadlock", "budget", "unsupported", "lost"};
  std::string es = "{";
  for (int i = 0; i < 7; i++) es += std::string(i ? ", " : "") + jstr(en[i]) + ": " + u(x.ends[i]);
  ckv("run_ends", es + "}");
  std::string pr = "{";
  bool first = true;
  for (auto& q : x.probes) { pr += std::string(first ? "" : ", ") + jstr(q.first) + ": " + u(q.second); first = false; }
  ckv("probes", pr + "}");
  ckv("components_real", jstr("all of /repo/src (parser, lexer, type checker, evaluator, state, executor, main), libstdc++, glibc, gmp"));
  ckv("components_simulated", jstr("kernel system calls (files, directories, standard streams, clocks, randomness), malloc/free and operator new, program stack placement, the peer on standard input"));
  ckv("variant", jstr(a.variant));
  ckv("known_finding_hits", u([&] { uint64_t t = 0; for (auto& q : kh) t += q.second; return t; }()));
  kv("coverage", cov + "\n  }");
  kv("assumptions", "[" + jstr("system calls outside the simulated set return ENOSYS and would be reported in run_ends/probes; seeded sampling: a clean batch is evidence, not proof") + "]");
  char wb[32];
  snprintf(wb, sizeof wb, "%.2f", wallS);
  kv("wall_s", wb);
  std::string vl = "[";
  if (nviol) vl += "{\"class\": " + jstr(vcls) + ", \"case_index\": " + u(violI) + ", \"replay\": " + jstr(replay) + "}";
  kv("violations", nviol ? "1" : "0");
  kv("violation_list", vl + "]", true);
  e += "}\n";
  if (!a.evidence.empty() && !writeReal(a.evidence, e)) { say("cannot write the evidence file\n"); return 2; }
  say("%s: %llu cases (%llu non-trivial, %llu inconclusive), %llu runs, %zu distinct event sequences, %.1f s\n", p->id, static_cast<unsigned long long>(x.cases), static_cast<unsigned long long>(x.nontrivial), static_cast<unsigned long long>(x.inconclusive), static_cast<unsigned long long>(x.runs), x.hashes.size(), wallS);
  if (!rc && x.cases == 0) { say("nothing was explored\n"); return 2; }
  return rc;
}

static int replay(const std::string& f, bool trace)
{
  bool ok;
  std::string s = readReal(f, &ok);
  Case c;
  if (!ok || !parseCase(s, c)) { say("cannot read %s\n", f.c_str()); return 2; }
  const Property* p = findProperty(c.prop);
  if (!p) return 2;
  Ctx x;
  x.wantTrace = trace;
  std::string want = c.get("expect_hash"), wcls = c.get("expect_class");
  Verdict v = p->judge(c, x);
  char hx[32];
  snprintf(hx, sizeof hx, "%016llx", static_cast<unsigned long long>(x.combined));
  if (trace) { size_t o = 0; while (o < x.traces.size()) { say("%s", x.traces.substr(o, 8000).c_str()); o += 8000; } }
  say("%s hash=%s%s\n", v.viol ? ("class " + v.cls + "\n" + v.detail).c_str() : v.inconclusive ? "inconclusive" : "no violation", hx, want.empty() ? "" : want == hx ? " (as recorded)" : " (differs from the record)");
  if (!v.viol) return 0;
  // the event hash is that of the tree the file was recorded on
  if (!want.empty() && !wcls.empty() && (want != hx || wcls != v.cls)) { say("reproduced with another history\n"); return 3; }
  say("VIOLATION property=%s replay=%s\n", c.prop.c_str(), f.c_str());
  return 1;
}

// every case twice, in different worker layouts: prints case index and hash
static int hashes(const Args& a)
{
  const Property* p = findProperty(a.prop);
  if (!p) return 2;
  uint64_t n = a.count ? a.count : 200;
  for (uint64_t i = 0; i < n; i++)
  {
    Case c = p->gen(caseSeed(a.seed, a.prop, i));
    Ctx x;
    Verdict v = p->judge(c, x);
    say("%s %llu %016llx %d %s\n", a.prop.c_str(), static_cast<unsigned long long>(i), static_cast<unsigned long long>(x.combined), v.viol, v.cls.c_str());
  }
  return 0;
}
static int gen(const Args& a)
{
  const Property* p = findProperty(a.prop);
  if (!p) return 2;
  Case c = p->gen(caseSeed(a.seed, a.prop, a.count));
  c.prop = a.prop;
  std::string s = serializeCase(c);
  size_t o = 0;
  while (o < s.size()) { say("%s", s.substr(o, 8000).c_str()); o += 8000; }
  return 0;
}
}  // namespace sim

namespace sim { void modelCorpus(); }
int main(int argc, char** argv)
{
  using namespace sim;
  signal(SIGPIPE, SIG_IGN);
  Args a;
  std::string corpus, cmd = argc > 1 ? argv[1] : "", file;
  char self[4096];
  ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1);
  if (sl < 0) return 2;
  self[sl] = 0;
  bool trace = false;
  for (int i = 2; i < argc; i++)
  {
    std::string s = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (s == "--property") a.prop = val();
    else if (s == "--seed") a.seed = strtoull(val().c_str(), nullptr, 10);
    else if (s == "--tier") a.tier = val();
    else if (s == "--out") a.outDir = val();
    else if (s == "--evidence") a.evidence = val();
    else if (s == "--known") a.known = val();
    else if (s == "--count") a.count = strtoull(val().c_str(), nullptr, 10);
    else if (s == "--wall") a.wall = atof(val().c_str());
    else if (s == "--workers") a.workers = atoi(val().c_str());
    else if (s == "--corpus") corpus = val();
    else if (s == "--variant") a.variant = val();
    else if (s == "--trace") trace = true;
    else file = s;
  }
  if (!corpus.empty()) { setenv("SIM_CORPUS", corpus.c_str(), 1); loadCorpus(corpus); }
  else if (getenv("SIM_CORPUS")) loadCorpus(getenv("SIM_CORPUS"));
  if (cmd == "check") return check(a, self);
  if (cmd == "replay") return replay(file, trace);
  if (cmd == "hashes") return hashes(a);
  if (cmd == "model") { modelCorpus(); return 0; }
  if (cmd == "gen") return gen(a);
  say("usage: simhost check|replay|hashes|gen ...\n");
  return 2;
}
