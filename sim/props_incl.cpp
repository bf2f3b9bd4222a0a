// C10: include graphs, judged by a small interpreter of its own.
#include <errno.h>
#include <algorithm>
#include "gen.h"
#include "props.h"

namespace sim {

static std::vector<std::string> split(const std::string& p)
{
  std::vector<std::string> v;
  size_t i = 0;
  while (i <= p.size())
  {
    size_t e = p.find('/', i);
    if (e == std::string::npos) e = p.size();
    if (e > i) v.push_back(p.substr(i, e - i));
    i = e + 1;
  }
  return v;
}
static std::string normPath(const std::string& base, const std::string& p)
{
  std::vector<std::string> v;
  for (auto& s : split(!p.empty() && p[0] == '/' ? p : base + "/" + p))
  {
    if (s == ".") continue;
    if (s == "..") { if (!v.empty()) v.pop_back(); continue; }
    v.push_back(s);
  }
  std::string o;
  for (auto& s : v) o += "/" + s;
  return o.empty() ? "/" : o;
}
static std::string dirOf(const std::string& p)
{
  size_t k = p.find_last_of('/');
  return k == 0 ? "/" : p.substr(0, k);
}

// ----------------------------------------------------------------- generator
static std::string spell(Rng& r, const std::vector<std::string>& dirs, const std::string& from, const std::string& to)
{
  // `from` is the directory of the includer
  if (r.chance(0.08)) return (r.chance(0.2) ? "/.." : "") + to;
  std::vector<std::string> a = split(from), b = split(to);
  size_t k = 0;
  while (k < a.size() && k + 1 < b.size() && a[k] == b[k]) k++;
  if (k && r.chance(0.15)) k -= 1 + r.below(k);  // a detour over a common parent
  std::vector<std::string> segs;
  std::vector<std::string> at = a;
  auto noise = [&]() {
    if (r.chance(0.12)) segs.push_back(".");
    if (r.chance(0.05)) segs.push_back("");  // doubled slash
    if (r.chance(0.12))
    {
      // into a subdirectory and back
      std::string cur;
      for (auto& s : at) cur += "/" + s;
      std::vector<std::string> subs;
      for (auto& d : dirs)
        if (d.size() > cur.size() + 1 && d.compare(0, cur.size() + 1, cur + "/") == 0 && d.find('/', cur.size() + 1) == std::string::npos) subs.push_back(d.substr(cur.size() + 1));
      if (!subs.empty()) { segs.push_back(r.pick(subs)); segs.push_back(".."); }
    }
  };
  noise();
  for (size_t i = a.size(); i > k; i--) { segs.push_back(".."); at.pop_back(); noise(); }
  for (size_t i = k; i + 1 < b.size(); i++) { segs.push_back(b[i]); at.push_back(b[i]); noise(); }
  segs.push_back(b.back());
  while (segs.size() > 1 && segs[0].empty()) segs.erase(segs.begin());
  std::string o;
  for (size_t i = 0; i < segs.size(); i++) o += (i ? "/" : "") + segs[i];
  return o;
}

Case genC10(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  World& w = c.w;
  // directories
  std::vector<std::string> dirs = {"/w"};
  static const std::vector<std::string> dn = {"lib", "d", "theory", "a"};
  for (int i = r.range(0, 6); i > 0; i--)
  {
    std::string d = r.pick(dirs) + "/" + r.pick(dn);
    if (split(d).size() <= 5 && std::find(dirs.begin(), dirs.end(), d) == dirs.end()) dirs.push_back(d);
  }
  if (r.chance(0.3)) dirs.push_back("/other");
  static const std::vector<std::string> fn = {"a.eo", "b.eo", "c.eo", "Sig.eo", "x"};
  std::vector<std::string> paths;
  for (int i = r.range(2, 9); i > 0; i--)
  {
    std::string p = r.pick(dirs) + "/" + r.pick(fn);
    if (std::find(paths.begin(), paths.end(), p) == paths.end()) paths.push_back(p);
  }
  for (auto& d : dirs) w.dirs.push_back(d);
  std::string refFile;
  if (r.chance(0.2))
  {
    refFile = r.pick(dirs) + "/problem.smt2";
    w.files[refFile] = "(echo \"reference " + refFile + "\")\n(assert true)\n";
  }
  int mark = 0;
  auto body = [&](const std::string& self, const std::string& dir, bool top) {
    std::string t = "(echo \"in " + self + "\")\n";
    int n = r.range(top ? 1 : 0, 5);
    bool declared = false;
    for (int i = 0; i < n; i++)
    {
      uint64_t k = r.below(100);
      if (k < 60)
      {
        std::string to = r.pick(paths);
        double bad = 0.02;
        if (r.chance(bad))
        {
          // a file that is not there, although one of that name is elsewhere
          std::vector<std::string> missing;
          for (auto& d : dirs) for (auto& f : fn) if (std::find(paths.begin(), paths.end(), d + "/" + f) == paths.end()) missing.push_back(d + "/" + f);
          if (!missing.empty()) to = r.pick(missing);
        }
        t += "(include \"" + spell(r, dirs, dir, to) + "\")\n";
      }
      else if (k < 80) t += "(echo \"mark " + std::to_string(++mark) + "\")\n";
      else if (k < 88 && !declared) { t += "(declare-rule r" + std::to_string(++mark) + " () :premises (true) :conclusion true)\n"; declared = true; }
      else if (k < 91) t += "; (include \"nowhere.eo\")\n";
      else if (k < 93) t += "(reset)\n";
      else if (k < 95 && !refFile.empty()) t += "(reference \"" + spell(r, dirs, dir, refFile) + "\")\n";
      else if (k < 96) t += "(assume-push @s" + std::to_string(++mark) + " true)\n";
      else t += "(echo \"mark " + std::to_string(++mark) + "\")\n";
    }
    t += "(echo \"out " + self + "\")\n";
    return t;
  };
  for (auto& p : paths) w.files[p] = body(p, dirOf(p), false);
  w.cwd = r.chance(0.5) ? "/w" : r.pick(dirs);
  for (int i = r.chance(0.25) ? r.range(1, 2) : 0; i > 0; i--) w.argv.push_back("--include=" + spell(r, dirs, w.cwd, r.pick(paths)));
  if (!refFile.empty() && r.chance(0.3)) w.argv.insert(w.argv.begin() + static_cast<long>(r.below(w.argv.size() + 1)), "--reference=" + spell(r, dirs, w.cwd, refFile));
  if (r.chance(0.35)) setStdin(w, body("<stdin>", w.cwd, true));
  else
  {
    std::string p = r.pick(paths);
    if (r.chance(0.6)) { p = r.pick(dirs) + "/main.eo"; w.files[p] = body(p, dirOf(p), true); }
    w.argv.push_back(spell(r, dirs, w.cwd, p));
  }
  if (r.chance(0.4)) w.fileChunk = randChunk(r);
  if (r.chance(0.2)) w.alloc = randAlloc(r);
  if (r.chance(0.2)) w.clock = CK_JUMPY;
  w.files["/swap/changed"] = "(echo \"changed behind the back\")\n(declare-const changed Bool)\n";
  // files change or vanish once they have been read
  if (r.chance(0.6))
    for (auto& p : paths)
      if (r.chance(0.7))
      {
        Fault f;
        f.target = p;
        if (r.chance(0.5)) { f.kind = F_OPEN_SWAP; f.at = 2; f.arg = -1; }
        else { f.kind = F_OPEN_ERR; f.at = 2; f.arg = r.chance(0.5) ? ENOENT : EACCES; }
        w.faults.push_back(f);
      }
  // and one may not be readable at all
  if (r.chance(0.08))
  {
    Fault f;
    f.kind = F_OPEN_ERR;
    f.target = r.pick(paths);
    f.at = 1;
    f.arg = r.chance(0.5) ? EACCES : EMFILE;
    w.faults.push_back(f);
  }
  return c;
}

// --------------------------------------------------------------- interpreter
namespace {
struct Interp
{
  const World& w;
  std::string out;
  std::set<std::string> read, rules;
  std::map<std::string, uint64_t> opens;
  std::vector<std::string> stack;
  bool hasRef = false, failed = false, unknown = false, inRef = false;
  int ascopes = 0, includes = 0, skipped = 0;
  explicit Interp(const World& ww) : w(ww)
  {
  }
  static bool quoted(const std::string& form, std::string* s)
  {
    size_t a = form.find('"'), b = form.rfind('"');
    if (a == std::string::npos || b <= a) return false;
    *s = form.substr(a + 1, b - a - 1);
    return s->find('"') == std::string::npos;
  }
  void file(const std::string& p, bool ref)
  {
    if (!read.insert(p).second) { skipped++; return; }
    auto i = w.files.find(p);
    if (i == w.files.end()) { failed = true; return; }
    // after a reset a file may be read again
    uint64_t n = ++opens[p];
    for (auto& f : w.faults)
      if (f.target == p && n >= f.at)
      {
        if (f.kind == F_OPEN_ERR) { failed = true; return; }
        if (f.kind == F_OPEN_SWAP) i = w.files.find("/swap/changed");
      }
    if (i == w.files.end()) { unknown = true; return; }
    includes++;
    stack.push_back(p);
    bool was = inRef;
    inRef = ref;
    text(i->second, dirOf(p));
    inRef = was;
    stack.pop_back();
    if (!failed && ascopes) failed = true;
  }
  void text(const std::string& s, const std::string& dir)
  {
    for (auto& f0 : topForms(s))
    {
      size_t b = f0.find_first_not_of(" \n\t");
      // comments in front of a form
      std::string f = b == std::string::npos ? "" : f0.substr(b);
      while (!f.empty() && f[0] == ';')
      {
        size_t e = f.find('\n');
        f = e == std::string::npos ? "" : f.substr(e + 1);
        size_t q = f.find_first_not_of(" \n\t");
        f = q == std::string::npos ? "" : f.substr(q);
      }
      if (f.empty()) continue;
      std::string q;
      auto is = [&](const char* h) { return f.compare(0, std::string(h).size(), h) == 0; };
      if (is("(echo ") && quoted(f, &q)) out += q + "\n";
      else if (is("(assert true)") && inRef) {}
      else if (is("(declare-const changed Bool)")) {}
      else if (inRef) { failed = true; return; }
      else if (is("(include ") && quoted(f, &q))
      {
        if (ascopes) { failed = true; return; }
        file(normPath(dir, q), false);
      }
      else if (is("(reference ") && quoted(f, &q))
      {
        if (hasRef || ascopes) { failed = true; return; }
        hasRef = true;
        file(normPath(dir, q), true);
      }
      else if (is("(declare-rule "))
      {
        std::string n = f.substr(14, f.find(' ', 14) - 14);
        if (!rules.insert(n).second || ascopes) { failed = true; return; }
      }
      else if (is("(assume-push "))
      {
        // `true` is an assertion of every reference here
        ascopes++;
      }
      else if (is("(reset)"))
      {
        rules.clear();
        ascopes = 0;
        read = std::set<std::string>(stack.begin(), stack.end());
      }
      else { unknown = true; return; }
      if (failed || unknown) return;
    }
  }
};
}  // namespace

Verdict judgeC10(const Case& c, Ctx& x)
{
  Interp m(c.w);
  std::string main;
  for (auto& a : c.w.argv)
  {
    if (m.failed || m.unknown) break;
    if (a.compare(0, 10, "--include=") == 0) m.file(normPath(c.w.cwd, a.substr(10)), false);
    else if (a.compare(0, 12, "--reference=") == 0) { if (m.hasRef) m.unknown = true; m.hasRef = true; m.file(normPath(c.w.cwd, a.substr(12)), true); }
    else main = a;
  }
  if (!m.failed && !m.unknown)
  {
    if (!main.empty()) m.file(normPath(c.w.cwd, main), false);
    else { m.text(stdinText(c.w), c.w.cwd); if (!m.failed && m.ascopes) m.failed = true; }
  }
  if (m.unknown) return Verdict::skip();
  Result R = x.run(c.w);
  if (R.end == E_BUDGET || R.end == E_DEADLOCK) return Verdict::bad("hang", "does not end: " + describe(R));
  x.probe(m.failed ? "graphs_refused" : "graphs_accepted");
  x.probe("files_read", static_cast<uint64_t>(m.includes));
  x.probe("repeated_includes_skipped", static_cast<uint64_t>(m.skipped));
  bool nt = m.includes + m.skipped >= 2;
  std::string want = m.out;
  if (m.failed)
  {
    if (R.success() || !R.verdict().empty()) return Verdict::bad("accepted", "accepts an include that must fail: " + describe(R) + ", output " + firstDiff(want, R.out));
    if (R.out != want) return Verdict::bad("order", "output before a failing include is not that of the files in order: expected/got " + firstDiff(want, R.out));
    if (!orderlyFail(R)) return Verdict::bad("crash", "does not fail orderly: " + describe(R));
    return Verdict::ok(nt);
  }
  want += "correct\n";
  if (!R.accepted()) return Verdict::bad("refused", "refuses a tree of files it should read: " + describe(R) + " " + esc(R.err.substr(0, 300)));
  if (R.out != want) return Verdict::bad("order", "files are not read once and in order: expected/got " + firstDiff(want, R.out));
  return Verdict::ok(nt);
}

}  // namespace sim
