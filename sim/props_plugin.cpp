// C25: the plugin interface, with a plugin that watches and one that decides.
#include <string.h>
#include <algorithm>
#include "gen.h"
#include "model.h"
#include "props.h"

namespace sim {
extern const bool g_havePlugin __attribute__((weak));

// a step at the end that the plugin may answer
static void answered(Rng& r, World& w)
{
  std::vector<std::string> rules;
  for (auto& f : w.files)
    for (size_t i = f.second.find("(declare-rule "); i != std::string::npos; i = f.second.find("(declare-rule ", i + 1))
    {
      size_t b = i + 14, e = f.second.find_first_of(" \n(", b);
      if (e != std::string::npos) rules.push_back(f.second.substr(b, e - b));
    }
  if (rules.empty()) return;
  static const std::vector<std::string> concl = {"(eo::requires true false true)", "(eo::requires true true false)", "(eo::and true (eo::requires false true true))", "true", "false", "(eo::eq 1 2)", "(eo::eq 1 (eo::add 1 \"a\"))", "(eo::ite (eo::is_ok (eo::neg \"a\")) true false)", "1", "Bool"};
  std::string t;
  for (int n = 1 + static_cast<int>(r.below(2)); n > 0; n--)
    t += "(step @answered" + std::to_string(r.below(50)) + " " + r.pick(concl) + " :rule " + r.pick(rules) + (r.chance(0.3) ? " :args (true)" : "") + ")\n";
  std::string m = mainTarget(w);
  if (w.files.count(m)) w.files[m] += t;
  else if (!w.input.empty()) w.input.back().data += t;
}
Case genC25(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  switch (r.below(6))
  {
    case 0: c.w = evalWorkload(r); break;
    case 1: c.w = facetWorkload(r, static_cast<int>(r.below(4))); break;
    case 2: c = genC11(r.next()); break;
    case 3: c = genC12(r.next()); break;
    default: c.w = soupWorkload(r); break;
  }
  c.prop.clear();
  c.kv.clear();
  c.seed = seed;
  c.w = stripped(c.w, {F_OPEN_ERR, F_READ_ERR, F_READ_EOF, F_WRITE_ERR, F_ALLOC_FAIL, F_READ_EINTR, F_OPEN_SWAP});
  c.w.plugin = PL_REPORT;
  c.w.pluginSeed = r.below(1000);
  if (r.chance(0.5))
  {
    if (r.chance(0.2)) c.w.plugin |= PL_REFUSE;
    if (r.chance(0.5)) c.w.plugin |= PL_ANSWER;
    if (r.chance(0.4)) c.w.plugin |= PL_ECHO;
    if (r.chance(0.4)) c.w.plugin |= PL_EVAL;
  }
  else if (r.chance(0.6)) c.w.plugin |= PL_SELF;
  if ((c.w.plugin & PL_ANSWER) && r.chance(0.5)) answered(r, c.w);
  if (r.chance(0.5)) c.w.alloc = randAlloc(r);
  if (r.chance(0.3)) c.w.outChunk = randChunk(r);
  return c;
}
// the lines of the plugin, and what remains without them
static std::string splitLog(const std::string& out, std::vector<std::string>& log)
{
  std::string o;
  for (size_t i = 0; i < out.size();)
  {
    size_t e = out.find('\n', i);
    e = e == std::string::npos ? out.size() : e + 1;
    std::string l = out.substr(i, e - i);
    i = e;
    if (l.compare(0, 3, "#P ") != 0) { o += l; continue; }
    while (!l.empty() && l.back() == '\n') l.pop_back();
    log.push_back(l.substr(3));
  }
  return o;
}
// Which scopes the checker opens for its own use (and what it binds there) is
// its own business: scopes with nothing but names in them are dropped, and
// the order in which one command binds and marks does not count.
static std::vector<std::string> normal(const std::vector<std::string>& log)
{
  auto minor = [](const std::string& s) { return s[0] == 'B' || s[0] == 'M' || s[0] == 'P' || s[0] == 'D' || s[0] == 'L'; };
  std::vector<std::string> o;
  for (auto& l : log)
  {
    if (l == ")")
    {
      size_t i = o.size();
      while (i > 0 && minor(o[i - 1])) i--;
      if (i > 0 && o[i - 1] == "(")
      {
        std::vector<std::string> keep;
        for (size_t j = i; j < o.size(); j++)
          if (o[j][0] != 'B') keep.push_back(o[j]);
        o.resize(i - 1);
        o.insert(o.end(), keep.begin(), keep.end());
        continue;
      }
    }
    o.push_back(l);
  }
  for (size_t i = 0; i < o.size();)
  {
    size_t j = i;
    while (j < o.size() && minor(o[j])) j++;
    std::sort(o.begin() + static_cast<long>(i), o.begin() + static_cast<long>(j));
    i = j == i ? i + 1 : j;
  }
  return o;
}
Verdict judgeC25(const Case& c, Ctx& x)
{
  if (!&g_havePlugin) { x.probe("the plugin could not be built"); return Verdict::skip(); }
  mdl::Model md;
  mdl::Outcome p = md.run(c.w);
  if (p.out.find("#P ") != std::string::npos) return Verdict::skip();
  Result r = x.run(c.w);
  if (!usable(r)) return Verdict::skip();
  std::vector<std::string> log;
  std::string out = splitLog(r.out, log);
  bool nt = false;
  if (r.end == E_SIGNAL && p.kind == mdl::Outcome::UNKNOWN) return Verdict::skip();
  if (r.end == E_SIGNAL) return Verdict::bad("crash", describe(r));
  for (auto& l : log)
    if ((l[0] == 'I' || l[0] == 'F') && l[2] != '/') l.insert(2, c.w.cwd + "/");
  for (auto& l : log)
    if (l[0] == 'X') return Verdict::bad("told-wrong", l);
  if ((c.w.plugin | PL_SELF) == (PL_REPORT | PL_SELF))
  {
    World w0 = c.w;
    w0.plugin = 0;
    Result b = x.run(w0);
    if (!usable(b)) return Verdict::skip();
    if (b.end != r.end || b.code != r.code || b.out != out) return Verdict::bad("observer-changes", "without the plugin: " + describe(b) + "; with it: " + describe(r) + "; " + firstDiff(b.out, out));
    x.probe("runs with and without an observer compared");
    nt = true;
  }
  if (p.kind == mdl::Outcome::UNKNOWN) return nt ? Verdict::ok(true) : Verdict::skip();
  std::string d = "plugin " + std::to_string(c.w.plugin) + ", the model says " + (p.kind == mdl::Outcome::REJECT ? "rejected" : "accepted") + (p.why.empty() ? "" : " (" + p.why + ")") + ", the run: " + describe(r);
  if (p.kind == mdl::Outcome::REJECT)
  {
    if (!orderlyFail(r)) return Verdict::bad("accepted", d);
    return Verdict::ok(true);
  }
  if (r.end != E_EXIT || r.code != 0) return Verdict::bad("refused", d + "; " + esc(r.err.substr(0, 300)));
  if (!p.warned && beforeVerdict(out) != p.out) return Verdict::bad("output", d + "; " + firstDiff(p.out, out));
  std::vector<std::string> a = normal(md.events), b = normal(log);
  x.probe("event logs compared");
  x.probe("events of the plugin interface", b.size());
  for (auto& l : b) x.probe(std::string("event ") + l[0]);
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  if (i < a.size() || i < b.size())
    return Verdict::bad("events", "event " + std::to_string(i) + ": expected \"" + (i < a.size() ? a[i] : "(end)") + "\", told \"" + (i < b.size() ? b[i] : "(end)") + "\"");
  return Verdict::ok(true);
}
}  // namespace sim
