// C18: the command line; C19: statistics.
#include <ctype.h>
#include <math.h>
#include <string.h>
#include <algorithm>
#include "gen.h"
#include "model.h"
#include "props.h"

namespace sim {

static void insertAt(Rng& r, std::vector<std::string>& v, const std::string& s) { v.insert(v.begin() + static_cast<long>(r.below(v.size() + 1)), s); }
static const std::vector<std::string> kSem = {"--normalize-num", "--no-normalize-dec", "--no-normalize-hex", "--no-parse-let", "--no-rule-sym-table", "--no-normalize-num", "--normalize-dec", "--normalize-hex", "--parse-let", "--rule-sym-table"};
static const std::vector<std::string> kQuiet = {"--no-print-dag", "--print-dag", "--stats", "--no-stats", "--stats-all", "--no-stats-all", "--stats-compact", "--no-stats-compact"};

// ----------------------------------------------------------------- C18
Case genC18(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  std::string log;
  World& w = c.w;
  w = r.chance(0.8) ? soupOptions(r) : anyWorkload(r, 0.3);
  // a file that the session includes first is given by an option
  std::string* body = nullptr;
  for (auto& m : w.input) { body = &m.data; break; }
  if (!body)
    for (auto& n : {"/w/main.proof", "/w/main.eo"})
      if (w.files.count(n)) { body = &w.files[n]; break; }
  static const std::string inc = "(include \"sig.eo\")\n";
  if (body && body->compare(0, inc.size(), inc) == 0 && r.chance(0.4))
  {
    if (r.chance(0.7)) body->erase(0, inc.size());
    insertAt(r, w.argv, r.chance(0.8) ? "--include=sig.eo" : r.chance(0.5) ? "--include=./sig.eo" : "--include=/w/sig.eo");
  }
  // an option of the command line as a command
  if (body && r.chance(0.3))
    for (size_t i = 0; i < w.argv.size(); i++)
    {
      std::string a = w.argv[i];
      bool no = a.compare(0, 5, "--no-") == 0;
      if (a.find("normalize-") == std::string::npos) continue;
      std::string cmd = "(set-option :" + a.substr(no ? 5 : 2) + (no ? " false)\n" : " true)\n");
      if (r.chance(0.8)) w.argv.erase(w.argv.begin() + static_cast<long>(i));
      body->insert(body->compare(0, inc.size(), inc) == 0 && r.chance(0.5) ? inc.size() : 0, cmd);
      break;
    }
  else if (body && r.chance(0.15))
  {
    static const std::vector<std::string> cs = {"(set-option :produce-proofs true)\n", "(set-option :normalize-num yes)\n", "(set-option :stats true)\n", "(set-option :print-dag false)\n", "(set-option :print-success (a b))\n", "(set-option :verbosity 3)\n", "(set-option :normalize-hex \"false\")\n"};
    body->insert(0, r.pick(cs));
  }
  for (int k = static_cast<int>(r.below(4)); k > 0; k--) insertAt(r, w.argv, r.pick(kQuiet));
  if (r.chance(0.25)) insertAt(r, w.argv, r.pick(kSem));
  if (r.chance(0.15) && !w.argv.empty()) insertAt(r, w.argv, r.pick(w.argv));
  if (r.chance(0.12))
  {
    static const std::vector<std::string> odd = {"--no-help", "--statistics", "--no-", "--", "-", "-x", "--stats=true", "--include", "--no-include=sig.eo", "--normalize_num", "normalize-num", "-h", "--no-no-stats", "--no-show-config", "-t", "-v", "--help", "--show-config", "main.eo", "main.proof", "sig.eo", "--include=nofile.eo", "--reference=nofile", "--include=/w", "--Help", "--reference=sig.eo"};
    std::string o = r.pick(odd);
    insertAt(r, w.argv, o);
    log = "argument";
  }
  if (r.chance(0.1)) for (size_t i = w.argv.size(); i > 1; i--) std::swap(w.argv[i - 1], w.argv[r.below(i)]);
  if (r.chance(0.15)) mutateWorld(r, w, 1, log);
  systemFaults(r, w);
  if (!log.empty()) c.kv["messages"] = log;
  return c;
}
Verdict judgeC18(const Case& c, Ctx& x)
{
  mdl::Marks m;
  mdl::Outcome p;
  for (auto& a : c.w.argv)
    if (a[0] == '-') x.probe("argument " + a.substr(0, a.find('=')));
  Result R;
  Verdict v = against(c.w, x, m, p, &R);
  if (v.viol || p.kind != mdl::Outcome::INFO) return v;
  // what is asked for does not depend on anything else
  World w = c.w;
  w.argv.clear();
  for (auto& a : c.w.argv)
    if (a == "--help" || a == "--show-config") { w.argv.push_back(a); break; }
  w.input.clear();
  w.files.clear();
  Result Q = x.run(w);
  if (Q.end != R.end || Q.code != R.code || Q.out != R.out || Q.err != R.err) return Verdict::bad("information", "depends on other arguments: " + outcomeDiff(Q, R));
  if (w.argv[0] == "--help")
    for (const char* o : {"include", "help", "normalize-num", "normalize-dec", "normalize-hex", "parse-let", "print-dag", "rule-sym-table", "reference", "show-config", "stats", "stats-all", "stats-compact"})
      if (R.out.find(o) == std::string::npos) return Verdict::bad("information", std::string("the help does not mention ") + o);
  return v;
}

// ----------------------------------------------------------------- C19
struct Row { std::string name; double count = 0, time = 0, pct = 0, per = 0, mk = 0; };
struct StatText
{
  bool ok = true;
  std::string why;
  std::map<std::string, double> num;
  std::vector<Row> rules, progs;
  bool hasRules = false, hasProgs = false;
};
static std::string bare(const std::string& n) { return n.size() >= 2 && n[0] == '|' && n.back() == '|' ? n.substr(1, n.size() - 2) : n; }
// { a: 1, |b, c|: 2 }
static bool compactRows(const std::string& s, std::vector<std::pair<std::string, double>>& out)
{
  size_t i = s.find('{');
  if (i == std::string::npos) return false;
  i++;
  for (;;)
  {
    while (i < s.size() && (s[i] == ' ' || s[i] == ',')) i++;
    if (i >= s.size()) return false;
    if (s[i] == '}') return true;
    size_t b = i;
    if (s[i] == '|') { i = s.find('|', i + 1); if (i == std::string::npos) return false; i++; }
    else i = s.find(": ", i);
    if (i == std::string::npos || s.compare(i, 2, ": ") != 0) return false;
    std::string n = s.substr(b, i - b);
    i += 2;
    char* e;
    double d = strtod(s.c_str() + i, &e);
    if (e == s.c_str() + i) return false;
    i = static_cast<size_t>(e - s.c_str());
    out.emplace_back(bare(n), d);
  }
}
static StatText parseStats(const std::string& t)
{
  StatText r;
  auto bad = [&](const std::string& l) { if (r.ok) { r.ok = false; r.why = l; } };
  bool prog = false;
  for (size_t i = 0; i < t.size();)
  {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) { bad("last line does not end"); break; }
    std::string l = t.substr(i, e - i);
    i = e + 1;
    if (l.empty() || l[0] == '=') continue;
    size_t q = l.find(" = ");
    if (q != std::string::npos && l.find('{') == q + 3)
    {
      std::string k = l.substr(0, q);
      std::vector<std::pair<std::string, double>> rows;
      if (!compactRows(l, rows)) { bad(l); continue; }
      auto& v = k == "progCount" ? r.progs : r.rules;
      (k == "progCount" ? r.hasProgs : r.hasRules) = true;
      if (k == "progCount" || k == "ruleCount")
        for (auto& x : rows) { Row w; w.name = x.first; w.count = x.second; v.push_back(w); }
      else
      {
        if (rows.size() != v.size()) { bad(l); continue; }
        for (size_t j = 0; j < rows.size(); j++)
        {
          if (v[j].name != rows[j].first) bad(l);
          (k == "checkTime" ? v[j].time : v[j].mk) = rows[j].second;
        }
      }
      continue;
    }
    if (q != std::string::npos && l[0] != ' ')
    {
      r.num[l.substr(0, q)] = strtod(l.c_str() + q + 3, nullptr);
      continue;
    }
    size_t b = l.find_first_not_of(' ');
    if (l.compare(b, 6, "Rule  ") == 0 && l.find(": ") == std::string::npos) { prog = false; r.hasRules = true; continue; }
    if (l.compare(b, 9, "Program  ") == 0 && l.find(": ") == std::string::npos) { prog = true; r.hasProgs = true; continue; }
    // name: numbers
    size_t z = l[b] == '|' ? l.find('|', b + 1) : b;
    size_t k = z == std::string::npos ? z : l.find(": ", z);
    if (k == std::string::npos) { bad(l); continue; }
    Row w;
    w.name = bare(l.substr(b, k - b));
    if (prog)
    {
      if (sscanf(l.c_str() + k + 2, "%lf", &w.count) != 1) bad(l);
      r.progs.push_back(w);
    }
    else
    {
      char pc[40], pr[40];
      if (sscanf(l.c_str() + k + 2, "%lf %lf (%39[^%]%%) %39s %lf", &w.count, &w.time, pc, pr, &w.mk) != 5) bad(l);
      else { w.pct = strtod(pc, nullptr); w.per = strtod(pr, nullptr); }
      r.rules.push_back(w);
    }
  }
  return r;
}
Case genC19(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  c.w = r.chance(0.4) ? soupOptions(r) : r.chance(0.4) ? genC13(r.next()).w : anyWorkload(r, 0.3);
  auto& a = c.w.argv;
  a.erase(std::remove_if(a.begin(), a.end(), [](const std::string& s) { return s.find("stats") != std::string::npos; }), a.end());
  if (r.chance(0.6)) insertAt(r, a, "--stats");
  if (r.chance(0.5) || a.empty() || std::find(a.begin(), a.end(), "--stats") == a.end()) insertAt(r, a, "--stats-all");
  c.w.faults.clear();
  c.w.clock = r.chance(0.5) ? CK_STEADY : r.chance(0.8) ? CK_TICK : CK_FROZEN;
  c.w.clockSeed = r.next() >> 8;
  return c;
}
static std::string shown(const std::vector<std::pair<std::string, int>>& v)
{
  std::string s;
  for (auto& p : v) s += (s.empty() ? "" : ", ") + p.first + ": " + std::to_string(p.second);
  return s;
}
Verdict judgeC19(const Case& c, Ctx& x)
{
  mdl::Outcome p = predict(c.w);
  if (p.kind == mdl::Outcome::UNKNOWN) return Verdict::skip();
  bool on = std::find(c.w.argv.begin(), c.w.argv.end(), "--stats") != c.w.argv.end() || std::find(c.w.argv.begin(), c.w.argv.end(), "--stats-all") != c.w.argv.end();
  if (!p.stats || !on) return Verdict::ok(false);
  if (p.kind != mdl::Outcome::OK && p.kind != mdl::Outcome::INCOMPLETE) { x.probe("session refused"); return Verdict::ok(false); }
  World plain = c.w, comp = c.w;
  comp.argv.insert(comp.argv.begin(), "--stats-compact");
  Result A = x.run(plain), B = x.run(comp);
  if (!A.accepted() || !B.accepted()) return usable(A) && usable(B) ? Verdict::bad("refused", "with statistics: " + describe(A) + " / compact: " + describe(B)) : Verdict::skip();
  bool all = std::find(c.w.argv.begin(), c.w.argv.end(), "--stats-all") != c.w.argv.end();
  std::vector<std::pair<std::string, int>> want = p.uses;
  std::sort(want.begin(), want.end());
  StatText S[2];
  for (int i = 0; i < 2; i++)
  {
    const Result& R = i ? B : A;
    std::string text = R.out.substr(untilVerdict(R.out).size());
    const char* form = i ? "compact" : "plain";
    StatText& s = S[i];
    s = parseStats(text);
    std::string d = std::string(form) + " statistics: ";
    if (!s.ok) return Verdict::bad("form", d + "line not understood: " + s.why);
    for (const char* k : {"mkExprCount", "newExprCount", "deleteExprCount", "symCount", "litCount", "time"})
      if (!s.num.count(k)) return Verdict::bad("form", d + "no " + k);
    // how often which rule was used
    std::vector<std::pair<std::string, int>> got;
    for (auto& w : s.rules) got.emplace_back(w.name, static_cast<int>(w.count));
    std::sort(got.begin(), got.end());
    if (got != want) return Verdict::bad("counts", d + "uses of rules are " + shown(want) + ", reported " + shown(got));
    if (!all && (s.hasProgs || !s.progs.empty())) return Verdict::bad("form", d + "programs without --stats-all");
    for (auto& w : s.progs)
      if (w.count < 1) return Verdict::bad("counts", d + "program " + w.name + " was used " + std::to_string(w.count) + " times");
    if (s.num["deleteExprCount"] > s.num["newExprCount"]) return Verdict::bad("terms", d + "more terms deleted than made");
    if (s.num["symCount"] + s.num["litCount"] > s.num["newExprCount"]) return Verdict::bad("terms", d + "more symbols and literals than terms");
    double mk = 0;
    for (auto& w : s.rules) mk += w.mk;
    if (mk > s.num["mkExprCount"]) return Verdict::bad("terms", d + "the rules make more terms than there were");
    for (size_t k = 1; k < s.rules.size(); k++)
      if (s.rules[k].time > s.rules[k - 1].time || (s.rules[k].time == s.rules[k - 1].time && s.rules[k].count > s.rules[k - 1].count)) return Verdict::bad("order", d + "rules are not sorted by time");
    if (c.w.clock == CK_TICK)
      for (auto& w : s.rules)
        if (w.time < 1000 * w.count) return Verdict::bad("time", d + "a millisecond passes between any two looks at the clock, and " + w.name + " took " + std::to_string(w.time) + " us for " + std::to_string(w.count) + " uses");
    if (c.w.clock == CK_STEADY)
    {
      double sum = 0;
      for (auto& w : s.rules)
      {
        if (w.time < 0) return Verdict::bad("time", d + w.name + " took a negative time");
        sum += w.time;
      }
      double total = s.num["time"];
      if (sum > total) return Verdict::bad("time", d + "the rules took longer than everything");
      if (total < 0 || total > static_cast<double>(R.simNs) / 1000 + 1) return Verdict::bad("time", d + "the total time is more than that of the run");
      // every term that is made takes time
      if (!want.empty() && total == 0) return Verdict::bad("time", d + "no time passed");
      if (!i && total > 0)
        for (auto& w : s.rules)
        {
          if (fabs(w.pct - 100 * w.time / total) > 0.0501) return Verdict::bad("derived", d + "percentage of " + w.name);
          if (fabs(w.per - w.time / w.count) > 0.501) return Verdict::bad("derived", d + "time per use of " + w.name);
        }
    }
  }
  // both forms say the same
  for (const char* k : {"mkExprCount", "newExprCount", "deleteExprCount", "symCount", "litCount"})
    if (S[0].num[k] != S[1].num[k]) return Verdict::bad("forms-differ", std::string(k) + " is " + std::to_string(S[0].num[k]) + " in one form and " + std::to_string(S[1].num[k]) + " in the other");
  auto rows = [](std::vector<Row> v) {
    std::vector<std::pair<std::string, double>> o;
    for (auto& w : v) o.emplace_back(w.name, w.count + w.mk * 1e6);
    std::sort(o.begin(), o.end());
    return o;
  };
  if (rows(S[0].rules) != rows(S[1].rules) || rows(S[0].progs) != rows(S[1].progs)) return Verdict::bad("forms-differ", "the rows of the two forms differ");
  // the steps before the last command are reported as they are without it
  World pre = c.w;
  std::string* body = nullptr;
  std::string text0;
  if (!pre.input.empty()) text0 = stdinText(pre);
  else if (pre.files.count(mainTarget(pre))) text0 = pre.files[mainTarget(pre)], body = &pre.files[mainTarget(pre)];
  auto forms = topForms(text0);
  while (!forms.empty() && forms.back().find('(') == std::string::npos) forms.pop_back();
  if (!forms.empty())
  {
    forms.pop_back();
    std::string t;
    for (auto& f : forms) t += f;
    if (body) *body = t;
    else setStdin(pre, t);
    mdl::Outcome q = predict(pre);
    if (q.kind == mdl::Outcome::OK || q.kind == mdl::Outcome::INCOMPLETE)
    {
      Result P = x.run(pre);
      StatText s = parseStats(P.out.substr(untilVerdict(P.out).size()));
      std::map<std::string, std::pair<double, double>> was;
      std::map<std::string, int> rows;
      for (auto& w : s.rules) was[w.name] = {w.count, w.mk}, rows[w.name]++;
      std::map<std::string, int> rows2;
      for (auto& w : S[0].rules) rows2[w.name]++;
      for (auto& w : S[0].rules)
        if (rows[w.name] == 1 && rows2[w.name] == 1)
        {
          auto o = was[w.name];
          if (w.mk < o.second || (w.count == o.first && w.mk != o.second)) return Verdict::bad("history", "the last command changes the terms made by " + w.name + " from " + std::to_string(o.second) + " in " + std::to_string(o.first) + " uses to " + std::to_string(w.mk) + " in " + std::to_string(w.count));
        }
      x.probe("compared with the session before the last command");
    }
  }
  // and nothing is reported unasked
  World no = c.w;
  no.argv.erase(std::remove_if(no.argv.begin(), no.argv.end(), [](const std::string& s) { return s.find("stats") != std::string::npos; }), no.argv.end());
  Result N = x.run(no);
  if (usable(N) && N.out != untilVerdict(A.out)) return Verdict::bad("unasked", "without --stats: " + firstDiff(untilVerdict(A.out), N.out));
  x.probe("rules reported", want.size());
  x.probe("programs reported", S[0].progs.size());
  return Verdict::ok(!want.empty());
}

}  // namespace sim
