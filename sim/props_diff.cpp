// Properties decided by comparing simulated executions with each other.
#include <errno.h>
#include <string.h>
#include <algorithm>
#include "gen.h"
#include "props.h"

namespace sim {

// ------------------------------------------------------------------ helpers
bool orderlyFail(const Result& r) { return (r.end == E_EXIT && r.code != 0) || r.end == E_ABORT; }
bool usable(const Result& r) { return r.end == E_EXIT || r.end == E_ABORT || r.end == E_SIGNAL; }
bool sameOutcome(const Result& a, const Result& b) { return a.end == b.end && a.code == b.code && a.out == b.out && a.err == b.err; }
std::string firstDiff(const std::string& a, const std::string& b)
{
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t s = i > 30 ? i - 30 : 0;
  return "at byte " + std::to_string(i) + ": \"" + esc(a.substr(s, 80)) + "\" / \"" + esc(b.substr(s, 80)) + "\"";
}
std::string outcomeDiff(const Result& a, const Result& b)
{
  std::string s = describe(a) + " / " + describe(b);
  if (a.out != b.out) s += "; stdout differs " + firstDiff(a.out, b.out);
  if (a.err != b.err) s += "; stderr differs " + firstDiff(a.err, b.err);
  return s;
}
bool isPrefix(const std::string& p, const std::string& s) { return s.compare(0, p.size(), p) == 0; }
// what precedes the verdict line (all of it if there is none)
std::string beforeVerdict(const std::string& out)
{
  size_t p = 0, at = std::string::npos;
  while (p < out.size())
  {
    size_t e = out.find('\n', p);
    if (e == std::string::npos) break;
    std::string l = out.substr(p, e - p);
    if (l == "correct" || l == "incomplete") at = p;
    p = e + 1;
  }
  return at == std::string::npos ? out : out.substr(0, at);
}
std::string untilVerdict(const std::string& out)
{
  std::string b = beforeVerdict(out);
  if (b.size() == out.size()) return out;
  size_t e = out.find('\n', b.size());
  return out.substr(0, e + 1);
}
World stripped(const World& w, std::initializer_list<int> kinds)
{
  World b = w;
  b.faults.clear();
  for (auto& f : w.faults)
    if (std::find(kinds.begin(), kinds.end(), f.kind) == kinds.end()) b.faults.push_back(f);
  return b;
}
std::string mainTarget(const World& w)
{
  if (!w.input.empty()) return "<stdin>";
  for (auto it = w.argv.rbegin(); it != w.argv.rend(); ++it)
    if ((*it)[0] != '-') return (*it)[0] == '/' ? *it : w.cwd + "/" + *it;
  return "";
}
const std::string contentOf(const World& w, const std::string& t)
{
  if (t == "<stdin>") return stdinText(w);
  auto i = w.files.find(t);
  return i == w.files.end() ? "" : i->second;
}
static std::string stderrLimited(const Result& r) { return esc(r.err.substr(0, 400)); }

// Lexical state at the end of a text, by a scanner of its own.
Scan scanText(const std::string& s)
{
  Scan x;
  size_t i = 0, formStart = 0;
  while (i < s.size())
  {
    char c = s[i];
    if (c == ';')
    {
      while (i < s.size() && s[i] != '\n') i++;
      continue;
    }
    if (c == '"' || c == '|')
    {
      size_t e = s.find(c, i + 1);
      if (e == std::string::npos) { x.depth = std::max(x.depth, 1); x.mid = true; return x; }
      if (x.depth == 0) x.topJunk = true;
      i = e + 1;
      continue;
    }
    if (c == '(')
    {
      if (x.depth == 0) formStart = i;
      x.depth++;
    }
    else if (c == ')')
    {
      x.depth--;
      if (x.depth < 0) { x.topJunk = true; x.depth = 0; }
      else if (x.depth == 0)
      {
        x.forms++;
        std::string h = s.substr(formStart, 14);
        if (h.compare(0, 13, "(assume-push ") == 0) x.open++;
        if (h.compare(0, 10, "(step-pop ") == 0 && x.open > 0) x.open--;
        if (h.compare(0, 6, "(exit)") == 0) { x.exited = true; return x; }
        if (h.compare(0, 7, "(reset)") == 0) x.open = 0;
        if (s.find(":rule trust", formStart) < i) x.sorry = true;
      }
    }
    else if (x.depth == 0 && !isspace(static_cast<unsigned char>(c))) x.topJunk = true;
    i++;
  }
  x.mid = x.depth > 0;
  return x;
}

static std::string somePath(Rng& r, const World& w)
{
  std::vector<std::string> v;
  for (auto& f : w.files) v.push_back(f.first);
  return v.empty() ? "" : r.pick(v);
}
// an interesting byte offset of a text: near the end of a top-level form, at
// either end, near a buffer boundary, or anywhere
static uint64_t someOffset(Rng& r, const std::string& t)
{
  if (t.empty()) return 0;
  switch (r.below(6))
  {
    case 0: case 1: case 2:
    {
      auto f = topForms(t);
      size_t k = r.below(f.size() + 1), o = 0;
      for (size_t i = 0; i < k; i++) o += f[i].size();
      int64_t d = static_cast<int64_t>(o) + r.range(-3, 3);
      if (r.chance(0.5)) d = static_cast<int64_t>(o);
      return d < 0 ? 0 : std::min<uint64_t>(static_cast<uint64_t>(d), t.size());
    }
    case 3: return r.below(3) == 0 ? 0 : t.size() - std::min<uint64_t>(t.size(), r.below(3));
    default: return r.below(t.size() + 1);
  }
}

// ----------------------------------------------------------------- C01
Case genC01(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  c.w = anyWorkload(r, 0.25);
  std::string main = mainTarget(c.w);
  if (r.chance(0.5)) c.w.fileChunk = randChunk(r);
  if (r.chance(0.3)) c.w.stdinChunk = randChunk(r);
  c.w.clockSeed = r.below(1000);
  int n = r.chance(0.8) ? 1 : 2;
  static const std::vector<int64_t> re = {EIO, EIO, ENXIO, ESTALE, ETIMEDOUT, EISDIR, ENOMEM, EBADF, ECONNRESET};
  static const std::vector<int64_t> oe = {ENOENT, EACCES, EMFILE, ENFILE, EIO, ENOMEM, ELOOP, ESTALE, EPERM};
  while (n-- > 0)
  {
    Fault f;
    f.target = r.chance(0.5) ? main : somePath(r, c.w);
    if (f.target.empty()) f.target = main;
    if (f.target == "<stdin>" || r.chance(0.65))
    {
      f.kind = F_READ_ERR;
      f.at = someOffset(r, contentOf(c.w, f.target));
      f.arg = r.pick(re);
      f.arg2 = r.chance(0.2);
    }
    else
    {
      f.kind = F_OPEN_ERR;
      f.at = 1;
      f.arg = r.pick(oe);
      f.arg2 = r.chance(0.1);
    }
    c.w.faults.push_back(f);
  }
  return c;
}
Verdict judgeC01(const Case& c, Ctx& x)
{
  World b = stripped(c.w, {F_READ_ERR, F_OPEN_ERR});
  Result B = x.run(b);
  if (!usable(B)) return Verdict::skip();
  Result R = x.run(c.w);
  if (!R.fired[F_READ_ERR] && !R.fired[F_OPEN_ERR]) return Verdict::ok(false);
  if (B.accepted()) x.probe("fault_in_acceptable_session");
  if (R.end == E_BUDGET || R.end == E_DEADLOCK || R.end == E_LOST)
    return Verdict::bad("hang", "the run does not end after the fault: " + describe(R));
  if (R.end == E_SIGNAL && B.end != E_SIGNAL) return Verdict::bad("crash", "crashed on an input fault: " + describe(R));
  // a persistent fault before the end of an input: that input can never have been read
  bool lost = false, hasExit = false;
  for (auto& f : c.w.faults)
  {
    if (f.arg2) continue;
    if (f.kind == F_OPEN_ERR && R.fired[F_OPEN_ERR]) lost = true;
    if (f.kind == F_READ_ERR && R.fired[F_READ_ERR] && f.at < contentOf(c.w, f.target).size()) lost = true;
  }
  // which fault fired is only certain if there is one of them
  if (c.w.faults.size() > 1)
    for (auto& f : c.w.faults)
      if (f.arg2 || (f.kind == F_READ_ERR && f.at >= contentOf(c.w, f.target).size())) lost = false;
  if (c.w.faults.size() > 1 && lost)
  {
    // require every kind configured to have fired at least once
    for (auto& f : c.w.faults) if (!R.fired[f.kind]) lost = false;
  }
  for (auto& f : c.w.files) if (f.second.find("(exit") != std::string::npos) hasExit = true;
  if (stdinText(c.w).find("(exit") != std::string::npos) hasExit = true;
  if (R.success())
  {
    if (lost && !hasExit) return Verdict::bad("accepted-unread", "reports success although an input could not be read to its end: " + describe(R) + " stdout " + esc(R.out.substr(0, 300)));
    if (!B.success() || untilVerdict(R.out) != untilVerdict(B.out))
      return Verdict::bad("accepted-differs", "success under an input fault, but " + outcomeDiff(B, R));
    x.probe("succeeded_despite_fault");
    return Verdict::ok(true);
  }
  if (!R.verdict().empty() && beforeVerdict(R.out).size() < R.out.size() && B.verdict().empty())
    return Verdict::bad("verdict-printed", "prints a verdict and then fails: " + esc(R.out));
  if (!R.verdict().empty() && !B.accepted()) return Verdict::bad("verdict-printed", "prints a verdict and then fails: " + esc(R.out));
  if (!isPrefix(beforeVerdict(R.out), B.out)) return Verdict::bad("output-differs", "the output before the fault differs: " + firstDiff(B.out, R.out));
  if (R.err.empty()) return Verdict::bad("silent", "fails without saying why: " + describe(R));
  x.probe("refused_after_fault");
  return Verdict::ok(true);
}

// ----------------------------------------------------------------- C02
// commands whose tokens are awkward when they are delivered in pieces
static std::string oddCommand(Rng& r, SessionGen& g)
{
  static const std::vector<std::string> bits = {"\xff", "\xfe\xff", "\x80", "\xc3\xa9", "a", " ", "\t", "\\", "\n", "\r\n", ";", "(", ")", "''", "\x7f", "\x01", "0"};
  auto noise = [&](int n, const char* no) {
    std::string s;
    while (n-- > 0) { std::string b = r.pick(bits); if (b.find_first_of(no) == std::string::npos) s += b; }
    return s;
  };
  switch (r.below(10))
  {
    case 0: return "(echo \"" + noise(r.range(0, 12), "\"") + "\"\"" + noise(3, "\"") + "\")";
    case 1: return "(declare-const |" + g.fresh("q") + noise(r.range(0, 12), "|\\") + "| Bool)";
    case 2: return ";" + noise(r.range(0, 40), "\n\r");
    case 3: return "(define " + g.fresh("n") + " () " + std::to_string(r.next() >> r.below(60)) + std::to_string(r.next()) + ")";
    case 4: return "(define " + g.fresh("n") + " () " + std::to_string(r.below(1000)) + "." + std::to_string(r.next() >> r.below(60)) + ")";
    case 5: return "(define " + g.fresh("n") + " () " + std::to_string(r.below(1000)) + "/" + std::to_string(1 + r.below(1000)) + ")";
    case 6: { std::string s = "(define " + g.fresh("n") + " () #b"; for (int n = r.range(1, 40); n-- > 0;) s += r.chance(0.5) ? '1' : '0'; return s + ")"; }
    case 7: { std::string s = "(define " + g.fresh("n") + " () #x"; for (int n = r.range(1, 20); n-- > 0;) s += "0123456789abcdefABCDEF"[r.below(22)]; return s + ")"; }
    case 8: { std::string s = "(define " + g.fresh("n") + " () \"" ; for (int n = r.range(0, 20); n-- > 0;) s += r.chance(0.1) ? "\"\"" : std::string(1, static_cast<char>(32 + r.below(90) == '"' ? 'x' : "abc xyz();|#'"[r.below(13)])); return s + "\")"; }
    default: return "(define " + g.fresh("n") + " () -" + std::to_string(r.below(100000)) + ")";
  }
}
Case genC02(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  int variant = static_cast<int>(r.below(4));
  c.kv["variant"] = std::to_string(variant);
  if (variant == 0 && r.chance(0.35)) c.w = corpusWorld(r);
  else
  {
    SessOpts o;
    o.len = r.range(2, 30);
    o.scopes = r.chance(0.6);
    o.wrong = r.chance(0.4) ? 0.1 : 0;
    SessionGen g(r, o);
    g.makeSignature();
    for (int i = 0; i < o.len; i++)
    {
      g.body(1);
      if (r.chance(0.35)) g.add(K_OTHER, oddCommand(r, g));
    }
    g.closeScopes();
    if (r.chance(0.3))
    {
      size_t k = r.below(g.cmds.size() + 1);
      g.cmds.insert(g.cmds.begin() + static_cast<long>(k), Cmd{K_BAD, badCommand(r, g), 0});
    }
    // big: everything moves beyond the reader's buffers
    int place = variant == 0 ? static_cast<int>(r.below(3)) : variant == 1 ? P_FILE_OTHER : static_cast<int>(1 + r.below(2));
    c.w = sessionWorld(r, g, place, r.chance(0.3));
  }
  // blank padding that moves a chosen byte of the main input onto a boundary
  auto padTo = [&](std::string& text, bool lines) {
    uint64_t mul = r.chance(0.7) ? 32768 : r.chance(0.5) ? 8191 : 4096;
    uint64_t target = mul * static_cast<uint64_t>(r.range(1, 2));
    uint64_t off = r.below(text.size() + 1);
    while (target + 2 < off + 4) target += mul;
    uint64_t need = target - off;
    uint64_t at = 0;
    if (r.chance(0.5))
    {
      // in the middle: before some top-level form that starts before off
      auto f = topForms(text);
      uint64_t o = 0;
      for (auto& z : f) { if (o + z.size() > off || r.chance(0.05)) break; o += z.size(); }
      at = o;
    }
    std::string p;
    if (lines) { while (p.size() + 1 < need) p += r.chance(0.02) ? '\n' : ' '; p += '\n'; }
    else { p = ";"; while (p.size() + 1 < need) p += static_cast<char>('a' + r.below(26)); p += '\n'; }
    text.insert(at, p);
    return at;
  };
  std::string main = mainTarget(c.w);
  if (variant == 0)
  {
    c.w.fileChunk = randChunk(r);
    c.w.stdinChunk = randChunk(r);
    c.w.outChunk = r.chance(0.3) ? randChunk(r) : Chunk();
    c.w.clockSeed = r.below(100000);
    if (r.chance(0.4)) { static const std::vector<uint64_t> bs = {512, 1024, 4096, 65536, 1 << 20, 1}; c.w.blk = r.pick(bs); }
      if (!c.w.input.empty())
    {
      std::string t = stdinText(c.w);
      if (r.chance(0.3)) padTo(t, r.chance(0.5));
      c.w.input.clear();
      size_t p = 0;
      int pieces = r.range(1, 30);
      while (p < t.size())
      {
        size_t k = pieces-- > 0 ? 1 + r.below(1 + t.size() / 8) : t.size();
        if (r.chance(0.3)) k = 1 + r.below(4);
        c.w.input.push_back(Msg{t.substr(p, k), ""});
        p += std::min(k, t.size() - p);
      }
    }
    else if (r.chance(0.4) && c.w.files.count(main)) padTo(c.w.files[main], r.chance(0.5));
    for (auto& f : c.w.files)
      if (r.chance(0.15))
        for (int k = r.range(1, 3); k-- > 0;)
          c.w.faults.push_back(Fault{F_READ_EINTR, f.first, static_cast<uint64_t>(r.range(1, 6)), 0, 0});
  }
  else if (variant == 1)
  {
    if (r.chance(0.7)) padTo(c.w.files[main], r.chance(0.5));
    if (r.chance(0.5)) c.w.fileChunk = randChunk(r);
    if (r.chance(0.5)) c.w.stdinChunk = randChunk(r);
  }
  else if (variant == 2)
  {
    // kv pad: text put in front, in lines
    std::string t = c.w.files[main];
    uint64_t off = r.below(t.size() + 1), target = 32768ull * static_cast<uint64_t>(r.range(1, 2));
    uint64_t need = target > off ? target - off : 32768;
    c.kv["pad"] = std::to_string(need);
    c.kv["padnl"] = std::to_string(1 + r.below(4));
  }
  else
  {
    // the main text once as it is, once with every newline/space between tokens
    // delivered through an included file
    c.kv["via"] = "1";
    if (r.chance(0.7)) padTo(c.w.files[main], r.chance(0.5));
  }
  return c;
}
static std::string replaceAll(std::string s, const std::string& a, const std::string& b)
{
  size_t p = 0;
  while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, a.size(), b); p += b.size(); }
  return s;
}
// error text with the position (file:line.col) taken out; position returned
static std::string splitPos(const std::string& err, const std::vector<std::string>& names, long* line, long* col, std::string* file)
{
  *line = *col = -1;
  size_t e = err.find("Error: ");
  if (e == std::string::npos) return err;
  size_t p = e + 7;
  for (auto& n : names)
  {
    if (err.compare(p, n.size() + 1, n + ":") != 0) continue;
    size_t q = p + n.size() + 1;
    char* end = nullptr;
    long l = strtol(err.c_str() + q, &end, 10);
    if (*end != '.') continue;
    long c2 = strtol(end + 1, &end, 10);
    if (*end != ':') continue;
    *line = l;
    *col = c2;
    *file = n;
    return err.substr(0, p) + "<pos>" + std::string(end);
  }
  return err;
}
Verdict judgeC02(const Case& c, Ctx& x)
{
  int variant = static_cast<int>(c.num("variant"));
  std::string main = mainTarget(c.w);
  if (variant == 0)
  {
    World b = stripped(c.w, {F_READ_EINTR});
    b.fileChunk = b.stdinChunk = b.outChunk = Chunk();
    b.tty = false;
    b.clockSeed = 0;
    b.blk = 4096;
    if (!b.input.empty()) setStdin(b, stdinText(b));
    Result B = x.run(b), R = x.run(c.w);
    if (!usable(B)) return Verdict::skip();
    if (R.end == E_BUDGET) return Verdict::skip();
    bool st = std::find(c.w.argv.begin(), c.w.argv.end(), "--stats") != c.w.argv.end();
    Result B2 = B, R2 = R;
    if (st) { B2.out = untilVerdict(B.out); R2.out = untilVerdict(R.out); }
    if (R.shortReads) x.probe("short_transfers");
    if (R.fired[F_READ_EINTR]) x.probe("interrupted_reads");
    if (!sameOutcome(B2, R2)) return Verdict::bad("delivery", "same bytes, delivered whole and in pieces: " + outcomeDiff(B2, R2));
    return Verdict::ok(true);
  }
  if (variant == 1)
  {
    // file (not .eo) against standard input
    std::string text = contentOf(c.w, main);
    World b = c.w;
    b.argv.clear();
    setStdin(b, text);
    Result Fi = x.run(c.w), S = x.run(b);
    if (!usable(Fi) || !usable(S)) return Verdict::skip();
    std::string n = main.substr(c.w.cwd.size() + 1);
    long l1, c1, l2, c2;
    std::string f1, f2;
    std::string e1 = splitPos(Fi.err, {n, main, "stream"}, &l1, &c1, &f1), e2 = splitPos(S.err, {"stream", "<stdin>", "stdin"}, &l2, &c2, &f2);
    if (f1 == n || f1 == main) x.probe("error_position_compared");
    if (Fi.end != S.end || Fi.code != S.code || Fi.out != S.out || e1 != e2 || ((l1 >= 0 && l2 >= 0) && (l1 != l2 || c1 != c2)))
      return Verdict::bad("file-vs-stdin", "same bytes from a file and from standard input: " + outcomeDiff(Fi, S));
    return Verdict::ok(true);
  }
  if (variant == 2)
  {
    uint64_t need = c.num("pad"), nl = c.num("padnl");
    std::string p;
    for (uint64_t i = 0; i + 1 < nl && i + 2 < need; i++) p += '\n';
    p += ';';
    while (p.size() + 1 < need) p += 'x';
    p += '\n';
    uint64_t lines = static_cast<uint64_t>(std::count(p.begin(), p.end(), '\n'));
    World b = c.w;
    b.files[main] = p + b.files[main];
    Result A = x.run(c.w), P = x.run(b);
    if (!usable(A) || !usable(P)) return Verdict::skip();
    long l1, c1, l2, c2;
    std::string f1, f2, n = main.size() > c.w.cwd.size() + 1 ? main.substr(c.w.cwd.size() + 1) : main;
    std::string e1 = splitPos(A.err, {n, main}, &l1, &c1, &f1), e2 = splitPos(P.err, {n, main}, &l2, &c2, &f2);
    if (l1 >= 0) x.probe("error_position_compared");
    bool posBad = (l1 >= 0) != (l2 >= 0) || (l1 >= 0 && (l2 - l1 != static_cast<long>(lines) || c1 != c2));
    if (A.end != P.end || A.code != P.code || A.out != P.out || e1 != e2 || posBad)
      return Verdict::bad("boundary", "leading comment of " + std::to_string(p.size()) + " bytes and " + std::to_string(lines) + " lines changes the outcome: " + outcomeDiff(A, P) + " positions " + std::to_string(l1) + "." + std::to_string(c1) + " / " + std::to_string(l2) + "." + std::to_string(c2));
    return Verdict::ok(true);
  }
  // variant 3: main.eo given directly / included by another file and from stdin
  if (main.size() < 4 || main.substr(main.size() - 3) != ".eo") return Verdict::ok(false);
  {
    std::string n = main.substr(c.w.cwd.size() + 1);
    World b = c.w;
    b.argv.clear();
    setStdin(b, "(include \"" + n + "\")\n");
    World d = c.w;
    d.argv = {"--include=" + n};
    setStdin(d, "");
    d.input.clear();
    Result A = x.run(c.w), I = x.run(b), D = x.run(d);
    if (!usable(A) || !usable(I) || !usable(D)) return Verdict::skip();
    if (A.end != I.end || A.code != I.code || A.out != I.out) return Verdict::bad("include-vs-direct", "same file given directly and included from standard input: " + outcomeDiff(A, I));
    if (A.end != D.end || A.code != D.code || A.out != D.out) return Verdict::bad("option-vs-direct", "same file given directly and with --include: " + outcomeDiff(A, D));
    return Verdict::ok(true);
  }
}

// ----------------------------------------------------------------- C03
Case genC03(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  if (r.chance(0.12)) { c.w = corpusWorld(r); c.kv["corpus"] = "1"; }
  else
  {
    SessOpts o;
    o.len = r.range(3, 35);
    o.scopes = r.chance(0.85);
    o.pushpop = r.chance(0.4);
    SessionGen g(r, o);
    g.makeSignature();
    for (int i = 0; i < o.len; i++) { g.body(1); if (r.chance(0.06)) g.add(K_OTHER, "; a comment (with parens) \"and quotes\" |bars|"); if (r.chance(0.05)) g.add(K_ECHO, "(echo \"multi\nline ; not (a comment\")"); }
    g.closeScopes();
    c.w = sessionWorld(r, g, static_cast<int>(r.below(3)));
    c.kv["gen"] = "1";
  }
  if (r.chance(0.3)) c.w.fileChunk = randChunk(r);
  if (r.chance(0.3)) c.w.stdinChunk = randChunk(r);
  std::string main = mainTarget(c.w);
  Fault f;
  f.kind = F_READ_EOF;
  f.target = r.chance(0.85) ? main : somePath(r, c.w);
  if (f.target.empty()) f.target = main;
  f.at = someOffset(r, contentOf(c.w, f.target));
  c.w.faults.push_back(f);
  return c;
}
Verdict judgeC03(const Case& c, Ctx& x)
{
  World b = stripped(c.w, {F_READ_EOF});
  Result B = x.run(b);
  if (!B.accepted()) return B.end == E_BUDGET ? Verdict::skip() : Verdict::ok(false);
  if (c.w.faults.empty()) return Verdict::ok(false);
  const Fault& f = c.w.faults[0];
  std::string t = contentOf(c.w, f.target);
  if (f.at > t.size()) return Verdict::ok(false);
  Scan s = scanText(t.substr(0, f.at));
  Scan whole = scanText(t);
  if (whole.topJunk || whole.mid) return Verdict::ok(false);
  Result R = x.run(c.w);
  if (R.end == E_BUDGET || R.end == E_DEADLOCK) return Verdict::bad("hang", "does not end on truncated input: " + describe(R));
  if (s.exited) return sameOutcome(B, R) ? Verdict::ok(true) : Verdict::bad("after-exit", "text after (exit) matters: " + outcomeDiff(B, R));
  if (R.end == E_SIGNAL) return Verdict::bad("crash", "crashed on truncated input: " + describe(R));
  if (!isPrefix(beforeVerdict(R.out), B.out)) return Verdict::bad("output-differs", "output of the prefix differs: " + firstDiff(B.out, R.out));
  bool isMain = f.target == mainTarget(c.w);
  if (s.mid)
  {
    x.probe("cut_inside_a_command");
    if (R.success() || !R.verdict().empty()) return Verdict::bad("mid-command", "input that ends inside a command is accepted: " + describe(R) + " input ends in \"" + esc(t.substr(f.at > 60 ? f.at - 60 : 0, std::min<uint64_t>(60, f.at))) + "\"");
    return Verdict::ok(true);
  }
  if (s.open > 0)
  {
    x.probe("cut_inside_an_assumption_scope");
    if (R.success() || !R.verdict().empty()) return Verdict::bad("open-scope", "input that ends with " + std::to_string(s.open) + " open assumption scopes is accepted: " + describe(R));
    return Verdict::ok(true);
  }
  if (isMain && c.num("gen"))
  {
    x.probe("cut_between_commands");
    if (!R.accepted()) return Verdict::bad("prefix-refused", "a complete prefix of an accepted session is refused: " + describe(R) + " " + stderrLimited(R));
    if (R.verdict() != (s.sorry ? "incomplete" : "correct")) return Verdict::bad("prefix-verdict", "verdict of the prefix is " + R.verdict());
  }
  return Verdict::ok(isMain);
}

// ----------------------------------------------------------------- C05
// random evaluation commands: terms are created and dropped
static std::string evalTerm(Rng& r, int d, bool inl)
{
  static const std::vector<std::string> leaf = {"p", "q", "a", "b", "f", "true", "false", "0", "1", "2", "3", "7", "-3", "-1", "12345678901234567890", "and", "or", "(and p q)", "(or p q p)", "(or q p p)", "(f a)", "(= a b)", "Bool", "Int", "U", "(or p)", "(and p q r q)", "+", "(+ 1 2)", "(+ 1 2 1)", "\"\"", "\"abc\"", "\"b\"", "\"a b\"", "#b0", "#b1010", "#b11", "#xa5", "#xf", "1/2", "-7/3", "1.5", "0.25", "neg", "depth", "(-> U U)"};
  if (d <= 0 || r.chance(0.15)) return r.pick(leaf);
  auto e = [&] { return evalTerm(r, d - 1, inl); };
  static const std::vector<std::string> lists = {"or", "and", "+"};
  struct Op { const char* n; int lo, hi; bool list; };
  static const std::vector<Op> ops = {
      {"is_ok", 1, 1, false}, {"is_eq", 2, 2, false}, {"eq", 2, 2, false}, {"ite", 3, 3, false}, {"ite", 3, 3, false}, {"requires", 3, 3, false}, {"requires", 3, 3, false},
      {"hash", 1, 1, false}, {"nameof", 1, 1, false}, {"typeof", 1, 1, false}, {"var", 2, 2, false}, {"cmp", 2, 2, false},
      {"is_z", 1, 1, false}, {"is_q", 1, 1, false}, {"is_bin", 1, 1, false}, {"is_str", 1, 1, false}, {"is_bool", 1, 1, false}, {"is_var", 1, 1, false},
      {"nil", 1, 1, true}, {"cons", 2, 2, true}, {"cons", 2, 2, true}, {"list_len", 1, 1, true}, {"list_concat", 2, 2, true}, {"list_nth", 2, 2, true}, {"list_find", 2, 2, true},
      {"list_erase", 2, 2, true}, {"list_erase_all", 2, 2, true}, {"list_rev", 1, 1, true}, {"list_setof", 1, 1, true}, {"list_minclude", 2, 2, true}, {"list_meq", 2, 2, true},
      {"list_diff", 2, 2, true}, {"list_inter", 2, 2, true}, {"list_singleton_elim", 1, 1, true},
      {"not", 1, 1, false}, {"and", 2, 3, false}, {"or", 2, 3, false}, {"xor", 2, 2, false}, {"add", 2, 3, false}, {"neg", 1, 1, false}, {"mul", 2, 2, false}, {"zdiv", 2, 2, false}, {"zmod", 2, 2, false},
      {"qdiv", 2, 2, false}, {"is_neg", 1, 1, false}, {"to_z", 1, 1, false}, {"to_q", 1, 1, false}, {"to_bin", 2, 2, false}, {"to_str", 1, 1, false}, {"gt", 2, 2, false}, {"len", 1, 1, false},
      {"concat", 2, 3, false}, {"extract", 2, 3, false}, {"extract", 3, 3, false}, {"find", 2, 2, false}, {"dt_constructors", 1, 1, false}, {"dt_selectors", 1, 1, false}};
  switch (r.below(12))
  {
    case 0: return "(eo::define ((zz " + e() + ")) (eo::ite " + e() + " zz " + (r.chance(0.5) ? "(and zz p)" : e()) + "))";
    case 1: return r.chance(0.5) ? "(neg " + e() + ")" : "(depth " + e() + ")";
    case 2: return "(" + r.pick(lists) + " " + e() + " " + e() + ")";
    case 3: return r.chance(0.5) ? "(f " + e() + ")" : "(= " + e() + " " + e() + ")";
    case 4: return "(eo::ite " + e() + " " + e() + " " + e() + ")";
    default:
    {
      const Op& o = r.pick(ops);
      std::string s = std::string("(eo::") + o.n;
      if (o.list) s += " " + (r.chance(0.95) ? r.pick(lists) : e());
      int n = r.range(o.lo, o.hi);
      if (r.chance(0.02)) n += r.range(-1, 1);
      while (n-- > 0) s += " " + e();
      return s + ")";
    }
  }
}
World churnWorkload(Rng& r, bool addrFree)
{
  SessOpts o;
  o.len = r.range(3, 30);
  o.scopes = true;
  o.pushpop = true;
  o.wrong = r.chance(0.2) ? 0.05 : 0;
  SessionGen g(r, o);
  g.makeSignature();
  if (r.chance(0.7))
  {
    g.sig.push_back("(declare-const Str Type)(declare-const Bv Type)(declare-const Rat Type)");
    g.sig.push_back("(declare-consts <string> Str)");
    g.sig.push_back("(declare-consts <binary> Bv)");
    g.sig.push_back("(declare-consts <rational> Rat)");
    if (r.chance(0.5)) g.sig.push_back("(declare-consts <hexadecimal> Bv)(declare-consts <decimal> Rat)");
  }
  for (int i = 0; i < o.len; i++)
  {
    g.body(1);
    if (r.chance(0.6))
    {
      std::string t = evalTerm(r, r.range(2, 4), true);
      switch (r.below(6))
      {
        case 0: case 1: case 2: g.add(K_DEFINE, "(define " + g.fresh("z") + " () " + t + ")"); break;
        case 3: g.add(K_DEFINE, "(define " + g.fresh("z") + " ((x Bool) (y U)) (eo::ite x " + t + " " + evalTerm(r, 2, true) + "))"); break;
        case 4: g.add(K_STEP, "(step " + g.fresh("@z") + " :rule refl :args ((eo::ite (eo::is_ok " + t + ") p q)))"); break;
        default: g.add(K_STEP, "(step " + g.fresh("@z") + " :rule split :args ((eo::ite (eo::is_eq " + t + " " + evalTerm(r, 2, true) + ") p (and q r))))"); break;
      }
      (void)addrFree;
      if (r.chance(0.1))
      {
        // a program over open terms
        std::string n = g.fresh("pr");
        g.add(K_PROGRAM, "(program " + n + " ((x Bool) (y U) (xs Bool :list)) :signature (Bool U) Bool (((" + n + " (and x xs) y) (eo::ite x " + evalTerm(r, 2, true) + " xs)) ((" + n + " x y) (eo::requires x p x))))");
        g.add(K_DEFINE, "(define " + g.fresh("z") + " () (" + n + " " + evalTerm(r, 2, true) + " " + evalTerm(r, 1, true) + "))");
      }
    }
  }
  if (r.chance(0.9)) g.closeScopes();
  World w = sessionWorld(r, g, static_cast<int>(r.below(3)));
  return w;
}
Case genC05(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  c.w = r.chance(0.3) ? evalWorkload(r) : r.chance(0.5) ? churnWorkload(r, false) : anyWorkload(r, 0.6);
  do c.w.alloc = randAlloc(r);
  while (c.w.alloc.order == 0 && c.w.alloc.reuse == 0 && c.w.alloc.fillNew == 0);
  return c;
}
Verdict judgeC05(const Case& c, Ctx& x)
{
  World b = c.w;
  b.alloc = AllocPolicy();
  Result B = x.run(b), R = x.run(c.w);
  if (!usable(B) || R.end == E_BUDGET) return Verdict::skip();
  bool st = std::find(c.w.argv.begin(), c.w.argv.end(), "--stats") != c.w.argv.end();
  if (st) { B.out = untilVerdict(B.out); R.out = untilVerdict(R.out); }
  if (R.reuses) x.probe("memory_reused");
  if (B.accepted()) x.probe("accepted"); else x.probe("refused");
  if (!sameOutcome(B, R)) return Verdict::bad("layout", "outcome depends on where memory was allocated: " + outcomeDiff(B, R));
  return Verdict::ok(R.reuses > 0 || c.w.alloc.order != 0);
}

// ----------------------------------------------------------------- C06
Case genC06(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  c.w = r.chance(0.4) ? evalWorkload(r) : r.chance(0.6) ? churnWorkload(r, false) : anyWorkload(r, 0.6);
  if (r.chance(0.6)) c.w.alloc.guard = 1;
  else
  {
    c.w.alloc.reuse = r.chance(0.5) ? AR_NEVER : AR_LIFO;
    c.w.alloc.fillFree = r.chance(0.5) ? 0xdd : 0xff;
    c.w.alloc.fillNew = r.chance(0.5) ? 0xa5 : 0;
  }
  return c;
}
Verdict judgeC06(const Case& c, Ctx& x)
{
  World b = c.w;
  b.alloc = AllocPolicy();
  Result B = x.run(b), R = x.run(c.w);
  if (B.end == E_BUDGET || R.end == E_BUDGET || B.end == E_LOST || R.end == E_LOST) return Verdict::skip();
  if (B.end == E_SIGNAL) return Verdict::bad("crash", "crashes on plain memory: " + describe(B));
  bool st = std::find(c.w.argv.begin(), c.w.argv.end(), "--stats") != c.w.argv.end();
  if (st) { B.out = untilVerdict(B.out); R.out = untilVerdict(R.out); }
  if (R.frees) x.probe("runs_that_freed_memory");
  if (c.w.alloc.guard) x.probe("guarded_runs");
  if (R.freedTouch) return Verdict::bad("freed-written", "memory was written after it was freed");
  if (R.end == E_SIGNAL) return Verdict::bad("freed-touched", "touches memory after it was freed (or never allocated): " + describe(R));
  if (!sameOutcome(B, R)) return Verdict::bad("poison", "outcome depends on the content of freed or fresh memory: " + outcomeDiff(B, R));
  return Verdict::ok(true);
}

// ----------------------------------------------------------------- C07
Case genC07(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  c.w = r.chance(0.2) ? evalWorkload(r) : r.chance(0.2) ? churnWorkload(r, false) : anyWorkload(r, 0.3);
  Result B = sim::run(c.w);
  // places the failure anywhere, or late (when there is a verdict to spoil)
  uint64_t n = std::max<uint64_t>(B.allocs, 1);
  Fault f;
  f.kind = F_ALLOC_FAIL;
  f.at = 1 + r.below(n);
  if (r.chance(0.3)) f.at = n - r.below(std::min<uint64_t>(n, 200));
  f.arg = r.chance(0.5) ? 1 : r.chance(0.5) ? 0 : r.range(2, 20);
  c.w.faults.push_back(f);
  if (r.chance(0.1)) { Fault g = f; g.at = 1 + r.below(n); g.arg = 1; }
  return c;
}
static bool isSubsequence(const std::string& a, const std::string& b)
{
  size_t j = 0;
  for (size_t i = 0; i < b.size() && j < a.size(); i++)
    if (a[j] == b[i]) j++;
  return j == a.size();
}
Verdict judgeC07(const Case& c, Ctx& x)
{
  World b = stripped(c.w, {F_ALLOC_FAIL});
  Result B = x.run(b);
  if (!usable(B)) return Verdict::skip();
  Result R = x.run(c.w);
  if (!R.fired[F_ALLOC_FAIL]) return Verdict::ok(false);
  if (R.end == E_BUDGET) return Verdict::skip();
  if (B.accepted()) x.probe("failure_in_acceptable_session");
  else x.probe("failure_in_refused_session");
  if (R.success())
  {
    x.probe("survived_the_failure");
    // a stream that cannot grow its buffer drops text of a diagnostic
    bool lost = R.out != B.out && isSubsequence(beforeVerdict(R.out), beforeVerdict(B.out));
    if (lost) x.probe("diagnostic_text_lost");
    if (!B.success() || R.verdict() != B.verdict() || (beforeVerdict(R.out) != beforeVerdict(B.out) && !lost))
      return Verdict::bad("upgraded", "success when memory runs out, but " + outcomeDiff(B, R));
    return Verdict::ok(true);
  }
  if (!R.verdict().empty() && B.verdict().empty()) return Verdict::bad("verdict", "prints a verdict only when memory runs out: " + esc(R.out));
  if (!isSubsequence(beforeVerdict(R.out), B.out)) return Verdict::bad("output", "prints something else when memory runs out: " + firstDiff(B.out, R.out));
  x.probe("stopped_at_the_failure");
  return Verdict::ok(true);
}

// ----------------------------------------------------------------- C08
Case genC08(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  if (r.chance(0.1))
  {
    static const std::vector<std::string> a = {"--help", "--show-config"};
    c.w.argv = {r.pick(a)};
  }
  else
  {
    SessOpts o;
    o.len = r.range(1, 30);
    o.wrong = r.chance(0.15) ? 0.05 : 0;
    SessionGen g(r, o);
    g.makeSignature();
    for (int i = 0; i < o.len; i++)
    {
      g.body(1);
      if (r.chance(0.3)) { std::string big = g.fresh("out"); for (int n = static_cast<int>(r.below(r.chance(0.1) ? 9000 : 60)); n-- > 0;) big += static_cast<char>('a' + r.below(26)); g.add(K_ECHO, "(echo \"" + big + "\")"); }
    }
    g.closeScopes();
    if (r.chance(0.1)) g.add(K_EXIT, "(exit)");
    c.w = sessionWorld(r, g, static_cast<int>(r.below(3)));
  }
  Result B = sim::run(c.w);
  if (r.chance(0.5)) c.w.outChunk = randChunk(r);
  int n = r.chance(0.15) ? 0 : r.chance(0.9) ? 1 : 2;
  static const std::vector<int64_t> we = {ENOSPC, ENOSPC, EIO, EPIPE, EDQUOT, EFBIG, EAGAIN, EINTR, EBADF};
  while (n-- > 0)
  {
    Fault f;
    f.kind = F_WRITE_ERR;
    f.target = r.chance(0.9) ? "<stdout>" : "<stderr>";
    uint64_t len = B.out.size();
    f.at = r.chance(0.3) ? 0 : r.chance(0.5) ? r.below(len + 1) : len - std::min<uint64_t>(len, r.below(12));
    f.arg = r.pick(we);
    f.arg2 = r.chance(0.25) || f.arg == EINTR;
    c.w.faults.push_back(f);
  }
  return c;
}
Verdict judgeC08(const Case& c, Ctx& x)
{
  World b = stripped(c.w, {F_WRITE_ERR});
  b.outChunk = Chunk();
  Result B = x.run(b);
  if (!usable(B)) return Verdict::skip();
  Result R = x.run(c.w);
  if (R.end == E_BUDGET || R.end == E_DEADLOCK) return Verdict::bad("hang", "does not end when writing fails: " + describe(R));
  bool fired = R.fired[F_WRITE_ERR] > 0;
  if (R.success() && !B.success()) return Verdict::bad("upgraded", "succeeds only when writing fails");
  if (R.success() && R.out != B.out)
    return Verdict::bad("lost-output", "exit status 0, but the output was not delivered: " + firstDiff(B.out, R.out));
  if (!isPrefix(R.out, B.out))
  {
    // after a failed write the rest may be dropped, nothing else
    bool sub = false;
    if (fired)
    {
      // once-only failures may lose a piece in the middle
      size_t i = 0, j = 0;
      while (i < R.out.size() && j < B.out.size()) { if (R.out[i] == B.out[j]) i++; j++; }
      sub = i == R.out.size();
    }
    if (!sub) return Verdict::bad("garbled", "writes something else when writing fails: " + firstDiff(B.out, R.out));
  }
  if (!fired && !sameOutcome(B, R)) return Verdict::bad("short-write", "short writes change the outcome: " + outcomeDiff(B, R));
  if (R.end == E_SIGNAL && R.code != 13) return Verdict::bad("crash", "crashed when writing fails: " + describe(R));
  if (fired) x.probe(R.success() ? "delivered_after_retry" : "failed_as_it_should");
  return Verdict::ok(fired || R.shortReads > 0);
}

// ----------------------------------------------------------------- C09
static const char* const NEVER = "\x01never\x01";
Case genC09(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  SessOpts o;
  o.len = r.range(2, 25);
  o.scopes = r.chance(0.6);
  o.echo = false;
  SessionGen g(r, o);
  g.makeSignature();
  g.body(o.len);
  int how = static_cast<int>(r.below(3));  // 0: end of input, 1: exit and silence, 2: bad command and silence
  c.kv["how"] = std::to_string(how);
  if (how != 2 || r.chance(0.5)) g.closeScopes();
  World w = sessionWorld(r, g, P_STDIN);
  w.input.clear();
  std::vector<std::string> cmds = {"(include \"sig.eo\")"};
  for (auto& k : g.cmds) cmds.push_back(k.text);
  std::string await;
  int n = 0;
  std::string pend;
  auto flush = [&] {
    // one message, or several (the later ones follow at once)
    if (pend.empty()) return;
    size_t p = 0;
    bool first = true;
    bool split = r.chance(0.4);
    while (p < pend.size())
    {
      size_t k = split ? 1 + r.below(pend.size()) : pend.size();
      w.input.push_back(Msg{pend.substr(p, k), first ? await : ""});
      first = false;
      p += std::min(k, pend.size() - p);
    }
    await.clear();
    pend.clear();
  };
  double ack = r.chance(0.5) ? 1.0 : 0.3;
  for (auto& k : cmds)
  {
    pend += k + (r.chance(0.8) ? "\n" : " ");
    if (r.chance(ack))
    {
      std::string m = "ack" + std::to_string(++n);
      pend += "(echo \"" + m + "\")" + (r.chance(0.5) ? "\n" : "");
      flush();
      await = m + "\n";
    }
    else if (r.chance(0.3)) flush();
  }
  flush();
  if (how == 1)
  {
    pend = r.chance(0.7) ? "(exit)" : "(exit)\n";
    if (r.chance(0.3)) pend = "; bye\n" + pend;
    flush();
  }
  else if (how == 2)
  {
    std::string kind;
    do pend = badCommand(r, g, &kind);
    while (kind == "unclosed" || kind == "extra-close" || kind == "close-paren" || kind == "bare-symbol");
    c.kv["bad"] = kind;
    flush();
  }
  else if (!await.empty())
  {
    // the last acknowledgement must come before the end of input
    w.input.push_back(Msg{"\n", await});
  }
  if (how) w.input.push_back(Msg{"\n", NEVER});
  if (r.chance(0.5)) w.stdinChunk = randChunk(r);
  if (r.chance(0.3)) w.fileChunk = randChunk(r);
  w.clockSeed = r.below(10000);
  c.w = w;
  return c;
}
Verdict judgeC09(const Case& c, Ctx& x)
{
  World b = c.w;
  b.input.clear();
  std::string t;
  for (auto& m : c.w.input)
    if (m.await != NEVER) t += m.data;
  setStdin(b, t);
  b.tty = false;
  b.stdinChunk = b.fileChunk = Chunk();
  Result B = x.run(b);
  if (!usable(B)) return Verdict::skip();
  Result R = x.run(c.w);
  if (R.end == E_BUDGET) return Verdict::skip();
  if (R.end == E_DEADLOCK)
  {
    // the peer waits for an answer to a command that has been sent completely
    const std::string& aw = c.w.input[static_cast<size_t>(R.code)].await;
    // only binding if, with all input at hand, the answer is given
    if (aw != NEVER && B.out.find(aw) == std::string::npos) return Verdict::ok(false);
    if (aw == NEVER && c.get("how") == "0") return Verdict::ok(false);
    if (aw == NEVER && scanText(t).mid) return Verdict::ok(false);
    if (aw == NEVER && !scanText(t).exited && B.success()) return Verdict::ok(false);
    return Verdict::bad(aw == NEVER ? "waits-for-more" : "no-answer", aw == NEVER ? std::string("reads on although the session is over (") + (c.get("how") == "1" ? "exit" : "failed command " + c.get("bad")) + ")" : "waits for more input instead of answering (peer awaits \"" + esc(aw) + "\", stdout so far \"" + esc(R.out.substr(R.out.size() > 100 ? R.out.size() - 100 : 0)) + "\")");
  }
  if (R.blockedReads > 1) x.probe("closed_loop_turns", R.blockedReads);
  if (!sameOutcome(B, R)) return Verdict::bad("interactive", "interactive session and the same input at once: " + outcomeDiff(B, R));
  return Verdict::ok(true);
}

// ----------------------------------------------------------------- C14
static void varySignature(Rng& r, std::vector<std::string>& sig)
{
  // the first session's declarations differ from the second's
  for (auto& s : sig)
  {
    if (!r.chance(0.25)) continue;
    if (s.find("(declare-const or ") == 0) s = r.chance(0.5) ? "(declare-const or (-> Bool Bool Bool))" : "(declare-const or (-> Bool Bool Bool) :left-assoc)";
    else if (s.find("(declare-const and ") == 0) s = "(declare-const and (-> Bool Bool Bool) :right-assoc-nil false)";
    else if (s.find("(declare-const + ") == 0) s = "(declare-const + (-> Int Int Int) :left-assoc)";
    else if (s.find("(declare-rule nne") == 0) s = "(declare-rule nne ((F Bool)) :premises (F) :conclusion F)";
    else if (s.find("(declare-rule contra") == 0) s = "(declare-rule contra ((F Bool)) :premises (F) :conclusion false)";
    else if (s.find("(declare-rule trust") == 0) s = "(declare-rule trust ((F Bool)) :args (F) :conclusion F)";
    else if (s.find("(declare-rule symm") == 0) s = "(declare-rule symm ((A Bool)) :args (A) :conclusion A :sorry)";
    else if (s.find("(declare-const f ") == 0) s = "(declare-const f (-> U Bool))";
    else if (s.find("(declare-const a ") == 0) s = "(declare-const a Bool)";
    else if (s.find("(declare-const xor ") == 0) s = "(declare-const xor (-> Bool Bool Bool) :chainable and)";
    else if (s.find("(declare-consts <numeral>") == 0) s = "(declare-consts <numeral> Int)(declare-consts <string> Int)(declare-consts <binary> Bool)";
  }
}
static const std::vector<std::string> hashLeaf = {"p", "q", "true", "false", "Bool", "0", "1", "7", "\"a\"", "#b1", "1/2", "(-> Bool Bool)", "eo::List", "(eo::List::cons true)", "-3"};
static std::string hashTerm(Rng& r)
{
  std::string a = r.pick(hashLeaf), b = r.pick(hashLeaf);
  return r.chance(0.7) ? "(eo::cmp " + a + " " + b + ")" : "(eo::is_ok (eo::hash " + a + "))";
}
// terms that outlive a reset become overloaded
static std::string overloadBuiltin(Rng& r)
{
  static const std::vector<std::string> t = {"eo::List::cons", "eo::List::nil", "true", "Bool", "Type", "7", "\"a\"", "(-> Bool Bool)"};
  std::string n = r.chance(0.5) ? "ol" : "olA", s;
  if (r.chance(0.7)) s += "(declare-const " + n + " (-> Bool Bool))\n";
  for (int i = r.range(1, 3); i > 0; i--) s += "(define " + n + " () " + (r.chance(0.4) ? t[0] : r.pick(t)) + ")\n";
  return s;
}
Case genC14(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  if (r.chance(0.2))
  {
    std::string a = soupSession(r), b = r.chance(0.5) ? soupSession(r) : a;
    if (a == b)
    {
      // one session is the other without a few of its commands
      std::string& t = r.chance(0.6) ? b : a;
      std::vector<std::string> lines;
      std::string cur;
      for (char ch : t) { cur += ch; if (ch == '\n') { lines.push_back(cur); cur.clear(); } }
      if (!cur.empty()) lines.push_back(cur);
      t.clear();
      double d = r.chance(0.5) ? 0.05 : 0.15;
      for (auto& l : lines) if (!r.chance(d)) t += l;
    }
    if (r.chance(0.3)) a += overloadBuiltin(r);
    if (r.chance(0.15)) b += "(declare-const olA Bool)\n(define olB () (eo::List::cons olA true eo::List::nil))\n(define olC () (eo::cmp (eo::list_len eo::List::cons olB) 5))\n";
    c.kv["t_1"] = a;
    c.kv["t_2"] = b;
    c.kv["place"] = std::to_string(r.below(2));
    c.w.alloc = r.chance(0.5) ? randAlloc(r) : AllocPolicy();
    return c;
  }
  SessOpts o;
  o.len = r.range(1, 20);
  o.scopes = true;
  o.pushpop = true;
  // the two sessions use the same generated names or different ones
  o.prefix = r.chance(0.5) ? "" : "one";
  SessionGen g1(r, o);
  g1.makeSignature();
  bool variant = r.chance(0.7);
  std::vector<std::string> sig1 = g1.sig;
  if (variant) { varySignature(r, sig1); g1.sig.clear(); }
  // with a varied signature only commands that hold in every variant
  auto addTo = [&](SessionGen& g, bool simple, int n) {
    if (!simple) { g.body(n); return; }
    for (int i = 0; i < n; i++)
      switch (r.below(8))
      {
        case 0: g.add(K_ECHO, "(echo \"" + g.fresh("e") + "\")"); break;
        case 1: { std::string k = g.fresh("k"); g.add(K_DECL, "(declare-const " + k + " Bool)"); g.boolConsts.push_back(k); break; }
        case 2: { std::string k = g.fresh("@a"); g.add(K_ASSUME, "(assume " + k + " p)"); g.facts.push_back({k, F("p"), 0}); break; }
        case 3: g.add(K_PUSH, "(push 1)"); break;
        case 4: g.add(K_STEP, "(step " + g.fresh("@t") + " :rule split :args (" + (r.chance(0.5) ? "p" : "q") + "))"); break;
        case 5: g.add(K_DEFINE, "(define " + g.fresh("d") + " () " + std::to_string(r.below(5)) + ")"); break;
        case 6: { std::string k = g.fresh("@h"); g.add(K_APUSH, "(assume-push " + k + " q)"); break; }
        default: g.add(K_STEP, "(step " + g.fresh("@t") + " :rule refl :args (q))"); break;
      }
  };
  if (variant)
    // drop steps that a varied rule or operator would refuse
    for (auto& s : sig1) if (s.find("(declare-rule member") == 0 || s.find("(program neg") == 0 || s.find("(declare-rule negate") == 0 || s.find("(declare-rule less") == 0 || s.find("(declare-rule sum") == 0 || s.find("(program depth") == 0 || s.find("(declare-rule depth") == 0 || s.find("(declare-rule and_") == 0 || s.find("(declare-rule cong") == 0) s.clear();
  if (variant)
  {
    // `split` needs `or` on two arguments, which every variant allows
    sig1.erase(std::remove(sig1.begin(), sig1.end(), std::string()), sig1.end());
  }
  addTo(g1, variant, o.len);
  if (r.chance(0.08)) g1.add(K_DEFINE, overloadBuiltin(r));
  // terms that both sessions have may be numbered in the first
  for (int i = r.chance(0.3) ? r.range(1, 4) : 0; i > 0; i--) g1.add(K_DEFINE, "(define " + g1.fresh("hh") + " () " + hashTerm(r) + ")");
  std::string s1;
  for (auto& s : sig1) s1 += s + "\n";
  s1 += joinCmds(g1.cmds);
  SessOpts o2 = o;
  o2.len = r.range(1, 20);
  o2.prefix = o.prefix.empty() ? "" : "two";
  o2.wrong = r.chance(0.3) ? 0.08 : 0;
  SessionGen g2(r, o2);
  g2.makeSignature();
  g2.body(o2.len);
  for (int i = r.chance(0.3) ? r.range(1, 3) : 0; i > 0; i--)
  {
    std::string b = r.chance(0.5) ? "p" : "q", t = r.chance(0.5) ? "(eo::gt (eo::hash " + r.pick(hashLeaf) + ") " + std::to_string(r.below(5)) + ")" : hashTerm(r);
    g2.add(K_STEP, "(step " + g2.fresh("@hh") + " (= " + b + " " + b + ") :rule refl :args ((eo::ite " + t + " p q)))");
  }
  g2.closeScopes();
  // the second session may rely on what only the first declared
  if (r.chance(0.4))
  {
    std::vector<std::string> own;
    for (auto& k : g1.cmds)
      if (k.kind == K_DECL || k.kind == K_DEFINE || k.kind == K_ASSUME || k.kind == K_STEP || k.kind == K_APUSH)
      {
        size_t p = k.text.find(' ') + 1, e = k.text.find_first_of(" )", p);
        own.push_back(k.text.substr(p, e - p));
      }
    if (!own.empty())
    {
      std::string n = r.pick(own);
      Cmd bad{K_BAD, r.chance(0.5) ? "(define " + g2.fresh("w") + " () " + n + ")" : "(step " + g2.fresh("@w") + " :rule and_intro :premises (" + n + "))", 0};
      g2.cmds.insert(g2.cmds.begin() + static_cast<long>(r.below(g2.cmds.size() + 1)), bad);
    }
  }
  std::string s2;
  // a few declarations of the second signature may be missing
  double drop = r.chance(0.3) ? 0.06 : 0;
  for (auto& s : g2.sig) if (!r.chance(drop)) s2 += s + "\n";
  if (r.chance(0.35))
  {
    // both sessions include the signature of the second from the same file
    static const std::vector<std::string> spell = {"shared.eo", "./shared.eo", "/w/shared.eo", "lib/../shared.eo"};
    if (r.chance(0.5)) c.w.files["/w/shared.eo"] = s2;
    else { c.w.files["/w/lib/more.eo"] = s2; c.w.files["/w/shared.eo"] = "(include \"lib/more.eo\")\n"; }
    std::string pre = "(include \"" + r.pick(spell) + "\")\n(echo \"included\")\n";
    if (r.chance(0.6)) s1 = pre + "(reset)\n" + s1;
    else s1 = pre;
    s2 = "(include \"" + r.pick(spell) + "\")\n";
    c.kv["shared"] = "1";
  }
  s2 += joinCmds(g2.cmds);
  c.kv["t_1"] = s1;
  c.kv["t_2"] = s2;
  c.kv["place"] = std::to_string(r.below(2));
  c.w.alloc = r.chance(0.5) ? randAlloc(r) : AllocPolicy();
  return c;
}
static World resetWorld(const Case& c, const std::string& a, const std::string& b, bool withReset)
{
  World w = c.w;
  std::string t;
  if (c.get("place") == "0")
  {
    t = a + (withReset ? "(reset)\n" : "") + b;
    w.files["/w/main.eo"] = t;
    w.argv.push_back("main.eo");
  }
  else
  {
    // each session in an included file of its own, (reset) on standard input
    if (!a.empty()) { w.files["/w/one.eo"] = a; t += "(include \"one.eo\")\n"; }
    if (withReset) t += "(reset)\n";
    if (!b.empty()) { w.files["/w/two.eo"] = b; t += "(include \"two.eo\")\n"; }
    setStdin(w, t);
  }
  return w;
}
static std::string noPos(const std::string& e)
{
  // the message without file position
  size_t p = e.find("Error: ");
  if (p == std::string::npos) return e;
  size_t q = e.find(": ", p + 7);
  return q == std::string::npos ? e : e.substr(0, p) + e.substr(q);
}
// the output without the positions of the warnings
static std::string noWarnPos(const std::string& o)
{
  std::string r;
  for (size_t i = 0; i < o.size();)
  {
    size_t e = o.find('\n', i);
    if (e == std::string::npos) e = o.size() - 1;
    std::string l = o.substr(i, e + 1 - i);
    size_t p = l.find(".eo:"), q = p;
    if (p == std::string::npos) { p = l.find("<stdin>:"); q = p; if (p != std::string::npos) q = p + 8; } else q = p + 4;
    if (p != std::string::npos && q < l.size() && isdigit(static_cast<unsigned char>(l[q])))
    {
      size_t z = q;
      while (z < l.size() && (isdigit(static_cast<unsigned char>(l[z])) || l[z] == '.')) z++;
      if (l.compare(z, 2, ": ") == 0) l = l.substr(0, q) + l.substr(z);
    }
    r += l;
    i = e + 1;
  }
  return r;
}
Verdict judgeC14(const Case& c, Ctx& x)
{
  std::string s1 = c.get("t_1"), s2 = c.get("t_2");
  // an assumption scope may not stay open at the end of an included file
  if (c.get("place") == "1" && scanText(s1).open > 0) s1 += "(reset)\n";
  Result R1 = x.run(resetWorld(c, s1, "", true));
  if (!R1.accepted())
  {
    if (!usable(R1)) return Verdict::skip();
    // a session that is fine, or only lacks the end of its scopes, can be reset
    Result R0 = x.run(resetWorld(c, c.get("t_1"), "", false));
    if (R0.accepted() || R0.err.find("did not preserve assumption scope") != std::string::npos)
      return Verdict::bad("reset-refused", "(reset) fails, or does not end the session before it: " + describe(R1) + " " + stderrLimited(R1));
    x.probe("first_session_refused");
    return Verdict::ok(false);
  }
  Result R2 = x.run(resetWorld(c, "", s2, false));
  if (!usable(R2)) return Verdict::skip();
  Result A = x.run(resetWorld(c, s1, s2, true));
  if (A.end == E_BUDGET) return Verdict::skip();
  std::string want = beforeVerdict(R1.out) + beforeVerdict(R2.out);
  std::string v = R2.verdict();
  if (!v.empty()) { if (R1.verdict() == "incomplete") v = "incomplete"; want += v + "\n"; }
  x.probe(R2.accepted() ? "second_session_accepted" : "second_session_refused");
  want = noWarnPos(want);
  A.out = noWarnPos(A.out);
  if (A.end != R2.end || A.code != R2.code || A.out != want || noPos(A.err) != noPos(R1.err + R2.err))
  {
    Result W = R2;
    W.out = want;
    W.err = R1.err + R2.err;
    return Verdict::bad("reset", "a session after (reset) behaves differently from the same session alone (expected / got): " + outcomeDiff(W, A));
  }
  return Verdict::ok(true);
}

// ----------------------------------------------------------------- C15
Case genC15(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  c.w = anyWorkload(r, 0.35);
  c.w.clock = r.range(1, 3);
  c.w.clockSeed = r.next() >> 8;
  static const std::vector<std::string> st = {"--stats", "--stats-all", "--stats-compact", ""};
  std::string s = r.pick(st);
  c.w.argv.erase(std::remove(c.w.argv.begin(), c.w.argv.end(), std::string("--stats")), c.w.argv.end());
  if (!s.empty()) c.w.argv.insert(c.w.argv.begin(), s);
  if (s == "--stats-compact") c.w.argv.insert(c.w.argv.begin(), "--stats");
  return c;
}
Verdict judgeC15(const Case& c, Ctx& x)
{
  World b = c.w;
  b.clock = CK_STEADY;
  b.clockSeed = 0;
  World p = b;
  p.argv.clear();
  for (auto& a : c.w.argv) if (a.compare(0, 7, "--stats") != 0) p.argv.push_back(a);
  Result B = x.run(b), R = x.run(c.w);
  if (!usable(B) || R.end == E_BUDGET) return Verdict::skip();
  Result B2 = B, R2 = R;
  B2.out = untilVerdict(B.out);
  R2.out = untilVerdict(R.out);
  if (!sameOutcome(B2, R2)) return Verdict::bad("clock", "the clock changes the outcome: " + outcomeDiff(B2, R2));
  if (p.argv.size() != b.argv.size())
  {
    Result P = x.run(p);
    if (usable(P) && !sameOutcome(P, B2)) return Verdict::bad("stats", "measuring changes the outcome: " + outcomeDiff(P, B2));
  }
  if (R.clockReads) x.probe("runs_that_read_the_clock");
  return Verdict::ok(R.clockReads > 0);
}

// ----------------------------------------------------------------- C17
Case genC17(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  SessOpts o;
  o.len = r.range(1, 18);
  o.scopes = r.chance(0.6);
  SessionGen g(r, o);
  g.makeSignature();
  g.body(o.len);
  size_t cut = g.cmds.size();
  std::string kind;
  std::string bad = badCommand(r, g, &kind);
  c.kv["bad"] = kind;
  c.kv["open"] = g.depth > 0 ? "1" : "0";
  g.body(static_cast<int>(r.range(1, 8)));
  g.closeScopes();
  std::vector<Cmd> pre(g.cmds.begin(), g.cmds.begin() + static_cast<long>(cut)), post(g.cmds.begin() + static_cast<long>(cut), g.cmds.end());
  post.push_back(Cmd{K_ECHO, "(echo \"after the failure\")", 0});
  if (r.chance(0.2)) post.push_back(Cmd{K_EXIT, "(exit)", 0});
  if (r.chance(0.2)) post.insert(post.begin(), Cmd{K_RESET, "(reset)", 0});
  c.kv["t_pre"] = joinCmds(pre);
  c.kv["bad_cmd"] = bad;
  c.kv["t_post"] = joinCmds(post);
  g.cmds.clear();
  int place = static_cast<int>(r.below(4));
  c.kv["place"] = std::to_string(place);
  World w = sessionWorld(r, g, P_STDIN);
  w.input.clear();
  if (r.chance(0.3)) w.stdinChunk = randChunk(r);
  if (r.chance(0.3)) w.fileChunk = randChunk(r);
  if (r.chance(0.3)) w.alloc = randAlloc(r);
  c.w = w;
  return c;
}
static World c17World(const Case& c, const std::string& body)
{
  World w = c.w;
  std::string t = "(include \"sig.eo\")\n";
  switch (c.num("place"))
  {
    case 0: setStdin(w, t + body); break;
    case 1: w.files["/w/main.eo"] = t + body; w.argv = {"main.eo"}; break;
    case 2: w.files["/w/inc.eo"] = t + body; setStdin(w, "(include \"inc.eo\")\n(echo \"after the include\")\n"); break;
    default: w.files["/w/main.proof"] = t + body; w.argv = {"main.proof"}; break;
  }
  return w;
}
Verdict judgeC17(const Case& c, Ctx& x)
{
  std::string pre = c.get("t_pre"), bad = c.get("bad_cmd"), post = c.get("t_post");
  // what the good prefix prints
  World b = c17World(c, pre);
  Result B = x.run(b);
  if (!usable(B)) return Verdict::skip();
  bool open = scanText(pre).open > 0;
  if (!B.accepted() && !open) { x.probe("prefix_refused"); return Verdict::ok(false); }
  if (open)
  {
    // the prefix is fine if it only lacks the end of its scopes
    World k = c17World(c, pre + "(reset)\n");
    Result K = x.run(k);
    if (!K.accepted()) return Verdict::ok(false);
  }
  std::string want = beforeVerdict(B.out);
  if (c.num("place") == 2)
  {
    const std::string tail = "after the include\n";
    if (want.size() >= tail.size() && want.substr(want.size() - tail.size()) == tail) want.resize(want.size() - tail.size());
  }
  World w = c17World(c, pre + bad + "\n" + post);
  Result R = x.run(w);
  if (R.end == E_BUDGET || R.end == E_DEADLOCK) return Verdict::bad("hang", "does not end after a failing command: " + describe(R));
  x.probe("bad:" + c.get("bad"));
  if (R.success() || !R.verdict().empty()) return Verdict::bad("accepted", "a session with a failing command (" + bad + ") succeeds: " + describe(R));
  if (R.end == E_SIGNAL) return Verdict::bad("crash", "crashes on a failing command (" + bad + "): " + describe(R));
  if (R.out != want) return Verdict::bad("effects", "output is not that of the commands before the failing one (" + bad + "): " + firstDiff(want, R.out));
  if (R.err.empty()) return Verdict::bad("silent", "fails without a message on a failing command (" + bad + ")");
  return Verdict::ok(true);
}

}  // namespace sim
