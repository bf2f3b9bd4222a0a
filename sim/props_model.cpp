// C04, C11, C12, C13: what the code does against what the reference model says.
#include <errno.h>
#include <string.h>
#include <algorithm>
#include "gen.h"
#include "model.h"
#include "props.h"

namespace sim {

static const char* kindName(int k)
{
  static const char* n[] = {"correct", "incomplete", "rejected", "unknown", "information"};
  return n[k];
}
// warnings about attributes are printed among the results, some followed by an
// empty line: what is left is compared without empty lines
static std::string withoutWarnings(const std::string& s)
{
  std::string o;
  for (size_t i = 0; i < s.size();)
  {
    size_t e = s.find('\n', i);
    e = e == std::string::npos ? s.size() : e + 1;
    std::string l = s.substr(i, e - i);
    i = e;
    bool skip = l == "\n" || l.find(": Unhandled attribute ") != std::string::npos || l.find(": Unprocessed attribute ") != std::string::npos || l.find(": Cannot set multiple constructor types ") != std::string::npos;
    if (!skip) o += l;
  }
  return o;
}
// compares one run with the prediction; `m` are the marks of the prediction
Verdict against(const World& w, Ctx& x, mdl::Marks& m, mdl::Outcome& p, Result* got)
{
  p = predict(w, &m);
  if (p.kind == mdl::Outcome::UNKNOWN)
  {
    x.probe("model undecided: " + p.why.substr(0, p.why.find(' ')));
    return Verdict::skip();
  }
  x.probe(std::string("predicted ") + kindName(p.kind));
  if (getenv("SIM_STOP") && p.why == getenv("SIM_STOP")) return Verdict::bad("stop", p.file);
  if (getenv("SIM_WHY")) x.probe("why: " + p.file + ": " + p.why.substr(0, 60));
  Result r = x.run(w);
  if (got) *got = r;
  if (!usable(r)) return Verdict::skip();
  std::string d = std::string("the model says ") + kindName(p.kind) + (p.why.empty() ? "" : " (" + p.why + ")") + ", the run: " + describe(r);
  if (r.end == E_SIGNAL) return Verdict::bad("crash", d);
  if (p.kind == mdl::Outcome::INFO)
  {
    if (!r.success() || r.out.empty() || !r.verdict().empty()) return Verdict::bad("information", d);
    return Verdict::ok(true);
  }
  if (p.stats && p.kind != mdl::Outcome::REJECT && r.success())
  {
    std::string u = untilVerdict(r.out);
    if (u == r.out) return Verdict::bad("no-statistics", d);
    r.out = u;
  }
  std::string out = beforeVerdict(r.out), ref = p.warned ? withoutWarnings(p.out) : p.out;
  if (p.warned) out = withoutWarnings(out);
  if (p.kind == mdl::Outcome::REJECT)
  {
    if (!orderlyFail(r)) return Verdict::bad("accepted-unjustified", d);
    if ((p.warned ? withoutWarnings(r.out) : r.out) != ref) return Verdict::bad("output", d + "; expected output, then the one of the run: " + firstDiff(ref, r.out));
    return Verdict::ok(true);
  }
  if (!r.accepted()) return Verdict::bad("refused-justified", d + "; " + esc(r.err.substr(0, 300)));
  if (r.verdict() != kindName(p.kind)) return Verdict::bad("verdict", d);
  if (out != ref) return Verdict::bad("output", d + "; expected output, then the one of the run: " + firstDiff(ref, out));
  return Verdict::ok(true);
}
static void probeMarks(Ctx& x, const mdl::Marks& m)
{
  if (m.steps) x.probe("steps decided by the model", m.steps);
  if (m.evals) x.probe("program evaluations in the model", m.evals);
  if (m.litOps) x.probe("operations on literals in the model", m.litOps);
}

// ------------------------------------------------------------ message faults
// The session as a sequence of messages: forms that are lost, duplicated,
// swapped or late, and characters and words that are corrupted.
static const char* const kMsg[] = {"lost", "duplicated", "swapped", "late", "corrupt-char", "lost-char", "corrupt-word", "lost-word", "duplicated-word", "cut"};
static bool wordAt(const std::string& t, size_t at, size_t& b, size_t& e)
{
  auto in = [&](size_t i) { return i < t.size() && !isspace(static_cast<unsigned char>(t[i])) && t[i] != '(' && t[i] != ')'; };
  size_t i = at;
  while (i < t.size() && !in(i)) i++;
  if (i >= t.size()) return false;
  b = i;
  while (b > 0 && in(b - 1)) b--;
  e = i;
  while (in(e)) e++;
  return true;
}
static std::string mutate(Rng& r, const std::string& text, std::string& log)
{
  auto v = topForms(text);
  if (v.empty()) return text;
  int k = static_cast<int>(r.below(10));
  // rarely the first form: nothing works without what it includes
  size_t lo = v.size() > 2 && r.chance(0.85) ? 1 : 0;
  size_t i = lo + r.below(v.size() - lo), j = lo + r.below(v.size() - lo);
  auto join = [&] { std::string o; for (auto& x : v) o += x; return o; };
  log += std::string(log.empty() ? "" : " ") + kMsg[k];
  std::string& f = v[i];
  switch (k)
  {
    case 0: v.erase(v.begin() + i); break;
    case 1: v.insert(v.begin() + (r.chance(0.5) ? i : j), std::string(v[i])); break;
    case 2: std::swap(v[i], v[j]); break;
    case 3:
    {
      std::string x = v[i];
      v.erase(v.begin() + i);
      v.insert(v.begin() + r.range(static_cast<int>(i), static_cast<int>(v.size())), x);
      break;
    }
    case 4:
    {
      static const std::string cs = "()pqrsabcfg01237:|\";#@ .-/xyFTnt\n";
      if (!f.empty()) f[r.below(f.size())] = cs[r.below(cs.size())];
      break;
    }
    case 5: if (!f.empty()) f.erase(r.below(f.size()), 1); break;
    case 9: f.resize(r.below(f.size() + 1)); break;
    default:
    {
      size_t b, e, b2, e2;
      if (!wordAt(f, r.below(f.size()), b, e)) break;
      std::string w = f.substr(b, e - b);
      if (k == 7) f.erase(b, e - b);
      else if (k == 8) f.insert(b, w + " ");
      else
      {
        const std::string& g = r.chance(0.4) ? f : v[j];
        if (!g.empty() && wordAt(g, r.below(g.size()), b2, e2))
        {
          std::string w2 = g.substr(b2, e2 - b2);
          f.replace(b, e - b, w2);
        }
      }
    }
  }
  return join();
}
// applies n message faults to the texts of a world, mostly to the proof
void mutateWorld(Rng& r, World& w, int n, std::string& log)
{
  std::string main = mainTarget(w);
  for (; n > 0; n--)
  {
    if (w.input.empty() || r.chance(0.25))
    {
      std::vector<std::string> v;
      for (auto& f : w.files) v.push_back(f.first);
      if (v.empty()) continue;
      std::string t = w.input.empty() && w.files.count(main) && r.chance(0.7) ? main : r.pick(v);
      w.files[t] = mutate(r, w.files[t], log);
    }
    else setStdin(w, mutate(r, stdinText(w), log));
  }
}
// drops commands the model refuses
static void repair(World& w, int tries)
{
  for (; tries > 0; tries--)
  {
    mdl::Outcome o = predict(w);
    if (o.kind != mdl::Outcome::REJECT) return;
    bool in = o.file == "<stdin>";
    if (!in && !w.files.count(o.file)) return;
    std::string all = in ? stdinText(w) : w.files[o.file];
    while (o.pos < all.size() && isspace(static_cast<unsigned char>(all[o.pos]))) o.pos++;
    auto v = topForms(all);
    size_t p = 0, i = 0;
    while (i < v.size() && p + v[i].size() <= o.pos) p += v[i++].size();
    std::string t;
    if (i >= v.size())
    {
      if (o.why.compare(0, 15, "open assumption") != 0) return;
      std::string n = std::to_string(tries);
      t = all + "\n(step @f" + n + " :rule split :args (true))\n(step-pop @g" + n + " :rule scope :premises (@f" + n + "))\n";
    }
    else for (size_t k = 0; k < v.size(); k++)
      if (k != i) t += v[k];
    if (in) setStdin(w, t);
    else w.files[o.file] = t;
  }
}
void systemFaults(Rng& r, World& w)
{
  if (r.chance(0.5)) w.alloc = randAlloc(r);
  if (r.chance(0.2)) w.fileChunk = randChunk(r);
  if (r.chance(0.2)) w.stdinChunk = randChunk(r);
  if (r.chance(0.1)) w.outChunk = randChunk(r);
  if (r.chance(0.1)) w.clock = static_cast<int>(r.below(4)), w.clockSeed = r.next() >> 8;
  if (r.chance(0.15) && w.input.empty())
    for (int n = r.range(1, 3); n > 0; n--)
    {
      Fault f;
      f.kind = F_READ_EINTR;
      f.target = mainTarget(w);
      f.at = r.range(1, 4);
      w.faults.push_back(f);
    }
}
// in `text`, notes the message faults a case has
void probeMsg(Ctx& x, const Case& c)
{
  std::string l = c.get("messages");
  size_t p = 0;
  while (p < l.size())
  {
    size_t e = l.find(' ', p);
    if (e == std::string::npos) e = l.size();
    x.probe("message fault: " + l.substr(p, e - p));
    p = e + 1;
  }
}

// ------------------------------------------------------------ C04
// expressions over the builtin operations, programs, rules
struct EvGen
{
  Rng& r;
  SessionGen& g;
  std::vector<std::string> sig;
  std::vector<std::string> locals;  // U-terms usable as atoms (parameters)
  struct Prog { std::string name; std::vector<char> dom; char ran; };
  std::vector<Prog> progs;
  EvGen(Rng& rr, SessionGen& gg) : r(rr), g(gg) {}

  static const std::vector<std::string>& listOps()
  {
    static const std::vector<std::string> v = {"and", "or", "+", "lan", "ran", "lns", "rns", "eo::List::cons", "bvor"};
    return v;
  }
  static const std::vector<std::string>& uOps()
  {
    static const std::vector<std::string> v = {"lan", "ran", "lns", "rns", "eo::List::cons"};
    return v;
  }
  void signature()
  {
    sig = {"(declare-const Real Type)", "(declare-consts <rational> Real)", r.chance(0.5) ? "(declare-consts <decimal> Real)" : "",
           "(declare-const String Type)", "(declare-consts <string> String)", "(declare-const BitVec (-> Int Type))",
           r.chance(0.7) ? "(declare-consts <binary> (BitVec (eo::len eo::self)))" : "(declare-consts <binary> BinT)",
           "(declare-const nu U)", "(declare-const lan (-> U U U) :left-assoc-nil nu)", "(declare-const ran (-> U U U) :right-assoc-nil nu)",
           "(declare-const lns (-> U U U) :left-assoc-non-singleton-nil nu)", "(declare-const rns (-> U U U) :right-assoc-non-singleton-nil nu)",
           "(declare-const ra (-> U U U) :right-assoc)", "(declare-const la (-> U U U) :left-assoc)", "(declare-const chn (-> U U Bool) :chainable and)",
           "(declare-const dis (-> U U Bool) :pairwise and)", "(declare-const args (-> eo::List U) :arg-list eo::List::cons)",
           "(declare-parameterized-const bvc ((n Int :implicit) (m Int :implicit)) (-> (BitVec n) (BitVec m) (BitVec (eo::add n m))))",
           "(declare-parameterized-const bvor ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :right-assoc-nil (eo::to_bin m 0))",
           "(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)",
           "(declare-parameterized-const ite ((T Type :implicit)) (-> Bool T T T))", "(declare-const Array (-> Type Type Type))",
           "(declare-parameterized-const select ((A Type :implicit) (B Type :implicit)) (-> (Array A B) A B))", "(declare-const ar (Array U Int))",
           "(declare-parameterized-const @k ((n Int)) U)",
           "(declare-rule ev ((T Type) (S Type) (t T) (u S)) :args (t u) :requires ((t u)) :conclusion true)",
           "(declare-rule isok ((T Type) (t T) (b Bool)) :args (t b) :requires (((eo::is_ok t) b)) :conclusion true)",
           "(declare-rule typ ((T Type) (t T)) :args (T t) :conclusion true)",
           "(declare-rule same ((T Type) (t T)) :args (t t) :conclusion true)",
           "(declare-rule takeb ((t Bool)) :args (t) :conclusion t)"};
    if (sig[6].find("BinT") != std::string::npos) sig[6] = "(declare-const BinT Type)\n" + sig[6];
    if (r.chance(0.3)) sig.push_back("(program subst ((T Type) (S Type) (R Type) (x S) (y S) (f (-> R T)) (a R) (z T)) :signature (S S T) T (((subst x y x) y) ((subst x y (f a)) (_ (subst x y f) (subst x y a))) ((subst x y z) z)))"), progs.push_back({"subst", {'U', 'U', 'B'}, 'B'}), progs.push_back({"subst", {'U', 'U', 'U'}, 'U'});
  }
  std::string I(int d)
  {
    if (d <= 0 || r.chance(0.3)) return r.chance(0.08) ? std::to_string(r.next() >> r.below(40)) : r.chance(0.2) ? "-" + std::to_string(r.range(1, 9)) : std::to_string(r.below(r.chance(0.8) ? 5 : 70));
    switch (r.below(15))
    {
      case 0: case 1: return "(eo::add " + I(d - 1) + " " + I(d - 1) + (r.chance(0.2) ? " " + I(d - 1) : "") + ")";
      case 2: return "(eo::mul " + I(d - 1) + " " + I(d - 1) + ")";
      case 3: return "(eo::neg " + I(d - 1) + ")";
      case 4: return "(eo::zdiv " + I(d - 1) + " " + I(d - 1) + ")";
      case 5: return "(eo::zmod " + I(d - 1) + " " + I(d - 1) + ")";
      case 6: return "(eo::len " + (r.chance(0.5) ? S(d - 1) : V(d - 1, r.range(1, 8))) + ")";
      case 7: return "(eo::to_z " + (r.chance(0.3) ? Q(d - 1) : r.chance(0.4) ? S(d - 1) : V(d - 1, r.range(1, 8))) + ")";
      case 8: { std::string op = r.pick(uOps()); return "(eo::list_len " + op + " " + L(op, d - 1) + ")"; }
      case 9: { std::string op = r.pick(uOps()); return "(eo::list_find " + op + " " + L(op, d - 1) + " " + U(d - 1) + ")"; }
      case 10: return "(eo::find " + S(d - 1) + " " + S(d - 1) + ")";
      case 11: return "(depth " + U(d - 1) + ")";
      case 12: return "(eo::ite " + B(d - 1) + " " + I(d - 1) + " " + I(d - 1) + ")";
      case 13: return prog('I', d);
      default: return "(eo::requires " + any(d - 1) + " " + any(d - 1) + " " + I(d - 1) + ")";
    }
  }
  std::string prog(char ran, int d)
  {
    std::vector<const Prog*> c;
    for (auto& p : progs)
      if (p.ran == ran) c.push_back(&p);
    if (c.empty()) return ran == 'I' ? I(0) : ran == 'B' ? B(0) : U(0);
    const Prog& p = *r.pick(c);
    std::string s = "(" + p.name;
    for (char x : p.dom) s += " " + of(x, d - 1);
    return s + ")";
  }
  std::string of(char s, int d)
  {
    switch (s)
    {
      case 'I': return I(d);
      case 'B': return B(d);
      case 'Q': return Q(d);
      case 'S': return S(d);
      case 'V': return V(d, r.range(1, 8));
      case 'F': return g.genBool(d).str();
      default: return U(d);
    }
  }
  std::string any(int d) { return of("IBQSVUF"[r.below(7)], d); }
  std::string Q(int d)
  {
    if (d <= 0 || r.chance(0.4)) return r.chance(0.5) ? std::to_string(r.below(9)) + "/" + std::to_string(r.chance(0.97) ? r.range(1, 9) : 0) : std::to_string(r.below(20)) + "." + std::to_string(r.below(20));
    switch (r.below(6))
    {
      case 0: return "(eo::add " + Q(d - 1) + " " + Q(d - 1) + ")";
      case 1: return "(eo::mul " + Q(d - 1) + " " + Q(d - 1) + ")";
      case 2: return "(eo::neg " + Q(d - 1) + ")";
      case 3: return "(eo::qdiv " + (r.chance(0.5) ? I(d - 1) + " " + I(d - 1) : Q(d - 1) + " " + Q(d - 1)) + ")";
      case 4: return "(eo::to_q " + (r.chance(0.5) ? I(d - 1) : Q(d - 1)) + ")";
      default: return "(eo::ite " + B(d - 1) + " " + Q(d - 1) + " " + Q(d - 1) + ")";
    }
  }
  std::string V(int d, int w)
  {
    if (d <= 0 || r.chance(0.3))
    {
      if (w % 4 == 0 && r.chance(0.3))
      {
        std::string s = "#x";
        for (int i = 0; i < w / 4; i++) s += "0123456789abcdefABCDEF"[r.below(22)];
        return s;
      }
      std::string s = "#b";
      for (int i = 0; i < w; i++) s += r.chance(0.5) ? '1' : '0';
      return s;
    }
    switch (r.below(10))
    {
      case 0: case 1: { static const std::vector<std::string> o = {"and", "or", "xor", "add", "mul"}; return "(eo::" + r.pick(o) + " " + V(d - 1, r.chance(0.95) ? w : w + 1) + " " + V(d - 1, w) + ")"; }
      case 2: return "(eo::not " + V(d - 1, w) + ")";
      case 3: return "(eo::neg " + V(d - 1, w) + ")";
      case 4: if (w >= 2) { int k = r.range(1, w - 1); return "(eo::concat " + V(d - 1, k) + " " + V(d - 1, w - k) + ")"; } break;
      case 5: { int lo = r.range(0, 3), up = r.range(0, 3); return "(eo::extract " + V(d - 1, w + lo + up) + " " + std::to_string(lo) + " " + std::to_string(lo + w - 1) + ")"; }
      case 6: return "(eo::extract " + V(d - 1, w) + " " + I(1) + " " + I(1) + ")";
      case 7: return "(eo::to_bin " + (r.chance(0.9) ? std::to_string(w) : I(1)) + " " + (r.chance(0.5) ? I(d - 1) : V(d - 1, r.range(1, 8))) + ")";
      case 8: return r.chance(0.5) ? "(eo::zdiv " + V(d - 1, w) + " " + V(d - 1, w) + ")" : "(eo::zmod " + V(d - 1, w) + " " + V(d - 1, w) + ")";
      default: break;
    }
    return V(0, w);
  }
  std::string S(int d)
  {
    if (d <= 0 || r.chance(0.35))
    {
      static const std::vector<std::string> w = {"", "a", "ab", "abc", "b", "ba", "0", "12", "A z", "ccc", "\"\""};
      return "\"" + r.pick(w) + "\"";
    }
    switch (r.below(6))
    {
      case 0: case 1: return "(eo::concat " + S(d - 1) + " " + S(d - 1) + ")";
      case 2: return "(eo::extract " + S(d - 1) + " " + I(1) + " " + I(1) + ")";
      case 3: return "(eo::to_str " + (r.chance(0.5) ? std::to_string(r.range(40, 126)) : r.chance(0.5) ? I(d - 1) : r.chance(0.5) ? Q(d - 1) : V(d - 1, 4)) + ")";
      case 4: return "(eo::ite " + B(d - 1) + " " + S(d - 1) + " " + S(d - 1) + ")";
      default: return "(eo::nameof " + r.pick(g.uConsts) + ")";
    }
  }
  std::string B(int d)
  {
    if (d <= 0 || r.chance(0.2)) return r.chance(0.5) ? "true" : "false";
    switch (r.below(16))
    {
      case 0: return "(eo::not " + B(d - 1) + ")";
      case 1: { static const std::vector<std::string> o = {"and", "or", "xor"}; return "(eo::" + r.pick(o) + " " + B(d - 1) + " " + B(d - 1) + (r.chance(0.1) ? " " + B(d - 1) : "") + ")"; }
      case 2: return "(eo::is_neg " + (r.chance(0.5) ? I(d - 1) : r.chance(0.7) ? Q(d - 1) : V(d - 1, 3)) + ")";
      case 3: return r.chance(0.6) ? "(eo::gt " + I(d - 1) + " " + I(d - 1) + ")" : "(eo::gt " + Q(d - 1) + " " + Q(d - 1) + ")";
      case 4: return "(eo::is_eq " + any(d - 1) + " " + any(d - 1) + ")";
      case 5: return "(eo::eq " + U(d - 1) + " " + U(d - 1) + ")";
      case 6: return "(eo::is_ok " + any(d - 1) + ")";
      case 7: { static const std::vector<std::string> o = {"z", "q", "bin", "str", "bool", "var"}; return "(eo::is_" + r.pick(o) + " " + any(d - 1) + ")"; }
      case 8: { std::string op = r.pick(uOps()); return "(eo::list_minclude " + op + " " + L(op, d - 1) + " " + L(op, d - 1) + ")"; }
      case 9: { std::string op = r.pick(uOps()); return "(eo::list_meq " + op + " " + L(op, d - 1) + " " + L(op, d - 1) + ")"; }
      case 10: return "(eo::is_eq " + I(d - 1) + " " + I(d - 1) + ")";
      case 11: return prog('B', d);
      case 12: return "(eo::ite " + B(d - 1) + " " + B(d - 1) + " " + B(d - 1) + ")";
      case 13: return "(eo::cmp " + any(d - 1) + " " + any(d - 1) + ")";
      case 14: { std::string a = any(d - 1); return "(eo::is_eq " + a + " " + a + ")"; }
      default: return "(eo::requires " + any(d - 1) + " " + any(d - 1) + " " + B(d - 1) + ")";
    }
  }
  std::string nilOf(const std::string& op) { return op == "and" ? "true" : op == "or" ? "false" : op == "+" ? "0" : op == "eo::List::cons" ? "eo::List::nil" : op == "bvor" ? "#b0000" : "nu"; }
  std::string elem(const std::string& op, int d) { return op == "and" || op == "or" ? g.genBool(d).str() : op == "+" ? I(0) : op == "bvor" ? V(0, 4) : U(d); }
  std::string L(const std::string& op, int d)
  {
    if (d <= 0 || r.chance(0.4))
    {
      if (r.chance(0.1)) return nilOf(op);
      if (r.chance(0.1)) return elem(op, 1);
      if (op == "eo::List::cons" && r.chance(0.2)) return "(eo::List::cons " + elem(op, 1) + " eo::List::nil)";
      std::string s = "(" + op;
      for (int n = r.range(2, 5); n > 0; n--) s += " " + elem(op, r.chance(0.8) ? 0 : 1);
      return s + ")";
    }
    switch (r.below(12))
    {
      case 0: return "(eo::cons " + op + " " + elem(op, d - 1) + " " + L(op, d - 1) + ")";
      case 1: case 2: return "(eo::list_concat " + op + " " + L(op, d - 1) + " " + L(op, d - 1) + ")";
      case 3: return "(eo::list_rev " + op + " " + L(op, d - 1) + ")";
      case 4: return "(eo::list_erase " + op + " " + L(op, d - 1) + " " + elem(op, d - 1) + ")";
      case 5: return "(eo::list_erase_all " + op + " " + L(op, d - 1) + " " + elem(op, d - 1) + ")";
      case 6: return "(eo::list_setof " + op + " " + L(op, d - 1) + ")";
      case 7: return "(eo::list_diff " + op + " " + L(op, d - 1) + " " + L(op, d - 1) + ")";
      case 8: return "(eo::list_inter " + op + " " + L(op, d - 1) + " " + L(op, d - 1) + ")";
      case 9: return "(eo::nil " + op + " (eo::typeof " + elem(op, 0) + "))";
      case 10: return "(eo::list_singleton_elim " + op + " " + L(op, d - 1) + ")";
      default: return "(" + op + " " + elem(op, d - 1) + " " + L(op, d - 1) + ")";
    }
  }
  std::string U(int d)
  {
    if (d <= 0 || r.chance(0.3)) return !locals.empty() && r.chance(0.7) ? r.pick(locals) : r.chance(0.05) ? "nu" : r.pick(g.uConsts);
    switch (r.below(13))
    {
      case 0: return "(f " + U(d - 1) + ")";
      case 1: return "(g " + U(d - 1) + " " + U(d - 1) + ")";
      case 2: { std::string op = r.pick(uOps()); return "(eo::list_nth " + op + " " + L(op, d - 1) + " " + I(1) + ")"; }
      case 3: case 4: { static const std::vector<std::string> o = {"lan", "ran", "lns", "rns"}; return L(r.pick(o), d - 1); }
      case 5: { std::string s = r.chance(0.5) ? "(ra" : "(la"; for (int n = r.range(1, 4); n > 0; n--) s += " " + U(d - 1); return s + ")"; }
      case 6: { std::string s = "(args"; for (int n = r.range(0, 4); n > 0; n--) s += " " + any(d - 1); return s + ")"; }
      case 7: return "(eo::ite " + B(d - 1) + " " + U(d - 1) + " " + U(d - 1) + ")";
      case 8: return "(ite " + g.genBool(d - 1).str() + " " + U(d - 1) + " " + U(d - 1) + ")";
      case 9: return prog('U', d);
      case 10: return "(@k " + I(d - 1) + ")";
      case 11: return "(eo::define ((x0 " + U(d - 1) + ")) (g x0 x0))";
      default: return "(_ (_ g " + U(d - 1) + ") " + U(d - 1) + ")";
    }
  }
  std::string form(int d)  // Bool-typed terms with all kinds of operators
  {
    switch (r.below(7))
    {
      case 0: { std::string s = r.chance(0.5) ? "(chn" : "(dis"; for (int n = r.range(1, 4); n > 0; n--) s += " " + U(d); return s + ")"; }
      case 1: { std::string s = "(xor"; for (int n = r.range(1, 4); n > 0; n--) s += " " + g.genBool(d).str(); return s + ")"; }
      case 2: { std::string x = r.chance(0.5) ? "x" : "y"; return "(forall ((" + x + " U)" + (r.chance(0.3) ? " (z Bool)" : "") + ") (= (f " + (r.chance(0.8) ? x : "x") + ") " + U(d) + "))"; }
      case 3: return "(= " + any(d) + " " + any(d) + ")";
      case 4: return "(= (select ar " + U(d) + ") " + I(d) + ")";
      case 5: return "(= (bvc " + V(d, r.range(1, 4)) + " " + V(d, r.range(1, 4)) + ") " + V(d, r.range(2, 6)) + ")";
      default: return r.chance(0.5) ? "(= (bvor " + V(0, 4) + " " + V(0, 4) + ") " + V(0, 4) + ")" : "(< " + I(d) + " " + I(d) + " " + I(d) + ")";
    }
  }
  // patterns over variables u1 u2 us (U), b1 b2 bs (Bool), n1 (Int)
  std::string patU(int d, std::vector<std::string>& vs)
  {
    auto var = [&](const char* v) { if (std::find(vs.begin(), vs.end(), v) == vs.end()) vs.push_back(v); return std::string(v); };
    if (d <= 0 || r.chance(0.3)) return r.chance(0.65) ? var(r.chance(0.6) ? "u1" : "u2") : r.pick(g.uConsts);
    switch (r.below(7))
    {
      case 0: return "(f " + patU(d - 1, vs) + ")";
      case 1: case 2: return "(g " + patU(d - 1, vs) + " " + patU(d - 1, vs) + ")";
      case 3: return "(ran " + patU(d - 1, vs) + " " + var("us") + ")";
      case 4: return "(lan " + (r.chance(0.5) ? var("us") : patU(d - 1, vs)) + " " + patU(d - 1, vs) + ")";
      case 5: return "(@k " + var("n1") + ")";
      default: return "(" + var("hf") + " " + patU(d - 1, vs) + ")";
    }
  }
  std::string patB(int d, std::vector<std::string>& vs)
  {
    auto var = [&](const char* v) { if (std::find(vs.begin(), vs.end(), v) == vs.end()) vs.push_back(v); return std::string(v); };
    if (d <= 0 || r.chance(0.25)) return r.chance(0.7) ? var(r.chance(0.6) ? "b1" : "b2") : r.chance(0.5) ? r.pick(g.boolConsts) : r.chance(0.5) ? "true" : "false";
    switch (r.below(7))
    {
      case 0: return "(not " + patB(d - 1, vs) + ")";
      case 1: return std::string(r.chance(0.5) ? "(and " : "(or ") + patB(d - 1, vs) + " " + (r.chance(0.6) ? var("bs") : patB(d - 1, vs)) + ")";
      case 2: return "(=> " + patB(d - 1, vs) + " " + patB(d - 1, vs) + ")";
      case 3: return "(= " + patU(d - 1, vs) + " " + patU(d - 1, vs) + ")";
      case 4: return "(= " + patB(d - 1, vs) + " " + patB(d - 1, vs) + ")";
      case 5: return "(< " + var("n1") + " " + (r.chance(0.5) ? var("n1") : I(0)) + ")";
      default: return std::string(r.chance(0.5) ? "(and " : "(or ") + patB(d - 1, vs) + " " + patB(d - 1, vs) + " " + patB(d - 1, vs) + ")";
    }
  }
  static bool has(const std::vector<std::string>& v, const char* x) { return std::find(v.begin(), v.end(), x) != v.end(); }
  std::string bodyU(int d, const std::vector<std::string>& vs, const std::string& rec)
  {
    std::vector<std::string> a;
    for (const char* x : {"u1", "u2", "us"}) if (has(vs, x)) a.push_back(x);
    if (d <= 0 || r.chance(0.3)) return !a.empty() && r.chance(0.8) ? r.pick(a) : r.pick(g.uConsts);
    switch (r.below(7))
    {
      case 0: return "(f " + bodyU(d - 1, vs, rec) + ")";
      case 1: return "(g " + bodyU(d - 1, vs, rec) + " " + bodyU(d - 1, vs, rec) + ")";
      case 2: if (!rec.empty() && !a.empty()) return "(" + rec + " " + r.pick(a) + ")"; return bodyU(0, vs, rec);
      case 3: return "(eo::cons ran " + bodyU(d - 1, vs, rec) + " " + bodyU(d - 1, vs, rec) + ")";
      case 4: return "(ran " + bodyU(d - 1, vs, rec) + " " + bodyU(d - 1, vs, rec) + ")";
      case 5: return "(eo::ite (eo::is_eq " + bodyU(d - 1, vs, rec) + " " + bodyU(d - 1, vs, rec) + ") " + bodyU(d - 1, vs, rec) + " " + bodyU(d - 1, vs, rec) + ")";
      default: return "(lan " + bodyU(d - 1, vs, rec) + " " + bodyU(d - 1, vs, rec) + ")";
    }
  }
  std::string bodyB(int d, const std::vector<std::string>& vs, const std::string& rec)
  {
    std::vector<std::string> a;
    for (const char* x : {"b1", "b2", "bs"}) if (has(vs, x)) a.push_back(x);
    if (d <= 0 || r.chance(0.3)) return !a.empty() && r.chance(0.8) ? r.pick(a) : r.pick(g.boolConsts);
    switch (r.below(7))
    {
      case 0: return "(not " + bodyB(d - 1, vs, rec) + ")";
      case 1: return "(and " + bodyB(d - 1, vs, rec) + " " + bodyB(d - 1, vs, rec) + ")";
      case 2: if (!rec.empty() && !a.empty()) return "(" + rec + " " + r.pick(a) + ")"; return bodyB(0, vs, rec);
      case 3: { std::string o = r.chance(0.5) ? "and" : "or"; return "(eo::cons " + o + " " + bodyB(d - 1, vs, rec) + " " + bodyB(d - 1, vs, rec) + ")"; }
      case 4: return "(= " + bodyU(d - 1, vs, "") + " " + bodyU(d - 1, vs, "") + ")";
      case 5: if (has(vs, "n1")) return "(< n1 (eo::add n1 1))"; return bodyB(0, vs, rec);
      default: return "(=> " + bodyB(d - 1, vs, rec) + " " + bodyB(d - 1, vs, rec) + ")";
    }
  }
  std::string params(const std::vector<std::string>& vs)
  {
    static const std::map<std::string, std::string> t = {{"u1", "U"}, {"u2", "U"}, {"us", "U :list"}, {"b1", "Bool"}, {"b2", "Bool"}, {"bs", "Bool :list"}, {"n1", "Int"}, {"hf", "(-> U U)"}};
    std::string s;
    for (auto& v : vs) s += (s.empty() ? "(" : " (") + v + " " + t.at(v) + ")";
    return s;
  }
  void program()
  {
    std::string n = "P" + std::to_string(progs.size());
    bool two = r.chance(0.25), onU = r.chance(0.5);
    char ran = r.chance(0.5) ? 'U' : 'B';
    if (r.chance(0.7)) ran = onU ? 'U' : 'B';
    std::vector<std::string> all;
    std::string cases;
    int k = r.range(1, 4);
    std::string rec = !two && ran == (onU ? 'U' : 'B') ? n : "";
    for (int i = 0; i < k; i++)
    {
      std::vector<std::string> vs;
      std::string p = "(" + n + " " + (onU ? patU(2, vs) : patB(2, vs));
      if (two) p += " " + patU(1, vs);
      p += ")";
      if (r.chance(0.03)) vs.push_back("u2");
      cases += " (" + p + " " + (ran == 'U' ? bodyU(2, vs, rec) : bodyB(2, vs, rec)) + ")";
      for (auto& v : vs) if (!has(all, v.c_str())) all.push_back(v);
    }
    if (r.chance(0.6))
    {
      std::string x = onU ? "u1" : "b1", y = "u2";
      cases += " ((" + n + " " + x + (two ? " " + y : "") + ") " + (ran == 'U' ? (onU ? x : "a") : onU ? "p" : x) + ")";
      if (!has(all, x.c_str())) all.push_back(x);
      if (two && !has(all, y.c_str())) all.push_back(y);
    }
    sig.push_back("(program " + n + " (" + params(all) + ") :signature (" + (onU ? "U" : "Bool") + (two ? " U" : "") + ") " + (ran == 'U' ? "U" : "Bool") + " (" + cases + "))");
    Prog p{n, {onU ? 'U' : 'F'}, ran};
    if (two) p.dom.push_back('U');
    progs.push_back(p);
  }
  // Programs that call each other on few distinct arguments and build terms that
  // are dropped at once: the same call is met again after its first result went.
  std::string bodyC(int d, int i, const std::vector<std::string>& ps, const std::string& base)
  {
    auto call = [&] {
      int j = static_cast<int>(r.below(static_cast<uint64_t>(i)));
      return "(" + base + std::to_string(j) + " " + (r.chance(0.75) ? r.pick(ps) : "c") + (j % 2 ? " " + (r.chance(0.6) ? r.pick(ps) : std::string("c")) : "") + ")";
    };
    if (d <= 0 || r.chance(0.15)) return i > 0 && r.chance(0.5) ? call() : r.chance(0.7) ? r.pick(ps) : r.pick(g.uConsts);
    auto b = [&] { return bodyC(d - 1, i, ps, base); };
    switch (r.below(9))
    {
      case 0: return "(f " + b() + ")";
      case 1: return "(g " + b() + " " + b() + ")";
      case 2: case 3: if (i > 0) return call(); return "(g " + r.pick(ps) + " " + b() + ")";
      case 4: case 5: return "(eo::ite (" + std::string(r.chance(0.5) ? "eo::eq" : "eo::is_eq") + " " + b() + " " + b() + ") " + b() + " " + b() + ")";
      case 6: return "(eo::ite (eo::is_ok " + b() + ") " + b() + " " + b() + ")";
      case 7: { std::string x = b(); return "(eo::requires " + x + " " + x + " " + b() + ")"; }
      default: { std::string z = "z" + std::to_string(r.below(3)); return "(eo::define ((" + z + " " + b() + ")) (eo::ite (eo::is_eq " + z + " " + r.pick(ps) + ") " + b() + " " + z + "))"; }
    }
  }
  void chain()
  {
    std::string base = "Q" + std::to_string(sig.size()) + "_";
    int k = r.range(2, 6);
    for (int i = 0; i < k; i++)
    {
      bool two = i % 2;
      std::vector<std::string> ps = {"u1"};
      if (two) ps.push_back("u2");
      std::string n = base + std::to_string(i), cs;
      if (i > 0 && r.chance(0.3)) cs = "((" + n + " (f u1)" + (two ? " u2" : "") + ") " + bodyC(2, i, ps, base) + ") ";
      cs += "((" + n + (two ? " u1 u2) " : " u1) ") + bodyC(i == 0 ? 1 : r.range(1, 3), i, ps, base) + ")";
      sig.push_back("(program " + n + " ((u1 U)" + (two ? " (u2 U)" : "") + ") :signature (U" + (two ? " U" : "") + ") U (" + cs + "))");
      progs.push_back({n, two ? std::vector<char>{'U', 'U'} : std::vector<char>{'U'}, 'U'});
      if (r.chance(0.5)) progs.push_back(progs.back());
    }
    std::string j = base + std::to_string(k - 1), l = base + std::to_string(r.below(static_cast<uint64_t>(k)));
    auto app = [&](const std::string& n) { return "(" + n + " u1" + ((n.back() - '0') % 2 ? " u1)" : ")"); };
    sig.push_back("(program " + base + "top ((u1 U)) :signature (U) Bool (((" + base + "top u1) (= " + app(l) + " " + app(j) + "))))");
    sig.push_back("(declare-rule " + base + "r ((u1 U)) :args (u1) :conclusion (" + base + "top u1))");
    chains.push_back(base + "r");
  }
  std::vector<std::string> chains;
  void useChain()
  {
    if (!chains.empty()) g.add(K_STEP, "(step " + g.fresh("@q") + " :rule " + r.pick(chains) + " :args (" + U(r.chance(0.6) ? 0 : 1) + "))");
  }
  // a random rule and a use of it
  std::string inst(const std::string& pat, std::map<std::string, std::string>& s)
  {
    std::string o;
    size_t i = 0;
    while (i < pat.size())
    {
      if (pat[i] == '(' || pat[i] == ')' || pat[i] == ' ') { o += pat[i++]; continue; }
      size_t e = pat.find_first_of("() ", i);
      if (e == std::string::npos) e = pat.size();
      std::string w = pat.substr(i, e - i);
      i = e;
      if (w == "u1" || w == "u2") { if (!s.count(w)) s[w] = U(1); o += s[w]; }
      else if (w == "us") { if (!s.count(w)) s[w] = r.chance(0.5) ? "nu" : L("ran", 1); o += s[w]; }
      else if (w == "b1" || w == "b2") { if (!s.count(w)) s[w] = g.genBool(1).str(); o += s[w]; }
      else if (w == "bs") { if (!s.count(w)) s[w] = r.chance(0.5) ? "(and p q r)" : "(or r s)"; o += s[w]; }
      else if (w == "n1") { if (!s.count(w)) s[w] = I(0); o += s[w]; }
      else if (w == "hf") { if (!s.count(w)) s[w] = r.chance(0.6) ? "f" : "(g a)"; o += s[w]; }
      else o += w;
    }
    return o;
  }
  struct Rule { std::string name; std::vector<std::string> prem, args; bool expl = false; std::string concl; };
  std::vector<Rule> rules;
  void rule()
  {
    Rule x;
    x.name = "R" + std::to_string(rules.size());
    std::vector<std::string> vs;
    for (int n = r.range(0, 2); n > 0; n--) x.prem.push_back(patB(2, vs));
    for (int n = r.range(0, 2); n > 0; n--) x.args.push_back(r.chance(0.5) ? patU(1, vs) : patB(1, vs));
    x.expl = r.chance(0.3);
    auto lhs = vs;
    x.concl = x.expl ? patB(2, vs) : bodyB(2, lhs, "");
    std::string t = "(declare-rule " + x.name + " (@@)";
    auto list = [&](const std::vector<std::string>& v) { std::string s; for (auto& y : v) s += (s.empty() ? "" : " ") + y; return s; };
    if (!x.prem.empty() || r.chance(0.05)) t += " :premises (" + list(x.prem) + ")";
    if (!x.args.empty() || r.chance(0.05)) t += " :args (" + list(x.args) + ")";
    if (r.chance(0.3)) t += " :requires ((" + bodyB(1, lhs, "") + " " + bodyB(1, lhs, "") + "))";
    else if (r.chance(0.2)) { std::string b = bodyU(2, lhs, ""); t += " :requires (((eo::is_eq " + b + " " + b + ") true))"; }
    t += std::string(x.expl ? " :conclusion-explicit " : " :conclusion ") + x.concl + ")";
    size_t at = t.find("@@");
    t.replace(at, 2, params(vs));
    sig.push_back(t);
    rules.push_back(x);
  }
  void useRule()
  {
    if (rules.empty()) return;
    const Rule& x = r.pick(rules);
    std::map<std::string, std::string> s;
    std::vector<std::string> ps;
    for (auto& p : x.prem)
    {
      std::string n = g.fresh("@p"), f = inst(p, s);
      if (r.chance(0.05)) s.clear();
      g.add(K_ASSUME, "(assume " + n + " " + f + ")");
      ps.push_back(n);
    }
    std::string t = "(step " + g.fresh("@r");
    std::string a;
    for (auto& y : x.args) a += (a.empty() ? "" : " ") + inst(y, s);
    if (x.expl || r.chance(0.4)) t += " " + inst(x.concl, s);
    t += " :rule " + x.name;
    if (!ps.empty())
    {
      t += " :premises (";
      for (size_t i = 0; i < ps.size(); i++) t += (i ? " " : "") + ps[i];
      t += ")";
    }
    if (!a.empty()) t += " :args (" + a + ")";
    g.add(K_STEP, t + ")");
  }
};

// what the reference model covers, with most evaluations predicted by it
static void evalBody(Rng& r, SessionGen& g)
{
  EvGen e(r, g);
  e.signature();
  for (int n = r.range(0, 4); n > 0; n--) e.program();
  for (int n = r.range(0, 3); n > 0; n--) e.rule();
  if (r.chance(0.4)) e.chain();
  g.sig.insert(g.sig.end(), e.sig.begin(), e.sig.end());
  World s = sessionWorld(r, g, P_STDIN, false);
  mdl::Model m;
  bool good = m.run(s).kind == mdl::Outcome::OK;
  std::vector<std::string> ex;
  for (int n = r.range(2, 12); n > 0; n--)
    ex.push_back(r.chance(0.6) ? e.any(r.range(1, 4)) : r.chance(0.4) ? e.L(r.pick(e.listOps()), 3) : r.chance(0.6) && !e.progs.empty() ? e.prog(r.pick(e.progs).ran, 3) : e.form(r.range(0, 2)));
  std::vector<std::string> val(ex.size()), ty(ex.size());
  if (good)
  {
    val = m.values(ex);
    ty = m.values(ex, true);
  }
  g.body(r.range(0, 4));
  int left = r.range(0, 3);  // wrong steps at most
  for (size_t i = 0; i < ex.size(); i++)
  {
    if (r.chance(0.4)) e.useRule();
    if (r.chance(0.3)) e.useChain();
    std::string n = g.fresh("@e"), v = val[i];
    switch (r.below(8))
    {
      case 0:
        if (ty[i].empty()) break;
        g.add(K_STEP, "(step " + n + " :rule typ :args (" + (left > 0 && r.chance(0.2) ? left--, r.pick(ty) : ty[i]) + " " + ex[i] + "))");
        break;
      case 1:
        g.add(K_DEFINE, "(define " + n + " () " + ex[i] + (r.chance(0.5) && !ty[i].empty() ? " :type " + ty[i] : "") + ")");
        if (!v.empty()) g.add(K_STEP, "(step " + g.fresh("@e") + " :rule same :args (" + n + " " + v + "))");
        break;
      case 2:
        if (v.empty() && left-- <= 0) break;
        g.add(K_STEP, "(step " + n + " :rule isok :args (" + ex[i] + " " + (r.chance(0.9) ? "true" : "false") + "))");
        break;
      default:
      {
        if ((v.empty() || r.chance(0.25)) && left-- > 0)
        {
          // a value that is likely wrong
          std::string o2 = r.pick(val);
          v = r.chance(0.5) && !o2.empty() ? o2 : r.chance(0.5) && !v.empty() ? mutate(r, v, o2) : e.any(1);
        }
        if (v.empty()) break;
        g.add(K_STEP, "(step " + n + " :rule ev :args (" + ex[i] + " " + v + "))");
      }
    }
  }
}
World evalWorkload(Rng& r)
{
  if (r.chance(0.3)) return soupWorkload(r);
  SessOpts o;
  o.len = r.range(2, 14);
  o.scopes = r.chance(0.6);
  o.pushpop = r.chance(0.5);
  o.echo = r.chance(0.4);
  o.sorry = r.chance(0.3);
  o.wrong = r.chance(0.2) ? 0.08 : 0;
  SessionGen g(r, o);
  g.makeSignature();
  evalBody(r, g);
  g.body(o.len);
  if (!r.chance(0.04)) g.closeScopes();
  World w = sessionWorld(r, g, static_cast<int>(r.below(3)));
  if (r.chance(0.9)) repair(w, 20);
  return w;
}
Case genC04(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  std::string log;
  int mode = static_cast<int>(r.below(10));
  if (mode == 0 && !g_corpus.empty())
  {
    c.w = corpusWorld(r);
    if (r.chance(0.7)) mutateWorld(r, c.w, r.range(1, 3), log);
  }
  else if (mode >= 6)
  {
    c.w = r.chance(0.15) ? soupReference(r) : soupWorkload(r);
    if (r.chance(0.3)) mutateWorld(r, c.w, r.range(1, 2), log);
  }
  else
  {
    SessOpts o;
    o.len = r.range(2, 20);
    o.scopes = r.chance(0.5);
    o.pushpop = r.chance(0.3);
    o.echo = r.chance(0.4);
    o.sorry = r.chance(0.3);
    o.wrong = r.chance(0.3) ? 0.08 : 0;
    o.concl = r.chance(0.5) ? 0.75 : 1;
    SessionGen g(r, o);
    g.makeSignature();
    if (mode >= 3) evalBody(r, g);
    g.body(o.len);
    if (!r.chance(0.04)) g.closeScopes();
    c.w = sessionWorld(r, g, static_cast<int>(r.below(3)));
    if (r.chance(0.85)) repair(c.w, 20);
    if (r.chance(0.45)) mutateWorld(r, c.w, r.range(1, 3), log);
    if (r.chance(0.05)) c.w.argv.insert(c.w.argv.begin(), r.chance(0.3) ? "--normalize-num" : r.chance(0.5) ? "--no-normalize-dec" : "--no-normalize-hex");
  }
  systemFaults(r, c.w);
  if (!log.empty()) c.kv["messages"] = log;
  return c;
}
Verdict judgeC04(const Case& c, Ctx& x)
{
  mdl::Marks m;
  mdl::Outcome p;
  probeMsg(x, c);
  Verdict v = against(c.w, x, m, p);
  probeMarks(x, m);
  return v;
}

// ------------------------------------------------------------ C20-C22, C24
// Sessions about one part of the language, with message faults that turn them
// into others, and with the faults of the system that must not matter.
static Case genFacet(uint64_t seed, int facet)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  std::string log;
  c.w = facetWorkload(r, facet);
  if (r.chance(0.2)) mutateWorld(r, c.w, r.range(1, 2), log);
  if (r.chance(0.05)) c.w.argv.insert(c.w.argv.begin(), r.chance(0.3) ? "--normalize-num" : r.chance(0.5) ? "--no-normalize-dec" : "--no-normalize-hex");
  systemFaults(r, c.w);
  if (!log.empty()) c.kv["messages"] = log;
  return c;
}
Case genC20(uint64_t seed) { return genFacet(seed, 0); }
Case genC21(uint64_t seed) { return genFacet(seed, 1); }
Case genC22(uint64_t seed) { return genFacet(seed, 2); }
Case genC24(uint64_t seed) { return genFacet(seed, 3); }
Verdict judgeC20(const Case& c, Ctx& x) { return judgeC04(c, x); }
Verdict judgeC21(const Case& c, Ctx& x) { return judgeC04(c, x); }
Verdict judgeC22(const Case& c, Ctx& x) { return judgeC04(c, x); }
Verdict judgeC24(const Case& c, Ctx& x) { return judgeC04(c, x); }

// ------------------------------------------------------------ C11
// another way to write an assertion of the problem
static std::string smt(Rng& r, const F& f, bool nf, int& cnt)
{
  if (nf && r.chance(0.25)) return "(not (not " + smt(r, f, nf, cnt) + "))";
  if (f.a.empty()) return f.op;
  if (r.chance(0.06))
  {
    std::string v = "l" + std::to_string(++cnt);
    F h = f;
    std::string d = h.a[0].str();
    h.a[0] = F(v);
    return "(let ((" + v + " " + d + ")) " + h.str() + ")";
  }
  std::string s = "(" + f.op;
  for (auto& x : f.a) s += (r.chance(0.05) ? "\n   " : " ") + (f.op == "and" || f.op == "or" || f.op == "not" || f.op == "=>" ? smt(r, x, nf, cnt) : x.str());
  return s + ")";
}
Case genC11(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  std::string log;
  if (r.chance(0.4))
  {
    c.w = soupReference(r);
    if (r.chance(0.25)) mutateWorld(r, c.w, r.range(1, 2), log);
    systemFaults(r, c.w);
    if (!log.empty()) c.kv["messages"] = log;
    return c;
  }
  SessOpts o;
  o.scopes = r.chance(0.6);
  o.pushpop = r.chance(0.4);
  o.echo = r.chance(0.2);
  o.sorry = r.chance(0.2);
  o.localDecl = r.chance(0.3);
  SessionGen g(r, o);
  g.makeSignature();
  bool nf = r.chance(0.3);
  if (nf)
  {
    g.sig.push_back("(program nrm ((x Bool) (y Bool)) :signature (Bool) Bool (((nrm (not (not x))) (nrm x)) ((nrm (not x)) (not (nrm x))) ((nrm (and x y)) (and (nrm x) (nrm y)))"
                    " ((nrm (=> x y)) (=> (nrm x) (nrm y))) ((nrm x) x)))");
    if (r.chance(0.3)) g.sig.push_back("(define nrm2 ((x Bool)) (nrm x))");
  }
  // some constants are declared by the problem itself
  std::string decls;
  if (r.chance(0.7))
    for (const char* n : {"r", "s", "c"})
    {
      std::string t = n[0] == 'c' ? "U" : "Bool";
      auto i = std::find(g.sig.begin(), g.sig.end(), std::string("(declare-const ") + n + " " + t + ")");
      if (i == g.sig.end() || r.chance(0.4)) continue;
      g.sig.erase(i);
      decls += r.chance(0.5) ? std::string("(declare-const ") + n + " " + t + ")\n" : std::string("(declare-fun ") + n + " () " + t + ")\n";
    }
  // the body, with (include "partN.eo") of pieces that are at level zero
  int parts = r.range(0, 3);
  std::vector<std::pair<size_t, size_t>> piece;
  for (int i = 0; i <= parts; i++)
  {
    size_t b = g.cmds.size();
    g.body(r.range(2, 12));
    if (i < parts || !r.chance(0.05)) g.closeScopes();
    if (r.chance(0.7)) { std::string n = g.fresh("@a"); F f = g.genBool(2); g.add(K_ASSUME, "(assume " + n + " " + f.str() + ")"); g.assertions.push_back(f); g.facts.push_back({n, f, 0}); }
    piece.emplace_back(b, g.cmds.size());
  }
  int cnt = 0;
  std::string prob;
  if (r.chance(0.5)) prob += "(set-logic QF_UF)\n";
  if (r.chance(0.2)) prob += "(set-info :status unsat)\n";
  prob += decls;
  std::vector<std::string> as;
  bool lossy = r.chance(0.4);
  for (auto& f : g.assertions)
  {
    if (lossy && r.chance(0.1)) { log += std::string(log.empty() ? "" : " ") + "lost-assertion"; continue; }
    if (lossy && r.chance(0.05)) { as.push_back("(assert " + mutate(r, f.str(), log) + ")"); continue; }
    as.push_back("(assert " + smt(r, f, nf, cnt) + ")");
    if (r.chance(0.1)) as.push_back(as.back());
  }
  for (int n = r.range(0, 3); n > 0; n--) as.push_back("(assert " + g.genBool(2).str() + ")");
  for (size_t i = as.size(); i > 1; i--) std::swap(as[i - 1], as[r.below(i)]);
  for (auto& x : as) prob += x + "\n";
  if (r.chance(0.6)) prob += "(check-sat)\n";
  if (r.chance(0.2)) prob += "(exit)\n";
  World w;
  std::string sig;
  for (auto& x : g.sig) sig += x + "\n";
  w.files["/w/sig.eo"] = sig;
  static const std::vector<std::string> pn = {"prob.smt2", "in/prob.smt2", "prob.eo"};
  std::string pname = r.pick(pn);
  w.files["/w/" + pname] = prob;
  std::string main;
  bool optSig = r.chance(0.15);
  bool optRef = !nf && optSig && r.chance(0.6);
  if (optSig) w.argv.push_back("--include=sig.eo");
  else main += "(include \"sig.eo\")\n";
  if (optRef) w.argv.push_back("--reference=" + pname);
  int refAt = optRef ? -1 : r.chance(0.8) || !decls.empty() ? 0 : r.range(0, parts + 1);
  for (int i = 0; i <= parts; i++)
  {
    if (i == refAt) main += "(reference \"" + pname + "\"" + (nf ? r.chance(0.2) && sig.find("nrm2") != std::string::npos ? " nrm2" : " nrm" : "") + ")\n";
    std::string t;
    for (size_t k = piece[i].first; k < piece[i].second; k++) t += g.cmds[k].text + "\n";
    if (r.chance(0.5))
    {
      std::string n = "part" + std::to_string(i) + ".eo";
      if (r.chance(0.3)) t = "(include \"" + std::string(optSig ? "x.eo" : "sig.eo") + "\")\n" + t;
      w.files["/w/" + n] = t;
      main += "(include \"" + n + "\")\n";
    }
    else main += t;
    if (r.chance(0.03)) main += "(reset)\n";
  }
  w.files["/w/x.eo"] = "";
  int place = static_cast<int>(r.below(3));
  if (place == 0) setStdin(w, main);
  else
  {
    std::string n = place == 1 ? "main.eo" : "main.proof";
    w.files["/w/" + n] = main;
    w.argv.push_back(n);
  }
  if (r.chance(0.1)) w.argv.insert(w.argv.begin(), r.chance(0.5) ? "--normalize-num" : "--no-normalize-dec");
  c.w = w;
  if (!lossy && r.chance(0.6)) repair(c.w, 12);
  if (r.chance(0.3)) mutateWorld(r, c.w, r.range(1, 2), log);
  if (r.chance(0.25))
  {
    // the problem loses, repeats or reorders something
    std::string& t = c.w.files["/w/" + pname];
    t = mutate(r, t, log);
  }
  systemFaults(r, c.w);
  if (!log.empty()) c.kv["messages"] = log;
  return c;
}
Verdict judgeC11(const Case& c, Ctx& x)
{
  mdl::Marks m;
  mdl::Outcome p;
  probeMsg(x, c);
  Verdict v = against(c.w, x, m, p);
  if (m.refAssumes) x.probe("assumptions looked up in the problem", m.refAssumes);
  if (!v.viol && !m.refAssumes) v.nontrivial = false;
  return v;
}

// ------------------------------------------------------------ C12
Case genC12(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  std::string log;
  SessOpts o;
  SessionGen g(r, o);
  g.makeSignature();
  g.sig.push_back("(declare-rule tt ((T Type) (t T)) :args (T t) :conclusion true)");
  g.sig.push_back("(declare-rule eqq ((T Type) (S Type) (t T) (u S) (b Bool)) :args (t u b) :requires (((eo::is_eq t u) b)) :conclusion true)");
  // few names, so that they shadow, overload and outlive each other
  static const std::vector<std::string> pool = {"x", "y", "z", "w", "h", "k", "|x y|", "p", "f", "and"};
  int np = r.range(3, static_cast<int>(pool.size()));
  auto name = [&] { return pool[r.below(np)]; };
  static const std::vector<std::string> types = {"Bool", "U", "Int", "(-> U U)", "(-> Bool Bool)", "(-> U Bool)", "(-> U U U)", "(-> Bool Bool Bool) :right-assoc-nil true", "(-> U U Bool) :chainable and", "Type", "(-> Bool Bool Bool) :left-assoc"};
  std::function<std::string(int)> use = [&](int d) -> std::string {
    if (d <= 0 || r.chance(0.3)) return r.chance(0.8) ? name() : r.chance(0.5) ? r.pick(g.boolConsts) : r.pick(g.uConsts);
    switch (r.below(6))
    {
      case 0: return "(" + name() + " " + use(d - 1) + ")";
      case 1: return "(" + name() + " " + use(d - 1) + " " + use(d - 1) + ")";
      case 2: return "(= " + use(d - 1) + " " + use(d - 1) + ")";
      case 3: return "(not " + use(d - 1) + ")";
      case 4: return "(f " + use(d - 1) + ")";
      default: return r.chance(0.5) ? g.genBool(1).str() : g.genU(1).str();
    }
  };
  int depth = 0, progs = 0;
  std::vector<char> st;
  std::vector<std::string> proofs;
  static const std::vector<std::string> pnames = {"@a", "@b", "@c", "@d"};
  for (int n = r.range(8, 50); n > 0; n--)
  {
    switch (r.below(22))
    {
      case 0: case 1: case 2: case 3: g.add(K_DECL, "(declare-const " + name() + " " + r.pick(types) + ")"); break;
      case 4: g.add(K_DEFINE, "(define " + name() + " () " + use(2) + ")"); break;
      case 5: { std::string q = name(), v = name(); g.add(K_DEFINE, "(define " + q + " ((" + v + " " + (r.chance(0.5) ? "U" : "Bool") + ")) " + (r.chance(0.6) ? "(" + name() + " " + v + ")" : use(1)) + ")"); break; }
      case 6: case 7: g.add(K_ASSUME, "(assume " + r.pick(pnames) + " " + (r.chance(0.6) ? use(2) : g.genBool(1).str()) + ")"); break;
      case 8: case 9:
        g.add(K_APUSH, "(assume-push " + r.pick(pnames) + " " + (r.chance(0.5) ? use(1) : g.genBool(1).str()) + ")");
        st.push_back('a');
        break;
      case 10: case 11:
        if (!st.empty() && (st.back() == 'a' || r.chance(0.1)))
        {
          g.add(K_APOP, "(step-pop " + r.pick(pnames) + " :rule scope :premises (" + r.pick(pnames) + "))");
          st.pop_back();
        }
        break;
      case 12: case 13:
      {
        int k = r.chance(0.8) ? 1 : r.range(0, 3);
        g.add(K_PUSH, "(push " + std::to_string(k) + ")");
        for (int i = 0; i < k; i++) st.push_back('p');
        break;
      }
      case 14: case 15:
      {
        int k = r.chance(0.8) ? 1 : r.range(0, 3);
        if (st.empty() || (st.back() != 'p' && !r.chance(0.1))) break;
        g.add(K_POP, "(pop " + std::to_string(k) + ")");
        for (int i = 0; i < k && !st.empty(); i++) st.pop_back();
        break;
      }
      case 16: g.add(K_STEP, "(step " + r.pick(pnames) + " :rule or_intro :premises (" + r.pick(pnames) + ") :args (" + use(1) + "))"); break;
      case 17: { std::string u = use(2); g.add(K_STEP, "(step " + r.pick(pnames) + " :rule refl :args (" + u + "))"); break; }
      case 18:
      {
        static const std::vector<std::string> ty = {"Bool", "U", "Int", "(-> U U)", "(-> U Bool)", "Type"};
        g.add(K_STEP, "(step " + r.pick(pnames) + " :rule tt :args (" + r.pick(ty) + " " + use(1) + "))");
        break;
      }
      case 19: g.add(K_STEP, "(step " + r.pick(pnames) + " :rule eqq :args (" + use(1) + " " + use(1) + (r.chance(0.5) ? " true))" : " false))")); break;
      case 20:
        if (r.chance(0.5))
        {
          std::string pn = r.chance(0.5) ? name() : "pr" + std::to_string(++progs);
          g.add(K_PROGRAM, "(program " + pn + " ((v U) (" + name() + " Bool)) :signature (U) U (((" + pn + " (f v)) v) ((" + pn + " v) a)))");
        }
        else if (r.chance(0.4)) g.add(K_RULE, "(declare-rule ru" + std::to_string(r.below(3)) + " ((" + name() + " Bool)) :args (" + name() + ") :conclusion true)");
        else if (r.chance(0.3)) g.add(K_STEP, "(step " + r.pick(pnames) + " :rule ru" + std::to_string(r.below(3)) + " :args (" + use(1) + "))");
        else if (r.chance(0.2)) { g.add(K_RESET, "(reset)\n(include \"sig.eo\")"); st.clear(); }
        else if (r.chance(0.4)) g.add(K_INCLUDE, "(include \"extra.eo\")");
        else g.add(K_DECL, "(declare-parameterized-const " + name() + " ((" + name() + " Type :implicit)) (-> U U))");
        break;
      default:
        g.add(K_ECHO, "(echo \"" + g.fresh("e") + "\")");
    }
    depth = static_cast<int>(st.size());
  }
  (void)depth;
  if (!r.chance(0.15))
    while (!st.empty())
    {
      if (st.back() == 'a') g.add(K_APOP, "(step-pop " + r.pick(pnames) + " :rule scope :premises (" + r.pick(pnames) + "))");
      else g.add(K_POP, "(pop 1)");
      st.pop_back();
    }
  c.w = sessionWorld(r, g, static_cast<int>(r.below(3)));
  {
    std::string e;
    for (int i = r.range(0, 3); i > 0; i--) e += "(declare-const " + name() + " " + r.pick(types) + ")\n";
    if (r.chance(0.3)) e += "(push 1)\n(declare-const " + name() + " U)\n" + (r.chance(0.7) ? "(pop 1)\n" : "");
    c.w.files["/w/extra.eo"] = e;
  }
  if (r.chance(0.9)) repair(c.w, 60);
  if (r.chance(0.5)) mutateWorld(r, c.w, r.range(1, 2), log);
  if (r.chance(0.3)) repair(c.w, 3);
  systemFaults(r, c.w);
  if (!log.empty()) c.kv["messages"] = log;
  return c;
}
Verdict judgeC12(const Case& c, Ctx& x)
{
  mdl::Marks m;
  mdl::Outcome p;
  probeMsg(x, c);
  Verdict v = against(c.w, x, m, p);
  if (m.scopesClosed) x.probe("scopes closed", m.scopesClosed);
  if (m.overloads) x.probe("names overloaded", m.overloads);
  if (m.unbound) x.probe("names unbound", m.unbound);
  if (!v.viol && !m.scopesClosed) v.nontrivial = false;
  return v;
}

// ------------------------------------------------------------ C13
Case genC13(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  std::string log;
  SessOpts o;
  o.sorry = r.chance(0.15);
  o.echo = r.chance(0.4);
  SessionGen g(r, o);
  g.makeSignature();
  // unproven rules of every shape, and proven ones that look like them
  static const char* const decl[] = {
      "((F Bool)) :args (F) :conclusion F",
      "((F Bool)) :premises (F) :conclusion (not (not F))",
      "() :conclusion (or p (not p))",
      "((F Bool)) :premise-list F and :conclusion F",
      "((F Bool) (G Bool)) :premises (F) :conclusion-explicit G",
      "((A Bool) (F Bool)) :assumption A :premises (F) :conclusion (=> A F)",
      "((t Bool)) :args (t) :requires (((neg (not t)) t)) :conclusion (= t t)",
      "() :conclusion-explicit true",
  };
  struct R { int shape; bool sorry; std::string name; };
  std::vector<R> rs;
  auto declare = [&](const std::string& n) {
    R x{static_cast<int>(r.below(8)), r.chance(0.5), n};
    rs.push_back(x);
    return "(declare-rule " + n + " " + decl[x.shape] + (x.sorry ? " :sorry" : "") + ")";
  };
  int n0 = r.range(1, 6);
  for (int i = 0; i < n0; i++) g.sig.push_back(declare("S" + std::to_string(i)));
  int used = r.chance(0.5) ? r.range(1, 3) : 0;  // uses of unproven rules to come
  auto useOf = [&](const R& x) {
    Fact f{"nofact", F("p"), 0};
    if (!g.facts.empty()) f = r.pick(g.facts);
    std::string n = g.fresh("@s");
    std::string b = g.genBool(1).str();
    switch (x.shape)
    {
      case 0: g.add(K_STEP, "(step " + n + (r.chance(0.5) ? " " + b : "") + " :rule " + x.name + " :args (" + b + "))"); break;
      case 1: g.add(K_STEP, "(step " + n + " :rule " + x.name + " :premises (" + f.name + "))"); break;
      case 2: g.add(K_STEP, "(step " + n + " (or p (not p)) :rule " + x.name + ")"); break;
      case 3: g.add(K_STEP, "(step " + n + " :rule " + x.name + " :premises (" + f.name + (r.chance(0.5) ? " " + f.name : "") + "))"); break;
      case 4: g.add(K_STEP, "(step " + n + " " + b + " :rule " + x.name + " :premises (" + f.name + "))"); break;
      case 5:
      {
        std::string h = g.fresh("@h");
        g.add(K_APUSH, "(assume-push " + h + " " + b + ")");
        g.add(K_APOP, "(step-pop " + n + " :rule " + x.name + " :premises (" + h + "))");
        break;
      }
      case 6: g.add(K_STEP, "(step " + n + " :rule " + x.name + " :args (" + b + "))"); break;
      default: g.add(K_STEP, "(step " + n + " true :rule " + x.name + ")"); break;
    }
  };
  for (int k = r.range(2, 14); k > 0; k--)
  {
    g.body(r.range(1, 4));
    const R x = r.pick(rs);
    if (!x.sorry || (used > 0 && r.chance(0.5)))
    {
      if (x.sorry) used--;
      useOf(x);
    }
    if (r.chance(0.06))
    {
      // a rule within a scope, and one of the same name after it
      std::string n = r.chance(0.5) ? "L" : g.fresh("L");
      g.add(K_PUSH, "(push 1)");
      g.add(K_RULE, declare(n));
      if (!rs.back().sorry || (used > 0 && r.chance(0.5))) useOf(rs.back());
      g.add(K_POP, "(pop 1)");
      rs.pop_back();
      if (r.chance(0.5)) g.add(K_RULE, declare(n));
    }
    if (r.chance(0.04)) g.add(K_RULE, declare("M" + std::to_string(rs.size())));
    if (r.chance(0.03))
    {
      g.closeScopes();
      g.facts.clear();
      g.add(K_RESET, "(reset)\n(include \"sig.eo\")");
    }
  }
  if (!r.chance(0.05)) g.closeScopes();
  // moves a run of commands at level zero into a file of its own
  std::vector<std::pair<std::string, std::string>> parts;
  for (int k = r.range(0, 2); k > 0; k--)
  {
    std::vector<size_t> zero;
    int d = 0;
    for (size_t i = 0; i < g.cmds.size(); i++)
    {
      if (d == 0) zero.push_back(i);
      if (g.cmds[i].kind == K_APUSH || g.cmds[i].kind == K_PUSH) d++;
      if (g.cmds[i].kind == K_APOP || g.cmds[i].kind == K_POP) d--;
    }
    if (zero.size() < 2) break;
    size_t a = r.below(zero.size() - 1), b = a + 1 + r.below(std::min<size_t>(zero.size() - a - 1, 8));
    std::string n = "part" + std::to_string(k) + ".eo", t;
    for (size_t i = zero[a]; i < zero[b]; i++) t += g.cmds[i].text + "\n";
    g.cmds.erase(g.cmds.begin() + zero[a], g.cmds.begin() + zero[b]);
    g.cmds.insert(g.cmds.begin() + zero[a], Cmd{K_INCLUDE, "(include \"" + n + "\")", 0});
    parts.emplace_back(n, t);
  }
  if (r.chance(0.08)) g.cmds.insert(g.cmds.begin() + r.below(g.cmds.size() + 1), Cmd{K_EXIT, "(exit)", 0});
  c.w = sessionWorld(r, g, static_cast<int>(r.below(3)), r.chance(0.4));
  for (auto& p : parts) c.w.files["/w/" + p.first] = p.second;
  if (r.chance(0.9)) repair(c.w, 30);
  if (r.chance(0.4)) mutateWorld(r, c.w, r.range(1, 2), log);
  if (r.chance(0.5)) repair(c.w, 4);
  systemFaults(r, c.w);
  if (r.chance(0.1)) c.w.argv.insert(c.w.argv.begin(), r.chance(0.5) ? "--normalize-num" : "--no-normalize-hex");
  if (!log.empty()) c.kv["messages"] = log;
  return c;
}
Verdict judgeC13(const Case& c, Ctx& x)
{
  mdl::Marks m;
  mdl::Outcome p;
  probeMsg(x, c);
  Verdict v = against(c.w, x, m, p);
  if (m.sorrySteps) x.probe("steps of unproven rules", m.sorrySteps);
  if (m.resets) x.probe("resets", m.resets);
  if (!v.viol && (p.kind == mdl::Outcome::REJECT || !m.steps)) v.nontrivial = false;
  return v;
}

void modelCorpus()
{
  setvbuf(stdout, nullptr, _IONBF, 0);
  int n[4] = {0}, bad = 0;
  for (auto& root : corpusRoots())
  {
    World w = rootWorld(root);
    Ctx x;
    mdl::Marks m;
    mdl::Outcome p;
    Verdict v = against(w, x, m, p);
    n[p.kind]++;
    if (v.viol || p.kind == mdl::Outcome::UNKNOWN || v.inconclusive) printf("%s: %s %s %s\n", root.c_str(), kindName(p.kind), p.why.c_str(), v.detail.c_str());
    if (v.viol) bad++;
  }
  printf("ok %d incomplete %d reject %d unknown %d, disagree %d\n", n[0], n[1], n[2], n[3], bad);
}
}  // namespace sim
