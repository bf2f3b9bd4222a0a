#include "gen.h"
#include <algorithm>

namespace sim {

std::string F::str() const
{
  if (a.empty()) return op;
  std::string s = "(" + op;
  for (auto& x : a) s += " " + x.str();
  return s + ")";
}
F negF(const F& f)
{
  if (f.op == "true") return F("false");
  if (f.op == "false") return F("true");
  if (f.op == "not") return f.a[0];
  if ((f.op == "and" || f.op == "or") && !f.a.empty())
  {
    F n(f.op == "and" ? "or" : "and");
    for (auto& x : f.a) n.a.push_back(negF(x));
    return n;
  }
  return F("not", {f});
}

void SessionGen::add(int kind, const std::string& t)
{
  cmds.push_back(Cmd{kind, t, depth});
}

void SessionGen::makeSignature()
{
  auto& s = sig;
  s.push_back("(declare-const Int Type)");
  s.push_back("(declare-consts <numeral> Int)");
  s.push_back("(declare-const not (-> Bool Bool))");
  s.push_back("(declare-const => (-> Bool Bool Bool))");
  s.push_back("(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)");
  s.push_back("(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)");
  s.push_back("(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))");
  s.push_back("(declare-const + (-> Int Int Int) :right-assoc-nil 0)");
  s.push_back("(declare-const < (-> Int Int Bool) :chainable and)");
  s.push_back("(declare-const xor (-> Bool Bool Bool) :left-assoc)");
  s.push_back("(declare-const U Type)");
  s.push_back("(declare-const f (-> U U))");
  s.push_back("(declare-const g (-> U U U))");
  for (const char* n : {"a", "b", "c"}) { s.push_back(std::string("(declare-const ") + n + " U)"); uConsts.push_back(n); }
  for (const char* n : {"p", "q", "r", "s"}) { s.push_back(std::string("(declare-const ") + n + " Bool)"); boolConsts.push_back(n); }
  s.push_back("(program neg ((x Bool) (xs Bool :list))\n  :signature (Bool) Bool\n  (((neg true) false) ((neg false) true) ((neg (not x)) x)\n   ((neg (and x xs)) (eo::cons or (neg x) (neg xs)))\n   ((neg (or x xs)) (eo::cons and (neg x) (neg xs)))\n   ((neg x) (not x))))");
  s.push_back("(program depth ((x U) (y U))\n  :signature (U) Int\n  (((depth (f x)) (eo::add 1 (depth x))) ((depth (g x y)) (eo::add (depth x) (depth y))) ((depth x) 0)))");
  std::vector<std::string> rules = {
      "(declare-rule split ((F Bool)) :args (F) :conclusion (or F (not F)))",
      "(declare-rule refl ((T Type) (t T)) :args (t) :conclusion (= t t))",
      "(declare-rule symm ((T Type) (t T) (u T)) :premises ((= t u)) :conclusion (= u t))",
      "(declare-rule trans ((T Type) (t T) (u T) (v T)) :premises ((= t u) (= u v)) :conclusion (= t v))",
      "(declare-rule cong ((h (-> U U)) (t U) (u U)) :premises ((= t u)) :args (h) :conclusion (= (h t) (h u)))",
      "(declare-rule and_intro ((F Bool)) :premise-list F and :conclusion F)",
      "(declare-rule and_elim ((F Bool) (i Int)) :premises (F) :args (i) :conclusion (eo::list_nth and F i))",
      "(declare-rule mp ((A Bool) (B Bool)) :premises (A (=> A B)) :conclusion B)",
      "(declare-rule contra ((F Bool)) :premises (F (not F)) :conclusion false)",
      "(declare-rule nne ((F Bool)) :premises ((not (not F))) :conclusion F)",
      "(declare-rule eq_resolve ((A Bool) (B Bool)) :premises (A (= A B)) :conclusion B)",
      "(declare-rule or_intro ((A Bool) (B Bool)) :premises (A) :args (B) :conclusion (or A B))",
      "(declare-rule trust ((F Bool)) :args (F) :conclusion F :sorry)",
      "(declare-rule sum ((m Int) (n Int)) :args (m n) :conclusion (= (+ m n) (eo::add m n)))",
      "(declare-rule less ((m Int) (n Int)) :args (m n) :requires (((eo::is_neg (eo::add m (eo::neg n))) true)) :conclusion (< m n))",
      "(declare-rule member ((l Bool) (x Bool)) :args (l x) :requires (((eo::is_neg (eo::list_find or l x)) false)) :conclusion (=> x l))",
      "(declare-rule negate ((F Bool)) :args (F) :conclusion (= (not F) (neg F)))",
      "(declare-rule depth_is ((t U)) :args (t) :conclusion (= (+ 0 (depth t)) (depth t)))",
      "(declare-rule scope ((A Bool) (F Bool)) :assumption A :premises (F) :conclusion (=> A F))",
      "(declare-rule exact ((F Bool) (G Bool)) :premises (F) :requires ((F G)) :conclusion-explicit G)",
  };
  for (auto& x : rules) s.push_back(x);
}

F SessionGen::genU(int d)
{
  if (d <= 0 || r.chance(0.4)) return F(r.pick(uConsts));
  if (r.chance(0.6)) return F("f", {genU(d - 1)});
  return F("g", {genU(d - 1), genU(d - 1)});
}
F SessionGen::genBool(int d)
{
  if (d <= 0 || r.chance(0.3))
  {
    if (r.chance(0.1)) return F(r.chance(0.5) ? "true" : "false");
    return F(r.pick(boolConsts));
  }
  switch (r.below(8))
  {
    case 0: return F("not", {genBool(d - 1)});
    case 1: case 2:
    {
      F f("and");
      for (int n = r.range(2, 3); n-- > 0;) f.a.push_back(genBool(d - 1));
      return f;
    }
    case 3: case 4:
    {
      F f("or");
      for (int n = r.range(2, 3); n-- > 0;) f.a.push_back(genBool(d - 1));
      return f;
    }
    case 5: return F("=>", {genBool(d - 1), genBool(d - 1)});
    case 6: return F("=", {genU(d - 1), genU(d - 1)});
    default:
      if (o.arith && r.chance(0.4)) return F("<", {F(std::to_string(r.below(20))), F(std::to_string(r.below(20)))});
      return F("=", {genBool(d - 1), genBool(d - 1)});
  }
}
std::string SessionGen::show(const F& f)
{
  if (!defsB.empty())
    for (auto& d : defsB)
      if (d.second == f && r.chance(0.6)) return d.first;
  if (f.a.empty()) return f.op;
  if (o.churn && r.chance(0.04))
  {
    std::string v = fresh("v");
    return "(eo::define ((" + v + " " + f.str() + ")) " + v + ")";
  }
  std::string s = "(" + f.op;
  for (auto& x : f.a) s += (r.chance(0.05) ? "\n " : " ") + show(x);
  return s + ")";
}
bool SessionGen::pickFact(const char* op, Fact* out)
{
  std::vector<size_t> c;
  for (size_t i = 0; i < facts.size(); i++)
    if (!op || facts[i].f.op == op) c.push_back(i);
  if (c.empty()) return false;
  // prefer recent facts
  size_t k = r.chance(0.5) ? c.size() - 1 - r.below(std::min<size_t>(c.size(), 3)) : r.below(c.size());
  *out = facts[c[k]];
  return true;
}
void SessionGen::emitStep(const std::string& rule, const F& concl, const std::vector<std::string>& prem0, const std::vector<std::string>& args0, bool pop, bool forceConcl)
{
  std::vector<std::string> prem = prem0, args = args0;
  F c = concl;
  std::string ru = rule;
  if (r.chance(o.wrong))
  {
    switch (r.below(6))
    {
      case 0: c = genBool(2); forceConcl = true; break;
      case 1: if (!prem.empty()) prem[r.below(prem.size())] = facts.empty() ? "nofact" : r.pick(facts).name; else c = genBool(2), forceConcl = true; break;
      case 2: if (!prem.empty()) prem.pop_back(); else prem.push_back(facts.empty() ? "nofact" : r.pick(facts).name); break;
      case 3: if (!args.empty()) args[r.below(args.size())] = genBool(1).str(); else args.push_back("p"); break;
      case 4: if (!args.empty()) args.pop_back(); else args.push_back("0"); break;
      default:
      {
        static const std::vector<std::string> rs = {"split", "refl", "symm", "mp", "contra", "scope", "and_intro", "trust", "nne"};
        ru = r.pick(rs);
        break;
      }
    }
    if (c.op == concl.op && c == concl && r.chance(0.3)) { c = F("not", {concl}); forceConcl = true; }
  }
  std::string n = fresh("@t");
  std::string t = std::string(pop ? "(step-pop " : "(step ") + n;
  if (forceConcl || r.chance(o.concl)) t += " " + show(c);
  t += " :rule " + ru;
  if (!prem.empty())
  {
    t += " :premises (";
    for (size_t i = 0; i < prem.size(); i++) t += (i ? " " : "") + prem[i];
    t += ")";
  }
  if (!args.empty())
  {
    t += " :args (";
    for (size_t i = 0; i < args.size(); i++) t += (i ? " " : "") + args[i];
    t += ")";
  }
  t += ")";
  if (pop)
  {
    Mark m = marks_.back();
    marks_.pop_back();
    facts.resize(m.facts);
    boolConsts.resize(m.bools);
    uConsts.resize(m.us);
    defsB.resize(m.defs);
    depth--;
  }
  add(pop ? K_APOP : K_STEP, t);
  facts.push_back({n, c, depth});
}

void SessionGen::stepOnce()
{
  Fact x, y;
  for (int tries = 0; tries < 20; tries++)
  {
    switch (r.below(24))
    {
      case 0: { F f = genBool(2); emitStep("split", F("or", {f, F("not", {f})}), {}, {show(f)}); return; }
      case 1: { F t = r.chance(0.5) ? genU(3) : genBool(2); emitStep("refl", F("=", {t, t}), {}, {show(t)}); return; }
      case 2: if (pickFact("=", &x)) { emitStep("symm", F("=", {x.f.a[1], x.f.a[0]}), {x.name}, {}); return; } break;
      case 3:
        if (pickFact("=", &x))
        {
          for (auto& z : facts)
            if (z.f.op == "=" && z.f.a[0] == x.f.a[1] && !(z.f == x.f))
            {
              Fact zz = z;
              emitStep("trans", F("=", {x.f.a[0], zz.f.a[1]}), {x.name, zz.name}, {});
              return;
            }
        }
        break;
      case 4:
        if (pickFact("=", &x))
        {
          const std::string& h = x.f.a[0].op;
          bool u = h == "f" || h == "g" || std::find(uConsts.begin(), uConsts.end(), h) != uConsts.end();
          if (!u) break;
          bool part = r.chance(0.3);
          F c1 = F("f", {x.f.a[0]}), c2 = F("f", {x.f.a[1]});
          if (part)
          {
            F k = genU(1);
            c1 = F("g", {k, x.f.a[0]});
            c2 = F("g", {k, x.f.a[1]});
            emitStep("cong", F("=", {c1, c2}), {x.name}, {"(g " + show(k) + ")"});
          }
          else emitStep("cong", F("=", {c1, c2}), {x.name}, {"f"});
          return;
        }
        break;
      case 5: case 6:
        if (facts.size() >= 1)
        {
          F c("and");
          std::vector<std::string> p;
          for (int n = r.range(1, 4); n-- > 0;) { pickFact(nullptr, &x); c.a.push_back(x.f); p.push_back(x.name); }
          if (c.str().size() > 1500) break;
          emitStep("and_intro", c, p, {});
          return;
        }
        break;
      case 7: case 8:
        if (pickFact("and", &x) && !x.f.a.empty())
        {
          size_t i = r.below(x.f.a.size());
          emitStep("and_elim", x.f.a[i], {x.name}, {std::to_string(i)});
          return;
        }
        break;
      case 9: case 10:
        if (pickFact("=>", &x))
        {
          for (auto& z : facts)
            if (z.f == x.f.a[0]) { Fact zz = z; emitStep("mp", x.f.a[1], {zz.name, x.name}, {}); return; }
          if (allowAssume && r.chance(0.7))
          {
            std::string n = fresh("@a");
            add(K_ASSUME, "(assume " + n + " " + show(x.f.a[0]) + ")");
            assertions.push_back(x.f.a[0]);
            facts.push_back({n, x.f.a[0], depth});
            emitStep("mp", x.f.a[1], {n, x.name}, {});
            return;
          }
        }
        break;
      case 11:
        if (pickFact("not", &x))
          for (auto& z : facts)
            if (z.f == x.f.a[0]) { Fact zz = z; emitStep("contra", F("false"), {zz.name, x.name}, {}); return; }
        break;
      case 12:
        if (pickFact("not", &x) && x.f.a[0].op == "not") { emitStep("nne", x.f.a[0].a[0], {x.name}, {}); return; }
        break;
      case 13:
        for (auto& z : facts)
          if (z.f.op == "=")
            for (auto& k : facts)
              if (k.f == z.f.a[0]) { Fact z2 = z, k2 = k; emitStep("eq_resolve", z2.f.a[1], {k2.name, z2.name}, {}); return; }
        break;
      case 14: if (pickFact(nullptr, &x) && x.f.str().size() < 800) { F g = genBool(1); emitStep("or_intro", F("or", {x.f, g}), {x.name}, {show(g)}); return; } break;
      case 15:
        if (o.sorry && r.chance(0.3)) { F f = genBool(2); usedSorry = true; emitStep("trust", f, {}, {show(f)}); return; }
        break;
      case 16:
        if (o.arith)
        {
          uint64_t m = r.below(r.chance(0.2) ? 1000000000000ull : 50), n = r.below(50);
          F c("=", {F("+", {F(std::to_string(m)), F(std::to_string(n))}), F(std::to_string(m + n))});
          emitStep("sum", c, {}, {std::to_string(m), std::to_string(n)});
          return;
        }
        break;
      case 17:
        if (o.arith)
        {
          uint64_t m = r.below(50), n = m + 1 + r.below(30);
          emitStep("less", F("<", {F(std::to_string(m)), F(std::to_string(n))}), {}, {std::to_string(m), std::to_string(n)});
          return;
        }
        break;
      case 18:
      {
        F l("or");
        for (int n = r.range(2, 4); n-- > 0;) l.a.push_back(genBool(1));
        F e = r.pick(l.a);
        emitStep("member", F("=>", {e, l}), {}, {show(l), show(e)});
        return;
      }
      case 19: case 20: { F f = genBool(3); emitStep("negate", F("=", {F("not", {f}), negF(f)}), {}, {show(f)}); return; }
      case 21:
      {
        F t = genU(4);
        std::function<int(const F&)> dp = [&](const F& q) -> int { return q.op == "f" ? 1 + dp(q.a[0]) : q.op == "g" ? dp(q.a[0]) + dp(q.a[1]) : 0; };
        F n(std::to_string(dp(t)));
        emitStep("depth_is", F("=", {F("+", {F("0"), n}), n}), {}, {show(t)});
        return;
      }
      case 22: if (pickFact(nullptr, &x)) { emitStep("exact", x.f, {x.name}, {}, false, true); return; } break;
      default:
        if (allowAssume)
        {
          F f = genBool(3);
          std::string n = fresh("@a");
          add(K_ASSUME, "(assume " + n + " " + show(f) + ")");
          assertions.push_back(f);
          facts.push_back({n, f, depth});
          return;
        }
    }
  }
}

void SessionGen::closeScopes()
{
  while (!marks_.empty())
  {
    Mark m = marks_.back();
    if (m.apush)
    {
      Fact x = facts.back();
      if (!r.chance(0.6)) pickFact(nullptr, &x);
      emitStep("scope", F("=>", {m.asm_, x.f}), {x.name}, {}, true);
    }
    else
    {
      marks_.pop_back();
      facts.resize(m.facts);
      boolConsts.resize(m.bools);
      uConsts.resize(m.us);
      defsB.resize(m.defs);
      add(K_POP, "(pop 1)");
    }
  }
}

void SessionGen::body(int n)
{
  for (int i = 0; i < n; i++)
  {
    double u = static_cast<double>(r.below(1000)) / 1000;
    if (o.scopes && u < 0.09 && marks_.size() < 5)
    {
      F f = genBool(2);
      std::string nm = fresh("@h");
      Mark m{facts.size(), boolConsts.size(), uConsts.size(), defsB.size(), true, f, nm};
      std::string t = "(assume-push " + nm + " " + show(f) + ")";
      marks_.push_back(m);
      depth++;
      add(K_APUSH, t);
      facts.push_back({nm, f, depth});
    }
    else if (o.scopes && u < 0.17 && !marks_.empty() && marks_.back().apush)
    {
      Mark m = marks_.back();
      Fact x = facts.back();
      if (r.chance(0.4)) pickFact(nullptr, &x);
      emitStep("scope", F("=>", {m.asm_, x.f}), {x.name}, {}, true);
    }
    else if (o.pushpop && u < 0.21 && marks_.size() < 5)
    {
      marks_.push_back(Mark{facts.size(), boolConsts.size(), uConsts.size(), defsB.size(), false, F(), ""});
      add(K_PUSH, r.chance(0.7) ? "(push 1)" : "(push)");
      if (cmds.back().text == "(push)") cmds.back().text = "(push 1)";
    }
    else if (o.pushpop && u < 0.25 && !marks_.empty() && !marks_.back().apush)
    {
      Mark m = marks_.back();
      marks_.pop_back();
      facts.resize(m.facts);
      boolConsts.resize(m.bools);
      uConsts.resize(m.us);
      defsB.resize(m.defs);
      add(K_POP, "(pop 1)");
    }
    else if (o.echo && u < 0.33) add(K_ECHO, "(echo \"" + fresh("e") + "\")");
    else if (o.localDecl && u < 0.38)
    {
      std::string nm = r.chance(0.2) ? "|" + fresh("q ") + "|" : fresh("k");
      if (r.chance(0.7)) { add(K_DECL, "(declare-const " + nm + " Bool)"); boolConsts.push_back(nm); }
      else { add(K_DECL, "(declare-const " + nm + " U)"); uConsts.push_back(nm); }
    }
    else if (o.defs && u < 0.44)
    {
      std::string nm = fresh("d");
      F f = genBool(2);
      add(K_DEFINE, "(define " + nm + " () " + show(f) + (r.chance(0.2) ? " :type Bool" : "") + ")");
      defsB.push_back({nm, f});
    }
    else stepOnce();
  }
}

std::string joinCmds(const std::vector<Cmd>& c)
{
  std::string s;
  for (auto& x : c) s += x.text + "\n";
  return s;
}
void setStdin(World& w, const std::string& s)
{
  w.input.clear();
  w.input.push_back(Msg{s, ""});
}
std::string stdinText(const World& w)
{
  std::string s;
  for (auto& m : w.input) s += m.data;
  return s;
}

World sessionWorld(Rng& r, SessionGen& g, int place, bool splitSig)
{
  World w;
  w.files = g.files;
  // signature, possibly split over included files in a subdirectory
  std::string sig;
  if (!splitSig || r.chance(0.4))
    for (auto& s : g.sig) sig += s + "\n";
  else
  {
    size_t n = g.sig.size(), k = static_cast<size_t>(r.range(2, 4)), pos = 0;
    for (size_t i = 0; i < k; i++)
    {
      size_t e = i + 1 == k ? n : std::min(n, pos + 1 + r.below(2 * n / k));
      std::string part;
      for (; pos < e; pos++) part += g.sig[pos] + "\n";
      std::string name = "lib/part" + std::to_string(i) + ".eo";
      w.files["/w/" + name] = part;
      sig += "(include \"" + (r.chance(0.3) ? "./" : std::string()) + name + "\")\n";
    }
  }
  w.files["/w/sig.eo"] = sig;
  std::string proof = "(include \"sig.eo\")\n" + joinCmds(g.cmds);
  if (place == P_STDIN) setStdin(w, proof);
  else
  {
    std::string n = place == P_FILE_EO ? "main.eo" : "main.proof";
    w.files["/w/" + n] = proof;
    w.argv.push_back(n);
  }
  return w;
}

// the corpus files that are not included by another one come first
const std::vector<std::string>& corpusRoots()
{
  static std::vector<std::string> v;
  if (v.empty())
    for (auto& e : g_corpus)
      if (e.name.size() > 3 && e.name.substr(e.name.size() - 3) == ".eo") v.push_back(e.name);
  return v;
}
World corpusWorld(Rng& r) { return rootWorld(r.pick(corpusRoots())); }
World rootWorld(const std::string& root)
{
  World w;
  // the file and what it (transitively) includes
  std::vector<std::string> todo = {root};
  std::map<std::string, const std::string*> by;
  for (auto& e : g_corpus) by[e.name] = &e.data;
  while (!todo.empty())
  {
    std::string n = todo.back();
    todo.pop_back();
    std::string abs = "/w/" + n;
    if (w.files.count(abs) || !by.count(n)) continue;
    w.files[abs] = *by[n];
    const std::string& t = *by[n];
    for (const char* kw : {"(include \"", "(reference \""})
    {
      size_t p = 0;
      while ((p = t.find(kw, p)) != std::string::npos)
      {
        p += std::string(kw).size();
        size_t e = t.find('"', p);
        if (e == std::string::npos) break;
        std::string inc = t.substr(p, e - p);
        while (inc.compare(0, 2, "./") == 0) inc = inc.substr(2);
        size_t sl = n.rfind('/');
        std::string full = sl == std::string::npos ? inc : n.substr(0, sl + 1) + inc;
        // collapse ../
        size_t d;
        while ((d = full.find("/../")) != std::string::npos)
        {
          size_t b = d == 0 ? 0 : full.rfind('/', d - 1);
          full = full.substr(0, b == std::string::npos ? 0 : b + 1) + full.substr(d + 4);
        }
        todo.push_back(full);
      }
    }
  }
  w.argv.push_back(root);
  return w;
}
World anyWorkload(Rng& r, double corpus)
{
  if (!g_corpus.empty() && r.chance(corpus)) return corpusWorld(r);
  if (r.chance(0.15)) return evalWorkload(r);
  SessOpts o;
  o.len = r.range(3, 40);
  o.scopes = r.chance(0.7);
  o.pushpop = r.chance(0.5);
  o.echo = r.chance(0.8);
  o.sorry = r.chance(0.4);
  o.arith = r.chance(0.8);
  o.wrong = r.chance(0.25) ? 0.05 : 0;
  SessionGen g(r, o);
  g.makeSignature();
  g.body(o.len);
  if (!r.chance(0.05)) g.closeScopes();
  int pl = r.chance(0.5) ? P_STDIN : r.chance(0.5) ? P_FILE_EO : P_FILE_OTHER;
  World w = sessionWorld(r, g, pl);
  if (r.chance(0.1)) w.argv.insert(w.argv.begin(), "--stats");
  return w;
}
AllocPolicy randAlloc(Rng& r)
{
  AllocPolicy p;
  p.order = static_cast<int>(r.below(3));
  p.reuse = static_cast<int>(r.below(4));
  static const std::vector<int> fn = {0, 0xff, 0xa5, 256, 1};
  p.fillNew = r.pick(fn);
  static const std::vector<int> ff = {-1, 0, 0xff, 0xdd};
  p.fillFree = r.pick(ff);
  p.seed = r.next() >> 8;
  return p;
}
Chunk randChunk(Rng& r)
{
  Chunk c;
  c.mode = static_cast<int>(r.below(5));
  static const std::vector<uint64_t> fx = {2, 3, 7, 64, 511, 1023, 4095, 8191};
  static const std::vector<uint64_t> ed = {1024, 4096, 8191, 8192, 16384, 32768};
  if (c.mode == CH_FIXED) c.param = r.pick(fx);
  if (c.mode == CH_EDGE) c.param = r.pick(ed);
  return c;
}

// Commands that no session built above may accept.
std::string badCommand(Rng& r, SessionGen& g, std::string* kind)
{
  std::string fact = g.facts.empty() ? "" : r.pick(g.facts).name;
  std::string anyF = g.genBool(1).str();
  std::vector<std::pair<std::string, std::string>> v = {
      {"undeclared", "(assume " + g.fresh("@a") + " (not undeclared-symbol))"},
      {"undeclared-define", "(define " + g.fresh("d") + " () (f nosuch))"},
      {"type-arg", "(define " + g.fresh("d") + " () (not a) :type Bool)"},
      {"type-annot", "(define " + g.fresh("d") + " () (f a) :type Bool)"},
      {"assume-nonbool", "(assume " + g.fresh("@a") + " a)"},
      {"bad-command", "(frobnicate p)"},
      {"bad-command-noise", "(assum " + g.fresh("@a") + " p)"},
      {"close-paren", ")"},
      {"bare-symbol", "p"},
      {"no-rule", "(step " + g.fresh("@t") + " p :rule nosuchrule)"},
      {"no-premise", "(step " + g.fresh("@t") + " p :rule nne :premises (nosuchfact))"},
      {"premise-missing", "(step " + g.fresh("@t") + " p :rule mp)"},
      {"premise-no-proof", "(step " + g.fresh("@t") + " p :rule nne :premises (p))"},
      {"wrong-conclusion", "(step " + g.fresh("@t") + " (not (not p)) :rule split :args (" + anyF + "))"},
      {"requires-fails", "(step " + g.fresh("@t") + " (< 5 3) :rule less :args (5 3))"},
      {"requires-fails2", "(step " + g.fresh("@t") + " :rule member :args ((or p q) (and p q)))"},
      {"arg-missing", "(step " + g.fresh("@t") + " :rule split)"},
      {"arg-extra", "(step " + g.fresh("@t") + " :rule split :args (p q))"},
      {"arg-type", "(step " + g.fresh("@t") + " :rule split :args (a))"},
      {"assumption-rule-in-step", "(step " + g.fresh("@t") + " :rule scope" + (fact.empty() ? "" : " :premises (" + fact + ")") + ")"},
      {"rule-twice", "(declare-rule split ((F Bool)) :args (F) :conclusion F)"},
      {"sort-misuse", "(declare-const " + g.fresh("k") + " (f a))"},
      {"fun-no-args", "(declare-const " + g.fresh("k") + " (->))"},
      {"echo-bad", "(echo p)"},
      {"pop-bad", "(pop 999)"},
      {"pop-nonnum", "(pop p)"},
      {"assume-no-name", "(assume (not p) q)"},
      {"unclosed", "(assume " + g.fresh("@a") + " (and p q)"},
      {"extra-close", "(assume " + g.fresh("@a") + " (and p q)))"},
      {"bad-char", "(assume " + g.fresh("@a") + " {p})"},
      {"arity", "(assume " + g.fresh("@a") + " (not p q))"},
      {"lit-type", "(assume " + g.fresh("@a") + " (< 1 p))"},
      {"no-litrule", "(assume " + g.fresh("@a") + " (= a 1/0))"},
      {"unbound-rhs", "(program " + g.fresh("P") + " ((x Bool) (y Bool)) :signature (Bool) Bool (((neg x) y)))"},
  };
  std::string N = g.fresh("N"), A = "(assume " + g.fresh("@a") + " ";
  auto bad = [&](const char* k, const std::string& t) { v.push_back({k, t}); };
  // programs
  bad("program-again", "(program neg ((x Bool)) :signature (Bool) Bool (((neg x) x)))");
  bad("program-again2", "(program depth ((x U)) :signature (U) Int (((depth x) 0)))");
  bad("program-of-const", "(program p ((x Bool)) :signature (Bool) Bool (((p x) x)))");
  bad("program-other-case", "(program " + N + " ((x Bool)) :signature (Bool) Bool (((not x) x)))");
  bad("program-other-program", "(program " + N + " ((x Bool)) :signature (Bool) Bool (((neg x) x)))");
  bad("program-second-case", "(program " + N + " ((x Bool)) :signature (Bool) Bool (((" + N + " (not x)) x) ((neg x) x)))");
  bad("program-case-arity", "(program " + N + " ((x Bool)) :signature (Bool) Bool (((" + N + " x x) x)))");
  bad("program-case-arity2", "(program " + N + " ((x Bool)) :signature (Bool Bool) Bool (((" + N + " x) x)))");
  bad("program-no-cases", "(program " + N + " ((x Bool)) :signature (Bool) Bool ())");
  bad("program-no-args", "(program " + N + " ((x Bool)) :signature () Bool (((" + N + ") true)))");
  bad("program-no-signature", "(program " + N + " ((x Bool)) (Bool) Bool (((" + N + " x) x)))");
  bad("program-evaluation-pattern", "(program " + N + " ((x Int)) :signature (Int) Int (((" + N + " (eo::add x 1)) x)))");
  bad("program-call-pattern", "(program " + N + " ((x Bool)) :signature (Bool) Bool (((" + N + " (neg x)) x)))");
  bad("program-forward-differs", "(program " + N + " ((x Bool)) :signature (Bool) Bool)\n(program " + N + " ((x Bool)) :signature (Bool Bool) Bool (((" + N + " x x) x)))");
  bad("program-case-triple", "(program " + N + " ((x Bool)) :signature (Bool) Bool (((" + N + " x) x x)))");
  bad("program-param-type", "(program " + N + " ((x p)) :signature (Bool) Bool (((" + N + " x) x)))");
  bad("program-signature-type", "(program " + N + " ((x Bool)) :signature (p) Bool (((" + N + " x) x)))");
  bad("program-return-type", "(program " + N + " ((x Bool)) :signature (Bool) not (((" + N + " x) x)))");
  bad("program-unbound-later", "(program " + N + " ((x Bool) (y Bool)) :signature (Bool) Bool (((" + N + " true) true) ((" + N + " (not x)) y)))");
  // definitions and declarations
  bad("define-no-params", "(define " + N + " p)");
  bad("define-param-type", "(define " + N + " ((x p)) x)");
  bad("define-attribute", "(define " + N + " () p :right-assoc)");
  bad("define-twice", "(define " + N + " () p q)");
  bad("define-type-missing", "(define " + N + " () p :type)");
  bad("define-type-value", "(define " + N + " () p :type p)");
  bad("define-type-fun", "(define " + N + " ((x U)) (f x) :type U)");
  bad("define-implicit-used", "(define " + N + " ((T Type :implicit) (x T)) T)");
  bad("declare-value-type", "(declare-const " + N + " p)");
  bad("declare-no-type", "(declare-const " + N + ")");
  bad("declare-attribute", "(declare-const " + N + " (-> Bool Bool Bool) :implicit)");
  bad("declare-attribute-value", "(declare-const " + N + " (-> Bool Bool Bool) :right-assoc-nil)");
  bad("declare-attribute-unknown-value", "(declare-const " + N + " (-> Bool Bool Bool) :chainable nosuchop)");
  bad("declare-nonsymbol", "(declare-const 5 Bool)");
  bad("declare-nonsymbol2", "(declare-const (f) Bool)");
  bad("declare-string", "(declare-const \"k\" Bool)");
  bad("declare-sort-negative", "(declare-sort " + N + " -1)");
  bad("declare-sort-large", "(declare-sort " + N + " 4294967297)");
  bad("declare-sort-none", "(declare-sort " + N + ")");
  bad("declare-sort-zeroes", "(declare-sort " + N + " 00)");
  bad("declare-consts-kind", "(declare-consts <nosuch> Int)");
  bad("declare-consts-value", "(declare-consts <string> p)");
  bad("declare-consts-again", "(declare-consts <numeral> U)");
  bad("datatypes-none", "(declare-datatypes () ())");
  bad("datatypes-few", "(declare-datatypes ((" + N + " 0)) ())");
  bad("datatypes-few2", "(declare-datatypes ((" + N + " 0) (" + N + "b 0)) (((" + N + "c))))");
  bad("datatypes-many", "(declare-datatypes ((" + N + " 0)) (((" + N + "c)) ((" + N + "d))))");
  bad("datatypes-params", "(declare-datatypes ((" + N + " 1)) (((" + N + "c))))");
  bad("datatype-sort", "(declare-datatype " + N + " ((" + N + "c (" + N + "s nosuchsort))))");
  bad("datatype-value", "(declare-datatype " + N + " ((" + N + "c (" + N + "s p))))");
  bad("datatype-body", "(declare-datatype " + N + " p)");
  // steps
  bad("step-on-const", "(step " + g.fresh("@t") + " p :rule p)");
  bad("step-on-program", "(step " + g.fresh("@t") + " :rule neg :args (p))");
  bad("step-no-rule", "(step " + g.fresh("@t") + " p)");
  bad("step-rule-late", "(step " + g.fresh("@t") + " :args (p) :rule split)");
  bad("step-order", "(step " + g.fresh("@t") + " :rule split :args (p) :premises ())");
  bad("step-keyword", "(step " + g.fresh("@t") + " :rule split :arg (p))");
  bad("step-two-rules", "(step " + g.fresh("@t") + " :rule split :rule split :args (p))");
  bad("step-args-bare", "(step " + g.fresh("@t") + " :rule split :args p)");
  bad("step-wrong-type", "(step " + g.fresh("@t") + " a :rule split :args (p))");
  bad("step-nonbool-args", "(step " + g.fresh("@t") + " :rule trust :args (a))");
  bad("step-nonbool-args2", "(step " + g.fresh("@t") + " :rule trust :args (5))");
  bad("step-nonbool-args3", "(step " + g.fresh("@t") + " :rule trust :args (not))");
  bad("step-requires-fails", "(step " + g.fresh("@t") + " :rule less :args (3 3))");
  bad("step-requires-stuck", "(step " + g.fresh("@t") + " :rule less :args (a b))");
  bad("step-arg-stuck", "(step " + g.fresh("@t") + " :rule split :args ((eo::add 1 p)))");
  bad("step-arg-rule", "(step " + g.fresh("@t") + " :rule refl :args (split))");
  bad("step-unknown-name", "(step " + g.fresh("@t") + " :rule split :args (nosuchterm))");
  bad("step-no-name", "(step :rule split :args (p))");
  bad("step-string-name", "(step \"t\" :rule split :args (p))");
  bad("step-conclusion-other-type", "(step " + g.fresh("@t") + " (= a a) :rule refl :args (p))");
  bad("step-conclusion-stronger", "(step " + g.fresh("@t") + " (and p q) :rule refl :args (p))");
  bad("step-conclusion-flipped", "(step " + g.fresh("@t") + " (or (not p) p) :rule split :args (p))");
  bad("explicit-missing", "(step " + g.fresh("@t") + " :rule exact :premises (" + fact + "))");
  // terms
  bad("term-nonfunction", A + "(p q))");
  bad("term-empty", A + "())");
  bad("term-op", A + "and)");
  bad("term-fun", A + "not)");
  bad("term-rule", A + "split)");
  bad("term-program", A + "neg)");
  bad("term-type", A + "Bool)");
  bad("term-int", A + "5)");
  bad("term-string", A + "\"p\")");
  bad("term-eval-int", A + "(eo::add 1 2))");
  bad("term-eval-type", A + "(eo::typeof p))");
  bad("term-unify", A + "(= a p))");
  bad("term-unify2", A + "(= (= a b) a))");
  bad("term-nary-type", A + "(or p a))");
  bad("term-nary-type2", A + "(and p q r a))");
  bad("term-chain-type", A + "(< 1 2 p))");
  bad("term-left-type", A + "(xor p q a))");
  bad("term-deep", A + "(not (or p (and q (not a)))))");
  bad("term-define-body", A + "(eo::define ((x)) x))");
  bad("term-define-scope", A + "(and (eo::define ((zz p)) zz) zz))");
  bad("term-quoted-unclosed", A + "|p)");
  bad("term-two", A + "p q)");
  bad("term-none", "(assume " + g.fresh("@a") + ")");
  bad("term-eo", A + "(eo::nosuchop p))");
  bad("term-list-type", A + "eo::List)");
  // lexical
  bad("lex-binary", "(define " + N + " () #b012)");
  bad("lex-binary-empty", "(define " + N + " () #b)");
  bad("lex-hex", "(define " + N + " () #xag)");
  bad("lex-hash", "(define " + N + " () #c)");
  bad("lex-decimal", "(define " + N + " () 1.)");
  bad("lex-rational", "(define " + N + " () 1/0)");
  bad("lex-string", "(echo \"abc)");
  bad("lex-colon", "(define " + N + " () :)");
  bad("lex-char", "(define " + N + " () p;\n`p)");
  bad("command-keyword", "(:assume p)");
  bad("command-string", "(\"echo\" \"x\")");
  bad("command-quoted-symbol", "(|echo| \"x\")");
  bad("command-nested", "((echo \"x\"))");
  bad("command-case", "(Assume " + g.fresh("@a") + " p)");
  bad("command-smt", "(assert p)");
  bad("command-smt2", "(check-sat)");
  bad("command-smt3", "(define-fun " + N + " () Bool p)");
  bad("echo-two", "(echo \"a\" \"b\")");
  bad("echo-number", "(echo 5)");
  bad("exit-argument", "(exit p)");
  bad("reset-argument", "(reset p)");
  bad("option-none", "(set-option :normalize-decimal)");
  bad("option-paren", "(set-option :nosuchoption )()");
  bad("option-key", "(set-option nosuchoption true)");
  bad("push-negative", "(push -1)");
  bad("push-large", "(push 4294967296)");
  bad("push-symbol", "(push p)");
  bad("push-zeroes", "(push 01)");
  bad("pop-negative", "(pop -1)");
  bad("include-symbol", "(include sig.eo)");
  bad("include-none", "(include)");
  bad("reference-missing", "(reference \"nosuch.smt2\")");
  if (!g.marks_.empty() && g.marks_.back().apush)
  {
    bad("pop-of-assumption", "(pop 1)");
    bad("step-pop-no-premise", "(step-pop " + g.fresh("@t") + " :rule scope)");
    bad("step-pop-unknown", "(step-pop " + g.fresh("@t") + " :rule scope :premises (nosuchfact))");
  }
  if (!g.marks_.empty() && !g.marks_.back().apush && g.depth > 0) bad("step-pop-over-push", "(step-pop " + g.fresh("@t") + " :rule scope :premises (" + fact + "))");
  if (g.marks_.empty()) bad("pop-none", "(pop)");
  if (g.depth == 0 && g.marks_.empty())
  {
    bad("rule-free", "(declare-rule " + N + " ((F Bool) (G Bool)) :args (F) :conclusion G)");
    bad("rule-free-requires", "(declare-rule " + N + " ((F Bool) (G Bool)) :args (F) :requires ((G true)) :conclusion F)");
    bad("rule-no-conclusion", "(declare-rule " + N + " ((F Bool)) :args (F))");
    bad("rule-eval-arg", "(declare-rule " + N + " ((m Int)) :args ((eo::add m 1)) :conclusion true)");
    bad("rule-eval-premise", "(declare-rule " + N + " ((F Bool)) :premises ((neg F)) :conclusion F)");
    bad("rule-nullary-open", "(declare-rule " + N + " ((F Bool)) :conclusion F)");
    bad("rule-order", "(declare-rule " + N + " ((F Bool)) :args (F) :premises (F) :conclusion F)");
    bad("rule-attribute", "(declare-rule " + N + " ((F Bool)) :args (F) :conclusion F :chainable and)");
    bad("rule-param-type", "(declare-rule " + N + " ((F p)) :args (F) :conclusion true)");
    bad("rule-nonbool", "(declare-rule " + N + " ((x U)) :args (x) :conclusion x)\n(step " + g.fresh("@t") + " :rule " + N + " :args (a))");
    bad("rule-nonbool2", "(declare-rule " + N + " ((T Type)) :args (T) :conclusion T)\n(step " + g.fresh("@t") + " :rule " + N + " :args (Int))");
    bad("include-extra", "(include \"sig.eo\" p)");
    bad("include-extra2", "(include \"sig.eo\" \"sig.eo\")");
    bad("rule-again", "(declare-rule scope ((A Bool) (F Bool)) :assumption A :premises (F) :conclusion F)");
  }
  if (g.depth == 0)
  {
    v.push_back({"include-missing", "(include \"no-such-file.eo\")"});
    v.push_back({"include-dir", "(include \".\")"});
    v.push_back({"step-pop-no-scope", "(step-pop " + g.fresh("@t") + " :rule scope" + (fact.empty() ? "" : " :premises (" + fact + ")") + ")"});
  }
  else
  {
    v.push_back({"include-in-scope", "(include \"sig.eo\")"});
    v.push_back({"step-pop-wrong-rule", "(step-pop " + g.fresh("@t") + " :rule split :args (p))"});
    v.push_back({"step-pop-wrong-concl", "(step-pop " + g.fresh("@t") + " (=> p (=> p (=> p p))) :rule scope :premises (" + fact + "))"});
    v.push_back({"rule-in-scope", "(declare-rule " + g.fresh("R") + " ((F Bool)) :args (F) :conclusion F)"});
  }
  if (!fact.empty())
  {
    v.push_back({"use-fact-as-term", "(define " + g.fresh("d") + " () (not " + fact + ") :type Bool)"});
    v.push_back({"nne-mismatch", "(step " + g.fresh("@t") + " :rule nne :premises (" + fact + " " + fact + "))"});
    v.push_back({"exact-differs", "(step " + g.fresh("@t") + " (and nothing-here) :rule exact :premises (" + fact + "))"});
    v.push_back({"exact-differs2", "(step " + g.fresh("@t") + " (xor p (xor q (xor p q))) :rule exact :premises (" + fact + "))"});
  }
  auto& x = r.pick(v);
  if (kind) *kind = x.first;
  return x.second;
}

}  // namespace sim
