// C16: identity, hashes and order of terms while terms are made and dropped.
#include <algorithm>
#include "gen.h"
#include "props.h"

namespace sim {

// another way to write the same term
static std::string respell(Rng& r, const F& f, int& cnt)
{
  if (r.chance(0.03))
  {
    std::string v = "vv" + std::to_string(++cnt);
    return "(eo::define ((" + v + " " + respell(r, f, cnt) + ")) " + v + ")";
  }
  if (f.a.empty())
  {
    if (isdigit(static_cast<unsigned char>(f.op[0])) && r.chance(0.2)) return "(eo::add " + f.op + " 0)";
    return f.op;
  }
  bool nary = f.op == "and" || f.op == "or" || f.op == "+";
  bool curried = f.op == "g" || f.op == "=>" || nary;
  if (curried && r.chance(0.25))
  {
    std::string nil = f.op == "and" ? "true" : f.op == "or" ? "false" : "0";
    if (nary)
    {
      std::string o = nil;
      if (r.chance(0.4))
      {
        for (size_t i = f.a.size(); i-- > 0;) o = "(eo::cons " + f.op + " " + respell(r, f.a[i], cnt) + " " + o + ")";
        return o;
      }
      if (r.chance(0.3) && f.a.size() >= 2)
      {
        // through its reverse
        std::string s = "(eo::list_rev " + f.op + " (" + f.op;
        for (size_t i = f.a.size(); i-- > 0;) s += " " + respell(r, f.a[i], cnt);
        return s + "))";
      }
      for (size_t i = f.a.size(); i-- > 0;) o = "(_ (_ " + f.op + " " + respell(r, f.a[i], cnt) + ") " + o + ")";
      return o;
    }
    return "(_ (_ " + f.op + " " + respell(r, f.a[0], cnt) + ") " + respell(r, f.a[1], cnt) + ")";
  }
  if (f.op == "not" && r.chance(0.1)) return "(neg (neg_of " + respell(r, f.a[0], cnt) + "))";
  if (r.chance(0.06)) return "(eo::ite (eo::is_eq p q) a (" + f.op + [&] { std::string s; for (auto& x : f.a) s += " " + respell(r, x, cnt); return s; }() + "))";
  if (r.chance(0.05)) return "(ident (" + f.op + [&] { std::string s; for (auto& x : f.a) s += " " + respell(r, x, cnt); return s; }() + "))";
  std::string s = "(" + f.op;
  for (auto& x : f.a) s += (r.chance(0.05) ? "\n  " : " ") + respell(r, x, cnt);
  return s + ")";
}

Case genC16(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  SessOpts o;
  o.len = 1;
  o.echo = r.chance(0.3);
  SessionGen g(r, o);
  g.makeSignature();
  g.sig.push_back("(program ident ((T Type) (t T)) :signature (T) T (((ident t) t)))");
  g.sig.push_back("(program same ((T Type) (t T) (S Type) (u S)) :signature (T S) Bool (((same t t) true) ((same t u) false)))");
  g.sig.push_back("(declare-rule id_same ((T Type) (t T) (u T)) :args (t u) :requires (((eo::is_eq t u) true) ((same t u) true)) :conclusion true)");
  g.sig.push_back("(declare-rule id_diff ((T Type) (S Type) (t T) (u S)) :args (t u) :requires (((eo::is_eq t u) false) ((same t u) false)) :conclusion true)");
  g.sig.push_back("(declare-rule hash_is ((T Type) (t T) (h Int)) :args (t h) :requires (((eo::hash t) h)) :conclusion true)");
  g.sig.push_back("(declare-rule hash_not ((T Type) (t T) (h Int)) :args (t h) :requires (((eo::is_eq (eo::hash t) h) false)) :conclusion true)");
  g.sig.push_back("(declare-rule cmp_is ((T Type) (S Type) (t T) (u S) (b Bool)) :args (t u b) :requires (((eo::cmp t u) b)) :conclusion true)");
  g.sig.push_back("(declare-rule cmp_anti ((T Type) (S Type) (t T) (u S)) :args (t u) :requires (((eo::xor (eo::cmp t u) (eo::cmp u t)) true)) :conclusion true)");
  g.sig.push_back("(declare-rule cmp_irr ((T Type) (t T)) :args (t) :requires (((eo::cmp t t) false)) :conclusion true)");
  g.sig.push_back("(declare-rule cmp_trans ((T Type) (S Type) (R Type) (t T) (u S) (v R)) :args (t u v) :requires (((eo::or (eo::not (eo::and (eo::cmp t u) (eo::cmp u v))) (eo::cmp t v)) true)) :conclusion true)");
  g.sig.push_back("(declare-rule numbers ((m Int) (n Int)) :args (m n) :requires (((eo::is_eq m n) false) ((eo::is_eq (eo::hash m) (eo::hash n)) false)) :conclusion true)");
  // `neg` of neg_of(x) is (not x)
  for (auto& s : g.sig)
    if (s.compare(0, 12, "(program neg") == 0)
    {
      s = "(declare-const neg_of (-> Bool Bool))\n" + s;
      size_t k = s.find("((neg (not x)) x)");
      s.insert(k, "((neg (neg_of x)) (not x)) ");
    }
  // terms over the constants of the signature only, which never go out of scope
  std::vector<std::string> b0 = g.boolConsts, u0 = g.uConsts;
  auto term = [&]() {
    auto b1 = g.boolConsts, u1 = g.uConsts;
    g.boolConsts = b0;
    g.uConsts = u0;
    F f;
    switch (r.below(8))
    {
      case 0: f = F(std::to_string(r.chance(0.5) ? r.below(30) : r.next() >> r.below(40))); break;
      case 1: f = F("+", {F(std::to_string(r.below(9))), F(std::to_string(r.below(9)))}); break;
      case 2: case 3: case 4: f = g.genU(r.range(0, 4)); break;
      default: f = g.genBool(r.range(0, 3));
    }
    g.boolConsts = b1;
    g.uConsts = u1;
    return f;
  };
  std::vector<F> pool;
  for (int i = r.range(3, 10); i > 0; i--)
  {
    F f = term();
    if (std::find(pool.begin(), pool.end(), f) == pool.end()) pool.push_back(f);
  }
  // subterms of others
  for (size_t i = 0, n = pool.size(); i < n; i++)
    for (size_t k = 0; k < pool[i].a.size(); k++)
    {
      F f = pool[i].a[k];
      if (r.chance(0.3) && std::find(pool.begin(), pool.end(), f) == pool.end()) pool.push_back(f);
    }
  struct Rec { std::string name; size_t t, u; bool cmp; size_t depth; };
  std::vector<Rec> recs;
  size_t seen = 0, depth = 0;
  int cnt = 0;
  auto sync = [&] {
    for (; seen < g.cmds.size(); seen++)
    {
      int k = g.cmds[seen].kind;
      if (k == K_PUSH || k == K_APUSH) depth++;
      if ((k == K_POP || k == K_APOP || (k == K_STEP && g.cmds[seen].text.compare(0, 10, "(step-pop ") == 0)) && depth > 0)
      {
        depth--;
        while (!recs.empty() && recs.back().depth > depth) recs.pop_back();
      }
    }
  };
  auto check = [&](const std::string& rule, const std::string& args) { g.add(K_STEP, "(step " + g.fresh("@i") + " :rule " + rule + " :args (" + args + "))"); };
  auto sp = [&](size_t i) { return respell(r, pool[i], cnt); };
  // once in a while so many terms are numbered that counters are put to the test
  int flood = r.chance(0.006) ? r.range(1, 30) : 0;
  for (int n = r.range(10, 60); n > 0; n--)
  {
    if (flood && --flood == 0)
    {
      long m = r.chance(0.4) ? 65540 + static_cast<long>(r.below(1000)) : 1l << r.range(4, 16);
      for (long i = 0; i < m; i++) g.add(K_DEFINE, "(define " + g.fresh("z") + " () (eo::hash " + std::to_string(1000000 + i) + "))");
      for (long d = 1; d < m; d *= 2)
      {
        long i = static_cast<long>(r.below(static_cast<uint64_t>(m - d)));
        check("numbers", std::to_string(1000000 + i) + " " + std::to_string(1000000 + i + d));
        check("cmp_anti", std::to_string(1000000 + i) + " " + std::to_string(1000000 + i + d));
      }
    }
    sync();
    size_t i = r.below(pool.size()), j = r.below(pool.size()), k = r.below(pool.size());
    switch (r.below(14))
    {
      case 0: case 1:
      {
        std::string h = g.fresh("h");
        g.add(K_DEFINE, "(define " + h + " () (eo::hash " + sp(i) + "))");
        recs.push_back({h, i, 0, false, depth});
        break;
      }
      case 2:
      {
        if (i == j) break;
        std::string h = g.fresh("c");
        g.add(K_DEFINE, "(define " + h + " () (eo::cmp " + sp(i) + " " + sp(j) + "))");
        recs.push_back({h, i, j, true, depth});
        break;
      }
      case 3: case 4: case 5:
      {
        if (recs.empty()) break;
        const Rec& q = r.pick(recs);
        if (q.cmp) check("cmp_is", sp(q.t) + " " + sp(q.u) + " " + q.name);
        else if (r.chance(0.6)) check("hash_is", sp(q.t) + " " + q.name);
        else if (i != q.t) check("hash_not", sp(i) + " " + q.name);
        break;
      }
      case 6: check("id_same", sp(i) + " " + sp(i)); break;
      case 7: if (i != j) check("id_diff", sp(i) + " " + sp(j)); break;
      case 8: if (i != j) check("cmp_anti", sp(i) + " " + sp(j)); else check("cmp_irr", sp(i)); break;
      case 9: if (i != j && j != k && i != k) check("cmp_trans", sp(i) + " " + sp(j) + " " + sp(k)); break;
      case 10:
      {
        // terms that nothing refers to afterwards
        for (int m = r.range(1, 6); m > 0; m--)
        {
          F t = term(), u = term();
          g.add(K_DEFINE, "(define " + g.fresh("z") + " () (eo::is_eq " + respell(r, t, cnt) + " " + respell(r, u, cnt) + "))");
        }
        break;
      }
      case 11:
      {
        F t = g.genU(r.range(1, 4));
        g.add(K_DEFINE, "(define " + g.fresh("z") + " () (eo::hash (depth " + t.str() + ")))");
        break;
      }
      default: g.body(r.range(1, 3)); break;
    }
  }
  g.closeScopes();
  c.w = sessionWorld(r, g, static_cast<int>(r.below(3)));
  c.w.alloc = r.chance(0.85) ? randAlloc(r) : AllocPolicy();
  if (r.chance(0.1)) c.w.alloc.guard = 1;
  if (r.chance(0.1)) c.w.fileChunk = randChunk(r);
  return c;
}

static bool ours(const std::string& err)
{
  for (const char* n : {"id_same", "id_diff", "hash_is", "hash_not", "cmp_is", "cmp_anti", "cmp_irr", "cmp_trans", "numbers"})
    if (err.find(n) != std::string::npos) return true;
  return false;
}
Verdict judgeC16(const Case& c, Ctx& x)
{
  Result R = x.run(c.w);
  if (R.end == E_BUDGET) return Verdict::skip();
  if (R.end == E_SIGNAL) return Verdict::bad("crash", "crashes: " + describe(R));
  if (!R.accepted())
  {
    if (ours(R.err)) return Verdict::bad("identity", "a step that holds by the identity of terms is refused: " + esc(R.err.substr(0, 500)));
    // is the session refused for another reason?
    x.probe("refused_otherwise");
    return Verdict::ok(false);
  }
  size_t checks = 0;
  for (auto& f : c.w.files)
    for (const char* n : {":rule id_", ":rule hash_", ":rule cmp_"})
      for (size_t p = f.second.find(n); p != std::string::npos; p = f.second.find(n, p + 1)) checks++;
  for (auto& m : c.w.input)
    for (const char* n : {":rule id_", ":rule hash_", ":rule cmp_"})
      for (size_t p = m.data.find(n); p != std::string::npos; p = m.data.find(n, p + 1)) checks++;
  x.probe("identity_checks", checks);
  return Verdict::ok(checks > 0 && R.reuses > 0);
}

}  // namespace sim
