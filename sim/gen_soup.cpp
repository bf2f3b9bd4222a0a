// Workload generator: sessions grown command by command with the reference
// model.  Declarations, programs, rules and terms over everything the language
// has are drawn at random, without regard to what they mean; those the model
// accepts are kept and used by later ones, and the last command is any.
#include <ctype.h>
#include <algorithm>
#include <functional>
#include <tuple>
#include "gen.h"
#include "model.h"

namespace sim {

struct Sx
{
  std::string a;
  std::vector<Sx> k;
  bool list = false;
  std::string str() const
  {
    if (!list) return a;
    std::string s = "(";
    for (size_t i = 0; i < k.size(); i++) s += (i ? " " : "") + k[i].str();
    return s + ")";
  }
};
static Sx parseSx(const std::string& t, size_t& p)
{
  Sx x;
  while (p < t.size() && isspace(static_cast<unsigned char>(t[p]))) p++;
  if (p >= t.size()) return x;
  if (t[p] == '(')
  {
    p++;
    x.list = true;
    for (;;)
    {
      while (p < t.size() && isspace(static_cast<unsigned char>(t[p]))) p++;
      if (p >= t.size()) return x;
      if (t[p] == ')') { p++; return x; }
      x.k.push_back(parseSx(t, p));
    }
  }
  size_t b = p;
  if (t[p] == '"')
  {
    p++;
    while (p < t.size())
    {
      if (t[p] == '"' && (p + 1 >= t.size() || t[p + 1] != '"')) { p++; break; }
      p += t[p] == '"' ? 2 : 1;
    }
  }
  else if (t[p] == '|')
  {
    p = t.find('|', p + 1);
    p = p == std::string::npos ? t.size() : p + 1;
  }
  else while (p < t.size() && !isspace(static_cast<unsigned char>(t[p])) && t[p] != '(' && t[p] != ')') p++;
  if (p == b) p++;
  x.a = t.substr(b, std::min(p, t.size()) - b);
  return x;
}
static Sx sx(const std::string& t) { size_t p = 0; return parseSx(t, p); }
static void subterms(Sx& x, std::vector<Sx*>& v)
{
  v.push_back(&x);
  for (size_t i = x.list && !x.k.empty() && x.k[0].a != "as" ? 1 : 0; i < x.k.size(); i++) subterms(x.k[i], v);
}

static const char* const kBase[] = {
    "(declare-const U Type)", "(declare-const a U)", "(declare-const b U)", "(declare-const c U)", "(declare-const p Bool)", "(declare-const q Bool)",
    "(declare-const f (-> U U))", "(declare-const g (-> U U U))", "(declare-const h (-> Bool U))",
    "(declare-const Int Type)", "(declare-consts <numeral> Int)", "(declare-const String Type)", "(declare-consts <string> String)",
    "(declare-const BitVec (-> Int Type))", "(declare-consts <binary> (BitVec (eo::len eo::self)))",
    "(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))",
    "(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)", "(declare-const or (-> Bool Bool Bool) :left-assoc-nil false)",
    "(declare-const => (-> Bool Bool Bool) :right-assoc)", "(declare-const not (-> Bool Bool))"};
static const char* const kMore[] = {
    "(declare-const Real Type)", "(declare-consts <rational> Real)", "(declare-consts <decimal> Real)", "(declare-consts <hexadecimal> (BitVec 4))",
    "(declare-const ra (-> U U U) :right-assoc)", "(declare-const la (-> U U U) :left-assoc)", "(declare-const + (-> Int Int Int) :right-assoc-nil 0)",
    "(declare-const rns (-> U U U) :right-assoc-non-singleton-nil a)", "(declare-const lns (-> U U U) :left-assoc-non-singleton-nil b)",
    "(declare-const chn (-> U U Bool) :chainable and)", "(declare-const dis (-> U U Bool) :pairwise and)", "(declare-const dis2 (-> U U U) :pairwise ra)",
    "(declare-const chl (-> Int Int Bool) :chainable or)", "(declare-const argl (-> eo::List U) :arg-list eo::List::cons)", "(declare-const argu (-> U Bool) :arg-list ra)",
    "(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)", "(declare-const @tup (-> Bool Bool Bool) :right-assoc-nil true)",
    "(declare-const lamb (-> eo::List U U) :binder eo::List::cons)",
    "(declare-parameterized-const bvor ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :right-assoc-nil (eo::to_bin m 0))",
    "(declare-parameterized-const bvl ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :left-assoc-nil (eo::not (eo::to_bin m 0)))",
    "(declare-parameterized-const cat ((m Int :implicit) (n Int :implicit)) (-> (BitVec m) (BitVec n) (BitVec (eo::add m n))))",
    "(declare-parameterized-const ext ((m Int :implicit) (i Int) (j Int)) (-> (BitVec m) (BitVec (eo::add 1 (eo::add i (eo::neg j))))))",
    "(declare-parameterized-const @k ((n Int)) U)", "(declare-parameterized-const @o ((x U :opaque) (n Int)) U)", "(declare-parameterized-const @s ((T Type) (x T :opaque)) T)",
    "(declare-parameterized-const @bo ((x Bool :opaque)) (-> U Bool))", "(declare-const Array (-> Type Type Type))",
    "(declare-parameterized-const select ((A Type :implicit) (B Type :implicit)) (-> (Array A B) A B))",
    "(declare-parameterized-const store ((A Type :implicit) (B Type :implicit)) (-> (Array A B) A B (Array A B)))",
    "(declare-const ar (Array U Int))", "(declare-parameterized-const ite ((T Type :implicit)) (-> Bool T T T))", "(declare-parameterized-const id ((T Type)) (-> T T))",
    "(declare-parameterized-const empty ((T Type)) (Array T T))", "(declare-parameterized-const pair ((A Type :implicit) (x A)) (-> A U))",
    "(declare-datatype E ((red) (green) (blue)))", "(declare-datatype N ((zero) (succ (pred N))))",
    "(declare-datatypes ((L 1)) ((par (X) ((nil) (cons (hd X) (tl (L X)))))))",
    "(declare-datatypes ((Tr 0) (Fo 0)) (((leaf) (node (val U) (kids Fo))) ((fnil) (fcons (car Tr) (cdr Fo)))))",
    "(declare-datatypes ((Pr 2)) ((par (X Y) ((mk (fst X) (snd Y)) (left (lf X))))))",
    "(declare-datatypes ((Q 1) (W 1)) ((par (X) ((qn) (qc (qh X) (qt (W X))))) (par (Y) ((wn (wu Y)) (wc (wq (Q Y)))))))",
    "(program P ((x U) (y U)) :signature (U) U (((P (g x y)) (g (P x) (P y))) ((P x) x)))",
    "(program Rv ((x Bool) (xs Bool :list)) :signature (Bool) Bool (((Rv (and x xs)) (eo::cons or x (Rv xs))) ((Rv x) x)))",
    "(program Gx ((T Type) (x T) (y T)) :signature (T T) Bool (((Gx x x) true) ((Gx x y) (= x y))))",
    "(program Sub ((T Type) (S Type) (V Type) (x S) (y S) (ff (-> T V)) (aa T) (z V)) :signature (S S V) V (((Sub x y x) y) ((Sub x y (ff aa)) (_ (Sub x y ff) (Sub x y aa))) ((Sub x y z) z)))",
    "(program Len ((T Type) (x T) (xs (L T))) :signature ((L T)) Int (((Len (cons x xs)) (eo::add 1 (Len xs))) ((Len xs) 0)))",
    "(program Nth ((n Int) (x U) (y U)) :signature (Int U) U (((Nth 0 x) x) ((Nth n (g x y)) (Nth (eo::add n -1) y)) ))",
    "(program Mut ((x N)) :signature (N) Bool)", "(program Mut2 ((x N)) :signature (N) Bool (((Mut2 (succ x)) (Mut x)) ((Mut2 zero) false)))",
    "(program Mut ((x N)) :signature (N) Bool (((Mut (succ x)) (Mut2 x)) ((Mut zero) true)))",
    "(define m ((x U) (y U)) (g y x))", "(define mp ((T Type :implicit) (x T)) (= x x))", "(define both ((x Bool) (y Bool)) (and x y))", "(define ml ((x Bool) (xs Bool :list)) (and x xs))",
    "(declare-const ovf (-> U U))\n(declare-const ovf (-> Bool U))\n(declare-const ovf (-> U U U))", "(declare-const ovc U)\n(declare-const ovc Bool)",
    "(declare-const two (-> U U U) :right-assoc :chainable and)", "(declare-const F2 (-> (-> U U) U Bool))", "(declare-const PT (-> U Type))", "(declare-const pt (PT a))",
    "(declare-parameterized-const dep ((x U)) (-> (PT x) Bool))",
    "(declare-sort S0 0)", "(declare-sort S1 1)", "(declare-sort S2 2)", "(declare-const s0 S0)", "(declare-const s1 (S1 S0))", "(declare-const sf (-> S0 (S2 U S0)))",
    "(declare-parameterized-const @lp ((T Type :implicit)) (-> T T U))", "(declare-const ulet (-> eo::List U U) :let-binder (@lp eo::List::cons))",
    "(declare-const blet (-> U Bool Bool) :let-binder (@lp ra))"};
static const char* const kRules[] = {
    "(declare-rule ev ((T Type) (S Type) (t T) (u S)) :args (t u) :requires ((t u)) :conclusion true)",
    "(declare-rule typ ((T Type) (t T)) :args (T t) :conclusion true)", "(declare-rule takeb ((t Bool)) :args (t) :conclusion t)",
    "(declare-rule isok ((T Type) (t T) (b Bool)) :args (t b) :requires (((eo::is_ok t) b)) :conclusion true)",
    "(declare-rule ru ((x Bool) (y Bool)) :premises (x) :args (y) :requires (((eo::is_eq x y) false)) :conclusion (= x y))",
    "(declare-rule andi ((x Bool)) :premise-list x and :conclusion x)", "(declare-rule ori ((x Bool)) :premise-list x or :conclusion x)",
    "(declare-rule ande ((x Bool) (xs Bool :list) (n Int)) :premises ((and x xs)) :args (n) :conclusion (eo::list_nth and (and x xs) n))",
    "(declare-rule mpr ((x Bool) (y Bool)) :premises (x (=> x y)) :conclusion y)", "(declare-rule sc ((x Bool) (y Bool)) :assumption x :premises (y) :conclusion (=> x y))",
    "(declare-rule tr ((x Bool)) :args (x) :conclusion-explicit x :sorry)", "(declare-rule eqt ((T Type) (x T) (y T) (z T)) :premises ((= x y) (= y z)) :conclusion (= x z))",
    "(declare-rule cong ((T Type) (S Type) (x T) (y T) (w (-> T S))) :premises ((= x y)) :args (w) :conclusion (= (w x) (w y)))",
    "(declare-rule inst ((x U) (F Bool)) :premises ((forall (@list y) F)) :args (x) :conclusion F)"};
static const char* const kAtoms[] = {"a", "b", "c", "p", "q", "f", "g", "h", "U", "Bool", "Int", "0", "1", "2", "-3", "7/2", "1.5", "\"x\"", "\"\"", "\"ab\"", "\"a\\u{42}\"", "\"a\tb\"", "#b1", "#b0", "#b0110", "#x1f", "true", "false",
    "eo::List::nil", "eo::List::cons", "eo::List", "and", "or", "ra", "la", "rns", "lns", "chn", "dis", "argl", "forall", "bvor", "@k", "select", "nil", "cons", "leaf", "fnil", "zero", "succ", "red", "blue", "L", "ovf", "ovc", "=", "BitVec", "Array", "=>", "ar", "pt",
    "(as nil (L U))", "(as nil (L Bool))", "(as qn (Q Int))", "(as wn (W U))", "Type", "String", "N", "(L U)", "(-> U U)", "(Array U Int)", "(BitVec 4)", "is-cons", "hd", "mk", "empty", "(empty U)", "E", "Tr", "mp", "m", "P", "not", "x", "y", "S0", "s0", "s1", "S1", "(S1 U)", "(S2 U S0)", "sf", "ulet"};
static const char* const kHeads[] = {"f", "g", "h", "and", "or", "=", "=>", "not", "ra", "la", "rns", "lns", "chn", "dis", "dis2", "chl", "argl", "argu", "bvor", "bvl", "cat", "ext", "@k", "@o", "@s", "@bo", "select", "store", "ite", "id", "pair", "cons", "hd", "tl", "is-cons", "is-nil", "node", "kids", "val", "fcons", "car", "succ",
    "pred", "is-succ", "mk", "fst", "left", "snd", "qc", "qt", "wc", "wn", "is-red", "P", "Rv", "Gx", "Sub", "Len", "Nth", "Mut", "Mut2", "m", "mp", "both", "ml", "ovf", "two", "F2", "PT", "dep", "L", "BitVec", "Array", "->", "_", "as", "eo::as", "forall", "+", "@tup", "S1", "S2", "sf", "@lp", "ulet", "blet"};
static const char* const kEo[] = {"eo::is_ok", "eo::is_eq", "eo::ite", "eo::requires", "eo::hash", "eo::var", "eo::typeof", "eo::nameof", "eo::cmp", "eo::is_z", "eo::is_q", "eo::is_bin", "eo::is_str", "eo::is_bool", "eo::is_var", "eo::eq", "eo::nil", "eo::cons", "eo::list_len", "eo::list_concat", "eo::list_nth",
    "eo::list_find", "eo::list_erase", "eo::list_erase_all", "eo::list_rev", "eo::list_setof", "eo::list_minclude", "eo::list_meq", "eo::list_diff", "eo::list_inter", "eo::list_singleton_elim", "eo::not", "eo::and", "eo::or", "eo::xor", "eo::add", "eo::neg", "eo::mul", "eo::zdiv", "eo::zmod", "eo::qdiv",
    "eo::is_neg", "eo::gt", "eo::len", "eo::concat", "eo::extract", "eo::find", "eo::to_z", "eo::to_q", "eo::to_bin", "eo::to_str", "eo::dt_constructors", "eo::dt_selectors"};
static const char* const kListOps[] = {"and", "or", "rns", "lns", "eo::List::cons", "+", "bvor", "bvl", "@tup"};
template <size_t N>
static std::string pick(Rng& r, const char* const (&v)[N]) { return v[r.below(N)]; }

struct Soup
{
  Rng& r;
  bool sig, ref = false;
  mdl::Model m;
  std::vector<std::string> cmds;
  struct T { std::string text, type; };
  std::vector<T> pool;
  std::vector<std::string> names;     // declared by the session, usable as heads
  struct Rule { std::string name; std::vector<std::string> prem, args; std::string concl; bool expl; };
  std::vector<Rule> rules;
  std::vector<T> facts;               // name, formula
  int cnt = 0;
  Soup(Rng& rr, bool s) : r(rr), sig(s) {}

  void options(const std::vector<std::string>& opts)
  {
    for (auto& o : opts)
    {
      if (o.compare(0, 5, "--no-") == 0) m.setOption(o.substr(5), false);
      else m.setOption(o.substr(2), true);
      if (o == "--no-parse-let") noLet = true;
    }
  }
  bool noLet = false;
  std::string fresh(const char* p) { return std::string("@") + p + std::to_string(++cnt); }
  bool feed(const std::string& c)
  {
    mdl::Model t = m;
    mdl::Outcome o = t.feed(c, sig, ref);
    if (o.kind != mdl::Outcome::OK && o.kind != mdl::Outcome::INCOMPLETE) return false;
    m = std::move(t);
    cmds.push_back(c);
    return true;
  }
  std::string typeOf(const std::string& t)
  {
    mdl::Model q = m;
    return q.values({t}, true, sig)[0];
  }
  std::string valueOf(const std::string& t)
  {
    mdl::Model q = m;
    return q.values({t}, false, sig)[0];
  }
  void learn(const std::vector<std::string>& ts)
  {
    mdl::Model q = m;
    auto ty = q.values(ts, true, sig);
    for (size_t i = 0; i < ts.size(); i++)
      if (!ty[i].empty() && ts[i].size() < 400) pool.push_back({ts[i], ty[i]});
  }
  // mostly one of those built last
  const T& some()
  {
    size_t n = pool.size();
    if (n > 8 && r.chance(0.5)) return pool[n - 1 - r.below(n / 3)];
    return r.pick(pool);
  }
  // a term and its value, which is mostly another
  // terms that tell how a literal was read
  double lits = 0;
  std::string aboutLiterals()
  {
    static const std::vector<std::string> l = {"1", "1.5", "1.0", "3/2", "1/1", "2/1", "2", "#x1", "#x01", "#b0001", "#b00000001", "#x1f", "#x1F", "#b00011111", "0.0", "0"};
    static const std::vector<std::string> one = {"eo::is_z", "eo::is_q", "eo::is_bin", "eo::len", "eo::to_z", "eo::to_q", "eo::neg", "eo::not", "eo::is_neg", "eo::to_str"};
    static const std::vector<std::string> two = {"eo::is_eq", "eo::is_eq", "eo::add", "eo::mul", "eo::gt", "eo::concat", "eo::and", "eo::qdiv"};
    return r.chance(0.5) ? "(" + r.pick(one) + " " + r.pick(l) + ")" : "(" + r.pick(two) + " " + r.pick(l) + " " + r.pick(l) + ")";
  }
  std::pair<std::string, std::string> evaluated()
  {
    std::vector<std::string> t;
    for (int i = 0; i < 8; i++) t.push_back(r.chance(0.5) && !pool.empty() ? some().text : any(r.range(1, 3)));
    bool lit = lits > 0 && r.chance(lits);
    if (lit)
      for (auto& x : t) x = aboutLiterals();
    mdl::Model q = m;
    auto v = q.values(t, false, sig);
    std::vector<size_t> c;
    if (lit)
    {
      for (size_t i = 0; i < t.size(); i++)
        if (!v[i].empty()) c.push_back(i);
      size_t i = c.empty() ? 0 : r.pick(c);
      return {t[i], v[i]};
    }
    for (size_t i = 0; i < t.size(); i++)
      if (!v[i].empty() && v[i] != t[i] && (r.chance(0.2) || t[i].find("eo::") != std::string::npos || t[i].find("P") != std::string::npos || v[i].size() + 2 < t[i].size())) c.push_back(i);
    size_t i = c.empty() || r.chance(0.15) ? r.below(t.size()) : r.pick(c);
    return {t[i], v[i]};
  }
  std::string ofType(const std::string& t)
  {
    std::vector<const T*> c;
    for (auto& x : pool)
      if (x.type == t) c.push_back(&x);
    return c.empty() ? "" : c[c.size() > 3 && r.chance(0.3) ? c.size() - 1 - r.below(3) : r.below(c.size())]->text;
  }
  std::string ofTypeOr(const std::string& t)
  {
    std::string s = ofType(t);
    return s.empty() ? any(1) : s;
  }
  std::string atom(const std::vector<std::string>& vs)
  {
    if (!vs.empty() && r.chance(0.5)) return r.pick(vs);
    if (!pool.empty() && r.chance(0.6)) return some().text;
    return pick(r, kAtoms);
  }
  std::string any(int d, const std::vector<std::string>& vs = {})
  {
    if (d <= 0 || r.chance(0.2)) return atom(vs);
    double k = r.below(1000) / 1000.0;
    auto with = [&](const char* x) { auto w = vs; w.push_back(x); return w; };
    if (k < 0.03) return std::string("(") + (r.chance(0.7) ? "forall" : "lamb") + " ((x " + (r.chance(0.7) ? "U" : any(d - 2, vs)) + ")" + (r.chance(0.3) ? " (y Bool)" : "") + ") " + any(d - 1, with("x")) + ")";
    if (k < 0.035) return std::string("(") + (r.chance(0.6) ? "blet" : "ulet") + " ((x " + any(d - 1, vs) + ")" + (r.chance(0.3) ? " (y " + any(d - 2, vs) + ")" : "") + ") " + any(d - 1, with("x")) + ")";
    if (k < 0.05 && !sig) return "(let ((x " + any(d - 1, vs) + ")) " + any(d - 1, with("x")) + ")";
    if (k < 0.07) return "(eo::define ((x " + any(d - 1, vs) + ")) " + any(d - 1, with("x")) + ")";
    if (k < 0.08) return "(! " + any(d - 1, vs) + " :named " + fresh("n") + ")";
    if (k < 0.10) return "(" + any(d - 1, vs) + " " + any(d - 1, vs) + ")";
    if (k < 0.2) { std::string o = pick(r, kListOps); static const std::vector<std::string> l1 = {"eo::list_rev", "eo::list_setof", "eo::list_len", "eo::list_singleton_elim"}, l2 = {"eo::list_concat", "eo::list_erase", "eo::list_erase_all", "eo::list_diff", "eo::list_inter", "eo::list_minclude", "eo::list_meq", "eo::list_find", "eo::list_nth", "eo::nil", "eo::cons"};
      return r.chance(0.3) ? "(" + r.pick(l1) + " " + o + " " + any(d - 1, vs) + ")" : "(" + r.pick(l2) + " " + o + " " + any(d - 1, vs) + " " + any(d - 1, vs) + ")"; }
    std::string hd = r.chance(0.35) ? pick(r, kEo) : !names.empty() && r.chance(0.3) ? r.pick(names) : pick(r, kHeads);
    static const int ns[] = {1, 1, 2, 2, 2, 2, 3, 3, 4};
    std::string s = "(" + hd;
    for (int n = r.chance(0.01) ? 0 : ns[r.below(9)]; n > 0; n--) s += " " + any(d - 1, vs);
    return s + ")";
  }
  // terms that the model gives a type, built upon each other
  void grow(int rounds, int per)
  {
    for (; rounds > 0; rounds--)
    {
      std::vector<std::string> t;
      for (int i = 0; i < per; i++)
      {
        if (r.chance(0.5) || pool.empty()) { t.push_back(any(r.range(1, 2))); continue; }
        // a head with arguments of the types of its parameters, if they are plain
        const T f = some();
        Sx ty = sx(f.type);
        if (ty.list && ty.k.size() > 2 && ty.k[0].a == "->")
        {
          std::string s = "(" + f.text;
          size_t n = ty.k.size() - 2;
          for (size_t j = 0; j < n; j++) s += " " + ofTypeOr(ty.k[1 + j].str());
          if (r.chance(0.2)) s += " " + ofTypeOr(ty.k[1].str());
          t.push_back(s + ")");
        }
        else
        {
          // two or more of the same type
          std::string hd = r.chance(0.3) && !names.empty() ? r.pick(names) : pick(r, kHeads), s = "(" + hd;
          for (int n = r.range(1, 4); n > 0; n--) s += " " + ofTypeOr(f.type);
          t.push_back(s + ")");
        }
      }
      learn(t);
    }
  }
  // replaces some subterms by variables
  struct Var { std::string name, type, was, attr; };
  std::string abstract(const std::string& t, std::vector<Var>& vs, double pr)
  {
    Sx x = sx(t);
    std::vector<Sx*> sub;
    subterms(x, sub);
    std::function<void(Sx&, bool)> go = [&](Sx& y, bool top) {
      if (!top && r.chance(pr))
      {
        std::string s = y.str();
        for (auto& v : vs)
          if (v.was == s && r.chance(0.9)) { y = Sx(); y.a = v.name; return; }
        std::string ty = typeOf(s);
        if (!ty.empty() && ty.size() < 80 && ty.find("quote") == std::string::npos)
        {
          Var v;
          v.name = "v" + std::to_string(vs.size());
          v.was = s;
          v.type = ty;
          vs.push_back(v);
          y = Sx();
          y.a = v.name;
          return;
        }
      }
      for (size_t i = y.list && !y.k.empty() && r.chance(0.9) ? 1 : 0; i < y.k.size(); i++) go(y.k[i], false);
    };
    go(x, false);
    return x.str();
  }
  // attributes of parameters that are read and have no meaning
  std::string paramAttr()
  {
    switch (r.below(3))
    {
      case 0: return " :restrict " + any(1);
      case 1: return " :syntax <" + std::string(r.chance(0.5) ? "numeral" : r.chance(0.5) ? "string" : "binary") + ">";
      default: return " :note (of no meaning)";
    }
  }
  std::string params(std::vector<Var>& vs)
  {
    // sometimes a type becomes a parameter, for all variables or only one
    std::string s, tv;
    std::map<std::string, std::string> tp;
    for (auto& v : vs)
    {
      std::string ty = v.type;
      if (ty != "Type" && r.chance(0.25))
      {
        if (!tp.count(ty)) { tp[ty] = "T" + std::to_string(tp.size()); tv += (tv.empty() ? "(" : " (") + tp[ty] + " Type" + (r.chance(0.1) ? " :implicit)" : ")"); }
        ty = tp[ty];
      }
      else if (tp.count(ty) && r.chance(0.7)) ty = tp[ty];
      v.type = ty;
      s += (s.empty() ? "(" : " (") + v.name + " " + ty + (r.chance(0.08) ? " :list" : r.chance(0.03) ? " :opaque" : r.chance(0.02) ? " :implicit" : r.chance(0.02) ? paramAttr() : "") + ")";
    }
    return "(" + tv + (tv.empty() || s.empty() ? "" : " ") + s + ")";
  }
  std::string body(const std::string& near, std::vector<Var>& vs, const std::string& rec)
  {
    std::vector<std::string> names;
    for (auto& v : vs) names.push_back(v.name);
    if (!names.empty() && r.chance(0.25)) return r.pick(names);
    if (!rec.empty() && !names.empty() && r.chance(0.25)) return r.chance(0.5) ? "(" + rec + " " + r.pick(names) + ")" : "(eo::ite (eo::is_eq " + r.pick(names) + " " + any(1, names) + ") " + r.pick(names) + " (" + rec + " " + r.pick(names) + "))";
    if (r.chance(0.3)) return any(2, names);
    // another term, where the same subterms become the same variables
    Sx x = sx(near);
    std::function<void(Sx&)> go = [&](Sx& y) {
      std::string s = y.str();
      for (auto& v : vs)
        if (v.was == s && r.chance(0.8)) { y = Sx(); y.a = v.name; return; }
      for (auto& z : y.k) go(z);
    };
    go(x);
    return x.str();
  }
  std::string someType() { std::string t = ofType("Type"); return t.empty() || r.chance(0.2) ? any(1) : t; }
  std::string attr()
  {
    if (r.chance(0.5)) return "";
    switch (r.below(9))
    {
      case 0: return " :right-assoc";
      case 1: return " :left-assoc";
      case 2: return " :chainable " + (r.chance(0.8) ? std::string("and") : any(0));
      case 3: return " :right-assoc-nil " + any(0);
      case 4: return " :left-assoc-nil " + any(0);
      case 5: return " :arg-list " + (r.chance(0.8) ? std::string("eo::List::cons") : any(0));
      case 6: return " :binder " + (r.chance(0.8) ? std::string("eo::List::cons") : any(0));
      case 7: return " :pairwise " + (r.chance(0.8) ? std::string("or") : any(0));
      default: return " :right-assoc-non-singleton-nil " + any(0);
    }
  }
  void restart();
  double again = 0;
  std::vector<std::string> pre;  // the signature
  // one command; `later` is told what to do once it is accepted
  std::string command(std::function<void()>& later)
  {
    switch (r.below(16))
    {
      case 0: case 1:
      {
        std::string n = fresh("d");
        if (r.chance(0.5) || pool.empty())
        {
          std::string t = r.chance(0.6) && !pool.empty() ? some().text : any(r.range(1, 3));
          later = [=] { learn({n}); };
          std::string ty = typeOf(t);
          return "(define " + n + " () " + t + (r.chance(0.5) && !ty.empty() ? " :type " + ty : r.chance(0.1) ? " :type " + any(1) : "") + ")";
        }
        std::vector<Var> vs;
        std::string t = abstract(some().text, vs, 0.35);
        later = [=] { names.push_back(n); };
        return "(define " + n + " " + params(vs) + " " + t + ")";
      }
      case 2:
      {
        std::string n = r.chance(0.1) && !names.empty() ? r.pick(names) : r.chance(0.05) ? r.chance(0.5) && !rules.empty() ? r.pick(rules).name : "ru" : r.chance(noLet ? 0.3 : 0.005) ? "let" : fresh("c");
        later = [=] { names.push_back(n); learn({n}); };
        std::string t = someType();
        for (int k = static_cast<int>(r.below(3)); k > 0; k--) t = r.chance(0.5) ? "(-> " + t + " " + t + " " + t + ")" : "(-> " + someType() + " " + t + ")";
        return "(declare-const " + n + " " + t + attr() + ")";
      }
      case 3:
      {
        std::string n = fresh("k");
        later = [=] { names.push_back(n); };
        std::vector<Var> vs;
        std::string ty = someType();
        if (r.chance(0.5)) ty = "(-> " + someType() + " " + ty + ")";
        Sx x = sx(ty);
        std::string t = abstract(ty, vs, 0.4);
        if (vs.empty() || r.chance(0.3)) vs.push_back({"w", someType(), "", ""});
        std::string ps = "(";
        for (auto& v : vs) ps += (ps.size() > 1 ? " (" : "(") + v.name + " " + v.type + (r.chance(0.35) ? " :implicit" : r.chance(0.15) ? " :opaque" : r.chance(0.06) ? paramAttr() : "") + ")";
        return "(declare-parameterized-const " + n + " " + ps + ") " + t + attr() + ")";
      }
      case 4: case 5:
      {
        std::string n = fresh("a"), t = ofTypeOr("Bool");
        later = [=] { facts.push_back({n, t}); };
        return "(assume " + n + " " + t + ")";
      }
      case 6: case 7: case 8:
      {
        // what a term is
        std::string t = r.chance(0.5) && !pool.empty() ? some().text : any(r.range(1, 3)), n = fresh("s");
        int k = static_cast<int>(r.below(4));
        if (k == 0) { std::string ty = typeOf(t); return "(step " + n + " :rule typ :args (" + (ty.empty() || r.chance(0.1) ? someType() : ty) + " " + t + "))"; }
        if (k == 1) return "(step " + n + " :rule isok :args (" + t + " " + (r.chance(0.7) ? "true" : "false") + "))";
        std::string v;
        std::tie(t, v) = evaluated();
        if (v.empty() || r.chance(0.1)) v = any(1);
        return "(step " + n + " :rule ev :args (" + t + " " + v + "))";
      }
      case 9: case 10:
      {
        // a program
        if (pool.empty()) return "(echo \"none\")";
        std::string n = fresh("P");
        const T p = some();
        bool two = r.chance(0.3);
        std::string q = two ? r.pick(pool).text : "", qt = two ? typeOf(q) : "";
        std::vector<Var> vs;
        std::string cases, near = some().text, rt = typeOf(near);
        std::string calls;
        for (int i = r.range(1, 3); i > 0; i--)
        {
          std::string src = i > 1 && r.chance(0.7) ? ofTypeOr(p.type) : p.text;
          std::string pat = i == 1 && r.chance(0.3) ? (vs.empty() ? (vs.push_back({"v0", p.type, src, ""}), "v0") : vs[0].name) : abstract(src, vs, 0.4);
          std::string p2 = two ? abstract(q, vs, 0.5) : "";
          cases += (cases.empty() ? "" : " ") + ("((" + n + " " + pat) + (two ? " " + p2 : "") + ") " + body(r.chance(0.5) ? ofTypeOr(rt) : src, vs, two ? "" : n) + ")";
          calls = src;
        }
        std::string ps = params(vs), pt = p.type;
        // the types of the signature follow the parameters
        for (auto& v : vs)
          if (v.was == p.text && r.chance(0.7)) pt = v.type;
        if (r.chance(0.15) && !vs.empty()) pt = r.pick(vs).type;
        later = [=] {
          names.push_back(n);
          std::vector<std::string> t;
          for (int i = 0; i < 4; i++) t.push_back("(" + n + " " + (i == 0 ? calls : ofTypeOr(p.type)) + (two ? " " + q : "") + ")");
          learn(t);
        };
        std::string xt = r.chance(0.8) || vs.empty() ? rt : r.pick(vs).type;
        return "(program " + n + " " + ps + " :signature (" + pt + (two ? " " + qt : "") + ") " + (xt.empty() ? "Bool" : xt) + " (" + cases + "))";
      }
      case 11: case 12:
      {
        // a rule
        Rule u;
        u.name = r.chance(0.04) ? r.chance(0.5) && !names.empty() ? r.pick(names) : "f" : fresh("r");
        std::vector<Var> vs;
        std::string t;
        for (int i = static_cast<int>(r.below(3)); i > 0; i--) u.prem.push_back(ofTypeOr("Bool"));
        for (int i = static_cast<int>(r.below(3)); i > 0 && !pool.empty(); i--) u.args.push_back(some().text);
        u.concl = ofTypeOr("Bool");
        u.expl = r.chance(0.2);
        if (!u.prem.empty()) { t += " :premises ("; for (auto& x : u.prem) t += " " + abstract(x, vs, 0.35); t += ")"; }
        if (!u.args.empty()) { t += " :args ("; for (auto& x : u.args) t += " " + abstract(x, vs, 0.35); t += ")"; }
        std::string con = u.expl ? abstract(u.concl, vs, 0.4) : body(u.concl, vs, "");
        if (r.chance(0.4))
        {
          std::string x = body(ofTypeOr("Bool"), vs, ""), y = body(x, vs, "");
          t += " :requires ((" + x + " " + (r.chance(0.6) ? x : y) + "))";
        }
        auto keep = u;
        later = [=] { rules.push_back(keep); };
        return "(declare-rule " + u.name + " " + params(vs) + t + (u.expl ? " :conclusion-explicit " : " :conclusion ") + con + ")";
      }
      case 13: case 14:
      {
        // use of a rule
        std::string n = fresh("u"), s;
        if (rules.empty() || r.chance(0.3))
        {
          static const std::vector<std::string> rs = {"ru", "andi", "ori", "ande", "mpr", "takeb", "eqt", "cong", "tr", "inst"};
          s = "(step " + n + (r.chance(0.2) ? " " + ofTypeOr("Bool") : "") + " :rule " + r.pick(rs);
          int k = static_cast<int>(r.below(4));
          if (k && !facts.empty()) { s += " :premises ("; for (; k > 0; k--) s += (r.pick(facts).text) + " "; s += ")"; }
          if (r.chance(0.5)) s += " :args (" + (r.chance(0.3) ? std::to_string(r.below(3)) : ofTypeOr(r.chance(0.5) ? "Bool" : "(-> U U)")) + ")";
          later = [=] { facts.push_back({n, ""}); };
          return s + ")";
        }
        Rule u = r.pick(rules);
        std::string pre, ps, as;
        for (auto& x : u.prem)
        {
          std::string a = fresh("a");
          pre += "(assume " + a + " " + (r.chance(0.9) ? x : ofTypeOr("Bool")) + ")\n";
          ps += " " + a;
        }
        for (auto& x : u.args) as += " " + (r.chance(0.9) ? x : any(1));
        later = [=] { facts.push_back({n, u.concl}); };
        return pre + "(step " + n + (u.expl || r.chance(0.3) ? " " + u.concl : "") + " :rule " + u.name + (ps.empty() ? "" : " :premises (" + ps + ")") + (as.empty() ? "" : " :args (" + as + ")") + ")";
      }
      default:
        if (r.chance(0.5))
        {
          std::string n = fresh("D"), s = "(declare-datatype " + n;
          bool par = r.chance(0.3);
          std::string cs;
          for (int i = r.range(1, 3); i > 0; i--)
          {
            std::string k = fresh("k");
            cs += " (" + k;
            for (int j = static_cast<int>(r.below(3)); j > 0; j--) cs += " (" + fresh("f") + " " + (r.chance(0.3) ? (par ? "(" + n + " X)" : n) : par && r.chance(0.5) ? std::string("X") : someType()) + ")";
            cs += ")";
            names.push_back(k);
          }
          later = [=] { learn({n}); };
          return s + (par ? " (par (X) (" + cs + "))" : " (" + cs + ")") + ")";
        }
        switch (r.below(8))
        {
          case 0: return r.chance(0.5) ? "(push 1)" : "(pop 1)";
          case 1:
          {
            // a subproof, of which the conclusion follows by sc
            std::string a = fresh("a"), x = ofTypeOr("Bool"), s = "(assume-push " + a + " " + x + ")\n", b = a, t = x, n = fresh("u");
            if (r.chance(0.3)) s += "(declare-const " + fresh("c") + " " + someType() + ")\n";
            if (r.chance(0.5))
            {
              b = fresh("s");
              t = ofTypeOr("Bool");
              s += "(step " + b + " :rule takeb :args (" + t + "))\n";
            }
            std::string q = "(=> " + x + " " + t + ")";
            later = [=] { facts.push_back({n, q}); };
            return s + "(step-pop " + n + (r.chance(0.5) ? " " + q : "") + " :rule " + (r.chance(0.95) ? "sc" : "mpr") + " :premises (" + b + "))";
          }
          case 2:
          {
            std::string n = fresh("S");
            size_t k = r.below(3);
            later = [=] {
              names.push_back(n);
              if (k) learn({"(" + n + " U" + (k == 2 ? " Int)" : ")")});
              else
              {
                feed("(declare-const " + n + "c " + n + ")");
                feed("(declare-const " + n + "f (-> " + n + " " + n + "))");
              }
              learn({n, n + "c", n + "f"});
            };
            return "(declare-sort " + n + " " + std::to_string(k) + ")";
          }
          case 3: return "(set-option :normalize-" + std::string(r.chance(0.5) ? "num" : r.chance(0.5) ? "dec" : "hex") + (r.chance(0.5) ? " true)" : " false)");
          case 4:
            if (r.chance(0.3))
            {
              later = [=] { restart(); };
              return "(reset)";
            }
            return "(echo " + std::string(r.chance(0.2) ? "" : "\"" + fresh("t") + (r.chance(0.2) ? "\"\" \\u{41}" : "") + "\"") + ")";
          default: break;
        }
        return "(declare-consts <" + std::string(r.chance(0.5) ? "decimal" : "hexadecimal") + "> " + someType() + ")";
    }
  }
};

void Soup::restart()
{
  pool.clear();
  names.clear();
  rules.clear();
  facts.clear();
  if (sig)
  {
    for (const char* c : kBase) feed(c);
    for (const char* c : kMore)
      if (r.chance(0.3)) feed(c);
    for (const char* c : kRules) feed(c);
  }
  else
  {
    // problems and proofs have no way to say Type: the signature once more
    std::vector<std::string> was = cmds;
    sig = true;
    for (auto& c : pre) feed(c);
    sig = false;
    cmds = was;
    cmds.push_back("(include \"sig.eo\")");
  }
  std::vector<std::string> t;
  for (const char* a : kAtoms) t.push_back(a);
  learn(t);
}

static void soup(Soup& s, bool sig, std::string& sigText, std::string& body)
{
  Rng& r = s.r;
  s.sig = true;
  for (const char* c : kBase) s.feed(c);
  double keep = r.chance(0.3) ? 1 : 0.5;
  for (const char* c : kMore)
    if (r.chance(keep)) s.feed(c);
  for (const char* c : kRules) s.feed(c);
  std::vector<std::string> pre = s.pre = s.cmds;
  s.cmds.clear();
  s.sig = sig;
  {
    std::vector<std::string> t;
    for (const char* a : kAtoms) t.push_back(a);
    s.learn(t);
  }
  s.grow(r.range(2, 5), 20);
  int want = r.range(2, 14), tries = 60;
  int again = r.chance(s.again) ? r.range(2, 8) : 0;
  std::string last;
  while ((want > 0 || again > 0) && tries-- > 0)
  {
    if (want <= 0)
    {
      // everything once more
      want = again;
      again = 0;
      tries = 40;
      last.clear();
      if (!s.feed("(reset)")) break;
      s.restart();
      s.grow(r.range(1, 4), 16);
    }
    std::function<void()> later;
    std::string c = s.command(later);
    if (s.feed(c))
    {
      want--;
      if (later) later();
      if (r.chance(0.2)) s.grow(1, 10);
    }
    else if (r.chance(0.3)) last = c;
  }
  for (auto& c : pre) sigText += c + "\n";
  for (auto& c : s.cmds) body += c + "\n";
  if (!last.empty() && r.chance(0.5)) body += last + "\n";
}
// A reference file and a proof of it: declarations and definitions as an SMT-LIB
// file has them, assertions, and a proof that assumes these and other formulas.
World soupReference(Rng& r, const std::vector<std::string>& opts)
{
  Soup s(r, true);
  s.options(opts);
  World w;
  std::string sigText, refText, body;
  for (const char* c : kBase) s.feed(c);
  for (const char* c : kMore)
    if (r.chance(0.4)) s.feed(c);
  for (const char* c : kRules) s.feed(c);
  static const std::vector<std::string> nfs = {
      "(program nf ((x Bool) (y Bool)) :signature (Bool) Bool (((nf (and x y)) (nf x)) ((nf (not (not x))) (nf x)) ((nf x) x)))",
      "(program nf ((x Bool) (y Bool)) :signature (Bool) Bool (((nf (= x y)) (eo::ite (eo::gt (eo::hash x) (eo::hash y)) (= y x) (= x y))) ((nf x) x)))",
      "(program nf ((T Type) (x T)) :signature (T) T (((nf x) x)))", "(program nf ((x Bool)) :signature (Bool) Bool (((nf (not x)) x)))",
      "(program nf ((x Bool) (xs Bool :list)) :signature (Bool) Bool (((nf (and x xs)) (eo::list_setof and (and x xs))) ((nf x) x)))"};
  bool lam = r.chance(0.6) && s.feed("(declare-parameterized-const lambda ((S Type :implicit)) (-> eo::List S (-> U S)) :binder eo::List::cons)");
  std::string nf;
  if (r.chance(0.6) && s.feed(r.pick(nfs))) nf = "nf";
  std::vector<std::string> pre = s.pre = s.cmds;
  s.cmds.clear();
  for (auto& c : pre) sigText += c + "\n";
  s.sig = false;
  auto learnAll = [&] {
    std::vector<std::string> t;
    for (const char* a : kAtoms) t.push_back(a);
    s.learn(t);
  };
  learnAll();
  s.grow(r.range(1, 3), 16);
  s.m.beginRef(nf);
  s.ref = true;
  std::vector<std::string> asserted, bad;
  if (r.chance(0.6)) s.feed("(set-logic " + std::string(r.chance(0.5) ? "QF_UF" : "|A L L|") + ")");
  if (r.chance(0.4)) s.feed("(set-info :status " + std::string(r.chance(0.5) ? "unsat" : r.chance(0.5) ? "(a (b \"c)\") |)|)" : "\"(\"") + ")");
  if (r.chance(0.2)) s.feed("(set-option :produce-proofs true)");
  int want = r.range(3, 12), tries = 50;
  while (want > 0 && tries-- > 0)
  {
    std::function<void()> later;
    std::string c;
    std::string n = s.fresh("r");
    switch (r.below(12))
    {
      case 0:
      {
        int k = static_cast<int>(r.below(3));
        std::string t;
        for (int i = 0; i < k; i++) t += (i ? " " : "") + s.someType();
        c = "(declare-fun " + n + " (" + t + ") " + s.someType() + (r.chance(0.1) ? s.attr() : "") + ")";
        later = [&s, n] { s.names.push_back(n); s.learn({n}); };
        break;
      }
      case 1:
        c = "(declare-const " + n + " " + s.someType() + ")";
        later = [&s, n] { s.learn({n}); };
        break;
      case 2:
      {
        size_t k = r.below(3);
        c = "(declare-sort " + n + " " + std::to_string(k) + ")";
        later = [&s, n, k] {
          s.names.push_back(n);
          if (k == 0) { s.feed("(declare-fun " + n + "c () " + n + ")"); s.feed("(declare-fun " + n + "f (" + n + " " + n + ") " + (s.r.chance(0.5) ? "Bool" : n) + ")"); }
          s.learn({n, n + "c", n + "f", "(" + n + " U)"});
        };
        break;
      }
      case 3:
      {
        std::string ty = s.someType();
        bool par = r.chance(0.4);
        c = "(define-sort " + n + " (" + (par ? "X" : "") + ") " + (par && r.chance(0.7) ? r.chance(0.5) ? "X" : "(Array X " + ty + ")" : ty) + ")";
        later = [&s, n] {
          s.names.push_back(n);
          s.learn({n, "(" + n + " U)", "(" + n + " Int)"});
          s.feed("(declare-fun " + n + "c () " + (s.r.chance(0.5) ? n : "(" + n + " U)") + ")");
          s.learn({n + "c"});
        };
        break;
      }
      case 4: case 5:
      {
        std::string t = r.chance(0.7) && !s.pool.empty() ? s.some().text : s.any(2), ty = s.typeOf(t);
        if (ty.empty() || r.chance(0.07)) ty = s.someType();
        later = [&s, n, t] {
          s.names.push_back(n);
          s.learn({n});
          if (s.typeOf(t) == "Bool" && s.r.chance(0.5)) s.facts.push_back({"", "(= " + n + " " + t + ")"});
        };
        if (r.chance(0.3)) { c = "(define-const " + n + " " + ty + " " + t + ")"; break; }
        std::string ps;
        if (r.chance(0.5))
        {
          std::vector<Soup::Var> vs;
          std::string u = s.abstract(t, vs, 0.4);
          if (lam && r.chance(0.6))
          {
            for (auto& v : vs)
              if (v.type == "U" && (ps.empty() || r.chance(0.2))) ps += (ps.empty() ? "(" : " (") + v.name + " U)";
            if (vs.size() == 1 && vs[0].type == "U")
            {
              std::string eq = "(= " + n + " (lambda ((" + vs[0].name + " U)) " + u + "))";
              later = [&s, n, eq] { s.names.push_back(n); s.learn({n}); s.facts.push_back({"", eq}); };
            }
          }
          else for (auto& v : vs) ps += (ps.empty() ? "(" : " (") + v.name + " " + v.type + (r.chance(0.03) ? s.paramAttr() : "") + ")";
          t = u;
        }
        c = "(define-fun " + n + " (" + ps + ") " + ty + " " + t + ")";
        break;
      }
      case 6: c = "(check-sat)"; break;
      case 7: c = "(check-sat-assuming (" + s.ofTypeOr("Bool") + (r.chance(0.5) ? " " + s.ofTypeOr("Bool") : "") + "))"; break;
      case 8: c = r.chance(0.5) ? "(push 1)" : r.chance(0.7) ? "(pop 1)" : "(echo \"e\")"; break;
      default:
      {
        std::string f = s.ofTypeOr("Bool");
        if (r.chance(0.2) && !nf.empty()) f = r.chance(0.5) ? "(and " + f + " p)" : "(not (not " + f + "))";
        if (r.chance(0.1)) f = "(! " + f + " :named " + s.fresh("n") + ")";
        c = "(assert " + f + ")";
        later = [&asserted, f] { asserted.push_back(f); };
      }
    }
    if (s.feed(c))
    {
      want--;
      if (later) later();
      if (r.chance(0.3)) s.grow(1, 8);
    }
    else if (r.chance(0.1)) bad.push_back(c);
  }
  for (auto& c : s.cmds) refText += c + "\n";
  if (!bad.empty() && r.chance(0.2)) refText += bad.back() + "\n";
  s.cmds.clear();
  s.ref = false;
  for (int i = r.range(1, 5); i > 0; i--)
  {
    std::string f = asserted.empty() || r.chance(0.1) ? s.ofTypeOr("Bool") : r.pick(asserted), n = s.fresh("a");
    if (!nf.empty() && r.chance(0.5))
    {
      // another formula of the same normal form
      Sx x = sx(f);
      if (r.chance(0.3)) { std::string v = s.valueOf("(nf " + f + ")"); if (!v.empty()) f = v; }
      else if (x.list && x.k.size() == 3 && x.k[0].a == "=") f = "(= " + x.k[2].str() + " " + x.k[1].str() + ")";
      else if (r.chance(0.5)) f = "(not (not " + f + "))";
      else f = "(and " + f + " " + s.ofTypeOr("Bool") + ")";
    }
    for (auto& x : s.facts)
      if (x.text.empty() && r.chance(0.5)) f = x.type;
    std::string c = "(assume " + n + " " + f + ")";
    if (s.feed(c)) s.facts.push_back({n, f});
    else if (r.chance(0.08)) { s.cmds.push_back(c); break; }
  }
  s.facts.erase(std::remove_if(s.facts.begin(), s.facts.end(), [](const Soup::T& t) { return t.text.empty(); }), s.facts.end());
  want = r.range(0, 5), tries = 20;
  while (want > 0 && tries-- > 0)
  {
    std::function<void()> later;
    std::string c = s.command(later);
    if (!s.feed(c)) continue;
    want--;
    if (later) later();
  }
  for (auto& c : s.cmds) body += c + "\n";
  std::string rf = "(reference \"ref.smt2\"" + (nf.empty() ? "" : " " + nf) + ")\n";
  w.files["/w/ref.smt2"] = refText;
  w.files["/w/sig.eo"] = sigText;
  switch (r.below(3))
  {
    case 0: setStdin(w, "(include \"sig.eo\")\n" + rf + body); break;
    case 1:
      w.files["/w/main.proof"] = "(include \"sig.eo\")\n" + rf + body;
      w.argv.push_back("main.proof");
      break;
    default:
      if (nf.empty())
      {
        w.files["/w/main.proof"] = body;
        w.argv = {"--include=sig.eo", "--reference=ref.smt2", "main.proof"};
      }
      else
      {
        w.files["/w/main.proof"] = rf + body;
        w.argv = {"--include=sig.eo", "main.proof"};
      }
  }
  return w;
}
std::string soupSession(Rng& r)
{
  Soup s(r, true);
  std::string a, b;
  soup(s, true, a, b);
  return a + b;
}
static World place(Rng& r, bool sig, const std::string& sigText, std::string body)
{
  World w;
  if (sig)
  {
    if (r.chance(0.5)) w.files["/w/main.eo"] = sigText + body;
    else
    {
      w.files["/w/sig.eo"] = sigText;
      w.files["/w/main.eo"] = "(include \"sig.eo\")\n" + body;
    }
    w.argv.push_back("main.eo");
    return w;
  }
  w.files["/w/sig.eo"] = sigText;
  body = "(include \"sig.eo\")\n" + body;
  if (r.chance(0.5)) setStdin(w, body);
  else
  {
    w.files["/w/main.proof"] = body;
    w.argv.push_back("main.proof");
  }
  return w;
}
World soupWorkload(Rng& r)
{
  bool sig = r.chance(0.5);
  Soup s(r, true);
  std::string sigText, body;
  soup(s, sig, sigText, body);
  return place(r, sig, sigText, body);
}
World soupOptions(Rng& r)
{
  static const std::vector<std::string> all = {"--normalize-num", "--no-normalize-dec", "--no-normalize-hex", "--no-parse-let", "--no-rule-sym-table"};
  std::vector<std::string> opts;
  for (auto& o : all)
    if (r.chance(0.35)) opts.push_back(o);
  World w;
  if (r.chance(0.25)) w = soupReference(r, opts);
  else
  {
    bool sig = r.chance(0.3);
    Soup s(r, true);
    s.options(opts);
    s.again = 0.3;
    s.lits = 0.3;
    std::string sigText, body;
    soup(s, sig, sigText, body);
    w = place(r, sig, sigText, body);
  }
  for (auto& o : opts) w.argv.insert(w.argv.begin() + static_cast<long>(r.below(w.argv.size() + 1)), o);
  return w;
}

}  // namespace sim
#include "gen_facets.inc"
#include "gen_print.inc"
