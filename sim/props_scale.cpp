// C26: size and sharing.  Sessions that are known by construction to hold (or to
// fail at a known place), with a number in them that can be large.
#include <string.h>
#include <algorithm>
#include "gen.h"
#include "props.h"

namespace sim {
namespace {

using S = std::string;
S num(long n) { return std::to_string(n); }

const char* const kBase =
    "(declare-const U Type)\n(declare-const a U)\n(declare-const b U)\n(declare-const f (-> U U))\n(declare-const g (-> U U U))\n"
    "(declare-const p Bool)\n(declare-const q Bool)\n"
    "(declare-const Int Type)\n(declare-consts <numeral> Int)\n(declare-const String Type)\n(declare-consts <string> String)\n"
    "(declare-const BitVec (-> Int Type))\n(declare-consts <binary> (BitVec (eo::len eo::self)))\n(declare-consts <hexadecimal> (BitVec (eo::len eo::self)))\n"
    "(declare-const Real Type)\n(declare-consts <rational> Real)\n"
    "(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))\n"
    "(declare-const not (-> Bool Bool))\n"
    "(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)\n"
    "(declare-const or (-> Bool Bool Bool) :left-assoc-nil false)\n"
    "(declare-const ra (-> U U U) :right-assoc)\n(declare-const la (-> U U U) :left-assoc)\n"
    "(declare-const un (-> U U U) :right-assoc-nil a)\n"
    "(declare-const lt (-> U U Bool) :chainable and)\n(declare-const dis (-> U U Bool) :pairwise and)\n"
    "(declare-const al (-> eo::List U) :arg-list eo::List::cons)\n"
    "(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)\n"
    "(declare-const P (-> U Bool))\n"
    "(declare-parameterized-const nth ((n Int)) U)\n"
    "(declare-rule ev ((T Type) (S Type) (t T) (u S)) :args (t u) :requires ((t u)) :conclusion true)\n"
    "(declare-rule typ ((T Type) (S Type) (t S)) :args (T t) :requires (((eo::typeof t) T)) :conclusion true)\n"
    "(declare-rule refl ((T Type) (t T)) :args (t) :conclusion (= t t))\n"
    "(declare-rule andi ((x Bool)) :premise-list x and :conclusion x)\n"
    "(declare-rule ande ((x Bool) (n Int)) :premises (x) :args (n) :conclusion (eo::list_nth and x n))\n"
    "(declare-rule cong ((T Type) (S Type) (x T) (y T) (w (-> T S))) :premises ((= x y)) :args (w) :conclusion (= (w x) (w y)))\n"
    "(declare-rule trans ((T Type) (x T) (y T) (z T)) :premises ((= x y) (= y z)) :conclusion (= x z))\n"
    "(declare-rule sc ((x Bool) (y Bool)) :assumption x :premises (y) :conclusion (not (and x (not y))))\n"
    "(declare-rule trust ((x Bool)) :args (x) :conclusion x :sorry)\n"
    "(declare-rule hyp ((x Bool)) :premises (x) :conclusion x)\n"
    "(program sub ((S Type) (T Type) (V Type) (x S) (y S) (h (-> T V)) (t T) (z V)) :signature (S S V) V (((sub x y x) y) ((sub x y (h t)) (_ (sub x y h) (sub x y t))) ((sub x y z) z)))\n"
    "(program cnt ((n Int) (t U)) :signature (U Int) U (((cnt t n) (eo::ite (eo::is_eq n 0) t (cnt (f t) (eo::add n -1))))))\n"
    "(program dep ((t U)) :signature (U) Int (((dep (f t)) (eo::add 1 (dep t))) ((dep t) 0)))\n"
    "(program gdep ((t U)) :signature (U) Int (((gdep (g t t)) (eo::add 1 (gdep t))) ((gdep t) 0)))\n"
    "(program sum ((n Int) (x Int)) :signature (Int Int) Int (((sum 0 x) x) ((sum n x) (sum (eo::add n -1) (eo::add x n)))))\n"
    "(program odd ((n Int)) :signature (Int) Bool)\n"
    "(program even ((n Int)) :signature (Int) Bool (((even 0) true) ((even n) (odd (eo::add n -1)))))\n"
    "(program odd ((n Int)) :signature (Int) Bool (((odd 0) false) ((odd n) (even (eo::add n -1)))))\n"
    "(program fib ((n Int)) :signature (Int) Int (((fib 0) 0) ((fib 1) 1) ((fib n) (eo::add (fib (eo::add n -1)) (fib (eo::add n -2))))))\n"
    "(program rv ((x Bool) (xs Bool :list)) :signature (Bool) Bool (((rv (and x xs)) (eo::cons and (not x) (rv xs))) ((rv true) true)))\n";

struct Gen
{
  Rng& r;
  S sig, body;
  std::map<S, S> files;
  int steps = 0, part = 0;
  bool sorry = false;
  S argOption;
  explicit Gen(Rng& rr) : r(rr) {}
  S px;  // prefix of names of the current part

  long size(long max, long big = 15000)
  {
    if (max >= 1000 && r.chance(0.1)) max = std::max(max, big);
    if (max > 66000 && r.chance(0.25)) return 65530 + static_cast<long>(r.below(2000));
    static const std::vector<long> edge = {16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 66000, 70000};
    std::vector<long> e;
    for (long x : edge)
      if (x <= max) e.push_back(x);
    if (r.chance(0.4)) return r.pick(e) ;
    double lo = 2, hi = 0;
    for (long m = max; m > 1; m >>= 1) hi++;
    double k = lo + (hi - lo) * (r.below(1000) / 1000.0);
    long v = 1;
    while (k >= 1) { v *= 2; k -= 1; }
    v = static_cast<long>(static_cast<double>(v) * (1 + k)) + static_cast<long>(r.below(7));
    return std::max(2l, std::min(v, max));
  }
  void step(const S& rule, const S& args, const S& concl = "", const S& prem = "")
  {
    body += "(step " + px + "s" + num(steps++) + (concl.empty() ? "" : " " + concl) + " :rule " + rule + (prem.empty() ? "" : " :premises (" + prem + ")") + (args.empty() ? "" : " :args (" + args + ")") + ")\n";
  }
  void is(const S& t, const S& v) { step("ev", t + " " + v); }
  void is(const S& t, long v) { is(t, num(v)); }
  void type(const S& t, const S& ty) { step("typ", ty + " " + t); }
  S rep(const S& x, long n, const S& sep = " ")
  {
    S s;
    s.reserve(static_cast<size_t>(n) * (x.size() + 1));
    for (long i = 0; i < n; i++) { if (i) s += sep; s += x; }
    return s;
  }
  S list(const S& pre, long n, const S& post = "")
  {
    S s;
    for (long i = 0; i < n; i++) s += (i ? " " : "") + pre + num(i) + post;
    return s;
  }
  void consts(const S& pre, long n, const S& ty)
  {
    for (long i = 0; i < n; i++) body += "(declare-const " + pre + num(i) + " " + ty + ")\n";
  }
  // d0 = base, d(i+1) = (g d_i d_i)
  S dag(const S& nm, const S& base, long n, const S& fn = "g")
  {
    body += "(define " + nm + "0 () " + base + ")\n";
    for (long i = 0; i < n; i++) body += "(define " + nm + num(i + 1) + " () (" + fn + " " + nm + num(i) + " " + nm + num(i) + "))\n";
    return nm + num(n);
  }
  S letDag(const S& nm, const S& base, long n, bool def, const S& in, const S& fn = "g")
  {
    S kw = def ? "eo::define" : "let", s = "(" + kw + " ((" + nm + "0 " + base + ")) ";
    for (long i = 0; i < n; i++) s += "(" + kw + " ((" + nm + num(i + 1) + " (" + fn + " " + nm + num(i) + " " + nm + num(i) + "))) ";
    return s + in + S(static_cast<size_t>(n + 1), ')');
  }
  S nest(const S& pre, const S& in, long n) { return rep(pre, n, "") + in + S(static_cast<size_t>(n), ')'); }
};

// A part: adds commands that hold; with `bad` something at their end that does not.
using Part = void (*)(Gen&, bool);

// many arguments
void nary(Gen& g, bool bad)
{
  Rng& r = g.r;
  static const std::vector<S> ops = {"and", "or", "un", "eo::List::cons"};
  S op = r.pick(ops), e = op == "and" || op == "or" ? "p" : "b", o = op == "and" || op == "or" ? "q" : op == "un" ? "(f a)" : "a";
  long n = g.size(r.chance(0.2) ? 70000 : 3000, 70000), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
  S t = "(" + op + (k ? " " : "") + g.rep(e, k) + " " + o + (n - k - 1 ? " " : "") + g.rep(e, n - k - 1) + ")", L = g.px + "L";
  bool scope = r.chance(0.3);
  if (scope) g.body += "(push)\n";
  g.body += "(define " + L + " () " + t + ")\n";
  if (op == "or") k = n - 1 - k;  // the elements of left-associative lists are numbered from the outermost
  g.is("(eo::list_len " + op + " " + L + ")", n);
  switch (r.below(7))
  {
    case 0: g.is("(eo::list_nth " + op + " " + L + " " + num(k) + ")", o); if (bad) g.is("(eo::list_nth " + op + " " + L + " " + num(k) + ")", e); break;
    case 1: g.is("(eo::list_find " + op + " " + L + " " + o + ")", k); if (bad) g.is("(eo::list_find " + op + " " + L + " " + o + ")", k + 1); break;
    case 2:
      g.is("(eo::list_find " + op + " (eo::list_rev " + op + " " + L + ") " + o + ")", n - 1 - k);
      if (bad) g.is("(eo::list_find " + op + " (eo::list_rev " + op + " " + L + ") " + o + ")", n - k);
      break;
    case 3:
      g.is("(eo::list_find " + op + " (eo::list_erase " + op + " " + L + " " + o + ") " + o + ")", -1);
      if (bad) g.is("(eo::list_len " + op + " (eo::list_erase " + op + " " + L + " " + o + "))", n);
      break;
    case 4:
      g.is("(eo::list_len " + op + " (eo::list_concat " + op + " " + L + " " + L + "))", 2 * n);
      if (bad) g.is("(eo::list_find " + op + " (eo::list_concat " + op + " " + L + " " + L + ") " + o + ")", k + n);
      break;
    case 5:
      g.is("(eo::list_len " + op + " (eo::list_erase_all " + op + " " + L + " " + e + "))", 1);
      if (bad) g.is("(eo::list_len " + op + " (eo::list_erase_all " + op + " " + L + " " + o + "))", n);
      break;
    default:
      g.is("(eo::list_len " + op + " (eo::list_setof " + op + " " + L + "))", n == 1 ? 1 : 2);
      if (bad) g.is("(eo::list_nth " + op + " " + L + " " + num(n) + ")", e);
      break;
  }
  if (scope && !bad) { g.body += "(pop)\n"; g.type(e, op == "and" || op == "or" ? "Bool" : "U"); g.is("(eo::is_eq " + e + " " + o + ")", "false"); }
}
void assoc(Gen& g, bool bad)
{
  Rng& r = g.r;
  static const std::vector<S> ops = {"ra", "la", "lt", "al", "dis"};
  S op = r.pick(ops);
  long n = std::max(3l, g.size(op == "dis" ? 60 : 5000));
  S D = g.px + "t";
  g.body += "(define " + D + " () (" + op + " " + g.rep("a", n - 1) + " b))\n";
  if (op == "lt") g.is("(eo::list_len and " + D + ")", n - 1 + bad);
  else if (op == "dis") g.is("(eo::list_len and " + D + ")", n * (n - 1) / 2 - bad);
  else if (op == "al") g.type(D, bad ? "Bool" : "U");
  else if (op == "ra") g.is(D, g.nest("(ra a ", "b", n - 1 - bad));
  else
  {
    S t = g.rep("(la ", n - 1 - bad, "") + "a";
    for (long i = 0; i < n - 2 - bad; i++) t += " a)";
    g.is(D, t + " b)");
  }
}
void premises(Gen& g, bool bad)
{
  Rng& r = g.r;
  long n = g.size(r.chance(0.2) ? 20000 : 2000), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
  bool same = r.chance(0.5);
  S names, h = g.px + "h";
  if (same)
  {
    g.body += "(assume " + h + " p)\n(assume " + h + "q q)\n";
    for (long i = 0; i < n; i++) names += (i ? " " : "") + h + (i == k ? "q" : "");
  }
  else
  {
    for (long i = 0; i < n; i++) g.body += "(assume " + h + num(i) + " " + (i == k ? "q" : "p") + ")\n";
    names = g.list(h, n);
  }
  S all = "(and" + (k ? " " + g.rep("p", k) : S()) + " q" + (n - k - 1 ? " " + g.rep("p", n - k - 1) : S()) + ")";
  if (n == 1) all = "q";
  S s = g.px + "s" + num(g.steps);
  g.step("andi", "", r.chance(0.5) ? all : "", names);
  if (n > 1)
  {
    g.step("ande", num(k), bad ? "p" : "q", s);
    if (k) g.step("ande", num(k - 1), "p", s);
  }
  else if (bad) g.step("hyp", "", "p", s);
}
// deep terms
void deep(Gen& g, bool bad)
{
  Rng& r = g.r;
  long n = g.size(4000);
  S A = g.px + "A", B = g.px + "B";
  int how = static_cast<int>(r.below(3));
  auto make = [&](const S& nm, const S& base, long m) {
    if (how == 0) { g.body += "(define " + nm + " () " + g.nest("(f ", base, m) + ")\n"; return nm; }
    if (how == 1) { g.body += "(define " + nm + " () (cnt " + base + " " + num(m) + "))\n"; return nm; }
    g.body += "(define " + nm + "0 () " + base + ")\n";
    for (long i = 0; i < m; i++) g.body += "(define " + nm + num(i + 1) + " () (f " + nm + num(i) + "))\n";
    return nm + num(m);
  };
  S x = make(A, "a", n), y = make(B, "b", n + (bad ? 1 : 0));
  g.is("(dep " + x + ")", n);
  g.type(x, "U");
  g.is("(eo::is_eq (sub a b " + x + ") " + y + ")", "true");
}
// terms whose trees are far too large
void shared(Gen& g, bool bad)
{
  Rng& r = g.r;
  long n = g.size(600);
  S nm = g.px + "d";
  switch (r.below(9))
  {
    case 0:
    {
      S d = g.dag(nm, "a", n);
      g.type(d, "U");
      g.step("refl", d, "(= " + d + " " + (bad ? nm + num(n - 1) : d) + ")");
      break;
    }
    case 1:
    {
      S d = g.dag(nm, "a", n), e = g.dag(nm + "e", "b", n);
      g.is("(eo::is_eq " + d + " " + e + ")", "false");
      g.is("(sub a b " + d + ")", bad ? d : e);
      break;
    }
    case 2:
    {
      S d = g.dag(nm, "a", n);
      g.is("(gdep " + d + ")", n + bad);
      g.is("(eo::is_eq (eo::hash " + d + ") (eo::hash " + nm + num(n - 1) + "))", "false");
      break;
    }
    case 3:
    {
      // by local definitions
      g.body += "(define " + nm + " ((x U)) " + g.letDag("y", "(g x x)", n, true, "y" + num(n)) + ")\n";
      S d = g.dag(nm + "e", "b", n + 1);
      g.is("(eo::is_eq (" + nm + " b) " + d + ")", bad ? "false" : "true");
      break;
    }
    case 4:
    {
      // a rule about such a term
      S l = g.letDag("y", "(g x x)", n, true, "y" + num(n));
      g.sig += "(declare-rule " + nm + "r ((x U)) :args (x) :conclusion (= " + l + " x))\n";
      S d = g.dag(nm + "e", "b", n + 1);
      g.step(nm + "r", "b", "(= " + d + " " + (bad ? "a" : "b") + ")");
      break;
    }
    case 5:
    {
      // as a pattern
      S l = g.letDag("y", "(g x x)", n, true, "(= y" + num(n) + " z)");
      g.sig += "(declare-rule " + nm + "r ((x U) (z U)) :premises (" + l + ") :conclusion (= z x))\n";
      S d = g.dag(nm + "e", "b", n + 1);
      g.body += "(assume " + nm + "h (= " + d + " a))\n";
      g.step(nm + "r", "", bad ? "(= b a)" : "(= a b)", nm + "h");
      break;
    }
    case 6:
    {
      // under a binder
      g.body += "(assume " + nm + "h (forall ((x U)) " + g.letDag("y", "(g x x)", n, true, "(P y" + num(n) + ")") + "))\n";
      S d = g.dag(nm + "e", "(eo::var \"x\" U)", n + 1);
      g.step("hyp", "", "(forall ((x U)) (P " + (bad ? nm + "e" + num(n) : d) + "))", nm + "h");
      break;
    }
    case 7:
    {
      // formulas
      S d = g.dag(nm, "p", n, "and"), e = g.dag(nm + "e", "q", n, "and");
      g.body += "(assume " + nm + "h " + d + ")\n";
      g.is("(sub p q " + d + ")", e);
      g.step("hyp", "", bad ? e : d, nm + "h");
      break;
    }
    default:
    {
      // types
      g.sig += "(declare-const " + nm + "Pr (-> Type Type Type))\n";
      S d = g.dag(nm, "U", n, nm + "Pr");
      g.body += "(declare-const " + nm + "c " + d + ")\n";
      g.type(nm + "c", bad ? nm + num(n - 1) : d);
      g.step("refl", nm + "c", "(= " + nm + "c " + nm + "c)");
    }
  }
}
// long proofs
void chain(Gen& g, bool bad)
{
  Rng& r = g.r;
  long n = g.size(2000);
  S c = g.px + "c";
  if (r.chance(0.5))
  {
    g.body += "(assume " + c + "0 (= a b))\n";
    for (long i = 0; i < n; i++) g.body += "(step " + c + num(i + 1) + " :rule cong :premises (" + c + num(i) + ") :args (f))\n";
    g.step("hyp", "", "(= " + g.nest("(f ", "a", n) + " " + g.nest("(f ", "b", n + bad) + ")", c + num(n));
  }
  else
  {
    g.consts(c + "k", n + 1, "U");
    for (long i = 0; i < n; i++) g.body += "(assume " + c + "a" + num(i) + " (= " + c + "k" + num(i) + " " + c + "k" + num(i + 1) + "))\n";
    S last = c + "a0";
    for (long i = 1; i < n; i++) { g.body += "(step " + c + "t" + num(i) + " :rule trans :premises (" + last + " " + c + "a" + num(i) + "))\n"; last = c + "t" + num(i); }
    g.step("hyp", "", "(= " + c + "k" + num(bad) + " " + c + "k" + num(n) + ")", last);
  }
}
void scopes(Gen& g, bool bad)
{
  Rng& r = g.r;
  long n = g.size(1500), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
  S c = g.px + "c";
  switch (r.below(4))
  {
    case 0:
      // nested assumptions; the innermost step uses one of them
      for (long i = 0; i < n; i++) g.body += "(assume-push " + c + num(i) + " " + (i == k ? "q" : "p") + ")\n";
      g.body += "(step " + c + "t0 q :rule hyp :premises (" + c + num(k) + "))\n";
      for (long i = 0; i < n; i++) g.body += "(step-pop " + c + "t" + num(i + 1) + " :rule sc :premises (" + c + "t" + num(i) + "))\n";
      if (bad) g.step("hyp", "", "", c + num(k));
      g.type("p", "Bool");
      break;
    case 1:
      g.body += g.rep("(push)", n, "\n") + "\n(declare-const " + c + " U)\n";
      g.type(c, "U");
      g.body += g.rep("(pop)", n, "\n") + "\n";
      if (bad) { if (r.chance(0.5)) g.type(c, "U"); else g.body += "(pop)\n"; }
      g.body += "(declare-const " + c + " Bool)\n";
      g.type(c, "Bool");
      break;
    case 2:
      // one after the other
      for (long i = 0; i < n; i++)
      {
        g.body += "(push)\n(declare-const " + c + " " + (i & 1 ? "U" : "Bool") + ")\n(assume " + c + "h " + (i & 1 ? "(P " + c + ")" : c) + ")\n(pop)\n";
        if (i == k) g.type("a", "U");
      }
      if (bad) g.step("hyp", "", "", c + "h");
      break;
    default:
      for (long i = 0; i < n; i++)
        g.body += "(assume-push " + c + "h " + (i % 3 ? "p" : "(P (f a))") + ")\n(step-pop " + c + "x" + num(i) + " :rule sc :premises (" + c + "h))\n";
      g.step("hyp", "", bad ? "(not (and p (not q)))" : k % 3 ? "(not (and p (not p)))" : "(not (and (P (f a)) (not (P (f a)))))", c + "x" + num(k));
  }
}
// many names
void names(Gen& g, bool bad)
{
  Rng& r = g.r;
  long n = g.size(r.chance(0.2) ? 20000 : 2000), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
  S c = g.px + "n";
  switch (r.below(5))
  {
    case 0:
      for (long i = 0; i < n; i++) g.body += "(declare-const " + c + num(i) + " " + (i == k ? "Bool" : "U") + ")\n";
      g.type(c + num(k), bad ? "U" : "Bool");
      if (k) g.type(c + num(k - 1), "U");
      if (k + 1 < n) g.type(c + num(k + 1), "U");
      break;
    case 1:
      for (long i = 0; i < n; i++) g.body += "(define " + c + num(i) + " ((x U)) (g x " + (i == k ? "b" : "a") + "))\n";
      g.is("(" + c + num(k) + " a)", bad ? "(g a a)" : "(g a b)");
      break;
    case 2:
      for (long i = 0; i < n; i++) g.body += "(assume " + c + num(i) + " (P (nth " + num(i) + ")))\n";
      g.step("hyp", "", "(P (nth " + num(k + bad) + "))", c + num(k));
      break;
    case 3:
    {
      n = std::min(n, 3000l);
      k %= n;
      for (long i = 0; i < n; i++) g.sig += "(declare-rule " + c + num(i) + " () :conclusion " + (i == k ? "(P a)" : "(P b)") + ")\n";
      g.step(c + num(k), "", bad ? "(P b)" : "(P a)");
      break;
    }
    default:
    {
      // one name for many
      n = std::min(n, 400l);
      k %= n;
      for (long i = 0; i < n; i++) g.sig += "(declare-const " + c + "T" + num(i) + " Type)\n";
      for (long i = 0; i < n; i++) g.sig += "(declare-const " + c + "c" + num(i) + " " + c + "T" + num(i) + ")\n(declare-const " + c + "o (-> " + c + "T" + num(i) + " " + c + "T" + num((i + 1) % n) + "))\n";
      g.type("(" + c + "o " + c + "c" + num(k) + ")", c + "T" + num(bad ? k : (k + 1) % n));
      if (bad && n == 1) g.type(c + "c0", "U");
    }
  }
}
// files
void files(Gen& g, bool bad)
{
  Rng& r = g.r;
  S c = g.px + "i";
  bool nested = r.chance(0.3);
  long n = nested ? g.size(60) : g.size(400), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
  for (long i = 0; i < n; i++)
  {
    S t = "(declare-const " + c + num(i) + " " + (i == k ? "Bool" : "U") + ")\n";
    if (nested && i + 1 < n) t += "(include \"" + c + num(i + 1) + ".eo\")\n";
    if (nested && i > 0 && i + 1 == n) t += "(include \"" + c + "0.eo\")\n";
    g.files["/w/" + c + num(i) + ".eo"] = t;
    if (!nested || i == 0) g.body += "(include \"" + c + num(i) + ".eo\")\n";
  }
  g.body += "(include \"./" + c + "0.eo\")\n";
  g.type(c + num(k), bad ? "U" : "Bool");
}
void datatypes(Gen& g, bool bad)
{
  Rng& r = g.r;
  S c = g.px + "D";
  long n = g.size(500), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
  if (r.chance(0.5))
  {
    S t;
    for (long i = 0; i < n; i++) t += " (" + c + "c" + num(i) + (i == k ? " (" + c + "s " + c + ")" : "") + ")";
    g.body += "(declare-datatypes ((" + c + " 0)) ((" + t + ")))\n";
    g.is("(eo::list_len eo::List::cons (eo::dt_constructors " + c + "))", n + bad);
    g.is("(eo::list_nth eo::List::cons (eo::dt_constructors " + c + ") " + num(k) + ")", c + "c" + num(k));
    g.type("(is-" + c + "c" + num(k) + " " + c + "c" + num(k ? k - 1 : n > 1 ? 1 : 0) + ")", n > 1 ? "Bool" : "Bool");
  }
  else
  {
    S t;
    for (long i = 0; i < n; i++) t += " (" + c + "s" + num(i) + " " + (i == k ? "Bool" : "U") + ")";
    g.body += "(declare-datatype " + c + " ((" + c + "mk" + t + ") (" + c + "nil)))\n";
    g.is("(eo::list_len eo::List::cons (eo::dt_selectors " + c + "mk))", n);
    S args;
    for (long i = 0; i < n; i++) args += i == k ? " p" : " a";
    g.type("(" + c + "s" + num(k) + " (" + c + "mk" + args + "))", bad ? "U" : "Bool");
  }
}
void programs(Gen& g, bool bad)
{
  Rng& r = g.r;
  S c = g.px + "P";
  switch (r.below(7))
  {
    case 0: { long n = g.size(4000); g.is("(sum " + num(n) + " 0)", n * (n + 1) / 2 + bad); break; }
    case 1: { long n = g.size(3000); g.is("(even " + num(n) + ")", (n % 2 == 0) != bad ? "true" : "false"); break; }
    case 2: { long n = 1 + static_cast<long>(r.below(88)); unsigned long x = 0, y = 1; for (long i = 0; i < n; i++) { unsigned long z = x + y; x = y; y = z; } g.is("(fib " + num(n) + ")", std::to_string(x + bad)); break; }
    case 3:
    {
      // cases
      long n = g.size(1500), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
      S t;
      for (long i = 0; i < n; i++) t += " ((" + c + " " + num(i) + ") " + (i == k ? "b" : "a") + ")";
      g.sig += "(program " + c + " ((n Int)) :signature (Int) U (" + t + " ((" + c + " n) (f a))))\n";
      g.is("(" + c + " " + num(k) + ")", bad ? "a" : "b");
      g.is("(" + c + " " + num(n) + ")", "(f a)");
      break;
    }
    case 4:
    {
      // parameters
      long n = g.size(300), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
      S ps, tys, as;
      for (long i = 0; i < n; i++) { ps += " (x" + num(i) + " U)"; tys += " U"; as += i == k ? " b" : " a"; }
      g.sig += "(program " + c + " (" + ps + ") :signature (" + tys + ") U (((" + c + " " + g.list("x", n) + ") (f x" + num(k) + "))))\n";
      g.is("(" + c + as + ")", bad ? "(f a)" : "(f b)");
      break;
    }
    case 5:
    {
      // requirements and arguments of rules
      long n = g.size(300), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
      S ps, rq, as;
      for (long i = 0; i < n; i++) { ps += " (x" + num(i) + " U)"; rq += " (x" + num(i) + " " + (i == k ? "b" : "a") + ")"; as += S(i ? " " : "") + (i == k && !bad ? "b" : "a"); }
      g.sig += "(declare-rule " + c + " (" + ps + ") :args (" + g.list("x", n) + ") :requires (" + rq + ") :conclusion (P x" + num(k) + "))\n";
      g.step(c, as, "(P b)");
      break;
    }
    default:
    {
      // lists
      long n = g.size(2000);
      g.is("(rv (and " + g.rep("p", n) + "))", "(and " + g.rep("(not p)", n - (bad && n > 1)) + (bad && n > 1 ? " p" : "") + ")");
      if (bad && n == 1) g.is("(rv (and p))", "(and p)");
    }
  }
}
void literals(Gen& g, bool bad)
{
  Rng& r = g.r;
  long n = g.size(r.chance(0.2) ? 70000 : 4000);
  S d(static_cast<size_t>(n), '9'), z(static_cast<size_t>(n), '0');
  switch (r.below(7))
  {
    case 0: g.is("(eo::add " + d + " 1)", "1" + (bad ? z.substr(0, z.size() - 1) + "1" : z)); break;
    case 1: g.is("(eo::len \"" + S(static_cast<size_t>(n), 'x') + "\")", n + bad); break;
    case 2: g.is("(eo::len #b1" + z + ")", n + 1 + bad); break;
    case 3: g.is("(eo::concat #b1" + z + " #b" + z + "1)", "#b1" + z + z + (bad ? "0" : "1")); break;
    case 4: g.is("(eo::find \"" + S(static_cast<size_t>(n), 'x') + "y\" \"y\")", n - bad); break;
    case 5: g.is("(eo::len (eo::concat \"" + d + "\" \"" + z + "\"))", 2 * n + bad); break;
    default: g.is("(eo::extract #b1" + z + " " + num(n) + " " + num(n) + ")", bad ? "#b0" : "#b1"); g.is("(eo::is_neg -1" + z + ")", "true"); g.is("(eo::mul 1" + z + " 1" + z + ")", "1" + z + z);
  }
}
void lexical(Gen& g, bool bad)
{
  Rng& r = g.r;
  long n = g.size(r.chance(0.3) ? 70000 : 5000);
  S x(static_cast<size_t>(n), 'x'), c = g.px;
  switch (r.below(5))
  {
    case 0:
      g.body += "(declare-const " + c + x + " U)\n(declare-const " + c + x + "y Bool)\n";
      g.type(c + x, bad ? "Bool" : "U");
      g.type(c + x + "y", "Bool");
      break;
    case 1:
      g.body += "(declare-const |" + c + x + " " + x + "| U)\n";
      g.type("|" + c + x + " " + x + "|", "U");
      if (bad) g.type("|" + c + x + "  " + x + "|", "U");
      break;
    case 2:
      g.body += "; " + x + "\n" + S(static_cast<size_t>(n), ' ');
      g.type("a", bad ? "Bool" : "U");
      break;
    case 3:
      g.body += S(static_cast<size_t>(n), '\n');
      g.type("a", bad ? "Bool" : "U");
      break;
    default:
      g.body += "(define " + c + "v () (forall (";
      n = std::min(n, 1500l);
      for (long i = 0; i < n; i++) g.body += "(x" + num(i) + " U)";
      g.body += ") (P x" + num(n - 1 + bad) + ")))\n";
      g.type(c + "v", "Bool");
  }
}
void history(Gen& g, bool bad)
{
  Rng& r = g.r;
  S c = g.px + "k";
  switch (r.below(3))
  {
    case 0:
    {
      // identity over a long time
      long n = g.size(2000, 70000);
      g.body += "(define " + c + "h () (eo::hash (f a)))\n(define " + c + "m () (eo::cmp (f a) (g a b)))\n";
      for (long i = 0; i < n; i++) g.body += "(define " + c + num(i) + " () (eo::hash (f (nth " + num(i) + "))))\n";
      g.is("(eo::hash (f a))", c + "h");
      g.is("(eo::cmp (f a) (g a b))", c + "m");
      for (long d = 1; d < n; d *= 2)
      {
        long i = static_cast<long>(r.below(static_cast<uint64_t>(n - d)));
        g.is("(eo::is_eq " + c + num(i) + " " + c + num(i + d) + ")", "false");
        g.is("(eo::and (eo::cmp (nth " + num(i) + ") (nth " + num(i + d) + ")) (eo::cmp (nth " + num(i + d) + ") (nth " + num(i) + ")))", "false");
      }
      g.is("(eo::is_eq " + c + "0 " + c + num(n - 1) + ")", n == 1 || bad ? "true" : "false");
      if (n == 1 && bad) g.type("a", "Bool");
      break;
    }
    case 1:
    {
      // terms made and dropped
      long n = g.size(2000, 3000), m = 1 + static_cast<long>(r.below(8));
      for (long i = 0; i < n; i++) g.body += "(step " + c + num(i) + " :rule ev :args ((dep (cnt (nth " + num(i) + ") " + num(m) + ")) " + num(m) + "))\n";
      g.is("(dep (cnt a " + num(m) + "))", m + bad);
      break;
    }
    default:
    {
      // an unproven step among many
      long n = g.size(2000), k = static_cast<long>(r.below(static_cast<uint64_t>(n)));
      bool so = r.chance(0.7);
      for (long i = 0; i < n; i++) g.body += "(step " + c + num(i) + (so && i == k ? " p :rule trust :args (p)" : " (= a a) :rule refl :args (a)") + ")\n";
      if (so) g.sorry = true;
      if (bad) g.step("hyp", "", so ? "q" : "p", c + num(k));
    }
  }
}

}  // namespace

static uint64_t textHash(const World& w)
{
  uint64_t h = hashStr("");
  for (auto& f : w.files) h = hashStr(f.second, hashStr(f.first, h));
  for (auto& m : w.input) h = hashStr(m.data, h);
  for (auto& a : w.argv) h = hashStr(a, h);
  return h;
}
Case genC26(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  static const std::vector<std::pair<const char*, Part>> parts = {
      {"many arguments", nary}, {"many operands", assoc}, {"many premises", premises}, {"deep terms", deep}, {"shared terms", shared}, {"shared terms", shared}, {"long derivations", chain}, {"scopes", scopes}, {"names", names}, {"files", files}, {"datatypes", datatypes}, {"programs", programs}, {"literals", literals}, {"tokens", lexical}, {"history", history}};
  Gen g(r);
  int n = r.chance(0.7) ? 1 : 2;
  bool bad = r.chance(0.35);
  std::string echo;
  for (int i = 0; i < n; i++)
  {
    const auto& p = r.pick(parts);
    g.px = std::string(i ? "y" : "x") + "_";
    g.part = i;
    p.second(g, bad && i + 1 == n);
    c.kv[i ? "part2" : "part"] = p.first;
    if (i + 1 < n || !bad) { g.body += "(echo \"" + g.px + "\")\n"; echo += g.px + "\n"; }
  }
  World& w = c.w;
  int place = static_cast<int>(r.below(4));
  w.files = g.files;
  if (place == 0) w.files["/w/main.eo"] = kBase + g.sig + g.body;
  else
  {
    w.files["/w/sig.eo"] = kBase + g.sig;
    std::string t = "(include \"sig.eo\")\n" + g.body;
    if (place == 1) w.files["/w/main.eo"] = t;
    else if (place == 2) w.files["/w/main.proof"] = t;
    else w.input.push_back({t, ""});
  }
  if (place < 2) w.argv.push_back("main.eo");
  else if (place == 2) w.argv.push_back("main.proof");
  if (r.chance(0.1)) w.argv.push_back(r.chance(0.5) ? "--stats" : "--stats-all");
  c.kv["echo"] = echo;
  c.kv["expect"] = bad ? "refused" : g.sorry ? "incomplete" : "correct";
  if (r.chance(0.7)) { w.alloc = randAlloc(r); w.alloc.guard = 0; }
  if (r.chance(0.3)) { w.fileChunk.mode = CH_RANDOM; w.fileChunk.param = 2000 + r.below(9000); }
  if (r.chance(0.3)) { w.stdinChunk.mode = CH_RANDOM; w.stdinChunk.param = 2000 + r.below(9000); }
  c.kv["text"] = std::to_string(textHash(w));
  return c;
}
Verdict judgeC26(const Case& c, Ctx& x)
{
  // what is expected is known of this text only
  if (c.num("text") != textHash(c.w)) return Verdict::skip();
  Result R = x.run(c.w);
  std::string part = c.get("part") + (c.kv.count("part2") ? " + " + c.get("part2") : "");
  x.probe("part " + c.get(c.kv.count("part2") ? "part2" : "part"));
  if (R.end == E_UNSUPPORTED || R.end == E_LOST) return Verdict::skip();
  if (R.end == E_BUDGET) return Verdict::bad("hang", part + ": does not end: " + describe(R));
  if (R.end == E_SIGNAL || R.end == E_DEADLOCK) return Verdict::bad("crash", part + ": " + describe(R));
  std::string e = c.get("expect"), echo = c.get("echo");
  if (e == "refused")
  {
    if (R.success()) return Verdict::bad("accepted", part + ": accepted, although a step does not hold");
    if (!orderlyFail(R)) return Verdict::bad("crash", part + ": fails without a message: " + describe(R));
    if (R.out != echo) return Verdict::bad("output", part + ": printed " + esc(R.out.substr(0, 200)) + " instead of " + esc(echo));
    return Verdict::ok(true);
  }
  if (!R.success()) return Verdict::bad("refused", part + ": refused although everything holds: " + describe(R) + " " + esc(R.err.substr(0, 300)));
  if (R.verdict() != e && c.w.argv.size() < 2) return Verdict::bad("verdict", part + ": " + R.verdict() + " instead of " + e);
  if (R.out.compare(0, echo.size() + e.size() + 1, echo + e + "\n") != 0) return Verdict::bad("output", part + ": printed " + esc(R.out.substr(0, 200)));
  return Verdict::ok(true);
}

}  // namespace sim
