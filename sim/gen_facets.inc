// Sessions about one part of the language each, grown with the reference model
// (included by gen_soup.cpp).
namespace sim {

struct Facets : Soup
{
  using Soup::Soup;
  std::string bad;  // a last command, mostly one that must be refused
  void feedAll(const std::vector<std::string>& cs)
  {
    // together, or one after the other if that does not work
    mdl::Model t = m;
    std::string all;
    for (auto& c : cs) all += c + "\n";
    mdl::Outcome o = t.feed(all, sig);
    if (o.kind == mdl::Outcome::OK || o.kind == mdl::Outcome::INCOMPLETE)
    {
      m = std::move(t);
      for (auto& c : cs) cmds.push_back(c);
      return;
    }
    for (auto& c : cs)
      if (!feed(c) && bad.empty() && r.chance(0.3)) bad = c;
  }
  static std::string digits(Rng& r, int n)
  {
    std::string s;
    for (int i = 0; i < n; i++) s += static_cast<char>('0' + (i == 0 && n > 1 ? 1 + r.below(9) : r.below(10)));
    return s;
  }
  // ---------------------------------------------------------- literals
  std::string numLit()
  {
    static const std::vector<std::string> c = {"0", "1", "2", "3", "4", "5", "7", "8", "10", "255", "256", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"};
    std::string s = r.chance(0.6) ? c[r.chance(0.6) ? r.below(8) : r.below(c.size())] : digits(r, r.chance(0.8) ? r.range(1, 4) : r.range(10, 60));
    return r.chance(0.3) && s != "0" ? "-" + s : s;
  }
  std::string smallNum() { return r.chance(0.06) ? numLit() : std::to_string(r.below(r.chance(0.8) ? 5 : 70)); }
  std::string ratLit()
  {
    std::string s;
    switch (r.below(4))
    {
      case 0: s = digits(r, r.range(1, 3)) + "/" + std::to_string(1 + r.below(12)); break;
      case 1: s = digits(r, r.range(1, 3)) + "." + digits(r, 1) + (r.chance(0.5) ? digits(r, r.range(1, 3)) : ""); break;
      case 2: s = std::to_string(r.below(4)) + (r.chance(0.5) ? ".0" : ".50"); break;
      default: s = digits(r, r.range(1, 25)) + "/" + digits(r, r.range(1, 25)); if (s[s.find('/') + 1] == '0') s += "1"; break;
    }
    return r.chance(0.3) ? "-" + s : s;
  }
  std::string bvLit()
  {
    if (r.chance(0.06)) return "(eo::to_bin " + smallNum() + " " + numLit() + ")";
    std::string s;
    if (r.chance(0.25))
    {
      static const char* h = "0123456789abcdefABCDEF";
      s = "#x";
      for (int n = r.chance(0.8) ? r.range(1, 4) : r.range(14, 20); n > 0; n--) s += h[r.below(22)];
      return s;
    }
    s = "#b";
    static const int ws[] = {1, 1, 2, 3, 4, 4, 4, 8, 31, 32, 33, 63, 64, 65};
    int w = ws[r.below(r.chance(0.7) ? 8 : 14)];
    int style = static_cast<int>(r.below(4));
    for (int i = 0; i < w; i++) s += style == 0 ? '0' : style == 1 ? '1' : static_cast<char>('0' + r.below(2));
    return s;
  }
  std::string strLit()
  {
    static const std::vector<std::string> c = {"", "a", "b", "ab", "ba", "aa", "aba", "abab", "bb", "A", "0", "12", "-5", "\\u{41}", "\\u0042", "\\u{1F600}", "\\u{2ffff}", "\\u{30000}", "\\u{}", "\\u{zz}", "\\x", "\\", "\"\"", "a\"\"b", "\\u{0}", "\\u{a}", "1/2", "a b", "\\u{61}b", "\\u{000061}", "\\u006"};
    std::string s = r.pick(c);
    while (r.chance(0.25)) s += r.pick(c);
    return "\"" + s + "\"";
  }
  enum Sort { NUM, RAT, BV, STR, BOOL, OTHER };
  std::string leaf(int so)
  {
    switch (so)
    {
      case NUM: return r.chance(0.4) ? smallNum() : numLit();
      case RAT: return ratLit();
      case BV: return bvLit();
      case STR: return strLit();
      case BOOL: return r.chance(0.5) ? "true" : "false";
      default: { static const std::vector<std::string> o = {"a", "p", "f", "Int", "Bool", "(f a)", "and", "eo::List::nil", "(g a b)", "not"}; return r.pick(o); }
    }
  }
  std::string lit(int so, int d)
  {
    if (r.chance(0.05)) so = static_cast<int>(r.below(6));
    if (d <= 0 || r.chance(0.25)) return leaf(so);
    auto L = [&](int q) { return " " + lit(q, d - 1); };
    int s2 = static_cast<int>(r.below(5));
    static const std::vector<std::string> bops = {"eo::and", "eo::or", "eo::xor"}, aops = {"eo::add", "eo::mul"};
    if (r.chance(0.06)) return "(eo::ite" + L(BOOL) + L(so) + L(so) + ")";
    if (r.chance(0.03)) { std::string x = lit(s2, d - 1); return "(eo::requires " + x + " " + (r.chance(0.8) ? x : leaf(s2)) + L(so) + ")"; }
    switch (so)
    {
      case NUM:
        switch (r.below(13))
        {
          case 0: case 1: case 2: { std::string s = "(" + r.pick(aops) + L(NUM) + L(NUM); while (r.chance(0.2)) s += L(NUM); return s + ")"; }
          case 3: return "(eo::neg" + L(NUM) + ")";
          case 4: case 5: return "(eo::zdiv" + L(NUM) + L(NUM) + ")";
          case 6: case 7: return "(eo::zmod" + L(NUM) + L(NUM) + ")";
          case 8: return "(eo::to_z" + L(r.chance(0.4) ? RAT : r.chance(0.6) ? BV : r.chance(0.5) ? STR : NUM) + ")";
          case 9: return "(eo::len" + L(r.chance(0.5) ? BV : STR) + ")";
          case 10: return "(eo::find" + L(STR) + L(STR) + ")";
          case 11: return "(eo::cmp " + lit(s2, d - 1) + " " + lit(s2, d - 1) + ")";
          default: return leaf(NUM);
        }
      case RAT:
        switch (r.below(6))
        {
          case 0: case 1: { std::string s = "(" + r.pick(aops) + L(RAT) + L(RAT); while (r.chance(0.2)) s += L(RAT); return s + ")"; }
          case 2: return "(eo::neg" + L(RAT) + ")";
          case 3: { int q = r.chance(0.5) ? RAT : NUM; return "(eo::qdiv" + L(q) + L(q) + ")"; }
          default: return "(eo::to_q" + L(r.chance(0.6) ? NUM : r.chance(0.5) ? BV : RAT) + ")";
        }
      case BV:
        switch (r.below(12))
        {
          case 0: case 1: case 2: case 3:
          {
            // operands of one width
            std::string a = lit(BV, d - 1), b = lit(BV, d - 1);
            if (r.chance(0.8)) b = "(eo::to_bin (eo::len " + a + ") " + leaf(NUM) + ")";
            static const std::vector<std::string> o = {"eo::and", "eo::or", "eo::xor", "eo::add", "eo::mul", "eo::zdiv", "eo::zmod"};
            return "(" + r.pick(o) + " " + a + " " + b + ")";
          }
          case 4: return "(eo::not" + L(BV) + ")";
          case 5: return "(eo::neg" + L(BV) + ")";
          case 6: case 7: return "(eo::concat" + L(BV) + L(BV) + ")";
          case 8: case 9: return "(eo::extract" + L(BV) + " " + smallNum() + " " + smallNum() + ")";
          default: return "(eo::to_bin " + smallNum() + L(r.chance(0.6) ? NUM : BV) + ")";
        }
      case STR:
        switch (r.below(7))
        {
          case 0: case 1: return "(eo::concat" + L(STR) + L(STR) + ")";
          case 2: case 3: return "(eo::extract" + L(STR) + " " + (r.chance(0.2) ? numLit() : smallNum()) + " " + (r.chance(0.2) ? numLit() : smallNum()) + ")";
          case 4: return "(eo::to_str" + L(static_cast<int>(r.below(4))) + ")";
          default: return leaf(STR);
        }
      case BOOL:
        switch (r.below(10))
        {
          case 0: case 1: return "(" + r.pick(bops) + L(BOOL) + L(BOOL) + ")";
          case 2: return "(eo::not" + L(BOOL) + ")";
          case 3: { int q = r.chance(0.5) ? NUM : RAT; return "(eo::gt" + L(q) + L(q) + ")"; }
          case 4: return "(eo::is_neg" + L(r.chance(0.5) ? NUM : RAT) + ")";
          case 5: case 6: return "(eo::is_eq " + lit(s2, d - 1) + " " + lit(s2, d - 1) + ")";
          case 7: { static const std::vector<std::string> o = {"eo::is_z", "eo::is_q", "eo::is_bin", "eo::is_str", "eo::is_bool", "eo::is_ok"}; return "(" + r.pick(o) + " " + lit(s2, d - 1) + ")"; }
          case 8: return "(eo::eq " + lit(s2, d - 1) + " " + lit(s2, d - 1) + ")";
          default: return leaf(BOOL);
        }
      default: return leaf(OTHER);
    }
  }
  void checks(const std::vector<std::string>& ts, int want, double okOnly, double types)
  {
    // what the terms are worth, by the model
    mdl::Model q = m;
    auto v = q.values(ts, false, sig);
    std::vector<std::string> ty;
    if (types > 0) ty = q.values(ts, true, sig);
    std::vector<std::string> cs;
    for (size_t i = 0; i < ts.size() && want > 0; i++)
    {
      std::string n = fresh("s");
      if (types > 0 && !ty[i].empty() && r.chance(types)) { cs.push_back("(step " + n + " :rule typ :args (" + ty[i] + " " + ts[i] + "))"); want--; }
      else if (v[i].empty()) { if (r.chance(0.5)) { cs.push_back("(step " + n + " :rule isok :args (" + ts[i] + " false))"); want--; } }
      else if (v[i] != ts[i] || r.chance(0.1)) { cs.push_back("(step " + n + " :rule " + (r.chance(okOnly) ? "isok :args (" + ts[i] + " true))" : "ev :args (" + ts[i] + " " + v[i] + "))")); want--; }
      if (bad.empty() && r.chance(0.05))
      {
        size_t j = r.below(ts.size());
        if (types > 0 && r.chance(types)) bad = "(step " + fresh("s") + " :rule typ :args (" + ty[j] + " " + ts[i] + "))";
        else bad = "(step " + fresh("s") + " :rule ev :args (" + ts[i] + " " + v[j] + "))";
      }
    }
    feedAll(cs);
  }
  void literals()
  {
    std::vector<std::string> ts;
    for (int i = 0; i < 24; i++) ts.push_back(lit(static_cast<int>(r.below(5)), r.range(1, 3)));
    checks(ts, r.range(6, 16), 0.08, 0.05);
    // through programs and definitions, where operands arrive by matching
    if (r.chance(0.5))
    {
      std::string e = lit(static_cast<int>(r.below(5)), 2);
      std::vector<Var> vs;
      std::string t = abstract(e, vs, 0.5), n = fresh("L"), call;
      if (!vs.empty())
      {
        std::string ps, sg, pat;
        for (auto& x : vs) { ps += "(" + x.name + " " + x.type + ")"; sg += " " + x.type; pat += " " + x.name; call += " " + x.was; }
        std::string rt = typeOf(e);
        if (feed("(program " + n + " (" + ps + ") :signature (" + sg + ") " + (rt.empty() ? "Int" : rt) + " (((" + n + pat + ") " + t + ")))"))
          checks({"(" + n + call + ")", "(eo::is_eq (" + n + call + ") " + e + ")"}, 2, 0, 0);
      }
    }
  }
  // ---------------------------------------------------------- types
  void types()
  {
    std::vector<std::string> ts;
    for (int i = 0; i < 14 && !pool.empty(); i++) ts.push_back(r.chance(0.8) ? some().text : any(2));
    checks(ts, r.range(4, 10), 0.1, 0.75);
    for (int i = r.range(2, 6); i > 0; i--)
    {
      std::function<void()> later;
      std::string c = command(later);
      if (feed(c)) { if (later) later(); if (r.chance(0.4)) grow(1, 12); }
      else if (bad.empty() && r.chance(0.5)) bad = c;
    }
    if (r.chance(0.6) && !pool.empty())
    {
      // one place of a well-typed term is taken by a term of another type
      std::string t = some().text;
      for (int i = 0; i < 6 && t.find(' ') == std::string::npos; i++) t = some().text;
      Sx x = sx(t);
      std::vector<Sx*> sub;
      subterms(x, sub);
      Sx* y = sub[r.below(sub.size())];
      *y = sx(some().text);
      std::string u = x.str(), n = fresh("s");
      switch (r.below(6))
      {
        case 0: bad = "(assume " + n + " " + u + ")"; break;
        case 1: bad = "(define " + n + " () " + u + " :type " + (typeOf(t).empty() ? "Bool" : typeOf(t)) + ")"; break;
        case 2: bad = "(declare-const " + n + " " + (r.chance(0.5) ? u : "(-> " + someType() + " " + u + ")") + ")"; break;
        case 3: bad = "(step " + n + " :rule typ :args (" + (typeOf(t).empty() ? "Bool" : typeOf(t)) + " " + u + "))"; break;
        case 4: { std::vector<Var> vs; std::string b = abstract(u, vs, 0.4); bad = "(declare-rule " + n + " " + params(vs) + " :conclusion " + b + ")"; break; }
        default: bad = "(step " + n + " " + u + " :rule takeb :args (" + t + "))"; break;
      }
    }
  }
  // ---------------------------------------------------------- n-ary
  struct Op { std::string name, arg; };
  void nary()
  {
    std::vector<Op> ops = {{"and", "Bool"}, {"or", "Bool"}, {"=>", "Bool"}, {"=", ""}};
    auto have = [&](const char* n, const char* t) { if (!typeOf(n).empty()) ops.push_back({n, t}); };
    have("ra", "U"); have("la", "U"); have("+", "Int"); have("rns", "U"); have("lns", "U"); have("chn", "U"); have("dis", "U"); have("dis2", "U"); have("chl", "Int"); have("argl", "U"); have("argu", "U"); have("bvor", "#"); have("bvl", "#"); have("cat", "#"); have("@tup", "Bool"); have("two", "U");
    for (int i = r.range(1, 4); i > 0; i--)
    {
      std::string n = fresh("o"), t = r.chance(0.4) ? "U" : r.chance(0.6) ? "Bool" : "Int", c, ty;
      std::string nil = ofTypeOr(t);
      int k = static_cast<int>(r.below(10));
      static const std::vector<std::string> at = {":right-assoc", ":left-assoc", ":right-assoc-nil", ":left-assoc-nil", ":right-assoc-non-singleton-nil", ":left-assoc-non-singleton-nil", ":chainable", ":pairwise", ":arg-list", ""};
      ty = "(-> " + t + " " + t + " " + (k == 6 || k == 7 ? "Bool" : t) + ")";
      if (k == 8) ty = r.chance(0.6) ? "(-> eo::List " + t + ")" : "(-> " + t + " " + t + ")";
      c = "(declare-const " + n + " " + ty;
      if (k == 9) c += "";
      else if (k <= 1) c += " " + at[static_cast<size_t>(k)];
      else if (k <= 5) c += " " + at[static_cast<size_t>(k)] + " " + nil;
      else if (k <= 7) c += " " + at[static_cast<size_t>(k)] + " " + (r.chance(0.5) ? "and" : "or");
      else c += " :arg-list " + (ty.find("List") != std::string::npos ? std::string("eo::List::cons") : ops[r.below(ops.size())].name);
      c += ")";
      if (feed(c)) { ops.push_back({n, t}); names.push_back(n); }
      else if (bad.empty() && r.chance(0.1)) bad = c;
    }
    std::vector<std::string> ts;
    auto app = [&](const Op& o, int n) {
      std::string s = "(" + o.name, t = o.arg;
      if (t.empty()) t = r.chance(0.5) ? "U" : "Bool";
      for (; n > 0; n--)
      {
        std::string x = t == "#" ? bvLit() : r.chance(0.07) ? any(1) : ofTypeOr(t);
        if (t == "#" && r.chance(0.8)) x = n % 2 ? "#b01" : "#b10";
        s += " " + x;
      }
      return s + ")";
    };
    static const int ns[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 8};
    for (int i = 0; i < 16; i++)
    {
      const Op& o = r.pick(ops);
      std::string t = app(o, ns[r.below(10)]);
      if (r.chance(0.3))
      {
        static const std::vector<std::string> l1 = {"eo::list_rev", "eo::list_setof", "eo::list_len", "eo::list_singleton_elim"}, l2 = {"eo::list_concat", "eo::list_erase", "eo::list_erase_all", "eo::list_diff", "eo::list_inter", "eo::list_minclude", "eo::list_meq", "eo::list_find", "eo::list_nth", "eo::cons", "eo::nil"};
        std::string f = r.pick(l2), b = f == "eo::list_nth" ? smallNum() : f == "eo::cons" || r.chance(0.3) ? (o.arg.empty() || o.arg == "#" ? any(1) : ofTypeOr(o.arg)) : app(o, ns[r.below(6)]);
        std::string q = f == "eo::cons" ? b + " " + t : t + " " + b;
        t = r.chance(0.3) ? "(" + r.pick(l1) + " " + o.name + " " + t + ")" : "(" + f + " " + o.name + " " + q + ")";
      }
      ts.push_back(t);
    }
    learn(ts);
    checks(ts, r.range(5, 12), 0.05, 0.1);
    // patterns and bodies with :list variables
    for (int i = r.range(1, 3); i > 0; i--)
    {
      const Op& o = r.pick(ops);
      std::string t = o.arg.empty() ? "Bool" : o.arg;
      if (t == "#") continue;
      std::string n = fresh("v"), pat = "(" + o.name, bod = "(" + r.pick(ops).name, ps;
      int nv = r.range(1, 3), nl = 0;
      for (int j = 0; j < nv; j++)
      {
        bool l = r.chance(0.45);
        nl += l;
        ps += "(x" + std::to_string(j) + " " + t + (l ? " :list)" : ")");
        pat += " x" + std::to_string(j);
      }
      for (int j = r.range(1, 4); j > 0; j--) bod += r.chance(0.75) ? " x" + std::to_string(r.below(static_cast<uint64_t>(nv))) : " " + ofTypeOr(t);
      pat += ")";
      bod += ")";
      if (r.chance(0.4)) bod = "(" + o.name + bod.substr(bod.find(' '));
      std::string rt = r.chance(0.8) ? t : "Bool";
      if (r.chance(0.35))
      {
        if (feed("(define " + n + " (" + ps + ") " + bod + ")"))
        {
          std::string call = "(" + n;
          for (int j = 0; j < nv; j++) call += " " + (r.chance(0.5) ? app(o, ns[r.below(5)]) : ofTypeOr(t));
          checks({call + ")"}, 1, 0, 0.2);
        }
        continue;
      }
      if (feed("(program " + n + " (" + ps + ") :signature (" + t + ") " + rt + " (((" + n + " " + pat + ") " + bod + ")))"))
      {
        std::vector<std::string> cs;
        for (int j = 0; j < 4; j++) cs.push_back("(" + n + " " + app(o, ns[r.below(8)]) + ")");
        checks(cs, 4, 0, 0.1);
      }
    }
    if (bad.empty() && r.chance(0.3)) { const Op& o = r.pick(ops); bad = "(define " + fresh("s") + " () " + app(o, ns[r.below(10)]) + " :type " + (r.chance(0.5) ? "Bool" : o.arg.empty() || o.arg == "#" ? "U" : o.arg) + ")"; }
  }
  // ---------------------------------------------------------- datatypes
  void datatypes()
  {
    struct Con { std::string name; std::vector<std::string> sel; int dt; };
    struct Dt { std::string name; int ar; };
    std::vector<Dt> dts;
    std::vector<Con> cons;
    for (int round = r.range(1, 3); round > 0; round--)
    {
      int n = r.chance(0.5) ? 1 : r.range(2, 3);
      std::vector<Dt> nd;
      for (int i = 0; i < n; i++) nd.push_back({fresh("D"), r.chance(0.35) ? r.range(1, 2) : 0});
      std::vector<Con> nc;
      std::string defs;
      for (int i = 0; i < n; i++)
      {
        std::string d;
        static const char* xs[] = {"X", "Y"};
        auto inst = [&](const Dt& t) {
          std::string s = t.name;
          for (int j = 0; j < t.ar; j++) s += " " + (nd[static_cast<size_t>(i)].ar > 0 && r.chance(0.7) ? std::string(xs[r.below(static_cast<uint64_t>(nd[static_cast<size_t>(i)].ar))]) : someType());
          return t.ar ? "(" + s + ")" : s;
        };
        for (int k = r.range(1, 3); k > 0; k--)
        {
          Con c;
          c.name = fresh("k");
          c.dt = static_cast<int>(dts.size()) + i;
          d += " (" + c.name;
          for (int j = static_cast<int>(r.below(4)); j > 0; j--)
          {
            c.sel.push_back(r.chance(0.02) && !c.sel.empty() ? c.sel[0] : fresh("f"));
            double u = r.below(100) / 100.0;
            std::string ty = u < 0.4 ? inst(r.pick(nd)) : u < 0.6 && nd[static_cast<size_t>(i)].ar ? std::string(xs[r.below(static_cast<uint64_t>(nd[static_cast<size_t>(i)].ar))]) : u < 0.75 && !dts.empty() ? inst(r.pick(dts)) : someType();
            d += " (" + c.sel.back() + " " + ty + ")";
          }
          d += ")";
          nc.push_back(c);
        }
        int ar = nd[static_cast<size_t>(i)].ar;
        d = ar ? std::string("(par (X") + (ar > 1 ? " Y" : "") + ") (" + d + "))" : "(" + d + ")";
        defs += " " + d;
      }
      std::string c;
      if (n == 1) c = "(declare-datatype " + nd[0].name + defs + ")";
      else
      {
        c = "(declare-datatypes (";
        for (auto& t : nd) c += "(" + t.name + " " + std::to_string(t.ar) + ")";
        c += ") (" + defs + "))";
      }
      if (!feed(c)) { if (bad.empty() && r.chance(0.3)) bad = c; continue; }
      for (auto& t : nd) dts.push_back(t);
      for (auto& k : nc) { cons.push_back(k); names.push_back(k.name); for (auto& s : k.sel) names.push_back(s); names.push_back("is-" + k.name); }
    }
    if (cons.empty()) return;
    std::vector<std::string> ts;
    for (auto& d : dts)
    {
      std::string s = d.name;
      for (int j = 0; j < d.ar; j++) s += " " + someType();
      if (d.ar) s = "(" + s + ")";
      ts.push_back(s);
      ts.push_back("(eo::dt_constructors " + (r.chance(0.8) ? s : d.name) + ")");
      for (auto& c : cons)
        if (dts[static_cast<size_t>(c.dt)].name == d.name)
        {
          ts.push_back(c.name);
          ts.push_back("is-" + c.name);
          ts.push_back("(eo::dt_selectors " + c.name + ")");
          if (d.ar) { ts.push_back("(as " + c.name + " " + s + ")"); ts.push_back("(eo::dt_selectors (as " + c.name + " " + s + "))"); }
          for (auto& f : c.sel) { ts.push_back(f); if (r.chance(0.4)) ts.push_back("update-" + f); }
        }
    }
    learn(ts);
    for (int i = 0; i < 12; i++)
    {
      const Con& c = r.pick(cons);
      std::string s = c.name;
      if (dts[static_cast<size_t>(c.dt)].ar && r.chance(0.3)) s = "(as " + c.name + " " + (ofType("Type").empty() ? "U" : ofType("Type")) + ")";
      if (!c.sel.empty() || r.chance(0.1))
      {
        s = "(" + s;
        for (size_t j = 0; j < c.sel.size() + (r.chance(0.05) ? 1 : 0); j++) s += " " + some().text;
        s += ")";
      }
      if (r.chance(0.4)) s = "(" + (r.chance(0.5) || c.sel.empty() ? "is-" + r.pick(cons).name : r.pick(c.sel)) + " " + s + ")";
      ts.push_back(s);
    }
    std::vector<std::string> ord;
    while (!ts.empty()) { size_t i = r.below(ts.size()); ord.push_back(ts[i]); ts.erase(ts.begin() + static_cast<long>(i)); }
    checks(ord, r.range(8, 20), 0.05, 0.5);
    grow(2, 15);
    std::vector<std::string> more;
    for (int i = 0; i < 8; i++) more.push_back(some().text);
    checks(more, 5, 0.05, 0.6);
    if (bad.empty() && r.chance(0.4))
    {
      const Con& c = r.pick(cons);
      std::string s = c.name;
      int k = static_cast<int>(r.below(4));
      if (k == 0) s = "(" + c.name + " " + some().text + ")";
      else if (k == 1) s = "(is-" + c.name + " " + some().text + ")";
      else if (k == 2) s = "(" + (c.sel.empty() ? "is-" + c.name : r.pick(c.sel)) + " " + r.pick(cons).name + ")";
      else s = (r.chance(0.5) ? "is_" : "get-") + c.name;
      bad = "(define " + fresh("s") + " () " + s + (r.chance(0.5) ? " :type Bool)" : ")");
    }
  }
};

World facetWorkload(Rng& r, int facet)
{
  bool sig = r.chance(0.5);
  Facets s(r, true);
  for (const char* c : kBase) s.feed(c);
  std::vector<std::string> more;
  double keep = facet == 0 ? 0.12 : facet == 3 ? 0.15 : r.chance(0.3) ? 0.9 : 0.45;
  for (int i = 0; i < static_cast<int>(sizeof kMore / sizeof *kMore); i++)
  {
    std::string c = kMore[i];
    bool lit = c.find("(declare-const Real") == 0 || c.find("(declare-consts") == 0;
    if (r.chance(lit ? (facet == 0 ? 0.95 : 0.6) : keep)) more.push_back(c);
  }
  s.feedAll(more);
  std::vector<std::string> rules;
  for (const char* c : kRules) rules.push_back(c);
  s.feedAll(rules);
  s.bad.clear();
  std::vector<std::string> pre = s.cmds;
  s.cmds.clear();
  s.sig = sig;
  {
    std::vector<std::string> t;
    for (const char* a : kAtoms) t.push_back(a);
    s.learn(t);
  }
  if (facet == 1 || facet == 2) s.grow(r.range(1, 4), 15);
  for (int i = r.chance(0.3) ? 2 : 1; i > 0; i--)
    switch (facet)
    {
      case 0: s.literals(); break;
      case 1: s.types(); break;
      case 2: s.nary(); break;
      default: s.datatypes(); break;
    }
  std::string sigText, body;
  for (auto& c : pre) sigText += c + "\n";
  for (auto& c : s.cmds) body += c + "\n";
  if (!s.bad.empty() && r.chance(0.6)) body += s.bad + "\n";
  World w;
  if (sig)
  {
    w.files["/w/sig.eo"] = sigText;
    w.files["/w/main.eo"] = "(include \"sig.eo\")\n" + body;
    w.argv.push_back("main.eo");
    return w;
  }
  w.files["/w/sig.eo"] = sigText;
  body = "(include \"sig.eo\")\n" + body;
  if (r.chance(0.5)) setStdin(w, body);
  else { w.files["/w/main.proof"] = body; w.argv.push_back("main.proof"); }
  return w;
}

}  // namespace sim
