// Reference model, part 2: symbols, scopes, files and commands.
#include <algorithm>
#include <string.h>
#include "model.h"

namespace sim {
namespace mdl {

Model::Model() { initBuiltins(); }

void Model::initBuiltins()
{
  Node x;
  x.k = K_TYPE;
  TYPE = add(Node(x));
  x.k = K_BOOLT;
  BOOLT = add(Node(x));
  x.k = K_ANY;
  ANY = add(Node(x));
  typeCache_[TYPE] = typeCache_[BOOLT] = typeCache_[ANY] = TYPE;
  x.k = K_BOOL;
  x.b = true;
  TRUE_ = lit(Node(x));
  x.b = false;
  FALSE_ = lit(Node(x));
  static const struct { const char* n; K k; } ops[] = {
      {"->", K_FUN}, {"_", K_APPLY}, {"as", K_ASRET}, {"eo::as", K_AS}, {"eo::dt_constructors", E_DTCONS}, {"eo::dt_selectors", E_DTSEL},
      {"eo::is_ok", E_IS_OK}, {"eo::is_eq", E_IS_EQ}, {"eo::eq", E_EQ}, {"eo::ite", E_ITE}, {"eo::requires", E_REQ}, {"eo::hash", E_HASH},
      {"eo::nameof", E_NAMEOF}, {"eo::typeof", E_TYPEOF}, {"eo::var", E_VAR}, {"eo::cmp", E_CMP}, {"eo::is_z", E_IS_Z}, {"eo::is_q", E_IS_Q},
      {"eo::is_bin", E_IS_BIN}, {"eo::is_str", E_IS_STR}, {"eo::is_bool", E_IS_BOOL}, {"eo::is_var", E_IS_VAR},
      {"eo::nil", E_NIL}, {"eo::cons", E_CONS}, {"eo::list_len", E_LLEN}, {"eo::list_concat", E_LCONCAT}, {"eo::list_nth", E_LNTH},
      {"eo::list_find", E_LFIND}, {"eo::list_erase", E_LERASE}, {"eo::list_erase_all", E_LERASEALL}, {"eo::list_rev", E_LREV},
      {"eo::list_setof", E_LSETOF}, {"eo::list_minclude", E_LMINC}, {"eo::list_meq", E_LMEQ}, {"eo::list_diff", E_LDIFF},
      {"eo::list_inter", E_LINTER}, {"eo::list_singleton_elim", E_LSING},
      {"eo::not", E_NOT}, {"eo::and", E_AND}, {"eo::or", E_OR}, {"eo::xor", E_XOR}, {"eo::add", E_ADD}, {"eo::neg", E_NEG}, {"eo::mul", E_MUL},
      {"eo::zdiv", E_ZDIV}, {"eo::zmod", E_ZMOD}, {"eo::qdiv", E_QDIV}, {"eo::is_neg", E_IS_NEG}, {"eo::to_z", E_TOZ}, {"eo::to_q", E_TOQ},
      {"eo::to_bin", E_TOBIN}, {"eo::to_str", E_TOSTR}, {"eo::gt", E_GT}, {"eo::len", E_LEN}, {"eo::concat", E_CONCAT}, {"eo::extract", E_EXTRACT}, {"eo::find", E_FIND}};
  for (auto& o : ops)
  {
    int e = sym(K_BUILTIN, o.n, ANY);
    info_[e].builtin = o.k;
    sym_[o.n] = e;
  }
  sym_["true"] = TRUE_;
  sym_["false"] = FALSE_;
  sym_["eo::List"] = LIST = sym(K_CONST, "eo::List", TYPE);
  sym_["eo::List::nil"] = LNIL = sym(K_CONST, "eo::List::nil", LIST);
  int t = sym(K_PARAM, "T", TYPE);
  sym_["eo::List::cons"] = LCONS = sym(K_CONST, "eo::List::cons", mkFun({t, LIST}, LIST));
  mark(LCONS, A_RIGHT_NIL, LNIL);
  SELF = sym(K_PARAM, "eo::self", ANY);
  PROOFT = sym(K_CONST, "eo::Proof", TYPE);
  sym0_ = sym_;
}
std::string Model::word(const std::string& s)
{
  std::string o;
  for (char c : esc(s)) o += c == ' ' ? std::string("\\x20") : std::string(1, c);
  return o;
}
void Model::mark(int e, A a, int cons)
{
  Info& i = info_[e];
  if (i.attr != A_NONE) return;
  static const char* const names[] = {"", "list", "left", "right", "left-nil", "right-nil", "left-ns", "right-ns", "chain", "pair", "arg-list", "binder", "let-binder", "opaque", "program", "rule", "amb", "dt", "dt-cons", "amb-dt-cons"};
  if (plugOn_ && N(e).name[0] != '$') ev("M " + word(N(e).name) + " " + names[a]);
  i.attr = a;
  i.cons = cons;
}

// ---------------------------------------------------------------- scopes
bool Model::bind(const std::string& name, int e)
{
  if (plugOn_) ev("B " + word(name));
  if (ruleTable_ && N(e).k == K_RULE) return rules_.emplace(name, e).second;
  auto its = sym_.find(name);
  if (its != sym_.end())
  {
    Info& i = info_[e];
    std::vector<int>& ov = ov_[name];
    // one term that is bound more than once: what ethos does depends on the
    // order in which the names go out of scope
    if ((i.overloaded && i.ovName != name) || its->second == e || std::find(ov.begin(), ov.end(), e) != ov.end()) i.tainted = true;
    i.overloaded = true;
    i.ovName = name;
    if (ov.empty()) ov.push_back(its->second);
    ov.push_back(e);
    if (!scopes_.empty()) ovDecls_.push_back(name);
    else marks.hidden++;
  }
  sym_[name] = e;
  if (!scopes_.empty()) decls_.push_back(name);
  return true;
}
void Model::pushScope() { ev("("); scopes_.push_back(decls_.size()); }
void Model::popScope()
{
  ev(")");
  if (scopes_.empty()) throw Reject{"pop without push"};
  if (!asmScopes_.empty() && scopes_.size() == asmScopes_.back()) throw Reject{"pop of an assumption scope"};
  marks.scopesClosed++;
  size_t last = scopes_.back();
  scopes_.pop_back();
  while (decls_.size() > last)
  {
    std::string d = decls_.back();
    decls_.pop_back();
    if (!ovDecls_.empty() && ovDecls_.back() == d)
    {
      ovDecls_.pop_back();
      std::vector<int>& ov = ov_[d];
      int prev = ov.back();
      ov.pop_back();
      Info& i = info_[prev];
      if (i.ovName == d && std::find(ov.begin() + 1, ov.end(), prev) == ov.end()) i.overloaded = false;
      sym_[d] = ov.back();
      if (ov.size() == 1) ov_.erase(d);
      marks.unbound++;
      continue;
    }
    sym_.erase(d);
  }
}
void Model::popAsm()
{
  asms_.resize(asmSizes_.back());
  asmSizes_.pop_back();
  if (scopes_.size() != asmScopes_.back()) throw Reject{"open scope within assumption scope"};
  asmScopes_.pop_back();
  popScope();
}
void Model::reset()
{
  marks.resets++;
  sym_ = sym0_;
  rules_.clear();
  ov_.clear();
  decls_.clear();
  ovDecls_.clear();
  scopes_.clear();
  asmScopes_.clear();
  asmSizes_.clear();
  asms_.clear();
  litRule_.clear();
  for (auto i = typeCache_.begin(); i != typeCache_.end();)
  {
    K k = N(i->first).k;
    if ((k > K_BOOL && k <= K_STR) || !N(i->first).ch.empty()) i = typeCache_.erase(i);
    else ++i;
  }
  included_ = std::set<std::string>(reading_.begin(), reading_.end());
  hash_.clear();
  hashCnt_ = 0;
  ev("R");
}

// ---------------------------------------------------------------- tokens
static bool isDigit(int c) { return c >= '0' && c <= '9'; }
static bool symStart(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c > 0 && strchr("+-/*=%?!.$_~&^<>@", c)); }
static bool symChar(int c) { return symStart(c) || isDigit(c) || c == ':'; }

Model::T Model::lex()
{
  burn();
  In& in = *in_;
  const std::string& d = in.data;
  size_t& p = in.pos;
  auto at = [&](size_t i) -> int { return i < d.size() ? static_cast<unsigned char>(d[i]) : -1; };
  for (;;)
  {
    while (p < d.size() && (d[p] == ' ' || d[p] == '\t' || d[p] == '\r' || d[p] == '\n')) p++;
    if (at(p) != ';') break;
    while (p < d.size() && d[p] != '\n') p++;
  }
  in.text.clear();
  if (p >= d.size()) return T_EOF;
  size_t b = p;
  int c = at(p++);
  auto take = [&]() { in.text = d.substr(b, p - b); if (in.text.find('\0') != std::string::npos) throw Unknown{"NUL"}; };
  auto many = [&](auto pred) { size_t n = 0; while (p < d.size() && pred(at(p))) p++, n++; return n; };
  switch (c)
  {
    case 0: throw Unknown{"NUL"};
    case '(': take(); return T_LP;
    case ')': take(); return T_RP;
    case '|':
      while (p < d.size() && d[p] != '|') p++;
      if (p >= d.size()) throw Reject{"unterminated quoted symbol"};
      p++;
      take();
      return T_QSYM;
    case '#':
      c = at(p++);
      if (c == 'b')
      {
        if (!many([](int x) { return x == '0' || x == '1'; })) throw Reject{"#b"};
        take();
        return T_BIN;
      }
      if (c == 'x')
      {
        if (!many([](int x) { return isDigit(x) || (x >= 'a' && x <= 'f') || (x >= 'A' && x <= 'F'); })) throw Reject{"#x"};
        take();
        return T_HEX;
      }
      throw Reject{"#"};
    case '"':
      for (;;)
      {
        if (p >= d.size()) throw Reject{"unterminated string"};
        if (d[p++] == '"')
        {
          if (at(p) != '"') break;
          p++;
        }
      }
      take();
      return T_STR;
    case ':':
      if (!symStart(at(p))) throw Reject{"keyword"};
      p++;
      many(symChar);
      take();
      return T_KEY;
    default: break;
  }
  if (isDigit(c))
  {
    T t = T_INT;
    many(isDigit);
    if (at(p) == '.' || at(p) == '/')
    {
      t = at(p++) == '.' ? T_DEC : T_RAT;
      if (!many(isDigit)) throw Reject{"decimal"};
    }
    take();
    return t;
  }
  if (!symStart(c)) throw Reject{"character"};
  many(symChar);
  take();
  const std::string& s = in.text;
  if (s == "!") return T_ATTR;
  if (s == "eo::define") return T_DEFINE;
  if (s == "par") return T_PAR;
  if (s == "let" && in.lexLet) return T_LET;
  if (s == "Bool") return T_BOOLT;
  if (s == "Type" && in.lexType) return T_TYPET;
  if (s[0] == '-' && s.size() >= 2)
  {
    T t = T_INT;
    for (size_t i = 1; i < s.size(); i++)
    {
      if (isDigit(s[i])) continue;
      if (i + 1 < s.size() && t == T_INT && (s[i] == '.' || s[i] == '/'))
      {
        t = s[i] == '.' ? T_DEC : T_RAT;
        continue;
      }
      return T_SYM;
    }
    if (t != T_INT && !isDigit(s[1])) throw Unknown{"number without integral part"};
    return t;
  }
  return T_SYM;
}
Model::T Model::next()
{
  if (in_->back.empty()) return lex();
  T t = in_->back.back();
  in_->back.pop_back();
  return t;
}
Model::T Model::peek()
{
  if (!in_->back.empty()) throw Unknown{"peek twice"};
  T t = lex();
  unget(t);
  return t;
}
void Model::eat(T t)
{
  if (next() != t) throw Reject{"token"};
}
bool Model::eatChoice(T yes, T no)
{
  T t = next();
  if (t == yes) return true;
  if (t != no) throw Reject{"token"};
  return false;
}
std::string Model::asSymbol(T t)
{
  if (t == T_SYM) return in_->text;
  if (t == T_QSYM) return in_->text.substr(1, in_->text.size() - 2);
  throw Reject{"symbol expected"};
}
std::string Model::symbolTok() { return asSymbol(next()); }
std::string Model::keywordTok()
{
  eat(T_KEY);
  return in_->text.substr(1);
}
std::string Model::unescape(const std::string& s)
{
  std::string o;
  for (size_t i = 1; i + 1 < s.size(); i++)
  {
    if (static_cast<unsigned char>(s[i]) > 127) throw Reject{"character in string"};
    o += s[i];
    if (s[i] == '"') i++;
  }
  return o;
}
std::string Model::stringTok()
{
  eat(T_STR);
  return unescape(in_->text);
}
size_t Model::numeralTok()
{
  eat(T_INT);
  const std::string& s = in_->text;
  if (s.size() > 1 && s[0] == '0') throw Reject{"leading zeros"};
  if (s[0] == '-' || s.size() > 10 || strtoull(s.c_str(), nullptr, 10) > 0xffffffffull) throw Reject{"numeral out of range"};
  if (s.size() > 5) throw Unknown{"numeral"};
  return strtoull(s.c_str(), nullptr, 10);
}
void Model::skipSexpr()
{
  size_t depth = 0;
  do
  {
    T t = next();
    if (t == T_LP) depth++;
    if (t == T_RP && depth == 0) throw Reject{"no s-expression"};
    if (t == T_RP) depth--;
    if (t == T_EOF) throw Reject{"end in s-expression"};
  } while (depth);
}

static bool knownAttr(const std::string& k)
{
  static const std::set<std::string> s = {":implicit", ":type", ":list", ":left-assoc", ":right-assoc", ":left-assoc-nil", ":right-assoc-nil", ":left-assoc-non-singleton-nil", ":right-assoc-non-singleton-nil", ":chainable", ":pairwise", ":binder", ":let-binder", ":arg-list", ":opaque", ":syntax", ":restrict", ":sorry"};
  return s.count(k);
}
// ---------------------------------------------------------------- terms
int Model::need(const std::string& name)
{
  auto i = sym_.find(name);
  if (i == sym_.end()) throw Reject{"no symbol " + name};
  if (N(i->second).k == K_RULE) throw Unknown{"rule as a term"};
  if (!ruleTable_)
  {
    auto o = ov_.find(name);
    if (o != ov_.end())
      for (int e : o->second)
        if (N(e).k == K_RULE) throw Unknown{"rule as a term"};
  }
  return i->second;
}
bool Model::setOption(const std::string& key, bool v)
{
  if (key == "normalize-num") normNum_ = v;
  else if (key == "normalize-dec") normDec_ = v;
  else if (key == "normalize-hex") normHex_ = v;
  else if (key == "parse-let") parseLet_ = v;
  else if (key == "rule-sym-table") ruleTable_ = v;
  else if (key == "stats") stats_ = v;
  else if (key == "stats-all" || key == "stats-compact") stats_ = v || stats_;
  else return key == "print-dag";
  return true;
}
int Model::binder(int v)
{
  std::vector<int> vs = sortedVars(VK_LOOKUP);
  if (vs.empty()) throw Reject{"empty variable list"};
  return binderList(v, vs);
}
int Model::binderList(int v, const std::vector<int>& vs)
{
  std::vector<int> l{info_[v].cons};
  l.insert(l.end(), vs.begin(), vs.end());
  return mkExpr(K_APPLY, l);
}
int Model::letBinder(int v)
{
  std::vector<std::pair<int, int>> ls;
  eat(T_LP);
  while (eatChoice(T_LP, T_RP))
  {
    std::string name = symbolTok();
    int e = expr();
    eat(T_RP);
    ls.emplace_back(boundVar(name, typed(e)), e);
  }
  if (ls.empty()) throw Reject{"empty let list"};
  int cons = info_[v].cons;
  if (N(cons).k != K_TUPLE) throw Unknown{"let-binder with parameters"};
  for (auto& l : ls)
  {
    if (N(l.first).k != K_VAR) throw Unknown{"let variable of a type with parameters"};
    bindOrReject(N(l.first).name, l.first);
  }
  std::vector<int> r{N(cons).ch[1]};
  for (auto& l : ls) r.push_back(mkExpr(K_APPLY, {N(cons).ch[0], l.first, l.second}));
  return mkExpr(K_APPLY, r);
}
int Model::expr()
{
  Deep d(*this);
  T t = next();
  std::string s = in_->text;
  switch (t)
  {
    case T_LP:
    {
      t = next();
      if (t == T_LET || t == T_DEFINE)
      {
        std::vector<std::pair<std::string, int>> bs;
        eat(T_LP);
        while (eatChoice(T_LP, T_RP))
        {
          std::string n = symbolTok();
          int e = expr();
          bs.emplace_back(n, e);
          eat(T_RP);
        }
        pushScope();
        for (auto& b : bs) bindOrReject(b.first, b.second);
        int e = expr();
        eat(T_RP);
        popScope();
        return e;
      }
      if (t == T_ATTR)
      {
        int e = expr();
        while (eatChoice(T_KEY, T_RP))
        {
          if (knownAttr(in_->text)) throw Reject{"attribute of term"};
          unknownAttr();
          warned_ = true;
        }
        return e;
      }
      bool outer = false;
      if (t == T_LP)
      {
        outer = true;
        t = next();
        std::string n = asSymbol(t);
        if (n != "_" && n != "as") throw Reject{"head"};
      }
      int v = need(asSymbol(t));
      std::vector<int> args{v};
      bool scope = false;
      A at = attrOf(v);
      if (at == A_BINDER || at == A_LETB)
      {
        T t1 = next();
        if (t1 == T_LP)
        {
          T t2 = peek();
          unget(T_LP);
          if (t2 == T_LP)
          {
            scope = true;
            pushScope();
            args.push_back(at == A_BINDER ? binder(v) : letBinder(v));
          }
        }
        else unget(t1);
      }
      for (;;)
      {
        T x = next();
        if (x == T_RP) break;
        unget(x);
        args.push_back(expr());
      }
      int e = mkExpr(K_APPLY, args);
      if (scope) popScope();
      if (!outer) return e;
      std::vector<int> a2{e};
      for (;;)
      {
        T x = next();
        if (x == T_RP) break;
        unget(x);
        a2.push_back(expr());
      }
      return mkExpr(K_APPLY, a2);
    }
    case T_SYM: case T_QSYM:
    {
      int e = need(asSymbol(t));
      if (N(e).k == K_BUILTIN) throw Reject{"builtin as a term"};
      return e;
    }
    case T_INT:
    {
      size_t b = s[0] == '-' ? 1 : 0;
      if (s.size() > b + 1 && s[b] == '0') throw Unknown{"leading zeros"};
      if (!in_->sig && normNum_) return rat(mpq_class(s, 10));
      return num(mpz_class(s, 10));
    }
    case T_DEC:
    {
      size_t b = s[0] == '-' ? 1 : 0, dot = s.find('.');
      if (dot > b + 1 && s[b] == '0') throw Unknown{"leading zeros"};
      std::string digits = s.substr(b, dot - b) + s.substr(dot + 1);
      mpz_class den;
      mpz_ui_pow_ui(den.get_mpz_t(), 10, s.size() - dot - 1);
      mpq_class q(mpz_class(digits, 10), den);
      q.canonicalize();
      if (b) q = -q;
      return rat(q, !in_->sig && normDec_ ? K_RAT : K_DEC);
    }
    case T_RAT:
    {
      size_t sl = s.find('/');
      mpz_class den(s.substr(sl + 1), 10);
      if (den == 0) throw Reject{"zero denominator"};
      size_t b = s[0] == '-' ? 1 : 0;
      if ((sl > b + 1 && s[b] == '0') || (s.size() > sl + 2 && s[sl + 1] == '0')) throw Unknown{"leading zeros"};
      mpq_class q(mpz_class(s.substr(0, sl), 10), den);
      q.canonicalize();
      return rat(q);
    }
    case T_HEX: return bv(4 * (s.size() - 2), mpz_class(s.substr(2), 16), !in_->sig && normHex_ ? K_BIN : K_HEX);
    case T_BIN: return bv(s.size() - 2, mpz_class(s.substr(2), 2));
    case T_STR: return strLit(unescape(s));
    case T_TYPET: return TYPE;
    case T_BOOLT: return BOOLT;
    default: throw Reject{"term expected"};
  }
}
int Model::typed(int e)
{
  int t = typeOf(e);
  if (t < 0) throw Reject{"ill-typed"};
  return t;
}
int Model::typeExpr(bool quote, bool allowEval)
{
  if (quote)
  {
    T t = next();
    if (t == T_LP)
    {
      t = next();
      if (t == T_SYM && in_->text == "eo::quote")
      {
        int e = expr();
        if (N(e).k != K_PARAM) throw Reject{"quote"};
        eat(T_RP);
        return mk(K_QUOTE, {e});
      }
      unget(t);
      unget(T_LP);
    }
    else unget(t);
  }
  int e = expr();
  typed(e, TYPE);
  if (N(e).eval && (N(e).ground || !allowEval)) throw Reject{"evaluation in type"};
  return e;
}
int Model::formula()
{
  int e = expr();
  typed(e, BOOLT);
  return e;
}
std::vector<int> Model::exprList()
{
  std::vector<int> r;
  eat(T_LP);
  for (T t = next(); t != T_RP; t = next())
  {
    unget(t);
    r.push_back(expr());
  }
  return r;
}
std::vector<int> Model::typeList(bool quote)
{
  std::vector<int> r;
  eat(T_LP);
  for (T t = next(); t != T_RP; t = next())
  {
    unget(t);
    r.push_back(typeExpr(quote, false));
  }
  return r;
}
std::vector<std::pair<int, int>> Model::pairs()
{
  std::vector<std::pair<int, int>> r;
  eat(T_LP);
  while (eatChoice(T_LP, T_RP))
  {
    int a = expr(), b = expr();
    r.emplace_back(a, b);
    eat(T_RP);
  }
  return r;
}
void Model::unknownAttr()
{
  T t = peek();
  if (t != T_KEY && t != T_RP) skipSexpr();
}
std::vector<int> Model::sortedVars(VarKind k, bool* implicit, std::set<int>* opaque)
{
  std::vector<int> r;
  eat(T_LP);
  while (eatChoice(T_LP, T_RP))
  {
    std::string name = symbolTok();
    int t = typeExpr(false, false);
    if (k == VK_LOOKUP)
    {
      int v = boundVar(name, t);
      bindOrReject(name, v);
      eat(T_RP);
      r.push_back(v);
      continue;
    }
    int v = sym(K_PARAM, name, t);
    bindOrReject(name, v);
    bool impl = false;
    while (eatChoice(T_KEY, T_RP))
    {
      std::string key = in_->text;
      // attributes without a meaning here give a warning
      if (key != ":list" && key != ":implicit") warned_ = true;
      if (!knownAttr(key)) unknownAttr();
      else if (key == ":list") mark(v, A_LIST, -1);
      else if (k == VK_PROG) throw Reject{"attribute of parameter"};
      else if (key == ":implicit") impl = true;
      else if (key == ":opaque") { if (opaque) opaque->insert(v); }
      else if (key == ":restrict") expr();
      else if (key == ":syntax") { K lk; literalKind(lk); }
      else throw Reject{"attribute of parameter"};
    }
    if (impl && implicit) *implicit = true;
    if (!impl) r.push_back(v);
  }
  return r;
}
bool Model::freeOutside(int e, const std::set<int>& bound)
{
  std::set<int> vs;
  freeVars(e, vs);
  for (int v : vs)
    if (v != SELF && !bound.count(v)) return true;
  return false;
}
void Model::checkPair(int pat, int ret)
{
  std::set<int> vs;
  freeVars(pat, vs);
  if (freeOutside(ret, vs)) throw Reject{"free parameter"};
  for (size_t i = 1; i < N(pat).ch.size(); i++)
    if (N(N(pat).ch[i]).eval) throw Reject{"evaluation in pattern"};
}

// ---------------------------------------------------------------- commands
A Model::constAttrs(int& cons)
{
  // of several attributes the first of this list counts
  static const std::vector<std::pair<std::string, A>> as = {{":binder", A_BINDER}, {":let-binder", A_LETB}, {":right-assoc", A_RIGHT}, {":left-assoc", A_LEFT}, {":right-assoc-nil", A_RIGHT_NIL}, {":left-assoc-nil", A_LEFT_NIL}, {":right-assoc-non-singleton-nil", A_RIGHT_NS}, {":left-assoc-non-singleton-nil", A_LEFT_NS}, {":chainable", A_CHAIN}, {":pairwise", A_PAIR}, {":arg-list", A_ARGLIST}};
  A r = A_NONE;
  size_t rank = as.size();
  cons = -1;
  while (eatChoice(T_KEY, T_RP))
  {
    std::string key = in_->text;
    if (!knownAttr(key))
    {
      unknownAttr();
      warned_ = true;
      continue;
    }
    size_t i = 0;
    while (i < as.size() && as[i].first != key) i++;
    if (i == as.size()) throw Reject{"attribute " + key};
    A a = as[i].second;
    int c = -1;
    if (a == A_LETB)
    {
      eat(T_LP);
      int x = expr(), y = expr();
      eat(T_RP);
      c = mk(K_TUPLE, {x, y});
    }
    else if (a != A_LEFT && a != A_RIGHT) c = expr();
    if (rank < as.size()) warned_ = true;
    if (i >= rank) continue;
    rank = i;
    r = a;
    cons = c;
  }
  if (cons >= 0 && !N(cons).ground)
  {
    std::set<int> vs;
    freeVars(cons, vs);
    cons = mk(K_PARAMD, {mk(K_TUPLE, std::vector<int>(vs.begin(), vs.end())), cons});
  }
  unget(T_RP);
  return r;
}
void Model::tailAttrs(bool rule, int e)
{
  while (eatChoice(T_KEY, T_RP))
  {
    std::string key = in_->text;
    if (!knownAttr(key)) unknownAttr();
    else if (rule && key == ":sorry") sorry_.insert(e);
    else if (!rule && key == ":type") typed(e, expr());
    else throw Reject{"attribute " + key};
  }
  unget(T_RP);
}
void Model::declareConst(const std::string& cmd)
{
  std::string name = symbolTok();
  std::vector<int> sorts, params, opaque;
  std::set<int> marked;
  bool param = cmd == "declare-parameterized-const";
  if (cmd == "declare-fun") sorts = typeList(false);
  if (param)
  {
    pushScope();
    params = sortedVars(VK_CONST, nullptr, &marked);
  }
  int t = typeExpr(), cons = -1;
  A a = A_NONE;
  if (cmd != "declare-fun") a = constAttrs(cons);
  if (!sorts.empty()) t = mkFun(sorts, t);
  for (size_t i = params.size(); i-- > 0;)
  {
    int p = params[i], pt = known(p);
    if (hasVar(t, p))
    {
      if (!N(pt).ground) throw Reject{"parameter of non-ground type"};
      pt = mk(K_QUOTE, {p});
    }
    if (marked.count(p))
    {
      opaque.insert(opaque.begin(), pt);
      continue;
    }
    if (!opaque.empty()) throw Reject{"opaque arguments are not a prefix"};
    t = mkFun({pt}, t);
  }
  if (param)
  {
    std::set<int> vs;
    std::vector<int> ft = funType(t);
    int r = ft.back();
    ft.pop_back();
    ft.insert(ft.end(), opaque.begin(), opaque.end());
    for (int x : ft) freeVars(x, vs);
    if (freeOutside(r, vs))
    {
      if (a != A_NONE) throw Reject{"ambiguous with attribute"};
      if (!opaque.empty()) throw Reject{"ambiguous with opaque arguments"};
      t = disambiguated(r, t, name);
      a = A_AMB;
    }
  }
  if (!opaque.empty())
  {
    if (a != A_NONE) throw Reject{"opaque with attribute"};
    t = mkFun(opaque, t);
    a = A_OPAQUE;
    cons = num(static_cast<unsigned long>(opaque.size()));
  }
  int v = sym(K_CONST, name, t);
  if (a != A_NONE) mark(v, a, cons);
  if (param) popScope();
  bindOrReject(name, v);
}
void Model::literalKind(K& k)
{
  static const std::map<std::string, K> ks = {{"<boolean>", K_BOOL}, {"<numeral>", K_NUM}, {"<decimal>", K_DEC}, {"<rational>", K_RAT}, {"<hexadecimal>", K_HEX}, {"<binary>", K_BIN}, {"<string>", K_STR}};
  auto i = ks.find(symbolTok());
  if (i == ks.end()) throw Reject{"literal kind"};
  k = i->second;
}
void Model::declareRule()
{
  if (!asmSizes_.empty()) throw Reject{"rule in assumption scope"};
  pushScope();
  std::string name = symbolTok();
  sortedVars(VK_PROG);
  RuleInfo ri;
  int assume = -1;
  std::vector<int> prem, args;
  std::vector<std::pair<int, int>> reqs;
  std::string k = keywordTok();
  if (k == "assumption")
  {
    assume = expr();
    k = keywordTok();
  }
  if (k == "premises")
  {
    prem = exprList();
    k = keywordTok();
  }
  else if (k == "premise-list")
  {
    prem.push_back(expr());
    ri.plist = expr();
    k = keywordTok();
  }
  if (k == "args")
  {
    args = exprList();
    k = keywordTok();
  }
  if (k == "requires")
  {
    reqs = pairs();
    k = keywordTok();
  }
  if (k != "conclusion" && k != "conclusion-explicit") throw Reject{"no conclusion"};
  int conc = expr();
  ri.explicitC = k == "conclusion-explicit";
  ri.assumption = assume >= 0;
  std::vector<int> pa = args;
  if (ri.explicitC) pa.push_back(conc);
  if (assume >= 0) pa.push_back(assume);
  for (int p : prem) pa.push_back(mk(K_PROOF, {p}));
  int ret = conc;
  for (size_t i = reqs.size(); i-- > 0;) ret = mkExpr(E_REQ, {reqs[i].first, reqs[i].second, ret});
  popScope();
  int rule = sym(K_RULE, name, BOOLT);
  if (!pa.empty())
  {
    ri.prog = sym(K_PCONST, "$eo_prog_" + name, BOOLT);
    pa.insert(pa.begin(), ri.prog);
    int pat = mk(K_APPLY, pa);
    checkPair(pat, ret);
    progs_[ri.prog] = mk(K_PROGRAM, {mk(K_TUPLE, {pat, ret})});
    mark(ri.prog, A_PROGRAM, -1);
  }
  else
  {
    ri.prog = ret;
    if (!N(ret).ground || N(ret).eval) throw Reject{"nullary rule"};
  }
  bindOrReject(name, rule);
  mark(rule, A_RULE, -1);
  rule_[rule] = ri;
  tailAttrs(true, rule);
}
void Model::program0()
{
  std::string name = symbolTok();
  pushScope();
  sortedVars(VK_PROG);
  if (peek() != T_KEY || keywordTok() != "signature") throw Reject{"no signature"};
  std::vector<int> ts = typeList(true);
  ts.push_back(typeExpr());
  if (ts.size() < 2) throw Reject{"program without arguments"};
  int ty = mk(K_PTYPE, ts), v;
  auto it = sym_.find(name);
  bool prev = it != sym_.end();
  if (prev)
  {
    v = it->second;
    if (N(v).k != K_PCONST) throw Reject{"not a program"};
    if (progs_.count(v)) throw Reject{"program defined twice"};
    typed(v, ty);
  }
  else
  {
    v = sym(K_PCONST, name, ty);
    bindOrReject(name, v);
  }
  int prog = -1;
  size_t ncases = 0;
  if (peek() != T_RP)
  {
    std::vector<int> cs;
    for (auto& p : pairs())
    {
      if (N(p.first).k != K_APPLY || N(p.first).ch[0] != v) throw Reject{"case"};
      if (N(p.first).ch.size() != ts.size()) throw Reject{"arity of case"};
      checkPair(p.first, p.second);
      cs.push_back(mk(K_TUPLE, {p.first, p.second}));
    }
    if (cs.empty()) throw Reject{"no cases"};
    ncases = cs.size();
    prog = mk(K_PROGRAM, cs);
  }
  popScope();
  if (prog >= 0)
  {
    progs_[v] = prog;
    mark(v, A_PROGRAM, -1);
  }
  if (plugOn_ && N(v).name[0] != '$') ev("P " + word(N(v).name) + " " + std::to_string(ncases));
  if (!prev) bindOrReject(name, v);
}
void Model::addRef(int f) { refs_.insert(refNf_ >= 0 ? mkExpr(K_APPLY, {refNf_, f}) : f); }
void Model::define(bool fun)
{
  pushScope();
  std::string name = symbolTok();
  bool impl = false;
  std::vector<int> vs = sortedVars(VK_LAMBDA, &impl);
  if (impl)
  {
    popScope();
    pushScope();
    for (int v : vs) bind(N(v).name, v);
  }
  int t = fun ? typeExpr() : -1;
  int e = expr();
  if (fun)
  {
    typed(e, t);
    auto eq = sym_.find("="), la = sym_.find("lambda");
    if (eq == sym_.end()) throw Reject{"no symbol ="};
    if (!vs.empty())
    {
      if (la == sym_.end()) throw Reject{"no symbol lambda"};
      int l = la->second;
      if (attrOf(l) != A_BINDER) throw Unknown{"lambda is no binder"};
      e = mkExpr(K_APPLY, {l, binderList(l, vs), e});
      std::vector<int> ts;
      for (int v : vs) ts.push_back(typed(v));
      t = mkFun(ts, t);
    }
    int c = sym(K_CONST, name, t);
    addRef(mkExpr(K_APPLY, {eq->second, c, e}));
    e = c;
  }
  else
  {
    if (!vs.empty()) e = mk(K_LAMBDA, {mk(K_TUPLE, vs), e});
    tailAttrs(false, e);
  }
  popScope();
  bindOrReject(name, e);
  ev("D " + word(name));
}
void Model::defineSort()
{
  std::string name = symbolTok();
  std::vector<std::string> ns;
  eat(T_LP);
  for (T t = next(); t != T_RP; t = next()) ns.push_back(asSymbol(t));
  std::vector<int> vs;
  if (!ns.empty()) pushScope();
  for (auto& n : ns)
  {
    vs.push_back(sym(K_PARAM, n, TYPE));
    bindOrReject(n, vs.back());
  }
  int t = typeExpr();
  if (!ns.empty())
  {
    popScope();
    t = mk(K_LAMBDA, {mk(K_TUPLE, vs), t});
  }
  bindOrReject(name, t);
}
void Model::datatypes(bool multi)
{
  struct Dt { std::string name; int sort = -1; size_t arity = 0; std::vector<int> cons; };
  std::vector<Dt> ds;
  if (multi)
  {
    eat(T_LP);
    while (eatChoice(T_LP, T_RP))
    {
      Dt d;
      d.name = symbolTok();
      d.arity = numeralTok();
      if (d.arity > 200) throw Unknown{"arity"};
      ds.push_back(d);
      eat(T_RP);
    }
    if (ds.empty()) throw Reject{"no datatypes"};
    eat(T_LP);
    for (auto& d : ds)
    {
      d.sort = sym(K_CONST, d.name, mkFun(std::vector<int>(d.arity, TYPE), TYPE));
      bindOrReject(d.name, d.sort);
    }
  }
  else
  {
    ds.emplace_back();
    ds[0].name = symbolTok();
  }
  struct Con { int c; bool amb; std::vector<int> sels; };
  std::vector<Con> all;
  size_t i = 0;
  T t = next();
  for (; t == T_LP; t = next(), i++)
  {
    if (i >= ds.size()) throw Reject{"too many datatypes"};
    Dt& d = ds[i];
    std::vector<int> params;
    T t1 = next();
    bool par = t1 == T_PAR;
    if (par)
    {
      pushScope();
      std::vector<std::string> ns;
      eat(T_LP);
      for (T x = next(); x != T_RP; x = next()) ns.push_back(asSymbol(x));
      if (ns.empty()) throw Reject{"no parameters"};
      for (auto& n : ns)
      {
        params.push_back(sym(K_PARAM, n, TYPE));
        bindOrReject(n, params.back());
      }
    }
    else
    {
      unget(t1);
      unget(T_LP);
    }
    if (!multi)
    {
      d.sort = sym(K_CONST, d.name, mkFun(std::vector<int>(params.size(), TYPE), TYPE));
      bindOrReject(d.name, d.sort);
    }
    else if (params.size() != d.arity) throw Reject{"number of parameters"};
    std::vector<int> app{d.sort};
    app.insert(app.end(), params.begin(), params.end());
    int self = curry(app);
    std::vector<std::pair<std::string, int>> names;
    auto declare = [&](const std::string& n, int ty) { int e = sym(K_CONST, n, ty); names.emplace_back(n, e); return e; };
    eat(T_LP);
    while (eatChoice(T_LP, T_RP))
    {
      std::string name = symbolTok();
      std::vector<int> ts, sels;
      while (eatChoice(T_LP, T_RP))
      {
        std::string sel = symbolTok();
        int ty = typeExpr();
        ts.push_back(ty);
        sels.push_back(declare(sel, mkFun({self}, ty)));
        declare("update-" + sel, mkFun({self, ty}, self));
        eat(T_RP);
      }
      int ct = mkFun(ts, self);
      std::set<int> vs;
      for (int x : ts) freeVars(x, vs);
      bool amb = !params.empty() && freeOutside(self, vs);
      if (amb) ct = disambiguated(self, ct, name);
      int c = declare(name, ct);
      declare("is-" + name, mkFun({self}, BOOLT));
      d.cons.push_back(c);
      all.push_back(Con{c, amb, sels});
    }
    if (par)
    {
      eat(T_RP);
      popScope();
    }
    for (auto& n : names) bindOrReject(n.first, n.second);
  }
  if (i != ds.size()) throw Reject{"number of datatypes"};
  unget(t);
  for (auto& d : ds) mark(d.sort, A_DT, list(d.cons));
  for (auto& c : all) mark(c.c, c.amb ? A_AMBDTC : A_DTC, list(c.sels));
  if (multi) eat(T_RP);
}
void Model::assume(bool push)
{
  std::string name = symbolTok();
  int f = formula();
  ev("A " + word(name) + (push ? " push" : ""));
  if (push)
  {
    pushScope();
    asmSizes_.push_back(asms_.size());
    asmScopes_.push_back(scopes_.size());
  }
  marks.assumes++;
  bindOrReject(name, mk(K_PROOF, {f}));
  asms_.push_back(f);
  if (hasRef_ && !push)
  {
    marks.refAssumes++;
    int g = refNf_ >= 0 ? mkExpr(K_APPLY, {refNf_, f}) : f;
    if (!refs_.count(g)) throw Reject{"assumption is not in the reference"};
  }
}
// what a step proves
int Model::apply(int rule, int given, const std::vector<int>& prem, const std::vector<int>& args, bool pop)
{
  const RuleInfo ri = rule_[rule];
  std::vector<int> ch{ri.prog};
  ch.insert(ch.end(), args.begin(), args.end());
  if (ri.explicitC)
  {
    if (given < 0) throw Reject{"conclusion required"};
    ch.push_back(given);
  }
  if (pop != ri.assumption) throw Reject{"step-pop for rule without assumption, or step for one with"};
  if (pop)
  {
    if (asmSizes_.back() >= asms_.size()) throw Unknown{"no assumption"};
    ch.push_back(asms_[asmSizes_.back()]);
  }
  if (ri.plist >= 0)
  {
    std::vector<int> a{ri.plist};
    for (int p : prem)
    {
      if (N(p).k != K_PROOF) throw Reject{"premise is not a proof"};
      a.push_back(N(p).ch[0]);
    }
    int ap;
    if (a.size() == 1)
    {
      Info* i = info(ri.plist);
      A x = i ? i->attr : A_NONE;
      if (x != A_LEFT_NIL && x != A_RIGHT_NIL && x != A_LEFT_NS && x != A_RIGHT_NS) throw Reject{"no nil"};
      ap = i->cons;
    }
    else ap = mkExpr(K_APPLY, a);
    ch.push_back(mk(K_PROOF, {ap}));
  }
  else ch.insert(ch.end(), prem.begin(), prem.end());
  int res = ch.size() > 1 ? programApp(ch) : ch[0];
  if (ch.size() > 1 && N(res).eval) throw Reject{"step does not check"};
  if (ch.size() == 1 && N(res).k == K_PCONST) throw Reject{"rule without what it needs"};
  return res;
}
void Model::step(bool pop)
{
  if (pop && asmSizes_.empty()) throw Reject{"step-pop at level zero"};
  std::string name = symbolTok();
  int given = -1;
  if (peek() != T_KEY) given = formula();
  if (keywordTok() != "rule") throw Reject{"no rule"};
  std::string rn = symbolTok();
  const auto& tab = ruleTable_ ? rules_ : sym_;
  auto it = tab.find(rn);
  if (it == tab.end()) throw Reject{"no such rule"};
  int rule = it->second;
  if (N(rule).k != K_RULE) throw Reject{"not a rule"};
  std::string k;
  if (peek() == T_KEY) k = keywordTok();
  std::vector<int> prem, args;
  if (k == "premises")
  {
    prem = exprList();
    if (peek() == T_KEY) k = keywordTok();
  }
  if (k == "args") args = exprList();
  if (plugOn_) ev("S " + word(name) + " " + word(N(rule).name) + " " + std::to_string(prem.size()) + " " + std::to_string(args.size()) + (pop ? " pop" : "") + (given < 0 ? "" : " given"));
  uint64_t ph = pluginHash(name, plugSeed_);
  if ((plug_ & PL_REFUSE) && ph % 7 == 0) throw Reject{"the plugin refuses the step"};
  int res;
  if ((plug_ & PL_ANSWER) && ph % 3 == 1 && given >= 0)
  {
    res = given;
    if (N(res).eval) throw Reject{"the plugin's answer is not evaluated"};
  }
  else res = apply(rule, given, prem, args, pop);
  typed(res, BOOLT);
  if (given >= 0 && res != given) throw Reject{"unexpected conclusion"};
  if (pop) popAsm();
  bindOrReject(name, mk(K_PROOF, {res}));
  marks.steps++;
  uses_[rule]++;
  if (sorry_.count(rule))
  {
    marks.sorrySteps++;
    incomplete_ = true;
  }
}

bool Model::command()
{
  In& in = *in_;
  burn();
  if (in.finished) return false;
  lastFile_ = reading_.empty() ? "<stdin>" : reading_.back();
  lastPos_ = in.pos;
  T t = next();
  if (t == T_EOF) return false;
  if (t != T_LP) throw Reject{"command expected"};
  t = next();
  if (t != T_SYM) throw Reject{"command expected"};
  std::string c = in.text;
  static const std::set<std::string> both = {"declare-const", "declare-datatype", "declare-datatypes", "declare-sort", "echo", "exit", "pop", "push", "reset", "set-option"};
  static const std::set<std::string> refOnly = {"assert", "check-sat", "check-sat-assuming", "declare-fun", "define-const", "define-fun", "define-sort", "set-info", "set-logic"};
  static const std::set<std::string> sigOnly = {"assume", "assume-push", "declare-consts", "declare-parameterized-const", "declare-rule", "define", "include", "program", "reference", "step", "step-pop"};
  if (!both.count(c) && !(in.ref ? refOnly : sigOnly).count(c)) throw Reject{"no such command"};
  if (c == "declare-const" || c == "declare-fun" || c == "declare-parameterized-const") declareConst(c);
  else if (c == "declare-sort")
  {
    std::string name = symbolTok();
    size_t n = numeralTok();
    if (n > 200) throw Unknown{"arity"};
    bindOrReject(name, sym(K_CONST, name, mkFun(std::vector<int>(n, TYPE), TYPE)));
  }
  else if (c == "echo")
  {
    std::string m;
    T x = peek();
    if (x == T_STR)
    {
      m = stringTok();
      x = peek();
    }
    if (x == T_RP)
    {
      ev("E " + word(m));
      if (!((plug_ & PL_ECHO) && pluginHash(m, plugSeed_) % 2)) out_ += m + "\n";
    }
  }
  else if (c == "exit") in.finished = true;
  else if (c == "push" || c == "pop")
  {
    size_t n = 1;
    if (peek() == T_INT) n = numeralTok();
    for (size_t i = 0; i < n; i++)
    {
      burn();
      if (c == "push") pushScope();
      else popScope();
    }
  }
  else if (c == "reset") reset();
  else if (c == "assume" || c == "assume-push") assume(c == "assume-push");
  else if (c == "declare-consts")
  {
    pushScope();
    bindOrReject("eo::self", SELF);
    K k;
    literalKind(k);
    int ty = typeExpr();
    auto i = litRule_.find(k);
    if (k == K_BOOL || (i != litRule_.end() && i->second != ty)) throw Reject{"literal type"};
    litRule_[k] = ty;
    static const std::map<K, const char*> ln = {{K_NUM, "num"}, {K_DEC, "dec"}, {K_RAT, "rat"}, {K_HEX, "hex"}, {K_BIN, "bin"}, {K_STR, "str"}};
    if (plugOn_) ev(std::string("L ") + ln.at(k));
    popScope();
  }
  else if (c == "declare-rule") declareRule();
  else if (c == "program") program0();
  else if (c == "define" || c == "define-fun") define(c == "define-fun");
  else if (c == "define-sort") defineSort();
  else if (c == "declare-datatype" || c == "declare-datatypes") datatypes(c == "declare-datatypes");
  else if (c == "step" || c == "step-pop") step(c == "step-pop");
  else if (c == "include" || c == "reference")
  {
    bool ref = c == "reference";
    if (ref && hasRef_) throw Reject{"second reference"};
    if (!asmSizes_.empty()) throw Reject{"include in assumption scope"};
    if (peek() != T_STR) throw Reject{"file name expected"};
    std::string f = stringTok();
    int nf = -1;
    if (ref && peek() != T_RP) nf = expr();
    include(f, !ref, ref, nf, in.dir);
  }
  else if (c == "assert")
  {
    addRef(formula());
  }
  else if (c == "define-const")
  {
    std::string name = symbolTok();
    int ty = typeExpr(), e = expr();
    typed(e, ty);
    bindOrReject(name, e);
  }
  else if (c == "check-sat") {}
  else if (c == "check-sat-assuming") exprList();
  else if (c == "set-logic") symbolTok();
  else if (c == "set-info")
  {
    keywordTok();
    skipSexpr();
  }
  else if (c == "set-option")
  {
    std::string key = keywordTok();
    if (!in.ref)
    {
      // a value that is none, or the option of another program, is ignored
      if (peek() == T_SYM && (in.text == "true" || in.text == "false"))
      {
        if (key == "rule-sym-table") throw Unknown{"option"};
        setOption(key, in.text == "true");
      }
    }
    skipSexpr();
  }
  else throw Unknown{"command " + c};
  eat(T_RP);
  return true;
}
void Model::session(In& in)
{
  In* prev = in_;
  in_ = &in;
  while (command())
    ;
  in_ = prev;
}
static std::string canonical(const std::string& p)
{
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < p.size())
  {
    size_t e = p.find('/', i);
    if (e == std::string::npos) e = p.size();
    std::string x = p.substr(i, e - i);
    i = e + 1;
    if (x.empty() || x == ".") continue;
    if (x == "..") { if (!parts.empty()) parts.pop_back(); }
    else parts.push_back(x);
  }
  std::string r;
  for (auto& x : parts) r += "/" + x;
  return r.empty() ? "/" : r;
}
void Model::include(const std::string& s, bool sig, bool ref, int nf, const std::string& dir)
{
  if (s.empty()) throw Unknown{"empty file name"};
  std::string p = canonical(s[0] == '/' ? s : dir + "/" + s);
  auto f = w_->files.find(p);
  if (f == w_->files.end()) throw Reject{"no file " + p};
  if (s.back() == '/') throw Unknown{"file name ends in slash"};
  if (ref)
  {
    if (hasRef_) throw Unknown{"two references"};
    hasRef_ = true;
    refNf_ = nf;
  }
  if (!included_.insert(p).second) return;
  marks.includes++;
  std::string fl = plugOn_ ? word(p) + (sig ? " sig" : "") + (ref ? " ref" : "") + (nf >= 0 ? " nf" : "") : "";
  ev("I " + fl);
  reading_.push_back(p);
  In in;
  in.data = f->second;
  in.dir = p.substr(0, p.rfind('/'));
  in.sig = sig;
  in.ref = ref;
  in.lexLet = !sig && parseLet_;
  in.lexType = sig;
  if (!asmSizes_.empty()) throw Unknown{"include in scope"};
  session(in);
  reading_.pop_back();
  if (!asmSizes_.empty()) throw Reject{"open assumption at end of file"};
  ev("F " + fl);
}
Outcome Model::run(const World& w)
{
  w_ = &w;
  Outcome o;
  try
  {
    std::vector<std::pair<std::string, bool>> inc;
    std::string file;
    bool have = false, info = false;
    for (auto& a : w.argv)
    {
      bool no = a.compare(0, 5, "--no-") == 0;
      if (info) break;
      if (no && setOption(a.substr(5), false)) continue;
      if (!no && a.compare(0, 2, "--") == 0 && setOption(a.substr(2), true)) continue;
      if (a.compare(0, 10, "--include=") == 0) inc.emplace_back(a.substr(10), true);
      else if (a.compare(0, 12, "--reference=") == 0) inc.emplace_back(a.substr(12), false);
      else if (a == "--help" || a == "--show-config") info = true;
      else if (a == "-t" || a == "-v") throw Reject{"no tracing in this build"};
      else if (have) throw Reject{"two files"};
      else file = a, have = true;
    }
    if (info)
    {
      o.kind = Outcome::INFO;
      return o;
    }
    if (w.tty) throw Unknown{"terminal"};
    for (auto& i : inc) include(i.first, i.second, !i.second, -1, w.cwd);
    plug_ = w.plugin;
    plugSeed_ = w.pluginSeed;
    plugOn_ = plug_ != 0;
    ev("Y");
    if (have)
    {
      bool sig = file.size() >= 3 && file.substr(file.size() - 3) == ".eo";
      include(file, sig, false, -1, w.cwd);
    }
    else
    {
      In in;
      for (auto& m : w.input) in.data += m.data;
      in.dir = w.cwd;
      in.lexLet = parseLet_;
      session(in);
      if (!asmSizes_.empty()) throw Reject{"open assumption at the end"};
    }
    o.kind = incomplete_ ? Outcome::INCOMPLETE : Outcome::OK;
    ev("Z");
  }
  catch (Reject& r)
  {
    o.kind = Outcome::REJECT;
    o.why = r.why;
  }
  catch (Unknown& u)
  {
    o.kind = Outcome::UNKNOWN;
    o.why = u.why;
  }
  o.out = out_;
  o.warned = warned_;
  o.stats = stats_;
  for (auto& u : uses_) o.uses.emplace_back(N(u.first).name, u.second);
  o.file = lastFile_;
  o.pos = lastPos_;
  return o;
}

bool Model::beginRef(const std::string& nf)
{
  auto i = sym_.find(nf);
  if (!nf.empty() && i == sym_.end()) return false;
  hasRef_ = true;
  refNf_ = nf.empty() ? -1 : i->second;
  return true;
}
Outcome Model::feed(const std::string& text, bool sig, bool ref)
{
  Outcome o;
  fuel_ = 0;
  try
  {
    In in;
    in.data = text;
    in.dir = "/w";
    in.sig = in.lexType = sig;
    in.lexLet = !sig && parseLet_;
    in.ref = ref;
    session(in);
    o.kind = incomplete_ ? Outcome::INCOMPLETE : Outcome::OK;
  }
  catch (Reject& r)
  {
    o.kind = Outcome::REJECT;
    o.why = r.why;
    in_ = nullptr;
    depth_ = 0;
  }
  catch (Unknown& u)
  {
    o.kind = Outcome::UNKNOWN;
    o.why = u.why;
    in_ = nullptr;
    depth_ = 0;
  }
  return o;
}

std::string Model::showOpaque(int e)
{
  // all opaque arguments at once
  std::vector<int> as;
  int h = e;
  while (N(h).k == K_APPO && N(h).ch.size() == 2) { as.push_back(N(h).ch[1]); h = N(h).ch[0]; }
  if (attrOf(h) != A_OPAQUE) return "nosuchsymbol";
  std::string t = "(" + show(h);
  for (size_t i = as.size(); i > 0; i--) t += " " + show(as[i - 1]);
  return t + ")";
}
std::string Model::show(int e)
{
  burn(20);
  const Node x = N(e);
  switch (x.k)
  {
    case K_BOOL: return x.b ? "true" : "false";
    case K_NUM: return x.z < 0 ? "(eo::neg " + mpz_class(-x.z).get_str() + ")" : x.z.get_str();
    case K_DEC: case K_RAT:
    {
      mpq_class q = abs(x.q);
      if (x.k == K_DEC)
      {
        // as a decimal if it has finitely many digits
        mpz_class d = q.get_den();
        int n2 = 0, n5 = 0;
        while (d % 2 == 0) { d /= 2; n2++; }
        while (d % 5 == 0) { d /= 5; n5++; }
        if (d != 1 || n2 > 200 || n5 > 200) return "nosuchsymbol";
        int n = std::max(1, std::max(n2, n5));
        mpz_class sc;
        mpz_ui_pow_ui(sc.get_mpz_t(), 10, static_cast<unsigned long>(n));
        std::string t = mpz_class(q.get_num() * (sc / q.get_den())).get_str();
        while (t.size() <= static_cast<size_t>(n)) t = "0" + t;
        t.insert(t.size() - static_cast<size_t>(n), ".");
        return x.q < 0 ? "(eo::neg " + t + ")" : t;
      }
      std::string t = q.get_num().get_str() + "/" + q.get_den().get_str();
      return x.q < 0 ? "(eo::neg " + t + ")" : t;
    }
    case K_HEX:
    {
      if (x.width == 0 || x.width % 4) return "nosuchsymbol";
      std::string t = x.z.get_str(16);
      return "#x" + std::string(x.width / 4 > t.size() ? x.width / 4 - t.size() : 0, '0') + t;
    }
    case K_BIN:
    {
      if (x.width == 0) return "(eo::to_bin 0 0)";
      std::string t = x.z.get_str(2);
      return "#b" + std::string(x.width > t.size() ? x.width - t.size() : 0, '0') + t;
    }
    case K_STR:
    {
      std::string t = "\"";
      for (unsigned c : x.s)
      {
        char buf[16];
        snprintf(buf, sizeof(buf), "\\u{%x}", c);
        t += c < 32 || c > 126 || c == '\\' ? std::string(buf) : std::string(1, static_cast<char>(c));
        if (c == '"') t += '"';
      }
      return t + "\"";
    }
    case K_TYPE: return "Type";
    case K_BOOLT: return "Bool";
    case K_CONST: case K_PARAM: case K_PCONST:
    {
      // between bars if it needs them
      bool simple = !x.name.empty() && !isdigit(static_cast<unsigned char>(x.name[0])) && (x.name[0] != '-' || x.name.size() == 1 || !isdigit(static_cast<unsigned char>(x.name[1])));
      for (char c : x.name) simple = simple && (isalnum(static_cast<unsigned char>(c)) || strchr("~!@$%^&*_-+=<>.?/:", c));
      return simple ? x.name : "|" + x.name + "|";
    }
    case K_VAR:
    {
      for (char c : x.name)
        if (c < 32 || c > 126 || c == '"' || c == '\\') return "nosuchsymbol";
      return "(eo::var \"" + x.name + "\" " + show(x.type) + ")";
    }
    case K_FUN:
    {
      std::string t = "(->";
      for (int c : x.ch) t += " " + show(c);
      return t + ")";
    }
    case K_APPO: return attrOf(x.ch[0]) == A_AMB || attrOf(x.ch[0]) == A_AMBDTC ? "(as " + show(x.ch[0]) + " " + show(x.ch[1]) + ")" : showOpaque(e);
    case K_APPLY:
    {
      std::string t = "(_";
      for (int c : x.ch) t += " " + show(c);
      return t.size() > 4000 ? "nosuchsymbol" : t + ")";
    }
    default: return "nosuchsymbol";
  }
}
std::vector<std::string> Model::values(const std::vector<std::string>& exprs, bool type, bool sig)
{
  std::vector<std::string> out;
  int n = 0;
  for (auto& e : exprs)
  {
    std::string v;
    std::string name = "@value" + std::to_string(n++);
    try
    {
      In in;
      in.data = "(define " + name + " () " + e + ")";
      in.dir = "/w";
      in.sig = in.lexType = sig;
      in.lexLet = !sig && parseLet_;
      fuel_ = 0;
      session(in);
      auto i = sym_.find(name);
      if (i != sym_.end())
      {
        int t = i->second;
        if (type) t = typed(t);
        if (!N(t).eval || type) v = show(t);
      }
    }
    catch (Reject&) { in_ = nullptr; depth_ = 0; }
    catch (Unknown&) { in_ = nullptr; depth_ = 0; }
    if (v.find("nosuchsymbol") != std::string::npos) v.clear();
    out.push_back(v);
  }
  return out;
}

}  // namespace mdl
mdl::Outcome predict(const World& w, mdl::Marks* m)
{
  mdl::Model md;
  mdl::Outcome o = md.run(w);
  if (m) *m = md.marks;
  return o;
}
}  // namespace sim
