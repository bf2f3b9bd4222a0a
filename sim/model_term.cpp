// Reference model, part 1: terms, evaluation, typing.
#include <algorithm>
#include "model.h"

namespace sim {
namespace mdl {

void Model::burn(uint64_t k)
{
  fuel_ += k;
  if (fuel_ > 3000000) throw Unknown{"fuel"};
}
static bool isLit(K k) { return k >= K_BOOL && k <= K_STR; }
static bool isOp(K k) { return k >= E_FIRST; }
static bool isNary(K k) { return k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_CONCAT; }
static bool isListOp(K k) { return k >= E_NIL && k <= E_LSING; }
static bool isNilAttr(A a) { return a == A_LEFT_NIL || a == A_RIGHT_NIL || a == A_LEFT_NS || a == A_RIGHT_NS; }
static bool isLeftAttr(A a) { return a == A_LEFT || a == A_LEFT_NIL || a == A_LEFT_NS; }

int Model::add(Node&& x)
{
  burn();
  if (x.ch.empty())
  {
    x.eval = x.k == K_PCONST || x.k == K_ANY;
    x.ground = !(x.k == K_PARAM || x.k == K_ANY);
  }
  else
  {
    x.eval = isOp(x.k);
    for (int c : x.ch)
    {
      x.eval = x.eval || N(c).eval;
      x.ground = x.ground && N(c).ground;
    }
  }
  n_.push_back(std::move(x));
  return static_cast<int>(n_.size()) - 1;
}
int Model::mk(K k, const std::vector<int>& ch)
{
  auto key = std::make_pair(static_cast<int>(k), ch);
  auto i = app_.find(key);
  if (i != app_.end()) return i->second;
  for (int c : ch)
    if (c < 0) throw Unknown{"null child"};
  Node x;
  x.k = k;
  x.ch = ch;
  int e = add(std::move(x));
  app_[key] = e;
  return e;
}
int Model::sym(K k, const std::string& name, int type)
{
  Node x;
  x.k = k;
  x.name = name;
  x.type = type;
  int e = add(std::move(x));
  if (type >= 0) typeCache_[e] = type;
  return e;
}
int Model::lit(Node&& x)
{
  std::string key = std::to_string(x.k) + ":";
  switch (x.k)
  {
    case K_BOOL: key += x.b ? "1" : "0"; break;
    case K_NUM: key += x.z.get_str(); break;
    case K_DEC: case K_RAT: x.q.canonicalize(); key += x.q.get_str(); break;
    case K_HEX: case K_BIN: if (x.width > 4096) throw Unknown{"bit width"}; key += std::to_string(x.width) + ":" + x.z.get_str(); break;
    default: for (unsigned c : x.s) key += std::to_string(c) + ","; break;
  }
  auto i = lits_.find(key);
  if (i != lits_.end()) return i->second;
  int e = add(std::move(x));
  lits_[key] = e;
  return e;
}
int Model::num(const mpz_class& z)
{
  if (mpz_sizeinbase(z.get_mpz_t(), 2) > 20000) throw Unknown{"number too large"};
  Node x; x.k = K_NUM; x.z = z; return lit(std::move(x));
}
int Model::rat(const mpq_class& q, K k) { Node x; x.k = k; x.q = q; return lit(std::move(x)); }
int Model::bv(unsigned w, const mpz_class& z, K k)
{
  Node x;
  x.k = k;
  x.width = w;
  if (w > 4096) throw Unknown{"bit width"};
  mpz_class m = 1;
  m <<= w;
  mpz_fdiv_r(x.z.get_mpz_t(), z.get_mpz_t(), m.get_mpz_t());
  return lit(std::move(x));
}
int Model::str(const std::vector<unsigned>& s) { if (s.size() > 4000) throw Unknown{"long string"}; Node x; x.k = K_STR; x.s = s; return lit(std::move(x)); }
int Model::str(const std::string& s)
{
  std::vector<unsigned> v;
  for (unsigned char c : s)
  {
    v.push_back(c);
  }
  return str(v);
}
// the text of a literal, where \u{X}, ..., \u{XXXXX} and \uXXXX stand for a
// code point
int Model::strLit(const std::string& s)
{
  std::vector<unsigned> v;
  auto hex = [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
  for (size_t i = 0; i < s.size(); i++)
  {
    unsigned char c = s[i];
    if (c == '\\' && i + 1 < s.size() && s[i + 1] == 'u')
    {
      bool brace = i + 2 < s.size() && s[i + 2] == '{';
      size_t b = i + (brace ? 3 : 2), e = b;
      while (e < s.size() && e - b < (brace ? 6 : 4) && hex(s[e])) e++;
      bool ok = brace ? e > b && e - b <= 5 && e < s.size() && s[e] == '}' : e - b == 4;
      unsigned long val = ok ? strtoul(s.substr(b, e - b).c_str(), nullptr, 16) : 0;
      if (ok && val < 196608)
      {
        v.push_back(val);
        i = brace ? e : e - 1;
        continue;
      }
    }
    v.push_back(c);
  }
  return str(v);
}
int Model::curry(const std::vector<int>& ch)
{
  int c = ch[0];
  for (size_t i = 1; i < ch.size(); i++) c = mk(K_APPLY, {c, ch[i]});
  return c;
}
int Model::mkFun(const std::vector<int>& args, int ret)
{
  int c = ret;
  for (size_t i = args.size(); i-- > 0;) c = mk(K_FUN, {args[i], c});
  return c;
}
int Model::boundVar(const std::string& name, int type)
{
  if (!N(type).ground) return mkExpr(E_VAR, {str(name), type});
  auto key = std::make_pair(name, type);
  auto i = bound_.find(key);
  if (i != bound_.end()) return i->second;
  return bound_[key] = sym(K_VAR, name, type);
}

// ---------------------------------------------------------------- application
int Model::mkExpr(K k, std::vector<int> ch)
{
  Deep d(*this);
  burn();
  if (k == K_APPLY)
  {
    int hd = ch[0];
    Info* ai = info(hd);
    if (ai)
    {
      if (ai->builtin != K_NONE)
      {
        if (ch.size() < 2) throw Reject{"builtin operator without arguments"};
        if (ai->builtin == K_FUN)
        {
          if (ch.size() < 2) throw Reject{"builtin operator without arguments"};
          for (size_t i = 1; i < ch.size(); i++)
            if (N(ch[i]).k == K_QUOTE) throw Unknown{"quote"};
          return mkFun(std::vector<int>(ch.begin() + 1, ch.end() - 1), ch.back());
        }
        if (ai->builtin == K_APPLY)
        {
          if (ch.size() < 2) throw Reject{"builtin operator without arguments"};
          std::vector<int> r(ch.begin() + 1, ch.end());
          return r.size() > 2 ? curry(r) : mk(K_APPLY, r);
        }
        return mkExpr(ai->builtin, std::vector<int>(ch.begin() + 1, ch.end()));
      }
      if (ai->overloaded)
      {
        if (ai->tainted) throw Unknown{"alias overload"};
        marks.overloads++;
        auto it = ov_.find(ai->ovName);
        if (it == ov_.end()) throw Unknown{"overload list gone"};
        int r = overload(std::vector<int>(it->second), ch);
        if (r >= 0) return r;
      }
      ai = info(hd);
      int ct = consTerm(ai, ch);
      int r = applyAttr(info(hd), ch, ct);
      if (r >= 0) return r;
    }
    K hk = N(hd).k;
    if (hk == K_LAMBDA)
    {
      std::vector<int> vars = N(N(hd).ch[0]).ch;
      if (vars.size() == ch.size() - 1)
      {
        Sub s;
        for (size_t i = 0; i < vars.size(); i++) s[vars[i]] = ch[i + 1];
        return evaluate(N(hd).ch[1], s);
      }
    }
    else if (hk == K_PCONST)
    {
      if (attrOf(hd) != A_NONE)
      {
        int t = typeOf(hd);
        if (N(t).ch.size() == ch.size())
        {
          Sub s;
          int e = program(ch, s);
          if (e >= 0) return evaluate(e, s);
        }
      }
    }
    if (ch.size() > 2 && hk != K_PCONST && hk != K_RULE) return curry(ch);
  }
  else if (isOp(k))
  {
    if (isNary(k) && ch.size() > 2)
    {
      int c = mkExpr(k, {ch[0], ch[1]});
      for (size_t i = 2; i < ch.size(); i++) c = mkExpr(k, {c, ch[i]});
      return c;
    }
    if (ch.empty()) throw Reject{"nullary operator"};
    if (arityOk(k, ch.size()))
    {
      int r = litOp(k, ch);
      if (r >= 0) return r;
    }
  }
  else if (k == K_ASRET)
  {
    if (ch.empty()) throw Unknown{"empty as"};
    A a = attrOf(ch[0]);
    if ((a == A_AMB || a == A_AMBDTC) && ch.size() == 2) return mk(K_APPO, ch);
  }
  else if (k == K_AS && ch.size() == 2)
  {
    std::vector<int> ft = funType(ch[1]), args{ch[1]};
    for (size_t i = 0; i + 1 < ft.size(); i++) args.push_back(sym(K_CONST, "tmp", ft[i]));
    std::vector<int> ov{ch[0]};
    Info* ai = info(ch[0]);
    if (ai && ai->overloaded)
    {
      if (ai->tainted) throw Unknown{"alias overload"};
      auto it = ov_.find(ai->ovName);
      if (it == ov_.end()) throw Unknown{"overload list gone"};
      ov = it->second;
    }
    marks.overloads++;
    int r = overload(ov, args, ft.back());
    if (r >= 0) return r;
  }
  return mk(k, ch);
}

int Model::overload(const std::vector<int>& ov, const std::vector<int>& ch, int ret)
{
  std::vector<int> c = ch;
  for (size_t i = ov.size(); i-- > 0;)
  {
    c[0] = ov[i];
    int x = -1;
    if (info(ov[i]))
    {
      int ct = consTerm(info(ov[i]), ch);
      x = applyAttr(info(ov[i]), c, ct);
    }
    if (x < 0) x = c.size() > 2 ? curry(c) : mk(K_APPLY, c);
    int t = typeOf(x);
    if (t < 0) continue;
    if (ret < 0) return x;
    if (t == ret) return ov[i];
  }
  return -1;
}
// the argument types of a curried function type, then its return type
std::vector<int> Model::funType(int t)
{
  std::vector<int> r;
  while (N(t).k == K_FUN)
  {
    r.push_back(N(t).ch[0]);
    t = N(t).ch[1];
    while (N(t).k == E_REQ) t = N(t).ch[2];
  }
  r.push_back(t);
  return r;
}
int Model::list(const std::vector<int>& e)
{
  int r = LNIL;
  for (size_t i = e.size(); i-- > 0;) r = curry({LCONS, e[i], r});
  return r;
}
// the type of a symbol that is applied to its own return type first
int Model::disambiguated(int pat, int ret, const std::string& name)
{
  int p = sym(K_PCONST, "$eo_disamb_type_" + name, mk(K_PTYPE, {TYPE, TYPE}));
  progs_[p] = mk(K_PROGRAM, {mk(K_TUPLE, {mk(K_APPLY, {p, pat}), ret})});
  mark(p, A_PROGRAM, -1);
  int v = sym(K_PARAM, "$eo_disamb_type_" + name + "_var", TYPE);
  return mk(K_FUN, {mk(K_QUOTE, {v}), mk(K_APPLY, {p, v})});
}

int Model::consTerm(Info* ai, const std::vector<int>& ch)
{
  if (!ai) return -1;
  int ct = ai->cons;
  A at = ai->attr;
  if (ct < 0 || N(ct).k != K_PARAMD) return ct;
  if (ch.size() == 1) return -1;
  bool nary = at == A_LEFT || at == A_RIGHT || isNilAttr(at) || at == A_CHAIN || at == A_PAIR || at == A_ARGLIST;
  if (!nary) return -1;
  std::vector<int> app{ch[0], ch[1]};
  for (int e : app)
    if (typeOf(e) < 0) return -1;
  Sub s;
  typeApp(app, s);
  std::vector<int> params = N(N(ct).ch[0]).ch;
  for (int p : params)
  {
    auto i = s.find(p);
    if (i == s.end()) return -1;
    if (!N(i->second).ground) return -1;
  }
  return evaluate(N(ct).ch[1], s);
}

int Model::applyAttr(Info* ai, const std::vector<int>& ch, int ct)
{
  int hd = ch[0];
  A at = ai->attr;
  size_t nc = ch.size();
  switch (at)
  {
    case A_LEFT: case A_RIGHT: case A_LEFT_NIL: case A_RIGHT_NIL: case A_LEFT_NS: case A_RIGHT_NS:
    {
      if (nc < 2) return ct;
      bool left = isLeftAttr(at), ns = at == A_LEFT_NS || at == A_RIGHT_NS, nil = isNilAttr(at);
      // the arguments, starting from the one that is innermost
      std::vector<int> a(ch.begin() + 1, ch.end());
      if (!left) std::reverse(a.begin(), a.end());
      int cur = a[0];
      size_t i = 1, plain = 0;
      if (nil && attrOf(a[0]) != A_LIST)
      {
        cur = ct >= 0 ? ct : mk(E_NIL, {hd, mk(E_TYPEOF, {ch[1]})});
        i = 0;
      }
      for (; i < a.size(); i++)
      {
        int x = left ? cur : a[i], y = left ? a[i] : cur;
        if (nil && attrOf(a[i]) == A_LIST) cur = mk(E_LCONCAT, {hd, x, y});
        else
        {
          plain++;
          cur = curry({hd, x, y});
        }
      }
      if (ns && plain < 2) return mkExpr(E_LSING, {hd, cur});
      return cur;
    }
    case A_CHAIN: case A_PAIR:
    {
      if (ct < 0) throw Unknown{"chain without operator"};
      std::vector<int> c{ct};
      for (size_t i = 1; i < nc; i++)
        for (size_t j = i + 1; j < nc && (at == A_PAIR || j == i + 1); j++) c.push_back(curry({hd, ch[i], ch[j]}));
      if (c.size() == 2) return c[1];
      return mkExpr(K_APPLY, c);
    }
    case A_ARGLIST:
    {
      int al;
      if (nc == 2 && attrOf(ch[1]) == A_LIST) al = ch[1];
      else
      {
        if (ct < 0) throw Unknown{"arg-list without operator"};
        std::vector<int> c(ch);
        c[0] = ct;
        al = mkExpr(K_APPLY, c);
      }
      return mk(K_APPLY, {hd, al});
    }
    case A_OPAQUE:
    {
      size_t n = N(ai->cons).z.get_ui();
      if (n >= nc) return -1;
      int op = hd;
      for (size_t i = 1; i <= n; i++) op = mk(K_APPO, {op, ch[i]});
      std::vector<int> r{op};
      r.insert(r.end(), ch.begin() + 1 + n, ch.end());
      return curry(r);
    }
    default: return -1;
  }
}

// ---------------------------------------------------------------- matching
bool Model::match(int a, int b, Sub& s, std::set<std::pair<int, int>>& seen)
{
  Deep d(*this);
  burn();
  marks.matches++;
  if (N(a).ground) return a == b;
  if (!seen.insert({a, b}).second) return true;
  if (N(a).ch.empty())
  {
    if (N(a).k != K_PARAM) return false;
    auto i = s.find(a);
    if (i == s.end()) { s[a] = b; return true; }
    return i->second == b;
  }
  if (N(a).k != N(b).k || N(a).ch.size() != N(b).ch.size()) return false;
  for (size_t i = N(a).ch.size(); i-- > 0;)
    if (!match(N(a).ch[i], N(b).ch[i], s, seen)) return false;
  return true;
}

// ---------------------------------------------------------------- evaluation
int Model::evaluate(int e, const Sub& s)
{
  std::unordered_map<int, int> memo;
  Cache c;
  marks.evals++;
  return evalIn(e, s, memo, c);
}
int Model::evalIn(int e, const Sub& s, std::unordered_map<int, int>& memo, Cache& c)
{
  Deep d(*this);
  burn();
  if (!N(e).eval && (N(e).ground || s.empty())) return e;
  if (N(e).k == K_PARAM)
  {
    auto i = s.find(e);
    return i == s.end() ? e : i->second;
  }
  auto m = memo.find(e);
  if (m != memo.end()) return m->second;
  K k = N(e).k;
  std::vector<int> ch = N(e).ch, ev;
  int r = -1;
  if (k == E_ITE)
  {
    if (ch.size() != 3) return memo[e] = e;
    int cond = evalIn(ch[0], s, memo, c);
    if (N(cond).k == K_BOOL) return memo[e] = evalIn(ch[N(cond).b ? 1 : 2], s, memo, c);
    ev = {cond, evalIn(ch[1], s, memo, c), evalIn(ch[2], s, memo, c)};
  }
  else
  {
    ev = ch;
    // the order matters for terms that are numbered on demand
    for (size_t i = ch.size(); i-- > 0;) ev[i] = evalIn(ch[i], s, memo, c);
    if (k == K_APPLY && N(ev[0]).k == K_PCONST)
    {
      auto p = c.prog.find(ev);
      if (p != c.prog.end() && p->second >= 0) r = p->second;
      else
      {
        Sub s2;
        r = program(ev, s2);
        if (r >= 0 && !N(r).ground && !s2.empty())
        {
          std::unordered_map<int, int> memo2;
          r = evalIn(r, s2, memo2, c);
        }
        c.prog[ev] = r;
      }
    }
    else if (isOp(k))
    {
      if (arityOk(k, ev.size())) r = litOp(k, ev);
    }
  }
  if (r < 0) r = ev == ch ? e : mk(k, ev);
  return memo[e] = r;
}
int Model::program(const std::vector<int>& ch, Sub& s)
{
  burn();
  for (int c : ch)
    if (!N(c).ground) return -1;
  for (size_t i = 1; i < ch.size(); i++)
    if (N(ch[i]).eval) return -1;
  if (plug_ & PL_EVAL)
  {
    const std::string& pn = N(ch[0]).name;
    if (pn[0] != '$' && pluginHash(pn, plugSeed_) % 3 == 0)
    {
      s.clear();
      return ch[1];
    }
  }
  auto p = progs_.find(ch[0]);
  if (p == progs_.end()) return -1;
  std::vector<int> cases = N(p->second).ch;
  for (int cs : cases)
  {
    s.clear();
    int pat = N(cs).ch[0], rhs = N(cs).ch[1];
    if (N(pat).ch.size() != ch.size()) return -1;
    bool ok = true;
    for (size_t j = 1; j < ch.size() && ok; j++) ok = match(N(pat).ch[j], ch[j], s);
    if (ok) return rhs;
  }
  return -1;
}
int Model::programApp(const std::vector<int>& ch)
{
  Sub s;
  int r = program(ch, s);
  if (r >= 0) return evaluate(r, s);
  return mk(K_APPLY, ch);
}
int Model::hashOf(int e)
{
  auto i = hash_.find(e);
  if (i != hash_.end()) return i->second;
  return hash_[e] = ++hashCnt_;
}

int Model::litOp(K k, const std::vector<int>& a)
{
  burn();
  marks.litOps++;
  if (k == E_ITE) return N(a[0]).k == K_BOOL ? a[N(a[0]).b ? 1 : 2] : -1;
  if (k == E_REQ)
  {
    for (int i = 0; i < 2; i++)
      if (!N(a[i]).ground || N(a[i]).eval) return -1;
    return a[0] == a[1] ? a[2] : -1;
  }
  for (int x : a)
    if (!N(x).ground) return -1;
  bool stuck0 = N(a[0]).eval, stuck1 = a.size() > 1 && N(a[1]).eval;
  K k0 = N(a[0]).k;
  switch (k)
  {
    case E_IS_OK: return boolean(!stuck0);
    case E_IS_EQ: return boolean(!stuck0 && !stuck1 && a[0] == a[1]);
    case E_EQ: return stuck0 || stuck1 ? -1 : boolean(a[0] == a[1]);
    case E_HASH: return stuck0 ? -1 : num(hashOf(a[0]));
    case E_CMP:
    {
      if (stuck0 || stuck1) return -1;
      int h1 = hashOf(a[0]), h2 = hashOf(a[1]);
      return boolean(h1 > h2);
    }
    case E_IS_Z: return boolean(k0 == K_NUM);
    case E_IS_Q: return boolean(k0 == K_RAT);
    case E_IS_BIN: return boolean(k0 == K_BIN);
    case E_IS_STR: return boolean(k0 == K_STR);
    case E_IS_BOOL: return boolean(k0 == K_BOOL);
    case E_IS_VAR: return boolean(k0 == K_VAR);
    case E_TYPEOF:
      if (!stuck0)
      {
        int t = typeOf(a[0]);
        if (t >= 0 && N(t).ground) return t;
      }
      break;
    case E_DTSEL:
    {
      int c = k0 == K_APPO ? N(a[0]).ch[0] : a[0];
      A at = attrOf(c);
      return at == A_DTC || at == A_AMBDTC ? info(c)->cons : -1;
    }
    case E_DTCONS:
    {
      int dt = a[0];
      bool inst = k0 == K_APPLY && typeOf(dt) == TYPE;
      if (inst)
        while (N(dt).k == K_APPLY) dt = N(dt).ch[0];
      if (attrOf(dt) != A_DT) return -1;
      int l = info(dt)->cons;
      if (!inst) return l;
      // the constructors that are ambiguous get the instance
      std::vector<int> cs;
      for (; N(l).k == K_APPLY; l = N(l).ch[1])
      {
        int c = N(N(l).ch[0]).ch[1];
        cs.push_back(attrOf(c) == A_AMBDTC ? mk(K_APPO, {c, a[0]}) : c);
      }
      return list(cs);
    }
    case E_NAMEOF:
      if (k0 == K_CONST || k0 == K_VAR) return str(N(a[0]).name);
      break;
    case E_VAR:
      if (k0 == K_STR && !stuck1)
      {
        int tt = typeOf(a[1]);
        if (tt >= 0 && N(tt).k == K_TYPE)
        {
          std::string nm;
          for (unsigned c : N(a[0]).s)
          {
            if (c < 32 || c > 126 || c == '\\') throw Unknown{"name"};
            nm += static_cast<char>(c);
          }
          return boundVar(nm, a[1]);
        }
      }
      break;
    default: break;
  }
  bool all = true;
  for (int x : a) all = all && isLit(N(x).k);
  if (all) return litEval(k, a);
  if (isListOp(k)) return listOp(k, a);
  return -1;
}

static mpz_class fdiv(const mpz_class& a, const mpz_class& b)
{
  mpz_class r;
  mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
  return r;
}
int Model::litEval(K k, const std::vector<int>& a)
{
  auto L = [&](size_t i) -> const Node& { return n_[a[i]]; };
  K ka = L(0).k;
  if (k != E_EXTRACT && k != E_TOBIN)
    for (int x : a)
      if (N(x).k != ka) return -1;
  bool isBv = ka == K_HEX || ka == K_BIN, isQ = ka == K_DEC || ka == K_RAT;
  bool sameW = true;
  if (isBv)
    for (int x : a) sameW = sameW && N(x).width == L(0).width;
  auto fitsU = [](const mpz_class& z) { return z >= 0 && z.fits_uint_p(); };
  switch (k)
  {
    case E_NOT:
      if (ka == K_BOOL) return boolean(!L(0).b);
      if (isBv) { mpz_class m = 1; m <<= L(0).width; return bv(L(0).width, m - 1 - L(0).z, ka); }
      return -1;
    case E_AND: case E_OR: case E_XOR: case E_ADD: case E_MUL: case E_CONCAT:
      if (ka == K_BOOL)
      {
        if (k == E_AND) return boolean(L(0).b && L(1).b);
        if (k == E_OR) return boolean(L(0).b || L(1).b);
        if (k == E_XOR) return boolean(L(0).b != L(1).b);
        return -1;
      }
      if (ka == K_NUM)
      {
        if (k == E_ADD) return num(L(0).z + L(1).z);
        if (k == E_MUL) return num(L(0).z * L(1).z);
        return -1;
      }
      if (isQ)
      {
        if (k == E_ADD) return rat(L(0).q + L(1).q, ka);
        if (k == E_MUL) return rat(L(0).q * L(1).q, ka);
        return -1;
      }
      if (isBv)
      {
        unsigned w = L(0).width;
        if (k == E_CONCAT) { mpz_class z = L(0).z; z <<= L(1).width; z += L(1).z; return bv(w + L(1).width, z, ka); }
        if (!sameW) return -1;
        mpz_class z;
        if (k == E_AND) z = L(0).z & L(1).z;
        else if (k == E_OR) z = L(0).z | L(1).z;
        else if (k == E_XOR) z = L(0).z ^ L(1).z;
        else if (k == E_ADD) z = L(0).z + L(1).z;
        else z = L(0).z * L(1).z;
        return bv(w, z, ka);
      }
      if (ka == K_STR && k == E_CONCAT)
      {
        std::vector<unsigned> s = L(0).s;
        s.insert(s.end(), L(1).s.begin(), L(1).s.end());
        return str(s);
      }
      return -1;
    case E_NEG:
      if (ka == K_NUM) return num(-L(0).z);
      if (isQ) return rat(-L(0).q, ka);
      if (isBv) return bv(L(0).width, -L(0).z, ka);
      return -1;
    case E_ZDIV: case E_ZMOD:
      if (ka == K_NUM)
      {
        mpz_class x = L(0).z, y = L(1).z;
        if (y == 0) return -1;
        // the remainder is never negative
        mpz_class q = y > 0 ? fdiv(x, y) : mpz_class(-fdiv(x, -y));
        return num(k == E_ZDIV ? q : mpz_class(x - q * y));
      }
      if (isBv)
      {
        if (!sameW) return -1;
        mpz_class x = L(0).z, y = L(1).z;
        if (y == 0) { mpz_class m = 1; m <<= L(0).width; return bv(L(0).width, k == E_ZDIV ? mpz_class(m - 1) : x, ka); }
        return bv(L(0).width, k == E_ZDIV ? mpz_class(x / y) : mpz_class(x % y), ka);
      }
      return -1;
    case E_QDIV:
      if (ka == K_NUM)
      {
        if (L(1).z == 0) return -1;
        mpq_class q(L(0).z, L(1).z);
        q.canonicalize();
        return rat(q);
      }
      if (isQ) return L(1).q == 0 ? -1 : rat(L(0).q / L(1).q);
      return -1;
    case E_IS_NEG:
      if (ka == K_NUM) return boolean(L(0).z < 0);
      if (isQ) return boolean(L(0).q < 0);
      return -1;
    case E_LEN:
      if (ka == K_BIN) return num(L(0).width);
      if (ka == K_STR) return num(static_cast<unsigned long>(L(0).s.size()));
      return -1;
    case E_EXTRACT:
      if (a.size() != 3 || L(1).k != K_NUM || L(2).k != K_NUM) return -1;
      if (isBv || ka == K_STR)
      {
        mpz_class i1 = L(1).z, i2 = L(2).z, sz = isBv ? mpz_class(L(0).width) : mpz_class(static_cast<unsigned long>(L(0).s.size()));
        bool none = i1 < 0 || i2 < 0 || i1 > sz || sz == 0;
        if (isBv)
        {
          if (i2 >= sz) i2 = sz - 1;
          if (none || i1 > i2) return bv(0, 0, ka);
          unsigned lo = i1.get_ui(), hi = i2.get_ui();
          mpz_class z = L(0).z;
          z >>= lo;
          return bv(hi - lo + 1, z, ka);
        }
        if (none) return str(std::vector<unsigned>());
        size_t v1 = i1.get_ui(), vs = sz.get_ui(), v2 = i2 >= sz ? vs - 1 : i2.get_ui();
        std::vector<unsigned> s;
        for (size_t i = v1; i <= v2 && i < vs; i++) s.push_back(L(0).s[i]);
        return str(s);
      }
      return -1;
    case E_TOZ:
      if (isQ) return num(fdiv(L(0).q.get_num(), L(0).q.get_den()));
      if (ka == K_NUM) return a[0];
      if (ka == K_BIN) return num(L(0).z);
      if (ka == K_STR && L(0).s.size() == 1) return num(L(0).s[0]);
      return -1;
    case E_TOQ:
      if (ka == K_RAT) return a[0];
      if (ka == K_DEC) return rat(L(0).q);
      if (ka == K_NUM) return rat(mpq_class(L(0).z));
      return -1;
    case E_TOBIN:
      if (ka != K_NUM || !fitsU(L(0).z)) return -1;
      if (L(1).k == K_NUM || L(1).k == K_HEX || L(1).k == K_BIN)
      {
        if (L(0).z > 4096) throw Unknown{"bit width"};
        return bv(L(0).z.get_ui(), L(1).z);
      }
      return -1;
    case E_TOSTR:
      if (ka == K_NUM)
      {
        if (fitsU(L(0).z) && L(0).z < 196608) return str(std::vector<unsigned>{static_cast<unsigned>(L(0).z.get_ui())});
        return str(L(0).z.get_str());
      }
      if (ka == K_RAT) return str(L(0).q.get_den() == 1 ? L(0).q.get_num().get_str() + "/1" : L(0).q.get_str());
      if (isBv)
      {
        int base = ka == K_BIN ? 2 : 16;
        if (ka == K_HEX && L(0).width % 4) throw Unknown{"hex width"};
        std::string t = L(0).z.get_str(base);
        size_t digits = ka == K_BIN ? L(0).width : L(0).width / 4;
        if (digits == 0) t.clear();
        while (t.size() < digits) t = "0" + t;
        return str((ka == K_BIN ? "#b" : "#x") + t);
      }
      if (ka == K_STR) return a[0];
      if (ka == K_DEC) throw Unknown{"decimal text"};
      return -1;
    case E_GT:
      if (ka == K_NUM || isBv) return boolean(L(0).z > L(1).z);
      if (isQ) return boolean(L(0).q > L(1).q);
      return -1;
    case E_FIND:
      if (ka == K_STR)
      {
        const auto &x = L(0).s, &y = L(1).s;
        auto p = std::search(x.begin(), x.end(), y.begin(), y.end());
        // the empty string is at the start
        if (p == x.end() && !y.empty()) return num(-1);
        return num(static_cast<long>(p - x.begin()));
      }
      return -1;
    default: return -1;
  }
}

// the elements of the op-list e, which must end in nil
bool Model::elements(int e, int op, int nil, std::vector<int>& out, bool left)
{
  while (N(e).k == K_APPLY && N(e).ch.size() == 2)
  {
    burn();
    int cop = N(e).ch[0];
    if (N(cop).k != K_APPLY || N(cop).ch[0] != op || N(cop).ch.size() != 2) break;
    out.push_back(left ? N(e).ch[1] : N(cop).ch[1]);
    e = left ? N(cop).ch[1] : N(e).ch[1];
  }
  return e == nil;
}
int Model::rebuild(int op, int tail, const std::vector<int>& h, bool left)
{
  for (size_t i = h.size(); i-- > 0;) tail = mk(K_APPLY, {mk(K_APPLY, {op, left ? tail : h[i]}), left ? h[i] : tail});
  return tail;
}
int Model::listOp(K k, const std::vector<int>& a)
{
  int op = a[0];
  Info* ai = info(op);
  if (!ai || !isNilAttr(ai->attr)) return -1;
  bool left = isLeftAttr(ai->attr);
  if (k == E_NIL) return consTerm(ai, {op, sym(K_CONST, "tmp", a[1])});
  int nil = consTerm(ai, {op, a[1]});
  if (nil < 0) return -1;
  std::vector<int> x, y;
  if (k == E_CONS)
  {
    if (!elements(a[2], op, nil, x, left)) return -1;
    return rebuild(op, a[2], {a[1]}, left);
  }
  if (k == E_LCONCAT)
  {
    int tail = a[left ? 1 : 2], head = a[left ? 2 : 1];
    if (!elements(tail, op, nil, y, left) || !elements(head, op, nil, x, left)) return -1;
    return rebuild(op, tail, x, left);
  }
  if (!elements(a[1], op, nil, x, left)) return -1;
  // the elements of a left-associative list start at its right end
  std::vector<int> r;
  switch (k)
  {
    case E_LLEN: return num(static_cast<unsigned long>(x.size()));
    case E_LNTH:
      if (N(a[2]).k != K_NUM || N(a[2]).z < 0 || N(a[2]).z >= static_cast<unsigned long>(x.size())) return -1;
      return x[N(a[2]).z.get_ui()];
    case E_LFIND:
      for (size_t i = 0; i < x.size(); i++)
        if (x[i] == a[2]) return num(static_cast<unsigned long>(i));
      return num(-1);
    case E_LSING: return x.size() == 1 ? x[0] : a[1];
    case E_LREV: std::reverse(x.begin(), x.end()); return rebuild(op, nil, x, left);
    case E_LERASE:
    {
      bool done = false;
      for (int e : x)
        if (!done && e == a[2]) done = true;
        else r.push_back(e);
      break;
    }
    case E_LERASEALL:
      for (int e : x)
        if (e != a[2]) r.push_back(e);
      break;
    case E_LSETOF:
      for (int e : x)
        if (std::find(r.begin(), r.end(), e) == r.end()) r.push_back(e);
      break;
    case E_LMINC: case E_LMEQ: case E_LDIFF: case E_LINTER:
    {
      if (!elements(a[2], op, nil, y, left)) return -1;
      std::map<int, int> cx, cy;
      for (int e : x) cx[e]++;
      for (int e : y) cy[e]++;
      if (k == E_LMEQ) return boolean(cx == cy);
      if (k == E_LMINC)
      {
        for (auto& p : cx)
          if (cy[p.first] < p.second) return FALSE_;
        return TRUE_;
      }
      for (int e : x)
      {
        bool found = cy[e] > 0;
        if (found) cy[e]--;
        if (found == (k == E_LINTER)) r.push_back(e);
      }
      break;
    }
    default: return -1;
  }
  return rebuild(op, nil, r, left);
}

bool Model::arityOk(K k, size_t n)
{
  switch (k)
  {
    case E_IS_EQ: case E_VAR: case E_EQ: case E_ZDIV: case E_ZMOD: case E_QDIV: case E_TOBIN: case E_FIND: case E_CMP: case E_GT:
    case E_LLEN: case E_LREV: case E_LSETOF: case E_LSING: case E_NIL: return n == 2;
    case E_DTCONS: case E_DTSEL:
    case E_IS_OK: case E_TYPEOF: case E_NAMEOF: case E_HASH: case E_NOT: case E_NEG: case E_IS_NEG: case E_LEN: case E_TOZ: case E_TOQ: case E_TOSTR:
    case E_IS_Z: case E_IS_Q: case E_IS_BIN: case E_IS_STR: case E_IS_BOOL: case E_IS_VAR: return n == 1;
    case E_LCONCAT: case E_REQ: case E_ITE: case E_CONS: case E_LFIND: case E_LERASE: case E_LERASEALL: case E_LNTH: case E_LMINC: case E_LMEQ: case E_LDIFF: case E_LINTER: return n == 3;
    case E_EXTRACT: return n == 2 || n == 3;
    default: return isNary(k) && n == 2;
  }
}

// ---------------------------------------------------------------- typing
int Model::typeOf(int root)
{
  // children first; the first failure ends the traversal
  std::set<int> visited;
  std::vector<int> visit{root};
  int ret = -1;
  while (!visit.empty())
  {
    burn();
    int cur = visit.back();
    auto t = typeCache_.find(cur);
    if (t != typeCache_.end())
    {
      ret = t->second;
      visit.pop_back();
      continue;
    }
    if (visited.insert(cur).second)
    {
      std::vector<int> ch = N(cur).ch;
      visit.insert(visit.end(), ch.begin(), ch.end());
      continue;
    }
    ret = typeOf1(cur);
    if (ret < 0) return -1;
    if (N(ret).ground && N(ret).eval) return -1;
    typeCache_[cur] = ret;
    visit.pop_back();
  }
  return ret;
}
int Model::known(int e)
{
  auto i = typeCache_.find(e);
  if (i == typeCache_.end()) throw Unknown{"type not known"};
  return i->second;
}
int Model::litRule(K k, int self)
{
  auto i = litRule_.find(k);
  int t;
  if (i == litRule_.end()) t = litRule_[k] = ANY;
  else t = i->second;
  if (!N(t).ground)
  {
    Sub s;
    s[SELF] = self < 0 ? ANY : self;
    return evaluate(t, s);
  }
  return t;
}
int Model::typeOf1(int e)
{
  K k = N(e).k;
  std::vector<int> ch = N(e).ch;
  switch (k)
  {
    case K_APPLY: case K_APPO:
    {
      Sub s;
      return typeApp(ch, s);
    }
    case K_LAMBDA:
    {
      std::vector<int> a;
      for (int v : std::vector<int>(N(ch[0]).ch)) a.push_back(known(v));
      return mkFun(a, known(ch[1]));
    }
    case K_TYPE: case K_BOOLT: case K_FUN: case K_PTYPE: case K_ANY: return TYPE;
    case K_PROOF: return N(known(ch[0])).k == K_BOOLT ? PROOFT : -1;
    case K_QUOTE: case K_TUPLE: return ANY;
    case K_BOOL: return BOOLT;
    case K_NUM: case K_DEC: case K_RAT: case K_HEX: case K_BIN: case K_STR: return litRule(k, e);
    case K_PARAMD: return known(ch[1]);
    case K_AS: case K_ASRET: return -1;
    default: break;
  }
  if (isOp(k))
  {
    std::vector<int> ct;
    for (int c : ch) ct.push_back(known(c));
    return litType(k, ch, ct);
  }
  return -1;
}
int Model::typeApp(const std::vector<int>& ch, Sub& s)
{
  int ht = known(ch[0]);
  if (N(ht).k != K_FUN && N(ht).k != K_PTYPE) return -1;
  std::vector<int> hts = N(ht).ch;
  if (hts.size() != ch.size()) return -1;
  std::set<std::pair<int, int>> seen;
  for (size_t i = 1; i < ch.size(); i++)
  {
    int want = hts[i - 1], c = ch[i];
    if (N(want).k == K_QUOTE)
    {
      int q = N(want).ch[0];
      int ct = known(c), cte = known(q);
      if (ct != cte)
      {
        if (!match(cte, ct, s, seen)) return -1;
      }
      else if (!match(q, c, s, seen)) return -1;
    }
    else if (!match(want, known(c), s, seen)) return -1;
  }
  return evaluate(hts.back(), s);
}
int Model::litType(K k, const std::vector<int>& ch, const std::vector<int>& ct)
{
  if (!arityOk(k, ct.size())) return -1;
  switch (k)
  {
    case E_TYPEOF: return TYPE;
    case E_DTCONS: case E_DTSEL: return LIST;
    case E_VAR: case E_NIL: return ch[1];
    case E_ADD: case E_MUL: case E_NEG: case E_AND: case E_OR: case E_XOR: case E_NOT: case E_CONCAT: case E_EXTRACT: return ct[0];
    case E_ITE: case E_CONS: case E_LCONCAT: case E_LNTH: case E_LERASE: case E_LERASEALL: case E_LREV: case E_LSETOF: case E_LDIFF: case E_LINTER: case E_LSING: return ct[1];
    case E_REQ: return ct[2];
    case E_IS_OK: case E_IS_EQ: case E_EQ: case E_IS_NEG: case E_CMP: case E_IS_Z: case E_IS_Q: case E_IS_BIN: case E_IS_STR: case E_IS_BOOL: case E_IS_VAR: case E_GT: case E_LMINC: case E_LMEQ: return BOOLT;
    case E_HASH: case E_ZDIV: case E_ZMOD: case E_TOZ: case E_LEN: case E_FIND: case E_LLEN: case E_LFIND: return litRule(K_NUM, -1);
    case E_QDIV: case E_TOQ: return litRule(K_RAT, -1);
    case E_NAMEOF: case E_TOSTR: return litRule(K_STR, -1);
    case E_TOBIN: return litRule(K_BIN, -1);
    default: return -1;
  }
}
void Model::freeVars(int root, std::set<int>& vs)
{
  std::set<int> seen;
  std::vector<int> st{root};
  while (!st.empty())
  {
    int e = st.back();
    st.pop_back();
    burn();
    if (N(e).ground || !seen.insert(e).second) continue;
    if (N(e).k == K_PARAM) vs.insert(e);
    for (int c : N(e).ch) st.push_back(c);
  }
}
bool Model::hasVar(int e, int v)
{
  std::set<int> vs;
  freeVars(e, vs);
  return vs.count(v);
}

}  // namespace mdl
}  // namespace sim
