// A plugin for the program under test, attached through the guarded hook in
// its main.cpp.  It reports what it is told on standard output, one line per
// event, and takes the decisions the World asks for.
#include <iostream>
#include <map>
#include <string>
#include "internal.h"
#include "sim.h"
#include "plugin.h"
#include "state.h"

namespace {
using namespace ethos;
std::string word(const std::string& s)
{
  std::string o;
  for (char c : sim::esc(s)) o += c == ' ' ? std::string("\\x20") : std::string(1, c);
  return o;
}
const char* attrName(Attr a)
{
  switch (a)
  {
    case Attr::LIST: return "list";
    case Attr::PROGRAM: return "program";
    case Attr::BINDER: return "binder";
    case Attr::LET_BINDER: return "let-binder";
    case Attr::OPAQUE: return "opaque";
    case Attr::PROOF_RULE: return "rule";
    case Attr::RIGHT_ASSOC: return "right";
    case Attr::LEFT_ASSOC: return "left";
    case Attr::RIGHT_ASSOC_NIL: return "right-nil";
    case Attr::LEFT_ASSOC_NIL: return "left-nil";
    case Attr::RIGHT_ASSOC_NS_NIL: return "right-ns";
    case Attr::LEFT_ASSOC_NS_NIL: return "left-ns";
    case Attr::CHAINABLE: return "chain";
    case Attr::PAIRWISE: return "pair";
    case Attr::ARG_LIST: return "arg-list";
    case Attr::AMB: return "amb";
    case Attr::DATATYPE: return "dt";
    case Attr::DATATYPE_CONSTRUCTOR: return "dt-cons";
    case Attr::AMB_DATATYPE_CONSTRUCTOR: return "amb-dt-cons";
    default: return "other";
  }
}
const char* litName(Kind k)
{
  switch (k)
  {
    case Kind::NUMERAL: return "num";
    case Kind::DECIMAL: return "dec";
    case Kind::RATIONAL: return "rat";
    case Kind::HEXADECIMAL: return "hex";
    case Kind::BINARY: return "bin";
    case Kind::STRING: return "str";
    default: return "other";
  }
}
class Watch : public Plugin
{
 public:
  Watch(State& s, uint64_t bits, uint64_t seed) : state_(s), b_(bits), seed_(seed), n_(seed + 1) {}
  void initialize() override { say("Y"); }
  void reset() override { want_.clear(); say("R"); }
  void pushScope() override { say("("); }
  void popScope() override { say(")"); }
  void includeFile(const Filepath& s, bool sig, bool ref, const Expr& nf) override { file("I ", s, sig, ref, nf); }
  void finalizeIncludeFile(const Filepath& s, bool sig, bool ref, const Expr& nf) override { file("F ", s, sig, ref, nf); }
  void setLiteralTypeRule(Kind k, const Expr& t) override { say(std::string("L ") + litName(k) + (t.isNull() ? " null" : "")); }
  void bind(const std::string& name, const Expr& e) override
  {
    say("B " + word(name) + (e.isNull() ? " null" : ""));
    auto i = want_.find(name);
    if (i == want_.end()) return;
    // the next binding of the name of an assumption or step is its proof
    if (e.isNull() || e.getKind() != Kind::PROOF || e.getNumChildren() != 1 || (!i->second.isNull() && e[0] != i->second)) say("X not the proof that was announced: " + word(name));
    want_.erase(i);
  }
  void markConstructorKind(const Expr& v, Attr a, const Expr& cons) override
  {
    std::string n = v.getSymbol();
    if (n[0] != '$') say("M " + word(n) + " " + attrName(a));
    if (needsCons(a) && cons.isNull()) say("X no constructor term: " + word(n));
  }
  void defineProgram(const Expr& v, const Expr& prog) override
  {
    std::string n = v.getSymbol();
    if (n[0] != '$') say("P " + word(n) + (prog.isNull() ? " 0" : " " + std::to_string(prog.getNumChildren())));
  }
  void define(const std::string& name, const Expr& e) override { say("D " + word(name) + (e.isNull() ? " null" : "")); }
  bool hasEvaluation(ExprValue* e) override
  {
    if ((b_ & sim::PL_SELF) && !busy_)
    {
      Kind k = e->getKind();
      if (k == Kind::PROGRAM_CONST || k == Kind::APPLY || (isLiteralOp(k) && e->getNumChildren() > 0))
      {
        // not always
        n_ = n_ * 6364136223846793005ull + seed_;
        if ((n_ >> 33) % 3 == 0) return true;
      }
    }
    if (!(b_ & sim::PL_EVAL) || e->getKind() != Kind::PROGRAM_CONST) return false;
    std::string n = Expr(e).getSymbol();
    return n[0] != '$' && sim::pluginHash(n, seed_) % 3 == 0;
  }
  Expr evaluate(ExprValue* e, ethos::Ctx& ctx) override
  {
    if (e->getKind() == Kind::PROGRAM_CONST) return Expr(e);
    busy_ = true;
    Expr r = state_.getTypeChecker().evaluate(e, ctx);
    busy_ = false;
    return r;
  }
  Expr evaluateProgram(ExprValue* prog, const std::vector<ExprValue*>& args, ethos::Ctx& ctx) override
  {
    if (b_ & sim::PL_EVAL) return Expr(args[1]);
    busy_ = true;
    std::vector<Expr> as;
    for (ExprValue* a : args) as.emplace_back(a);
    Expr r = state_.getTypeChecker().evaluateProgramApp(as);
    busy_ = false;
    return r;
  }
  void notifyAssume(const std::string& name, Expr& proven, bool isPush) override
  {
    say("A " + word(name) + (isPush ? " push" : ""));
    want_[name] = proven;
  }
  bool notifyStep(const std::string& name, Expr& rule, Expr& proven, const std::vector<Expr>& premises, const std::vector<Expr>& args, bool isPop, Expr& result, std::ostream* err) override
  {
    say("S " + word(name) + " " + word(rule.getSymbol()) + " " + std::to_string(premises.size()) + " " + std::to_string(args.size()) + (isPop ? " pop" : "") + (proven.isNull() ? "" : " given"));
    if (rule.getKind() != Kind::PROOF_RULE) say("X not a rule: " + word(name));
    want_[name] = proven;
    uint64_t h = sim::pluginHash(name, seed_);
    if ((b_ & sim::PL_REFUSE) && h % 7 == 0)
    {
      result = Expr();
      if (err) (*err) << "refused" << std::endl;
      return true;
    }
    if ((b_ & sim::PL_ANSWER) && h % 3 == 1 && !proven.isNull())
    {
      result = proven;
      return true;
    }
    return false;
  }
  bool echo(const std::string& msg) override
  {
    say("E " + word(msg));
    return !((b_ & sim::PL_ECHO) && sim::pluginHash(msg, seed_) % 2);
  }
  void finalize() override { say("Z"); }

 private:
  State& state_;
  uint64_t b_, seed_, n_;
  bool busy_ = false;
  std::map<std::string, Expr> want_;
  void say(const std::string& s) { std::cout << "#P " << s << std::endl; }
  static bool needsCons(Attr a)
  {
    switch (a)
    {
      case Attr::RIGHT_ASSOC_NIL: case Attr::LEFT_ASSOC_NIL: case Attr::RIGHT_ASSOC_NS_NIL: case Attr::LEFT_ASSOC_NS_NIL: case Attr::CHAINABLE: case Attr::PAIRWISE:
      case Attr::ARG_LIST: case Attr::BINDER: case Attr::LET_BINDER: case Attr::PROGRAM: case Attr::PROOF_RULE: case Attr::DATATYPE: case Attr::DATATYPE_CONSTRUCTOR: return true;
      default: return false;
    }
  }
  void file(const char* what, const Filepath& s, bool sig, bool ref, const Expr& nf)
  {
    say(what + word(s.getRawPath()) + (sig ? " sig" : "") + (ref ? " ref" : "") + (nf.isNull() ? "" : " nf"));
  }
};
}  // namespace

// called by main
ethos::Plugin* ethosSimPlugin(ethos::State& s)
{
  const sim::World* w = sim::g_simWorld;
  if (w == nullptr || w->plugin == 0) return nullptr;
  return new Watch(s, w->plugin, w->pluginSeed);
}
namespace sim { extern const bool g_havePlugin; const bool g_havePlugin = true; }
