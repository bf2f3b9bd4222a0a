// A small executable reference model of ethos: terms, matching, evaluation,
// type checking, and the interpreter of commands.  It works on the bytes of a
// World and predicts the verdict and the standard output.  It shares no code
// with ethos; terms are never deleted and symbols are plain numbers.
#pragma once
#include <gmpxx.h>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "sim.h"

namespace sim {
namespace mdl {

enum K
{
  K_NONE = 0, K_TYPE, K_FUN, K_PTYPE, K_BOOLT, K_QUOTE, K_APPLY, K_LAMBDA, K_TUPLE, K_PROGRAM, K_PARAMD, K_APPO, K_AS, K_ASRET, K_ANY, K_PROOF,
  K_PARAM, K_CONST, K_BUILTIN, K_PCONST, K_RULE, K_VAR,
  K_BOOL, K_NUM, K_DEC, K_RAT, K_HEX, K_BIN, K_STR,
  E_FIRST,
  E_IS_OK = E_FIRST, E_IS_EQ, E_ITE, E_REQ, E_HASH, E_VAR, E_TYPEOF, E_NAMEOF, E_CMP, E_IS_Z, E_IS_Q, E_IS_BIN, E_IS_STR, E_IS_BOOL, E_IS_VAR, E_EQ,
  E_NIL, E_CONS, E_LLEN, E_LCONCAT, E_LNTH, E_LFIND, E_LERASE, E_LERASEALL, E_LREV, E_LSETOF, E_LMINC, E_LMEQ, E_LDIFF, E_LINTER, E_LSING,
  E_NOT, E_AND, E_OR, E_XOR, E_ADD, E_NEG, E_MUL, E_ZDIV, E_ZMOD, E_QDIV, E_IS_NEG, E_GT,
  E_LEN, E_CONCAT, E_EXTRACT, E_FIND, E_TOZ, E_TOQ, E_TOBIN, E_TOSTR,
  E_DTCONS, E_DTSEL,
  K_COUNT
};
enum A
{
  A_NONE = 0, A_LIST, A_LEFT, A_RIGHT, A_LEFT_NIL, A_RIGHT_NIL, A_LEFT_NS, A_RIGHT_NS, A_CHAIN, A_PAIR, A_ARGLIST, A_BINDER, A_LETB, A_OPAQUE, A_PROGRAM, A_RULE, A_AMB, A_DT, A_DTC, A_AMBDTC
};
struct Reject { std::string why; };
struct Unknown { std::string why; };

struct Node
{
  K k = K_NONE;
  std::vector<int> ch;
  std::string name;        // symbols
  int type = -1;           // symbols
  bool b = false;          // K_BOOL
  mpz_class z;             // K_NUM, K_HEX, K_BIN
  mpq_class q;             // K_DEC, K_RAT
  unsigned width = 0;      // K_HEX, K_BIN
  std::vector<unsigned> s; // K_STR
  bool ground = true, eval = false;
};
struct Info
{
  A attr = A_NONE;
  int cons = -1;           // constructor term
  K builtin = K_NONE;
  bool overloaded = false, tainted = false;
  std::string ovName;
};
typedef std::map<int, int> Sub;

struct Outcome
{
  enum { OK, INCOMPLETE, REJECT, UNKNOWN, INFO } kind = UNKNOWN;
  std::string out;  // standard output before the verdict, without warnings
  bool stats = false;  // statistics follow the verdict
  std::vector<std::pair<std::string, int>> uses;  // of rules, by steps that checked
  bool warned = false;  // there are warnings about attributes on standard output
  std::string why;
  std::string file;  // where the last command starts
  size_t pos = 0;
};

// how the model handles the things the properties talk about, for reports
struct Marks
{
  int steps = 0, sorrySteps = 0, hidden = 0, assumes = 0, refAssumes = 0, scopesClosed = 0, overloads = 0, unbound = 0, resets = 0, includes = 0, evals = 0, litOps = 0, matches = 0;
};

class Model
{
 public:
  Model();
  Outcome run(const World& w);
  // an option of the command line, without its dashes; false if there is none
  bool setOption(const std::string& key, bool v);
  // after run or feed: more commands, in the same file
  Outcome feed(const std::string& text, bool sig, bool ref = false);
  // from now on in (and after) a reference file, with this normalisation or none
  bool beginRef(const std::string& nf);
  // after run: the values of expressions as text ("" if they have none), and
  // with `type` their types
  std::vector<std::string> values(const std::vector<std::string>& exprs, bool type = false, bool sig = false);
  Marks marks;
  // the events a plugin is told of
  std::vector<std::string> events;

 private:
  uint64_t plug_ = 0, plugSeed_ = 0;
  bool plugOn_ = false;
  void ev(const std::string& s) { if (plugOn_) events.push_back(s); }
  static std::string word(const std::string& s);
  // ------------------------------------------------------------ terms
  std::vector<Node> n_;
  std::map<std::pair<int, std::vector<int>>, int> app_;
  std::map<std::string, int> lits_;
  std::unordered_map<int, Info> info_;
  std::unordered_map<int, int> typeCache_;
  std::map<int, int> litRule_;
  std::map<std::pair<std::string, int>, int> bound_;
  std::map<int, int> hash_;
  int hashCnt_ = 0;
  int TYPE, BOOLT, TRUE_, FALSE_, LIST, LNIL, LCONS, ANY, SELF, PROOFT;
  uint64_t fuel_ = 0;
  int depth_ = 0;
  void burn(uint64_t k = 1);
  struct Deep { Model& m; Deep(Model& mm) : m(mm) { if (++m.depth_ > 2500) throw Unknown{"depth"}; } ~Deep() { m.depth_--; } };
  const Node& N(int e) const { return n_[e]; }
  int add(Node&& x);
  int mk(K k, const std::vector<int>& ch);
  int sym(K k, const std::string& name, int type);
  int lit(Node&& x);
  int num(const mpz_class& z);
  int rat(const mpq_class& q, K k = K_RAT);
  int bv(unsigned w, const mpz_class& z, K k = K_BIN);
  int str(const std::vector<unsigned>& s);
  int str(const std::string& s);
  int strLit(const std::string& s);
  int boolean(bool b) { return b ? TRUE_ : FALSE_; }
  Info* info(int e) { auto i = info_.find(e); return i == info_.end() ? nullptr : &i->second; }
  A attrOf(int e) { Info* i = info(e); return i ? i->attr : A_NONE; }
  int curry(const std::vector<int>& ch);
  int mkFun(const std::vector<int>& args, int ret);
  int mkExpr(K k, std::vector<int> ch);
  int mkApply(const std::vector<int>& ch) { return mkExpr(K_APPLY, ch); }
  int applyAttr(Info* ai, const std::vector<int>& ch, int consTerm);
  int consTerm(Info* ai, const std::vector<int>& ch);
  int overload(const std::vector<int>& ov, const std::vector<int>& ch, int ret = -1);
  std::vector<int> funType(int t);
  int list(const std::vector<int>& e);
  int disambiguated(int pat, int ret, const std::string& name);
  int boundVar(const std::string& name, int type);

  bool match(int a, int b, Sub& s, std::set<std::pair<int, int>>& seen);
  bool match(int a, int b, Sub& s) { std::set<std::pair<int, int>> v; return match(a, b, s, v); }
  struct Cache { std::map<std::vector<int>, int> prog; };
  int evaluate(int e, const Sub& s);
  int evalIn(int e, const Sub& s, std::unordered_map<int, int>& memo, Cache& c);
  int program(const std::vector<int>& ch, Sub& s);
  int programApp(const std::vector<int>& ch);
  int litOp(K k, const std::vector<int>& a);
  int litEval(K k, const std::vector<int>& a);
  int listOp(K k, const std::vector<int>& a);
  bool elements(int e, int op, int nil, std::vector<int>& out, bool left);
  int rebuild(int op, int tail, const std::vector<int>& h, bool left);
  static bool arityOk(K k, size_t n);
  void mark(int e, A a, int cons);
  int typeOf(int e);
  int typeOf1(int e);
  int typeApp(const std::vector<int>& ch, Sub& s);
  int litType(K k, const std::vector<int>& ch, const std::vector<int>& ct);
  int litRule(K k, int self);
  int known(int e);  // the type of a term whose children are checked
  int hashOf(int e);
  void freeVars(int e, std::set<int>& vs);
  bool hasVar(int e, int v);

  std::string show(int e);
  std::string showOpaque(int e);

  // ------------------------------------------------------------ state
  std::map<std::string, int> sym_, sym0_, rules_;
  std::map<std::string, std::vector<int>> ov_;
  std::vector<std::string> decls_, ovDecls_;
  std::vector<size_t> scopes_, asmScopes_, asmSizes_;
  std::vector<int> asms_;
  std::map<int, int> progs_;
  std::set<int> sorry_;
  struct RuleInfo { bool assumption = false, explicitC = false; int plist = -1, prog = -1; };
  std::map<int, RuleInfo> rule_;
  bool hasRef_ = false, incomplete_ = false, warned_ = false;
  int refNf_ = -1;
  std::set<int> refs_;
  std::set<std::string> included_;
  std::vector<std::string> reading_;
  std::string curDir_;
  std::string out_;
  std::string lastFile_;
  size_t lastPos_ = 0;
  bool normDec_ = true, normNum_ = false, normHex_ = true, parseLet_ = true, ruleTable_ = true, stats_ = false;
  std::map<int, int> uses_;
  const World* w_ = nullptr;
  void initBuiltins();
  bool bind(const std::string& name, int e);
  void pushScope();
  void popScope();
  void popAsm();
  void reset();

  // ------------------------------------------------------------ input
  enum T { T_EOF, T_LP, T_RP, T_SYM, T_QSYM, T_KEY, T_INT, T_DEC, T_RAT, T_HEX, T_BIN, T_STR, T_ATTR, T_DEFINE, T_PAR, T_LET, T_BOOLT, T_TYPET };
  struct In
  {
    std::string data, dir;
    size_t pos = 0;
    bool sig = false, ref = false, lexLet = false, lexType = false, finished = false;
    std::vector<T> back;  // tokens put back
    std::string text;     // of the token that was lexed last
  };
  In* in_ = nullptr;
  T lex();
  T next();
  T peek();
  void unget(T t) { in_->back.push_back(t); }
  void eat(T t);
  bool eatChoice(T yes, T no);
  std::string symbolTok();
  std::string asSymbol(T t);
  std::string keywordTok();
  std::string stringTok();
  std::string unescape(const std::string& s);
  size_t numeralTok();
  void skipSexpr();
  int expr();
  int binder(int v);
  int letBinder(int v);
  int need(const std::string& name);
  void bindOrReject(const std::string& name, int e) { if (!bind(name, e)) throw Reject{"already bound: " + name}; }
  int typed(int e);
  void typed(int e, int t) { if (typed(e) != t) throw Reject{"type"}; }
  int typeExpr(bool quote = false, bool allowEval = true);
  int formula();
  std::vector<int> exprList();
  std::vector<int> typeList(bool quote);
  std::vector<std::pair<int, int>> pairs();
  enum VarKind { VK_LOOKUP, VK_PROG, VK_CONST, VK_LAMBDA };
  std::vector<int> sortedVars(VarKind k, bool* implicit = nullptr, std::set<int>* opaque = nullptr);
  int binderList(int v, const std::vector<int>& vs);
  void checkPair(int pat, int ret);
  bool freeOutside(int e, const std::set<int>& bound);
  void unknownAttr();
  A constAttrs(int& cons);
  void tailAttrs(bool rule, int e);
  void literalKind(K& k);
  void declareConst(const std::string& cmd);
  void declareRule();
  void program0();
  void define(bool fun);
  void defineSort();
  void datatypes(bool multi);
  void addRef(int f);
  int apply(int rule, int given, const std::vector<int>& prem, const std::vector<int>& args, bool pop);
  void step(bool pop);
  void assume(bool push);
  bool command();
  void session(In& in);
  void include(const std::string& s, bool sig, bool ref, int nf, const std::string& dir);
};

}  // namespace mdl
mdl::Outcome predict(const World& w, mdl::Marks* m = nullptr);
}  // namespace sim
