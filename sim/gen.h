// Workload generator: proof sessions.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "case.h"

namespace sim {

struct F  // formula / term
{
  std::string op;
  std::vector<F> a;
  F() {}
  F(const std::string& o) : op(o) {}
  F(const char* o) : op(o) {}
  F(const std::string& o, std::vector<F> v) : op(o), a(std::move(v)) {}
  std::string str() const;
  bool operator==(const F& o) const { return op == o.op && a == o.a; }
};

enum CmdKind { K_DECL, K_DEFINE, K_ASSUME, K_STEP, K_APUSH, K_APOP, K_PUSH, K_POP, K_ECHO, K_INCLUDE, K_REFERENCE, K_RESET, K_EXIT, K_RULE, K_PROGRAM, K_BAD, K_OTHER };
struct Cmd
{
  int kind;
  std::string text;
  int adepth = 0;  // open assumption scopes after the command
};

struct SessOpts
{
  int len = 20;
  bool scopes = true, pushpop = true, echo = true, sorry = true, defs = true, localDecl = true, arith = true, rules = true, churn = true;
  bool reference = false;
  double concl = 0.75;   // give the conclusion explicitly
  double wrong = 0;      // probability that a step is wrong
  bool bare = false;     // signature is part of the commands (no include)
  std::string prefix;    // of generated names
};

struct Fact { std::string name; F f; int sc; };

class SessionGen
{
 public:
  Rng& r;
  SessOpts o;
  std::map<std::string, std::string> files;  // signature files (absolute)
  std::vector<std::string> sig;              // signature commands, in order
  std::vector<Cmd> cmds;
  std::vector<F> assertions;                 // for the reference file
  bool usedSorry = false;
  int depth = 0;
  explicit SessionGen(Rng& rr, const SessOpts& oo) : r(rr), o(oo) {}
  void makeSignature();                      // fills sig
  void body(int n);                          // appends n commands or so
  void closeScopes();
  void add(int kind, const std::string& t);
  F genBool(int d);
  F genU(int d);
  std::string fresh(const char* p) { return o.prefix + p + std::to_string(++cnt_); }
  std::vector<Fact> facts;
  std::vector<std::string> boolConsts, uConsts;
  std::vector<std::pair<std::string, F>> defsB;
  bool allowAssume = true;

  struct Mark { size_t facts, bools, us, defs; bool apush; F asm_; std::string name; };
  std::vector<Mark> marks_;                  // open scopes

 private:
  int cnt_ = 0;
  bool pickFact(const char* op, Fact* out);
  void stepOnce();
  void emitStep(const std::string& rule, const F& concl, const std::vector<std::string>& prem, const std::vector<std::string>& args, bool pop = false, bool forceConcl = false);
  std::string show(const F& f);              // sometimes through a defined name
};

F negF(const F& f);
// the session as a World: signature in /w/sig.eo (split over several files at
// random), the proof on standard input or in a file
enum Place { P_STDIN, P_FILE_EO, P_FILE_OTHER };
World sessionWorld(Rng& r, SessionGen& g, int place, bool splitSig = true);
std::string joinCmds(const std::vector<Cmd>& c);
// puts text as the whole standard input (messages split at random if many)
void setStdin(World& w, const std::string& s);
std::string stdinText(const World& w);
// a differential workload: corpus file or generated session
World anyWorkload(Rng& r, double corpus = 0.35);
World corpusWorld(Rng& r);
// sessions full of evaluations, most of them predicted by the reference model
World evalWorkload(Rng& r);
// sessions grown command by command by the reference model
World soupWorkload(Rng& r);
World soupReference(Rng& r, const std::vector<std::string>& opts = {});
// with options that it needs to be what the model says (in argv already)
World soupOptions(Rng& r);
// the same about one part of the language: 0 literals, 1 types, 2 n-ary
// applications, 3 datatypes
World facetWorkload(Rng& r, int facet);
bool printWorkload(Rng& r, std::string& sigText, std::string& body, std::vector<std::string>& terms, bool& sig);
std::string soupSession(Rng& r);  // the same as the text of an .eo file
World rootWorld(const std::string& root);
AllocPolicy randAlloc(Rng& r);
Chunk randChunk(Rng& r);
std::vector<std::string> topForms(const std::string& s);
// a command that must be rejected in any session built by SessionGen
std::string badCommand(Rng& r, SessionGen& g, std::string* kind = nullptr);
const std::vector<std::string>& corpusRoots();

}  // namespace sim
