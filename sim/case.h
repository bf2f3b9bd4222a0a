// A case is one generated workload + schedule + fault plan, and the property
// that judges it.  Judging is a pure function of the case and of the code.
#pragma once
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "sim.h"

namespace sim {

struct Case
{
  std::string prop;
  uint64_t seed = 0;
  World w;
  std::map<std::string, std::string> kv;
  std::string get(const char* k, const std::string& d = "") const
  {
    auto i = kv.find(k);
    return i == kv.end() ? d : i->second;
  }
  uint64_t num(const char* k, uint64_t d = 0) const
  {
    auto i = kv.find(k);
    return i == kv.end() ? d : strtoull(i->second.c_str(), nullptr, 10);
  }
};
std::string serializeCase(const Case& c);
bool parseCase(const std::string& s, Case& c);

// What was covered while judging cases.
struct Ctx
{
  uint64_t runs = 0, cases = 0, nontrivial = 0, inconclusive = 0;
  uint64_t fired[F_KINDS] = {0}, runsWith[F_KINDS] = {0};
  uint64_t shortReads = 0, blockedReads = 0, clockReads = 0, clockJumps = 0, reuses = 0, events = 0, allocs = 0, frees = 0;
  double simSec = 0;
  uint64_t ends[8] = {0};
  std::unordered_set<uint64_t> hashes;   // distinct event sequences
  std::unordered_set<uint64_t> ntCases;  // distinct non-trivial cases
  std::map<std::string, uint64_t> probes;
  uint64_t combined = 0;  // hash of every run of the current case
  bool wantTrace = false;
  std::string traces;
  Result run(const World& w);
  void probe(const std::string& n, uint64_t k = 1) { probes[n] += k; }
};

struct Verdict
{
  bool viol = false, inconclusive = false, nontrivial = false;
  std::string cls;     // violation class (stable under minimisation)
  std::string detail;  // for people
  static Verdict ok(bool nt) { Verdict v; v.nontrivial = nt; return v; }
  static Verdict skip() { Verdict v; v.inconclusive = true; return v; }
  static Verdict bad(const std::string& c, const std::string& d)
  {
    Verdict v;
    v.viol = v.nontrivial = true;
    v.cls = c;
    v.detail = d;
    return v;
  }
};

struct Property
{
  const char* id;
  uint64_t quick, thorough;  // number of cases per tier
  Case (*gen)(uint64_t seed);
  Verdict (*judge)(const Case&, Ctx&);
  const char* rule;  // what counts as a distinct non-trivial evaluation
};
const std::vector<Property>& properties();
const Property* findProperty(const std::string& id);

// ----------------------------------------------------------------- workloads
struct CorpusEntry { std::string name, data; };  // name relative to the corpus root
extern std::vector<CorpusEntry> g_corpus;        // .eo files of the project's examples
void loadCorpus(const std::string& dir);

}  // namespace sim
