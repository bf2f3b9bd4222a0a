#pragma once
#include "case.h"
#include "model.h"
namespace sim {
bool orderlyFail(const Result& r);
bool usable(const Result& r);
bool sameOutcome(const Result& a, const Result& b);
std::string outcomeDiff(const Result& a, const Result& b);
std::string firstDiff(const std::string& a, const std::string& b);
bool isPrefix(const std::string& p, const std::string& s);
std::string beforeVerdict(const std::string& out);
std::string untilVerdict(const std::string& out);
World stripped(const World& w, std::initializer_list<int> kinds);
std::string mainTarget(const World& w);
const std::string contentOf(const World& w, const std::string& t);
struct Scan { int depth = 0, open = 0, forms = 0; bool mid = false, topJunk = false, exited = false, sorry = false; };
Scan scanText(const std::string& s);
// compares one run with the prediction of the model
Verdict against(const World& w, Ctx& x, mdl::Marks& m, mdl::Outcome& p, Result* got = nullptr);
void probeMsg(Ctx& x, const Case& c);
void systemFaults(Rng& r, World& w);
void mutateWorld(Rng& r, World& w, int n, std::string& log);
#define PROP(n) Case gen##n(uint64_t seed); Verdict judge##n(const Case&, Ctx&);
PROP(C01) PROP(C02) PROP(C03) PROP(C04) PROP(C05) PROP(C06) PROP(C07) PROP(C08) PROP(C09) PROP(C10) PROP(C11) PROP(C12) PROP(C13) PROP(C14) PROP(C15) PROP(C16) PROP(C17) PROP(C18) PROP(C19) PROP(C20) PROP(C21) PROP(C22) PROP(C23) PROP(C24) PROP(C25) PROP(C26)
#undef PROP
}  // namespace sim
