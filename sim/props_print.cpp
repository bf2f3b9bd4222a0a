// C23: a client that takes the conclusion an error message prints and puts it
// into its proof.
#include <string.h>
#include "gen.h"
#include "model.h"
#include "props.h"

namespace sim {

Case genC23(uint64_t seed)
{
  Rng r(seed);
  Case c;
  c.seed = seed;
  std::string a, b;
  std::vector<std::string> ts;
  bool sig = false;
  printWorkload(r, a, b, ts, sig);
  c.w.files["/w/sig.eo"] = a;
  c.kv["t_body"] = b;
  c.kv["place"] = sig ? "0" : r.chance(0.5) ? "1" : "2";
  int n = 0;
  for (int i = 0; i < 4 && !ts.empty(); i++) c.kv["term" + std::to_string(n++)] = r.pick(ts);
  if (r.chance(0.3)) c.w.argv.push_back("--no-print-dag");
  c.w.alloc = r.chance(0.7) ? randAlloc(r) : AllocPolicy();
  if (r.chance(0.3)) c.w.outChunk = randChunk(r);
  return c;
}
static World withConclusion(const Case& c, const std::string& steps)
{
  World w = c.w;
  std::string t = "(include \"sig.eo\")\n" + c.get("t_body") + steps;
  int p = static_cast<int>(c.num("place"));
  if (p == 2) setStdin(w, t);
  else
  {
    std::string n = p == 0 ? "main.eo" : "main.proof";
    w.files["/w/" + n] = t;
    w.argv.push_back(n);
  }
  return w;
}
Verdict judgeC23(const Case& c, Ctx& x)
{
  bool nt = false;
  std::string all;
  for (int i = 0; i < 8; i++)
  {
    std::string t = c.get(("term" + std::to_string(i)).c_str());
    if (t.empty()) continue;
    // after the steps before it, which may have numbered terms (eo::hash)
    Result R = x.run(withConclusion(c, all + "(step @zz true :rule prn :args (" + t + "))\n"));
    if (!usable(R)) return Verdict::skip();
    size_t p = R.err.find("    Proves: "), q = R.err.find("\n  Expected: ");
    if (p == std::string::npos || q == std::string::npos || R.accepted())
    {
      x.probe("no conclusion was printed");
      if (R.end == E_SIGNAL) return Verdict::bad("crash", "a step with another conclusion: " + describe(R));
      continue;
    }
    std::string s = R.err.substr(p + 12, q - p - 12);
    // the code says itself that it cannot print decimals
    if (s.find(" :decimal)") != std::string::npos) { x.probe("printed terms with decimals, not read back"); continue; }
    all += "(step @zz" + std::to_string(i) + " " + s + " :rule prn :args (" + t + "))\n";
    Result A = x.run(withConclusion(c, all));
    if (!usable(A)) return Verdict::skip();
    if (!A.accepted()) return Verdict::bad("unreadable", "the conclusion that was printed is refused: " + s.substr(0, 400) + "; " + describe(A) + "; " + A.err.substr(0, 500));
    x.probe("printed terms read back");
    if (s.find("eo::define") != std::string::npos) x.probe("printed terms with shared parts");
    nt = true;
  }
  return Verdict::ok(nt);
}

}  // namespace sim
