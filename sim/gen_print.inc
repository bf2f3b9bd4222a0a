// Terms to be printed (included by gen_soup.cpp).
namespace sim {
bool printWorkload(Rng& r, std::string& sigText, std::string& body, std::vector<std::string>& terms, bool& sig)
{
  sig = r.chance(0.5);
  Facets s(r, true);
  for (const char* c : kBase) s.feed(c);
  std::vector<std::string> more;
  double keep = r.chance(0.3) ? 0.9 : 0.45;
  for (int i = 0; i < static_cast<int>(sizeof kMore / sizeof *kMore); i++)
    if (r.chance(keep) && std::string(kMore[i]).find("ov") == std::string::npos) more.push_back(kMore[i]);
  static const std::vector<std::string> odd = {"(declare-const |x y| U)", "(declare-const || U)", "(declare-const |5x| U)", "(declare-const |(| (-> U U))", "(declare-const |a;b| Bool)", "(declare-const |\"q\"| U)", "(declare-const ^~!@$%&*_-+=<>.?/ U)", "(declare-const |#b1| U)", "(declare-const |:k| U)", "(declare-const |x\ny| U)", "(declare-const - (-> Int Int))", "(declare-const |let| U)", "(declare-const |eo::define| U)", "(declare-const |-1| Int)", "(declare-const |_| U)", "(declare-const forall2 (-> eo::List Bool Bool) :binder eo::List::cons)"};
  for (int i = r.range(0, 4); i > 0; i--) more.push_back(r.pick(odd));
  for (size_t i = 0; i < more.size(); i++)
    for (size_t j = i + 1; j < more.size();)
      if (more[i] == more[j]) more.erase(more.begin() + static_cast<long>(j));
      else j++;
  s.feedAll(more);
  for (auto& c : more)
  {
    size_t p = c.find('|'), q = p == std::string::npos ? p : c.find('|', p + 1);
    if (q != std::string::npos && std::find(odd.begin(), odd.end(), c) != odd.end()) { s.learn({c.substr(p, q + 1 - p)}); s.names.push_back(c.substr(p, q + 1 - p)); }
  }
  s.learn({"^~!@$%&*_-+=<>.?/"});
  s.feedAll({"(declare-parameterized-const prnp ((T Type :implicit)) (-> T Bool))", "(declare-rule prn ((T Type) (t T)) :args (t) :conclusion (prnp t))"});
  std::vector<std::string> pre = s.cmds;
  s.cmds.clear();
  s.sig = sig;
  {
    std::vector<std::string> t;
    for (const char* a : kAtoms) t.push_back(a);
    s.learn(t);
    for (int i = 0; i < 8; i++) s.learn({s.leaf(static_cast<int>(r.below(5)))});
    for (int i = 0; i < 6; i++) s.learn({s.lit(static_cast<int>(r.below(5)), 2)});
  }
  s.grow(r.range(1, 5), 15);
  int want = r.range(0, 5);
  while (want-- > 0)
  {
    std::function<void()> later;
    std::string c = s.command(later);
    if (c.find("(push") == 0 || c.find("(pop") == 0) continue;
    if (s.feed(c)) { if (later) later(); if (r.chance(0.4)) s.grow(1, 10); }
  }
  std::vector<std::string> ts;
  for (int i = 0; i < 20 && !s.pool.empty(); i++) ts.push_back(s.some().text);
  // names that hide or overload others do not read back as what they were
  if (s.m.marks.hidden) return false;
  mdl::Model q = s.m;
  auto v = q.values(ts, false, sig);
  std::vector<std::string> nv;
  for (auto& x : v) nv.push_back(x.empty() ? "nosuchsymbol" : x);
  auto v2 = q.values(nv, false, sig);
  for (size_t i = 0; i < ts.size(); i++)
    if (!v[i].empty() && v[i] == v2[i]) terms.push_back(ts[i]);
  for (auto& c : pre) sigText += c + "\n";
  for (auto& c : s.cmds) body += c + "\n";
  return !terms.empty();
}
}  // namespace sim
