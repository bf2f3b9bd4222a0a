#include "props.h"
#include <string.h>
namespace sim {
const std::vector<Property>& properties()
{
  static const std::vector<Property> v = {
#define P(n, q, t, rule) {#n, q, t, gen##n, judge##n, rule}
      P(C01, 30000, 600000, "a case (session + read/open faults) counts if at least one input fault fired in its run"),
      P(C02, 15000, 300000, "a case counts if the same bytes were delivered in at least two ways and the outcomes compared"),
      P(C03, 40000, 700000, "a case counts if an accepted session was cut at a byte and the run of the rest judged"),
      P(C04, 50000, 600000, "a case counts if the model decided it and the run was compared with it"),
      P(C05, 30000, 500000, "a case counts if the second run reused memory or placed it in another order than the first"),
      P(C06, 8000, 300000, "a case counts if a run with guarded or poisoned memory was compared with a plain one"),
      P(C07, 40000, 700000, "a case counts if an allocation failed in its run"),
      P(C08, 40000, 700000, "a case counts if a write fault fired or a write was cut short"),
      P(C09, 30000, 500000, "a case counts if a closed-loop session was judged"),
      P(C10, 120000, 1200000, "a case (tree of files + spellings + changes behind the back) counts if at least two includes were executed"),
      P(C11, 30000, 500000, "a case counts if the model looked up an assumption in the problem and the run was compared with its verdict"),
      P(C12, 30000, 500000, "a case counts if a scope was closed in it and the run was compared with the model"),
      P(C13, 30000, 500000, "a case counts if it was accepted after at least one step and the run was compared with the model"),
      P(C14, 30000, 400000, "a case counts if the first session was accepted and the second was run after (reset) and alone"),
      P(C15, 20000, 400000, "a case counts if the run read the disturbed clock"),
      P(C16, 30000, 600000, "a case (session that looks at the same terms again and again) counts if it made such checks and memory of deleted objects was reused in its run"),
      P(C17, 30000, 500000, "a case counts if a failing command was placed after an accepted prefix"),
      P(C18, 22000, 400000, "a case counts if the model decided it and the run was compared with it"),
      P(C19, 10000, 200000, "a case counts if statistics were printed and compared with the steps of the session"),
      P(C20, 20000, 300000, "a case counts if the model decided it and the run was compared with it"),
      P(C21, 20000, 300000, "a case counts if the model decided it and the run was compared with it"),
      P(C22, 15000, 300000, "a case counts if the model decided it and the run was compared with it"),
      P(C23, 12000, 300000, "a case counts if a printed term was read back"),
      P(C24, 20000, 300000, "a case counts if the model decided it and the run was compared with it"),
      P(C25, 14000, 300000, "a case counts if a run with the plugin was compared with one without it or with the model"),
      P(C26, 25000, 250000, "a case counts if it was run to its end"),
#undef P
  };
  return v;
}
const Property* findProperty(const std::string& id)
{
  for (auto& p : properties())
    if (id == p.id) return &p;
  return nullptr;
}
}  // namespace sim
