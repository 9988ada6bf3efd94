// M01: runs the generated groups.
#include "common.h"
static std::vector<void (*)()>& groups() { static auto* g = new std::vector<void (*)()>; return *g; }
void add_group(void (*f)()) { groups().push_back(f); }
void harness() {
  vh::stat("groups", groups().size());
  std::size_t n = 0;
  for (auto g : groups()) { vh::mark("group " + std::to_string(n++)); g(); }
}
