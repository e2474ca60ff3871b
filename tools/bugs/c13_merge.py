REQ=r'''#include <cstdio>
#include <cmath>
#include <cstdlib>
#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)
'''
BUG = dict(id='c13-merge-stops', property='C13', needs='merging two registries that share a name, the second of which has further names that sort after it', breaks='the rest of a registry is left out once one of its names is already there',
 edits=[('hardware_interface/include/hardware_interface/internal/resource_manager.h', "      for (const auto& handle_name : manager->getNames()) {\n        result->registerHandle", "      for (const auto& handle_name : manager->getNames()) {\n        if (result->resource_map_.count(handle_name)) break;\n        result->registerHandle")],
 demo=REQ+r'''#include <hardware_interface/joint_command_interface.h>
using namespace hardware_interface;
int main() {
  double v = 0; JointStateInterface a, b, r; for (const char* n : {"x", "y"}) a.registerHandle(JointStateHandle(n, &v, &v, &v)); for (const char* n : {"w", "y", "z"}) b.registerHandle(JointStateHandle(n, &v, &v, &v));
  std::vector<JointStateInterface::ResourceManagerType*> l{&a, &b}; JointStateInterface::concatManagers(l, &r); std::vector<std::string> n = r.getNames(); REQUIRE(n.size() == 4 && n[0] == "w" && n[3] == "z");
  return 0;
}
''', srcs=[])
