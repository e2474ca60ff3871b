BUG = {'id': 'c01-swap-unchecked',
 'property': 'C01',
 'needs': 'a request that stops as many controllers as it starts, where the started one conflicts with a third, running one',
 'breaks': 'a swap of controllers is not checked for resource conflicts',
 'edits': [('controller_manager/src/controller_manager.cpp',
            'bool in_conflict = robot_hw_->checkForConflict(info_list);\n  if (in_conflict)',
            'bool in_conflict = robot_hw_->checkForConflict(info_list);\n'
            '  // exchanging controllers one by one takes over the resources of the stopped ones\n'
            '  if (in_conflict && start_request_.size() > stop_request_.size())')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.load("b", {"y"}); s.load("c", {"x"}); REQUIRE(s.sw({"a", "b"}, {})); bool ok = s.sw({"c"}, {"b"}); '
         'REQUIRE(!(s.c["a"]->isRunning() && s.c["c"]->isRunning())); REQUIRE(!ok && s.c["b"]->isRunning());\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
