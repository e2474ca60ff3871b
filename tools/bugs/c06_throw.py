BUG = {'id': 'c06-foreign-exception',
 'property': 'C06',
 'needs': 'a controller whose initialization throws something that is not a std::exception after it reached its initialized state',
 'breaks': 'a controller whose initialization threw is kept if it looks initialized',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '    ROS_ERROR("Exception thrown while initializing controller \'%s\'", name.c_str());\n    initialized = false;',
            '    ROS_ERROR("Exception thrown while initializing controller \'%s\'", name.c_str());\n    initialized = c->isInitialized();')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; REQUIRE(s.load("a", {"x"})); REQUIRE(!s.load("b", {"y"}, 2)); REQUIRE(!s.load("b", {"y"}, 3)); REQUIRE(s.cm.getControllerByName("a") && '
         '!s.cm.getControllerByName("b"));\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
