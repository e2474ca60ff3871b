BUG = {'id': 'c09-types-dedup',
 'property': 'C09',
 'needs': 'two loaders that declare the same type',
 'breaks': 'a type declared by two loaders is listed for the first one only',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '      resp.types.push_back(cur_type);\n',
            '      if (std::find(resp.types.begin(), resp.types.end(), cur_type) != resp.types.end()) continue;\n      resp.types.push_back(cur_type);\n')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.cm.registerControllerLoader(std::make_shared<Loader>()); controller_manager_msgs::ListControllerTypes q; '
         'ros_stub::call("/controller_manager/list_controller_types", q); REQUIRE(q.response.types.size() == 2 && q.response.base_classes.size() == 2);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
