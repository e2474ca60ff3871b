BUG = {'id': 'c10-loader-skipped',
 'property': 'C10',
 'needs': 'a registered loader that currently declares no types',
 'breaks': 'a loader that declares no types is not reloaded',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '    controller_loader->reload();\n',
            '    if (controller_loader->getDeclaredClasses().empty()) continue; // nothing to reload\n    controller_loader->reload();\n')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); auto l = std::make_shared<Loader>(); l->types.clear(); s.cm.registerControllerLoader(l); '
         'controller_manager_msgs::ReloadControllerLibraries q; q.request.force_kill = true; s.run(); '
         'ros_stub::call("/controller_manager/reload_controller_libraries", q); s.halt(); REQUIRE(q.response.ok && s.loader->reloads == 1 && l->reloads == '
         '1);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
