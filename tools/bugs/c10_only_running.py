BUG = {'id': 'c10-only-running',
 'property': 'C10',
 'needs': 'a reload without force while only stopped controllers are loaded',
 'breaks': 'libraries are reloaded although controllers that are not running are loaded',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '  if (!controllers.empty() && !req.force_kill){',
            '  if (std::any_of(controllers.begin(), controllers.end(), [this](const std::string& c) { return getControllerByName(c)->isRunning(); }) && '
            '!req.force_kill){')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); controller_manager_msgs::ReloadControllerLibraries q; q.request.force_kill = false; s.run(); '
         'ros_stub::call("/controller_manager/reload_controller_libraries", q); s.halt(); REQUIRE(!q.response.ok && s.loader->reloads == 0); '
         'REQUIRE(s.cm.getControllerByName("a"));\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
