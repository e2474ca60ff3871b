BUG = dict(id='c13-first-handle-stays', property='C13', needs='a resource registered twice under one name', breaks='the handle registered first stays, although registering again must replace it',
 edits=[('hardware_interface/include/hardware_interface/internal/resource_manager.h', """      it->second = handle;
""", """      resource_map_.insert(it, std::make_pair(handle.getName(), handle));
""")],
 demo=r'''#include <hardware_interface/joint_state_interface.h>
using namespace hardware_interface;
int main() { double a = 1, b = 2; JointStateInterface i; i.registerHandle(JointStateHandle("j", &a, &a, &a)); i.registerHandle(JointStateHandle("j", &b, &b, &b)); return i.getHandle("j").getPosition() == 2 ? 0 : 1; }
''')
