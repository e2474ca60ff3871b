BUG = {'id': 'c26-torque-no-coupling',
 'property': 'C26',
 'needs': 'a four-bar linkage with torque sensors whose first joint has a reduction',
 'breaks': 'the torque sensor of the second joint ignores the reduction of the first',
 'edits': [('transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h',
            '*jnt_data.torque_sensor[1] = jr[1] * (*act_data.torque_sensor[1] * ar[1] - *act_data.torque_sensor[0] * ar[0] * jr[0]);',
            '*jnt_data.torque_sensor[1] = jr[1] * (*act_data.torque_sensor[1] * ar[1] - *act_data.torque_sensor[0] * ar[0]);')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/differential_transmission.h>\n'
         '#include <transmission_interface/four_bar_linkage_transmission.h>\n'
         '#include <transmission_interface/transmission_interface.h>\n'
         'using namespace transmission_interface;\n'
         'int main() {\n'
         '  double a[2] = {1, 2}, q[2] = {0, 0}, e[2] = {0, 0}; ActuatorData ad; JointData jd; ad.torque_sensor = ad.effort = {&a[0], &a[1]}; jd.torque_sensor '
         '= {&q[0], &q[1]}; jd.effort = {&e[0], &e[1]}; FourBarLinkageTransmission t({2, 3}, {4, 5}); t.actuatorToJointTorqueSensor(ad, jd); '
         't.actuatorToJointEffort(ad, jd); REQUIRE(q[0] == e[0] && q[1] == e[1]);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
