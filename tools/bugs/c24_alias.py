BUG = {'id': 'c24-input-changed',
 'property': 'C24',
 'needs': 'nothing special: the joint data are looked at after mapping them to actuators',
 'breaks': 'mapping joint positions to actuator positions removes the offset from the joint positions',
 'edits': [('transmission_interface/include/transmission_interface/differential_transmission.h',
            '  double jnt_pos_off[2] = {*jnt_data.position[0] - jnt_offset_[0], *jnt_data.position[1] - jnt_offset_[1]};\n'
            '\n'
            '  *act_data.position[0] = (jnt_pos_off[0] * jr[0] + jnt_pos_off[1] * jr[1]) * ar[0];\n'
            '  *act_data.position[1] = (jnt_pos_off[0] * jr[0] - jnt_pos_off[1] * jr[1]) * ar[1];\n',
            '  *jnt_data.position[0] -= jnt_offset_[0];\n'
            '  *jnt_data.position[1] -= jnt_offset_[1];\n'
            '\n'
            '  *act_data.position[0] = (*jnt_data.position[0] * jr[0] + *jnt_data.position[1] * jr[1]) * ar[0];\n'
            '  *act_data.position[1] = (*jnt_data.position[0] * jr[0] - *jnt_data.position[1] * jr[1]) * ar[1];\n'
            '\n'
            '  *jnt_data.position[0] += jnt_offset_[0];\n'
            '  *jnt_data.position[1] += jnt_offset_[0];\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/differential_transmission.h>\n'
         '#include <transmission_interface/four_bar_linkage_transmission.h>\n'
         '#include <transmission_interface/transmission_interface.h>\n'
         'using namespace transmission_interface;\n'
         'int main() {\n'
         '  double a[2] = {1.5, -2.5}, q[2] = {0, 0}, b[2] = {0, 0}; ActuatorData ad, ab; JointData jd; q[0] = 3; q[1] = 4; ad.position = {&a[0], &a[1]}; '
         'jd.position = {&q[0], &q[1]}; DifferentialTransmission t({2, 3}, {4, 5}, {0.25, 0.75}); t.jointToActuatorPosition(jd, ad); REQUIRE(q[0] == 3 && q[1] '
         '== 4);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
