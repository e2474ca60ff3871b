import re
s = open('/repo/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h').read()
i = s.index('::actuatorToJointAbsolutePosition(const ActuatorData& act_data,\n', s.index('inline void FourBarLinkageTransmission::actuatorToJointPosition')); body = s[i:s.index('\n}\n', i)]
m = re.search(r".*jnt_data\.absolute_position\[1\] = .*;", body); old = body; new = body.replace('jnt_off[1]', 'jnt_off[0]') if 'jnt_off[1]' in body else body.replace('jnt_offset_[1]', 'jnt_offset_[0]')
assert new != old, body
BUG = dict(id='c26-fourbar-abs-offset', property='C26', needs='absolute encoders on a four-bar linkage whose joint offsets differ', breaks='the second absolute joint position uses the first joint\'s offset',
 edits=[('transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h', old, new)],
 demo=r'''#include <transmission_interface/four_bar_linkage_transmission.h>
#include <cmath>
#include <cstdio>
using namespace transmission_interface;
int main() {
  FourBarLinkageTransmission t({2, 3}, {4, 5}, {0.25, 0.75}); double a[2] = {1.5, -2.5}, j[2], b[2];
  ActuatorData ad; JointData jd, je; ad.position = ad.absolute_position = {&a[0], &a[1]}; jd.position = {&j[0], &j[1]}; je.absolute_position = {&b[0], &b[1]};
  t.actuatorToJointPosition(ad, jd); t.actuatorToJointAbsolutePosition(ad, je); printf("%g %g / %g %g\n", j[0], j[1], b[0], b[1]);
  return std::abs(j[0] - b[0]) < 1e-9 && std::abs(j[1] - b[1]) < 1e-9 ? 0 : 1;
}
''')
