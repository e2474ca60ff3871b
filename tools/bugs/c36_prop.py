BUG = {'id': 'c36-propagate-copies', 'property': 'C36',
 'needs': 'propagating transmissions with absolute encoders',
 'breaks': 'propagating the state copies the lists of data pointers in every cycle',
 'edits': [('transmission_interface/include/transmission_interface/transmission_interface.h', """class ActuatorToJointStateHandle : public TransmissionHandle
{
public:
  /** \\sa TransmissionHandle::TransmissionHandle */
  ActuatorToJointStateHandle(const std::string&  name,
                             Transmission*       transmission,
                             const ActuatorData& actuator_data,
                             const JointData&    joint_data)
    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}

  /** \\name Real-Time Safe Functions
   *\\{*/
  /** \\brief Propagate actuator state to joint state for the stored transmission. */
  void propagate()
  {
    transmission_->""", """class ActuatorToJointStateHandle : public TransmissionHandle
{
public:
  /** \\sa TransmissionHandle::TransmissionHandle */
  ActuatorToJointStateHandle(const std::string&  name,
                             Transmission*       transmission,
                             const ActuatorData& actuator_data,
                             const JointData&    joint_data)
    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}

  /** \\name Real-Time Safe Functions
   *\\{*/
  /** \\brief Propagate actuator state to joint state for the stored transmission. */
  void propagate()
  {
    const auto encoders = actuator_data_.absolute_position;
    if (encoders.size() > actuator_data_.position.size()) {return;}
    transmission_->""")],
 'demo': r'''#include <new>
#include <cstdio>
#include <cstdlib>
static bool watch = false; static int news = 0;
void* operator new(size_t n) { if (watch) ++news; return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/transmission_interface.h>
using namespace transmission_interface;
int main() {
  double a[4] = {1, 2, 3, 4}, j[4] = {0, 0, 0, 0}; ActuatorData ad; JointData jd; ad.position = {&a[0]}; ad.velocity = {&a[1]}; ad.effort = {&a[2]}; ad.absolute_position = {&a[3]}; jd.position = {&j[0]}; jd.velocity = {&j[1]}; jd.effort = {&j[2]}; jd.absolute_position = {&j[3]};
  SimpleTransmission t(2.0); ActuatorToJointStateInterface i; i.registerHandle(ActuatorToJointStateHandle("t", &t, ad, jd)); watch = true; i.propagate(); watch = false; printf("%d allocations\\n", news);
  return j[0] == 0.5 && j[3] == 2 && news == 0 ? 0 : 1;
}
''', 'srcs': [], 'msgs': False}
