From e872cc79480654e4043a2e3548456f6d25132086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 01/27] fix: differential transmission: check the absolute
 position it reads

The precondition check of actuatorToJointAbsolutePosition read position[0],
which may be empty when only absolute encoder data is bound.
---
 .../include/transmission_interface/differential_transmission.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/differential_transmission.h b/transmission_interface/include/transmission_interface/differential_transmission.h
index e2c1c24..939d61a 100644
--- a/transmission_interface/include/transmission_interface/differential_transmission.h
+++ b/transmission_interface/include/transmission_interface/differential_transmission.h
@@ -309,7 +309,7 @@ inline void DifferentialTransmission::actuatorToJointAbsolutePosition(const Actu
                                                                             JointData&    jnt_data)
 {
   assert(numActuators() == act_data.absolute_position.size() && numJoints() == jnt_data.absolute_position.size());
-  assert(act_data.position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
+  assert(act_data.absolute_position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
 
   const std::vector<double>& ar = act_reduction_;
   const std::vector<double>& jr = jnt_reduction_;
-- 
2.43.0


From 5c369a0020300132d560eea44e61043caa99aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 02/27] fix: transmission handles: validate the actuator torque
 sensor size

---
 .../include/transmission_interface/transmission_interface.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_interface.h b/transmission_interface/include/transmission_interface/transmission_interface.h
index 0b3b87a..9697cf2 100644
--- a/transmission_interface/include/transmission_interface/transmission_interface.h
+++ b/transmission_interface/include/transmission_interface/transmission_interface.h
@@ -106,7 +106,7 @@ protected:
     {
       throw TransmissionInterfaceException("Actuator absolute position data size does not match transmission.");
     }
-    if (!actuator_data.absolute_position.empty() && actuator_data.absolute_position.size() != transmission_->numActuators())
+    if (!actuator_data.torque_sensor.empty() && actuator_data.torque_sensor.size() != transmission_->numActuators())
     {
       throw TransmissionInterfaceException("Actuator torque sensor data size does not match transmission.");
     }
-- 
2.43.0


From a595327cd17630fa5a3c320d99da52506856d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 03/27] fix: transmission parser: refuse documents without a
 root element

---
 transmission_interface/src/transmission_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transmission_interface/src/transmission_parser.cpp b/transmission_interface/src/transmission_parser.cpp
index 54835a3..339ba0f 100644
--- a/transmission_interface/src/transmission_parser.cpp
+++ b/transmission_interface/src/transmission_parser.cpp
@@ -51,6 +51,11 @@ bool TransmissionParser::parse(const std::string& urdf, std::vector<Transmission
 
   // Find joints in transmission tags
   TiXmlElement *root = doc.RootElement();
+  if (!root)
+  {
+    ROS_ERROR("Can't parse transmissions. Robot description has no root element.");
+    return false;
+  }
 
   // Constructs the transmissions by parsing custom xml.
   TiXmlElement *trans_it = nullptr;
-- 
2.43.0


From cd15520f6f20516d509165a950a0d17875d8be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 04/27] fix: interface manager: rebuild a combined interface
 when one of its parts changed

The cached combined interface was reused whenever the number of parts was
unchanged, so replacing a part's interface, or adding one below a part that
already had one, kept returning the outdated combination.
---
 .../internal/interface_manager.h                  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index f057966..2a642c4 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -214,11 +214,11 @@ public:
     // combined interface, or return one already constructed
     T* iface_combo;
     InterfaceMap::iterator it_combo = interfaces_combo_.find(type_name);
+    const std::vector<void*> iface_ptrs(iface_list.begin(), iface_list.end());
     if(it_combo != interfaces_combo_.end() &&
-        num_ifaces_registered_[type_name] == iface_list.size()) {
-      // there exists a combined interface with the same number of interfaces combined
-      // (since you cannot unregister interfaces, this will be guaranteed to be the
-      //  same interfaces from previous calls)
+        combined_ifaces_[type_name] == iface_ptrs) {
+      // there exists a combined interface made of exactly these interfaces (their number alone does
+      // not tell, as interfaces may be replaced, and sub-managers may combine further ones themselves)
       iface_combo = static_cast<T*>(it_combo->second);
     } else {
       // no existing combined interface
@@ -228,7 +228,7 @@ public:
         internal::CheckIsResourceManager<T>::callConcatManagers(iface_list, iface_combo);
         // save the combined interface for if this is called again
         interfaces_combo_[type_name] = iface_combo;
-        num_ifaces_registered_[type_name] = iface_list.size();
+        combined_ifaces_[type_name] = iface_ptrs;
       } else {
         // Multiple interfaces of the same type which are not ResourceManager cannot be combined, so return
         // nullptr
@@ -301,13 +301,14 @@ public:
 protected:
   typedef std::map<std::string, void*> InterfaceMap;
   typedef std::vector<InterfaceManager*> InterfaceManagerVector;
-  typedef std::map<std::string, size_t> SizeMap;
+  typedef std::map<std::string, std::vector<void*> > InterfaceListMap;
   typedef std::map<std::string, std::vector<std::string> > ResourceMap;
 
   InterfaceMap interfaces_;
   InterfaceMap interfaces_combo_;
   InterfaceManagerVector interface_managers_;
-  SizeMap num_ifaces_registered_;
+  /// The interfaces each combined interface was made of
+  InterfaceListMap combined_ifaces_;
   std::vector<ResourceManagerBase*> interface_destruction_list_;
   /// This will allow us to check the resources based on the demangled type name of the interface
   ResourceMap resources_;
-- 
2.43.0


From cc06318d62ef3efdcf6060b0576c51bf811278c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 05/27] fix: position soft limits: never command a position
 outside the hard limits

A soft bound lying beyond the opposite hard limit (large k_position * period,
or soft limits outside the hard ones) let the command leave the hard limits.
---
 .../include/joint_limits_interface/joint_limits_interface.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index c4f0c90..0cb0cde 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -226,8 +226,8 @@ public:
     if (limits_.has_position_limits)
     {
       // This extra measure safeguards against pathological cases, like when the soft limit lies beyond the hard limit
-      pos_low  = std::max(pos_low,  limits_.min_position);
-      pos_high = std::min(pos_high, limits_.max_position);
+      pos_low  = saturate(pos_low,  limits_.min_position, limits_.max_position);
+      pos_high = saturate(pos_high, limits_.min_position, limits_.max_position);
     }
 
     // Saturate position command according to bounds
-- 
2.43.0


From 78bd989d4c2d70695bf02f84b1c9dec7516b5099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 06/27] fix: velocity limits: keep enforcing them after a NaN
 command

With acceleration limits the NaN became the previous command, its bounds
became NaN, and the following command passed without any limit.
---
 .../include/joint_limits_interface/joint_limits_interface.h  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index 0cb0cde..55c4146 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -435,8 +435,9 @@ public:
       assert(period.toSec() > 0.0);
       const double dt  = period.toSec();
 
-      vel_low  = std::max(prev_cmd_ - limits_.max_acceleration * dt, -limits_.max_velocity);
-      vel_high = std::min(prev_cmd_ + limits_.max_acceleration * dt,  limits_.max_velocity);
+      // A NaN previous command imposes no acceleration bound, the velocity limit must hold nevertheless
+      vel_low  = std::max(-limits_.max_velocity, prev_cmd_ - limits_.max_acceleration * dt);
+      vel_high = std::min( limits_.max_velocity, prev_cmd_ + limits_.max_acceleration * dt);
     }
     else
     {
-- 
2.43.0


From c24e465fd9c8be9321ae6cef3f09bbd79c7bd37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 07/27] fix: velocity soft limits: never command beyond the
 negative velocity limit

With a measured velocity below the negative limit by more than the
acceleration limit allows, the command exceeded the velocity limit.
---
 .../include/joint_limits_interface/joint_limits_interface.h    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index 55c4146..160b41e 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -512,6 +512,9 @@ public:
       const double delta_t = period.toSec();
       min_vel = std::max(vel - limits_.max_acceleration * delta_t, min_vel);
       max_vel = std::min(vel + limits_.max_acceleration * delta_t, max_vel);
+
+      // When the measured velocity lies far below the limits, the acceleration limit gives way to the velocity limit
+      max_vel = std::max(max_vel, -max_vel_limit_);
     }
 
     jh_.setCommand(saturate(jh_.getCommand(), min_vel, max_vel));
-- 
2.43.0


From 53fb70897bfe1c822aede03408249501ac31cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 08/27] fix: best-effort switching no longer restarts, stops or
 aborts controllers it skips

Entries that are skipped under BEST_EFFORT (stop entries that are not running,
start entries that are already running) stayed in the request lists, so the
realtime loop started running controllers again, put them into waiting or
aborted them. Controllers listed twice were started twice.
---
 controller_manager/src/controller_manager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d78571d..320c273 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -478,7 +478,9 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be stopped in list of controllers",
                 controller.c_str());
-      stop_request_.push_back(ct);
+      // a controller listed twice is only stopped once
+      if (std::find(stop_request_.begin(), stop_request_.end(), ct) == stop_request_.end())
+        stop_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Stop request vector has size %i", (int)stop_request_.size());
@@ -503,7 +505,9 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be started in list of controllers",
                 controller.c_str());
-      start_request_.push_back(ct);
+      // a controller listed twice is only started once
+      if (std::find(start_request_.begin(), start_request_.end(), ct) == start_request_.end())
+        start_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Start request vector has size %i", (int)start_request_.size());
@@ -547,6 +551,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_stop_list = false;
+        stop_request_.erase(std::remove(stop_request_.begin(), stop_request_.end(), controller.c.get()), stop_request_.end());
       }
     }
 
@@ -558,6 +563,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_start_list = false;
+        start_request_.erase(std::remove(start_request_.begin(), start_request_.end(), controller.c.get()), start_request_.end());
       }
     }
 
-- 
2.43.0


From e293c0d3f032ff2e93bc61db4a9f204043894920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 09/27] fix: the first update cycle can use a controller list
 that is being cleared

Before the first update used_by_realtime_ is -1, so loading or unloading does not
wait for a realtime thread that has just picked the current list. Announce the
list and check that it is still current before using it.
---
 .../controller_manager/controller_manager.h       |  5 +++--
 controller_manager/src/controller_manager.cpp     | 15 +++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index 471f47a..ecd7c14 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -33,6 +33,7 @@
 
 
 #include "controller_manager/controller_spec.h"
+#include <atomic>
 #include <cstdio>
 #include <map>
 #include <mutex>
@@ -213,9 +214,9 @@ private:
   /// Double-buffered controllers list
   std::vector<ControllerSpec> controllers_lists_[2];
   /// The index of the current controllers list
-  int current_controllers_list_ = {0};
+  std::atomic<int> current_controllers_list_ = {0};
   /// The index of the controllers list being used in the real-time thread.
-  int used_by_realtime_ = {-1};
+  std::atomic<int> used_by_realtime_ = {-1};
   /*\}*/
 
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 320c273..315e1f7 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -65,11 +65,18 @@ ControllerManager::ControllerManager(hardware_interface::RobotHW *robot_hw, cons
 // Must be realtime safe.
 void ControllerManager::update(const ros::Time& time, const ros::Duration& period, bool reset_controllers)
 {
-  used_by_realtime_ = current_controllers_list_;
-  
+  // Announce the list before using it, and make sure it was not replaced in between: the service threads only wait for
+  // the realtime thread if they can see that it uses the list they are about to clear
+  int used_controllers_list;
+  do
+  {
+    used_controllers_list = current_controllers_list_;
+    used_by_realtime_ = used_controllers_list;
+  } while (used_controllers_list != current_controllers_list_);
+
   // Restart all running controllers if motors are re-enabled
   if (reset_controllers){
-    for (const auto& controller : controllers_lists_[used_by_realtime_]){
+    for (const auto& controller : controllers_lists_[used_controllers_list]){
       if (controller.c->isRunning()){
         controller.c->stopRequest(time);
         controller.c->startRequest(time);
@@ -79,7 +86,7 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
 
 
   // Update all controllers
-  for (const auto& controller : controllers_lists_[used_by_realtime_])
+  for (const auto& controller : controllers_lists_[used_controllers_list])
     controller.c->updateRequest(time, period);
 
   // there are controllers to start/stop
-- 
2.43.0


From 80a16743417d3d5f6094477a3f666638c896cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 10/27] fix: a second switchController() caller no longer
 cancels the switch in progress

The switch parameters were reset before the controllers lock was taken, so a
concurrent call made the first one report success without switching.
---
 controller_manager/src/controller_manager.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 315e1f7..6282ce7 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -444,11 +444,6 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
                                          const std::vector<std::string>& stop_controllers,
                                          int strictness, bool start_asap, double timeout)
 {
-  switch_params_ = SwitchParams();
-
-  if (!stop_request_.empty() || !start_request_.empty())
-    ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
-
   if (strictness == 0){
     ROS_WARN("Controller Manager: To switch controllers you need to specify a strictness level of controller_manager_msgs::SwitchController::STRICT (%d) or ::BEST_EFFORT (%d). Defaulting to ::BEST_EFFORT.",
              controller_manager_msgs::SwitchController::Request::STRICT,
@@ -465,6 +460,11 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   // lock controllers
   std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
 
+  switch_params_ = SwitchParams();
+
+  if (!stop_request_.empty() || !start_request_.empty())
+    ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
+
   controller_interface::ControllerBase* ct;
   // list all controllers to stop
   for (const auto& controller : stop_controllers)
-- 
2.43.0


From 6f169e966fc1f671fc2020000ee8ef69c592da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 11/27] fix: a switch request that timed out is no longer
 carried out by a later update cycle

---
 controller_manager/src/controller_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6282ce7..5126644 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -637,6 +637,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         std::this_thread::sleep_for(std::chrono::microseconds(100));
     } else {
         ROS_DEBUG("Timed out while switching controllers. Exiting...");
+        switch_params_.do_switch = false; // the realtime loop must not carry out the abandoned request later
         timed_out = true;
         break;
     }
-- 
2.43.0


From 13e40a1ee74c109e7efa6b73bc53542bb205e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 12/27] fix: combined robot reports the switch results of its
 parts

---
 .../combined_robot_hw/combined_robot_hw.h     | 14 +++++-
 combined_robot_hw/src/combined_robot_hw.cpp   | 44 ++++++++++++++++++-
 2 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
index d1e1d34..1e89b5c 100644
--- a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
+++ b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
@@ -81,6 +81,18 @@ public:
   void doSwitch(const std::list<hardware_interface::ControllerInfo>& start_list,
                 const std::list<hardware_interface::ControllerInfo>& stop_list) override;
 
+  /**
+   * Return (in realtime) the state of the last doSwitch(): an error if any of the single RobotHW objects reports one,
+   * otherwise ongoing if any of them is still switching.
+   */
+  SwitchState switchResult() const override;
+
+  /**
+   * Return (in realtime) the state of the last doSwitch() for a given controller, combined from the single RobotHW
+   * objects that took part in its switch.
+   */
+  SwitchState switchResult(const hardware_interface::ControllerInfo& controller) const override;
+
   /**
    * Reads data from the robot HW
    *
@@ -110,7 +122,7 @@ protected:
    */
   void filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                             std::list<hardware_interface::ControllerInfo>& filtered_list,
-                            hardware_interface::RobotHWSharedPtr robot_hw);
+                            hardware_interface::RobotHWSharedPtr robot_hw) const;
 };
 
 }
diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index 24b24f4..d251163 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -30,6 +30,21 @@
 
 namespace combined_robot_hw
 {
+  namespace
+  {
+    // An error of any part prevails, then a switch that is still ongoing.
+    hardware_interface::RobotHW::SwitchState combine(hardware_interface::RobotHW::SwitchState a,
+                                                     hardware_interface::RobotHW::SwitchState b)
+    {
+      using SwitchState = hardware_interface::RobotHW::SwitchState;
+      if (a == SwitchState::ERROR || b == SwitchState::ERROR)
+        return SwitchState::ERROR;
+      if (a == SwitchState::ONGOING || b == SwitchState::ONGOING)
+        return SwitchState::ONGOING;
+      return SwitchState::DONE;
+    }
+  }
+
   bool CombinedRobotHW::init(ros::NodeHandle& root_nh, ros::NodeHandle &robot_hw_nh)
   {
     root_nh_ = root_nh;
@@ -89,6 +104,33 @@ namespace combined_robot_hw
     }
   }
 
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult() const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      result = combine(result, robot_hw->switchResult());
+    }
+    return result;
+  }
+
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult(const hardware_interface::ControllerInfo& controller) const
+  {
+    SwitchState result = SwitchState::DONE;
+    const std::list<hardware_interface::ControllerInfo> list(1, controller);
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      std::list<hardware_interface::ControllerInfo> filtered_list;
+      filterControllerList(list, filtered_list, robot_hw);
+
+      for (const auto& filtered_controller : filtered_list)
+      {
+        result = combine(result, robot_hw->switchResult(filtered_controller));
+      }
+    }
+    return result;
+  }
+
   bool CombinedRobotHW::loadRobotHW(const std::string& name)
   {
     ROS_DEBUG("Will load robot HW '%s'", name.c_str());
@@ -197,7 +239,7 @@ namespace combined_robot_hw
 
   void CombinedRobotHW::filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                                              std::list<hardware_interface::ControllerInfo>& filtered_list,
-                                             hardware_interface::RobotHWSharedPtr robot_hw)
+                                             hardware_interface::RobotHWSharedPtr robot_hw) const
   {
     filtered_list.clear();
     for (const auto& controller : list)
-- 
2.43.0


From e11df2250a3ce89e81bf511f74925fc89c7bcbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 13/27] fix: joint interface providers take the joint state
 handle from the robot's own interface

---
 transmission_interface/src/effort_joint_interface_provider.cpp  | 2 +-
 .../src/position_joint_interface_provider.cpp                   | 2 +-
 .../src/velocity_joint_interface_provider.cpp                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/src/effort_joint_interface_provider.cpp b/transmission_interface/src/effort_joint_interface_provider.cpp
index b9ab5b9..9cf7f60 100644
--- a/transmission_interface/src/effort_joint_interface_provider.cpp
+++ b/transmission_interface/src/effort_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool EffortJointInterfaceProvider::updateJointInterfaces(const TransmissionInfo&
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.effort_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/position_joint_interface_provider.cpp b/transmission_interface/src/position_joint_interface_provider.cpp
index d032662..1592bec 100644
--- a/transmission_interface/src/position_joint_interface_provider.cpp
+++ b/transmission_interface/src/position_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool PositionJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.position_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/velocity_joint_interface_provider.cpp b/transmission_interface/src/velocity_joint_interface_provider.cpp
index a3cca76..fc4df29 100644
--- a/transmission_interface/src/velocity_joint_interface_provider.cpp
+++ b/transmission_interface/src/velocity_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool VelocityJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.velocity_cmd);
     interface.registerHandle(handle);
   }
-- 
2.43.0


From f3d3ec98257c5f2872b18011bbd630fad12821af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 14/27] fix: spawner can wait for a topic without a timeout

---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index af1dfaf..62f6960 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -167,7 +167,7 @@ def main():
             if rospy.is_shutdown():
                 return
             if not warned_about_not_hearing_anything:
-                if time.time() - started_waiting > timeout:
+                if timeout is not None and time.time() - started_waiting > timeout:
                     warned_about_not_hearing_anything = True
                     rospy.logwarn("Controller Spawner hasn't heard anything from its \"wait for\" topic (%s)" % \
                                       wait_for_topic)
-- 
2.43.0


From 8e1a56e31201baf689635e4abfd8e4006178deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 15/27] fix: only services named list_controllers hint at a
 controller manager

---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index c41a5ff..94d97f6 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -147,8 +147,8 @@ def _sloppy_get_controller_managers(namespace):
     ns_list = []
     for srv_name in srv_list:
         match_str = '/' + _LIST_CONTROLLERS_STR
-        if match_str in srv_name:
-            ns = srv_name.split(match_str)[0]
+        if srv_name.endswith(match_str):
+            ns = srv_name[:-len(match_str)]
             if ns == '':
                 # controller manager services live in root namespace
                 # unlikely, but still possible
-- 
2.43.0


From 0df2e34f1b6ab24f007d33685693e9c7eab3f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 16/27] fix: filter_by_resources() handles an empty list of
 resources

---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index 94d97f6..350f7c3 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -366,8 +366,8 @@ def filter_by_resources(ctrl_list,
         for resource_set in ctrl.claimed_resources:
             if (hardware_interface is None or
                 hardware_interface == resource_set.hardware_interface):
+                add_ctrl = not match_any  # Initial flag value
                 for res in resources:
-                    add_ctrl = not match_any  # Initial flag value
                     if res in resource_set.resources:
                         if match_any:  # One hit: enough to accept controller
                             add_ctrl = True
-- 
2.43.0


From 6dfaa29f14c062b67b2b3f9854d37a924f7f6ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 17/27] fix: panel shows controllers in states that have no
 icon

---
 .../src/rqt_controller_manager/controller_manager.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 97448f7..828ad1d 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -387,7 +387,7 @@ class ControllerTable(QAbstractTableModel):
 
         if role == Qt.DecorationRole:
             if index.column() == 0:
-                return self._icons[ctrl.state]
+                return self._icons.get(ctrl.state)  # None: no icon
 
         if role == Qt.FontRole:
             if index.column() == 0:
-- 
2.43.0


From 87959be702b21fe4de296334f6323b51a6e9dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 18/27] fix: a switch that timed out while being executed no
 longer cancels the next request

---
 .../include/controller_manager/controller_manager.h       | 2 ++
 controller_manager/src/controller_manager.cpp             | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index ecd7c14..4412d48 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -202,6 +202,8 @@ private:
   };
 
   SwitchParams switch_params_;
+  /// True while the real-time thread may be using the switch request
+  std::atomic<bool> managing_switch_ = {false};
 
   /*\}*/
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 5126644..654a005 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -90,10 +90,13 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
     controller.c->updateRequest(time, period);
 
   // there are controllers to start/stop
+  // Announce it first: a request that gives up waits until it is not being processed any more
+  managing_switch_ = true;
   if (switch_params_.do_switch)
   {
     manageSwitch(time);
   }
+  managing_switch_ = false;
 }
 
 controller_interface::ControllerBase* ControllerManager::getControllerByName(const std::string& name)
@@ -642,6 +645,11 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         break;
     }
   }
+  // the realtime loop may still be using the request lists
+  while (ros::ok() && managing_switch_)
+  {
+    std::this_thread::sleep_for(std::chrono::microseconds(100));
+  }
   start_request_.clear();
   stop_request_.clear();
   if(timed_out){
-- 
2.43.0


From 0db2d0eddcad6e8244d5a7544a820c47852e26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:40 +0000
Subject: [PATCH 19/27] fix: soft joint limits with parameters of another type
 are incomplete

---
 .../joint_limits_interface/joint_limits_rosparam.h       | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
index fae269a..15c53dc 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
@@ -216,12 +216,11 @@ inline bool getSoftJointLimits(const std::string& joint_name, const ros::NodeHan
   bool has_soft_limits;
   if(limits_nh.getParam("has_soft_limits", has_soft_limits))
   {
-    if(has_soft_limits && limits_nh.hasParam("k_position") && limits_nh.hasParam("k_velocity") && limits_nh.hasParam("soft_lower_limit") && limits_nh.hasParam("soft_upper_limit"))
+    // Parameters of another type do not count, and an incomplete specification must not change anything
+    SoftJointLimits found;
+    if(has_soft_limits && limits_nh.getParam("k_position", found.k_position) && limits_nh.getParam("k_velocity", found.k_velocity) && limits_nh.getParam("soft_lower_limit", found.min_position) && limits_nh.getParam("soft_upper_limit", found.max_position))
     {
-      limits_nh.getParam("k_position", soft_limits.k_position);
-      limits_nh.getParam("k_velocity", soft_limits.k_velocity);
-      limits_nh.getParam("soft_lower_limit", soft_limits.min_position);
-      limits_nh.getParam("soft_upper_limit", soft_limits.max_position);
+      soft_limits = found;
       return true;
     }
   }
-- 
2.43.0


From 5bdcd35568aa80f1879f4837f95972e06f3875ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 20/27] fix: spawner: read configuration files with safe_load
 (load without a loader fails with PyYAML 6)

---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 62f6960..55c6bf0 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -186,7 +186,7 @@ def main():
             # load yaml file onto the parameter server, using the namespace specified in the yaml file
             rosparam.set_param("",open(name))
             # list the controllers to be loaded
-            name_yaml = yaml.load(open(name))
+            name_yaml = yaml.safe_load(open(name))
             for controller in name_yaml:
                 controllers.append(controller)
         else:
-- 
2.43.0


From b668234415b4816ab8d2eb481db82ca20210d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:26 +0000
Subject: [PATCH 21/27] fix: spawner: a directory named like a controller is
 not a configuration file

---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 55c6bf0..b3fbf97 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -182,7 +182,7 @@ def main():
     # find yaml files to load
     controllers = []
     for name in args.controllers:
-        if os.path.exists(name):
+        if os.path.isfile(name):
             # load yaml file onto the parameter server, using the namespace specified in the yaml file
             rosparam.set_param("",open(name))
             # list the controllers to be loaded
-- 
2.43.0


From b6d4f89778b06a6e5496c72941bdff66a766f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:17 +0000
Subject: [PATCH 22/27] fix: the unspawner survives a failed service call and
 only remembers controllers that were stopped

---
 controller_manager/scripts/unspawner | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/controller_manager/scripts/unspawner b/controller_manager/scripts/unspawner
index 8463d95..2bf6a32 100755
--- a/controller_manager/scripts/unspawner
+++ b/controller_manager/scripts/unspawner
@@ -49,13 +49,20 @@ def main():
     to_inhibit = set(rospy.myargv())
 
     def stop_controllers(*argc):
-        to_stop = to_inhibit & set(cs.name for cs in list_controllers().controller if cs.state == 'running')
+        try:
+            to_stop = to_inhibit & set(cs.name for cs in list_controllers().controller if cs.state == 'running')
 
-        if to_stop:
-            rospy.logout("Inhibiting controllers: %s" % ', '.join(to_stop))
-            switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
-                              stop_controllers = list(to_stop))
-            inhibited.update(to_stop)
+            if to_stop:
+                rospy.logout("Inhibiting controllers: %s" % ', '.join(to_stop))
+                resp = switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
+                                         stop_controllers = list(to_stop))
+                if resp.ok:
+                    inhibited.update(to_stop)
+                else:
+                    rospy.logerr("Failed to inhibit controllers: %s" % ', '.join(to_stop))
+        except rospy.ServiceException as exc:
+            # keep trying: an exception would end the timer
+            rospy.logwarn("Controller Unspawner error while inhibiting controllers: %s" % (exc))
 
     stop_controllers()
     timer = rospy.Timer(rospy.Duration(3), stop_controllers)
-- 
2.43.0


From 4967064ae5399c0e116d25c97d6febaa44c34a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:17 +0000
Subject: [PATCH 23/27] fix: the rqt plugin keeps working when the controller
 manager is replaced between two updates

---
 .../rqt_controller_manager/controller_manager.py   | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 828ad1d..322ec38 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -178,21 +178,17 @@ class ControllerManager(Plugin):
 
     def _set_cm_services(self, cm_ns):
         if cm_ns:
-            # NOTE: Persistent services are used for performance reasons.
-            # If the controller manager dies, we detect it and disconnect from
-            # it anyway
+            # NOTE: Persistent services are not used: they stay broken if the
+            # controller manager dies and comes back before we detect it
             load_srv_name = _append_ns(cm_ns, 'load_controller')
             self._load_srv = rospy.ServiceProxy(load_srv_name,
-                                                LoadController,
-                                                persistent=True)
+                                                LoadController)
             unload_srv_name = _append_ns(cm_ns, 'unload_controller')
             self._unload_srv = rospy.ServiceProxy(unload_srv_name,
-                                                  UnloadController,
-                                                  persistent=True)
+                                                  UnloadController)
             switch_srv_name = _append_ns(cm_ns, 'switch_controller')
             self._switch_srv = rospy.ServiceProxy(switch_srv_name,
-                                                  SwitchController,
-                                                  persistent=True)
+                                                  SwitchController)
         else:
             self._load_srv = None
             self._unload_srv = None
-- 
2.43.0


From 28dd9b38bb7afb60e4ae97c23592106d76d1a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:17 +0000
Subject: [PATCH 24/27] fix: list the resources that are registered to an
 interface after the interface itself

---
 .../hardware_interface/internal/interface_manager.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index 2a642c4..ab7ccaf 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -31,6 +31,7 @@
 #pragma once
 
 
+#include <functional>
 #include <map>
 #include <string>
 #include <vector>
@@ -143,7 +144,13 @@ public:
       ROS_WARN_STREAM("Replacing previously registered interface '" << iface_name << "'.");
     }
     interfaces_[iface_name] = iface;
-    internal::CheckIsResourceManager<T>::callGetResources(resources_[iface_name], iface);
+    // the resources are asked for when needed, as more may be registered to the interface later
+    resources_[iface_name] = [iface]()
+    {
+      std::vector<std::string> resources;
+      internal::CheckIsResourceManager<T>::callGetResources(resources, iface);
+      return resources;
+    };
   }
 
   /**
@@ -286,7 +293,7 @@ public:
     ResourceMap::const_iterator it = resources_.find(iface_type);
     if(it != resources_.end())
     {
-      out = it->second;
+      out = it->second();
     }
 
     for (const auto& interface_manager : interface_managers_)
@@ -302,7 +309,7 @@ protected:
   typedef std::map<std::string, void*> InterfaceMap;
   typedef std::vector<InterfaceManager*> InterfaceManagerVector;
   typedef std::map<std::string, std::vector<void*> > InterfaceListMap;
-  typedef std::map<std::string, std::vector<std::string> > ResourceMap;
+  typedef std::map<std::string, std::function<std::vector<std::string>()> > ResourceMap;
 
   InterfaceMap interfaces_;
   InterfaceMap interfaces_combo_;
-- 
2.43.0


From c55b4402b12774c578801b02c89ac66a9e44a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:17 +0000
Subject: [PATCH 25/27] fix: a switch does not act on the requests of an
 earlier switch that ended with an exception

---
 controller_manager/src/controller_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 654a005..f868ce2 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -465,8 +465,9 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
 
   switch_params_ = SwitchParams();
 
-  if (!stop_request_.empty() || !start_request_.empty())
-    ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
+  // a previous call that the robot hardware ended with an exception left its requests behind
+  stop_request_.clear();
+  start_request_.clear();
 
   controller_interface::ControllerBase* ct;
   // list all controllers to stop
-- 
2.43.0


From 719e25905cab6f37f32d29155c4b211e6832c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:17 +0000
Subject: [PATCH 26/27] fix: no controller can be loaded while the controller
 libraries are reloaded

---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index f868ce2..10c371f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -671,6 +671,9 @@ bool ControllerManager::reloadControllerLibrariesSrv(
   std::lock_guard<std::mutex> guard(services_lock_);
   ROS_DEBUG("reload libraries service locked");
 
+  // lock controllers, no controller may be loaded between killing them and reloading the libraries
+  std::lock_guard<std::recursive_mutex> controller_guard(controllers_lock_);
+
   // only reload libraries if no controllers are running
   std::vector<std::string> controllers;
   getControllerNames(controllers);
-- 
2.43.0


From 4d0fc54c067bd31452c3a21ea51d4d599de8f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:17 +0000
Subject: [PATCH 27/27] fix: requests that are interrupted by a shutdown
 neither free what the realtime loop uses nor report success

---
 controller_manager/src/controller_manager.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 10c371f..ca6a5e2 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -245,7 +245,7 @@ bool ControllerManager::loadController(const std::string& name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -359,7 +359,7 @@ bool ControllerManager::loadController(const std::string& name)
   // Destroys the old controllers list when the realtime thread is finished with it.
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -383,7 +383,7 @@ bool ControllerManager::unloadController(const std::string &name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -426,7 +426,7 @@ bool ControllerManager::unloadController(const std::string &name)
   ROS_DEBUG("Realtime switches over to new controller list");
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -630,11 +630,13 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   ROS_DEBUG("Request atomic controller switch from realtime loop");
   auto start_time = std::chrono::system_clock::now();
   bool timed_out = false;
-  while (ros::ok() && switch_params_.do_switch)
+  while (switch_params_.do_switch)
   {
     if (!ros::ok())
     {
-      return false;
+      switch_params_.do_switch = false; // the realtime loop must not carry out the abandoned request later
+      timed_out = true;
+      break;
     }
     std::chrono::duration<double> diff = std::chrono::system_clock::now() - start_time;
     if (diff.count() < timeout+1.0 || timeout == 0){
@@ -647,7 +649,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     }
   }
   // the realtime loop may still be using the request lists
-  while (ros::ok() && managing_switch_)
+  while (managing_switch_)
   {
     std::this_thread::sleep_for(std::chrono::microseconds(100));
   }
-- 
2.43.0

