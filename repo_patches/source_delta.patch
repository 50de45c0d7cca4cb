From ad59aa21f001d8ddd5cc19fbc449bf2ccfc10d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 01/32] fix: mark the four-bar absolute position and torque
 sensor maps inline

They are defined in a header, so two sources including it did not link.
---
 .../four_bar_linkage_transmission.h                       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
index 1cdb6d5..7886379 100644
--- a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
+++ b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
@@ -283,8 +283,8 @@ inline void FourBarLinkageTransmission::actuatorToJointPosition(const ActuatorDa
                           + jnt_offset_[1];
 }
 
-void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorData& act_data,
-                                                                       JointData&    jnt_data)
+inline void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorData& act_data,
+                                                                              JointData&    jnt_data)
 {
 
   assert(numActuators() == act_data.absolute_position.size() && numJoints() == jnt_data.absolute_position.size());
@@ -298,8 +298,8 @@ void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorD
                                     jr[1] + jnt_offset_[1];
 }
 
-void FourBarLinkageTransmission::actuatorToJointTorqueSensor(const ActuatorData& act_data,
-                                                                   JointData&    jnt_data)
+inline void FourBarLinkageTransmission::actuatorToJointTorqueSensor(const ActuatorData& act_data,
+                                                                          JointData&    jnt_data)
 {
 
   assert(numActuators() == act_data.torque_sensor.size() && numJoints() == jnt_data.torque_sensor.size());
-- 
2.43.0


From 9533f328e5cb17a8bec9fb8e9e3ef85d7f2559d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 02/32] fix: differential absolute position map reads only
 absolute position data

Its assertion dereferenced the actuator position vector, which is documented
as allowed to be empty.
---
 .../include/transmission_interface/differential_transmission.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/differential_transmission.h b/transmission_interface/include/transmission_interface/differential_transmission.h
index e2c1c24..939d61a 100644
--- a/transmission_interface/include/transmission_interface/differential_transmission.h
+++ b/transmission_interface/include/transmission_interface/differential_transmission.h
@@ -309,7 +309,7 @@ inline void DifferentialTransmission::actuatorToJointAbsolutePosition(const Actu
                                                                             JointData&    jnt_data)
 {
   assert(numActuators() == act_data.absolute_position.size() && numJoints() == jnt_data.absolute_position.size());
-  assert(act_data.position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
+  assert(act_data.absolute_position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
 
   const std::vector<double>& ar = act_reduction_;
   const std::vector<double>& jr = jnt_reduction_;
-- 
2.43.0


From bc4b081140a292e867ea0a5731d4e8f01cdd94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 03/32] fix: check the size of actuator torque sensor data in
 transmission handles

The check tested the absolute position data twice, so torque sensor data of
any size was accepted.
---
 .../include/transmission_interface/transmission_interface.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_interface.h b/transmission_interface/include/transmission_interface/transmission_interface.h
index 0b3b87a..9697cf2 100644
--- a/transmission_interface/include/transmission_interface/transmission_interface.h
+++ b/transmission_interface/include/transmission_interface/transmission_interface.h
@@ -106,7 +106,7 @@ protected:
     {
       throw TransmissionInterfaceException("Actuator absolute position data size does not match transmission.");
     }
-    if (!actuator_data.absolute_position.empty() && actuator_data.absolute_position.size() != transmission_->numActuators())
+    if (!actuator_data.torque_sensor.empty() && actuator_data.torque_sensor.size() != transmission_->numActuators())
     {
       throw TransmissionInterfaceException("Actuator torque sensor data size does not match transmission.");
     }
-- 
2.43.0


From d85076f493297ffc9ce98667cad3397f1502c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 04/32] fix: soft limits never drag a position command below
 the position limit

With soft limits beyond the lower hard limit, or a large gain, the upper bound
of the command fell below the lower position limit and was applied. The
mirrored case at the upper limit was already handled.
---
 .../include/joint_limits_interface/joint_limits_interface.h    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index c4f0c90..7e9a6e8 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -228,6 +228,9 @@ public:
       // This extra measure safeguards against pathological cases, like when the soft limit lies beyond the hard limit
       pos_low  = std::max(pos_low,  limits_.min_position);
       pos_high = std::min(pos_high, limits_.max_position);
+
+      // The upper bound must not drag the command below the lower position limit either
+      pos_high = std::max(pos_high, std::min(pos, limits_.min_position));
     }
 
     // Saturate position command according to bounds
-- 
2.43.0


From cd5128cfc3857b18909bda0ca9578d990059ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 05/32] fix: acceleration limits do not push a velocity command
 below its limit

When the measured velocity was below the negative velocity limit by more than
one period of acceleration, the velocity command was set beyond the limit too.
The mirrored case at the positive limit was already handled.
---
 .../include/joint_limits_interface/joint_limits_interface.h    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index 7e9a6e8..5f9c2b8 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -514,6 +514,9 @@ public:
       const double delta_t = period.toSec();
       min_vel = std::max(vel - limits_.max_acceleration * delta_t, min_vel);
       max_vel = std::min(vel + limits_.max_acceleration * delta_t, max_vel);
+
+      // Acceleration limits must not push the command below the velocity limit
+      max_vel = std::max(max_vel, -max_vel_limit_);
     }
 
     jh_.setCommand(saturate(jh_.getCommand(), min_vel, max_vel));
-- 
2.43.0


From 573945a503d0aa9807108494e649d3eff94fe6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 06/32] fix: read soft joint limits from parameters all or
 nothing

A value of the wrong type was skipped while the others were overwritten, and
the incomplete specification was reported as found.
---
 .../joint_limits_interface/joint_limits_rosparam.h   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
index fae269a..d8eae9e 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
@@ -216,12 +216,14 @@ inline bool getSoftJointLimits(const std::string& joint_name, const ros::NodeHan
   bool has_soft_limits;
   if(limits_nh.getParam("has_soft_limits", has_soft_limits))
   {
-    if(has_soft_limits && limits_nh.hasParam("k_position") && limits_nh.hasParam("k_velocity") && limits_nh.hasParam("soft_lower_limit") && limits_nh.hasParam("soft_upper_limit"))
+    SoftJointLimits new_limits;
+    if(has_soft_limits &&
+       limits_nh.getParam("k_position", new_limits.k_position) &&
+       limits_nh.getParam("k_velocity", new_limits.k_velocity) &&
+       limits_nh.getParam("soft_lower_limit", new_limits.min_position) &&
+       limits_nh.getParam("soft_upper_limit", new_limits.max_position))
     {
-      limits_nh.getParam("k_position", soft_limits.k_position);
-      limits_nh.getParam("k_velocity", soft_limits.k_velocity);
-      limits_nh.getParam("soft_lower_limit", soft_limits.min_position);
-      limits_nh.getParam("soft_upper_limit", soft_limits.max_position);
+      soft_limits = new_limits;
       return true;
     }
   }
-- 
2.43.0


From 120c5dee8729fcfaa880907e26fe668efccbcf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 07/32] fix: look up replaced interfaces in combinations of
 interfaces

---
 .../hardware_interface/internal/interface_manager.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index f057966..2f4aa2d 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -215,10 +215,9 @@ public:
     T* iface_combo;
     InterfaceMap::iterator it_combo = interfaces_combo_.find(type_name);
     if(it_combo != interfaces_combo_.end() &&
-        num_ifaces_registered_[type_name] == iface_list.size()) {
-      // there exists a combined interface with the same number of interfaces combined
-      // (since you cannot unregister interfaces, this will be guaranteed to be the
-      //  same interfaces from previous calls)
+        combined_ifaces_[type_name] == std::vector<void*>(iface_list.begin(), iface_list.end())) {
+      // there exists a combined interface made of exactly these interfaces
+      // (the number of interfaces alone does not tell, as one of them may have been replaced)
       iface_combo = static_cast<T*>(it_combo->second);
     } else {
       // no existing combined interface
@@ -228,7 +227,7 @@ public:
         internal::CheckIsResourceManager<T>::callConcatManagers(iface_list, iface_combo);
         // save the combined interface for if this is called again
         interfaces_combo_[type_name] = iface_combo;
-        num_ifaces_registered_[type_name] = iface_list.size();
+        combined_ifaces_[type_name].assign(iface_list.begin(), iface_list.end());
       } else {
         // Multiple interfaces of the same type which are not ResourceManager cannot be combined, so return
         // nullptr
@@ -301,13 +300,13 @@ public:
 protected:
   typedef std::map<std::string, void*> InterfaceMap;
   typedef std::vector<InterfaceManager*> InterfaceManagerVector;
-  typedef std::map<std::string, size_t> SizeMap;
+  typedef std::map<std::string, std::vector<void*> > InterfaceListMap;
   typedef std::map<std::string, std::vector<std::string> > ResourceMap;
 
   InterfaceMap interfaces_;
   InterfaceMap interfaces_combo_;
   InterfaceManagerVector interface_managers_;
-  SizeMap num_ifaces_registered_;
+  InterfaceListMap combined_ifaces_;
   std::vector<ResourceManagerBase*> interface_destruction_list_;
   /// This will allow us to check the resources based on the demangled type name of the interface
   ResourceMap resources_;
-- 
2.43.0


From 58a5e71dd7961bae0591965dcc4701a669b4db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 08/32] fix: execute each part of a switch request once, and
 only the parts that apply

Best-effort requests kept entries that were found not to apply in the lists the
control loop works on, and duplicate names were kept in any request: a running
controller was sent starting() (or waiting()) again, a controller was started
twice, or stopped and started again in every cycle of a pending asap switch.
---
 controller_manager/src/controller_manager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d78571d..458b081 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -478,7 +478,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be stopped in list of controllers",
                 controller.c_str());
-      stop_request_.push_back(ct);
+      if (std::find(stop_request_.begin(), stop_request_.end(), ct) == stop_request_.end())
+        stop_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Stop request vector has size %i", (int)stop_request_.size());
@@ -503,7 +504,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be started in list of controllers",
                 controller.c_str());
-      start_request_.push_back(ct);
+      if (std::find(start_request_.begin(), start_request_.end(), ct) == start_request_.end())
+        start_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Start request vector has size %i", (int)start_request_.size());
@@ -547,6 +549,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_stop_list = false;
+        stop_request_.erase(std::find(stop_request_.begin(), stop_request_.end(), controller.c.get()));
       }
     }
 
@@ -558,6 +561,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_start_list = false;
+        start_request_.erase(std::find(start_request_.begin(), start_request_.end(), controller.c.get()));
       }
     }
 
-- 
2.43.0


From 8f44548af42159fe8498d3e02e9442b8a1562d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 09/32] fix: a load fails cleanly whatever its controller's
 constructor throws

---
 controller_manager/src/controller_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 458b081..210690a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -295,10 +295,14 @@ bool ControllerManager::loadController(const std::string& name)
         ++it;
       }
     }
-    catch (const std::runtime_error &ex)
+    catch (const std::exception &ex)
     {
       ROS_ERROR("Could not load class '%s': %s", type.c_str(), ex.what());
     }
+    catch (...)
+    {
+      ROS_ERROR("Could not load class '%s'", type.c_str());
+    }
   }
   else
   {
-- 
2.43.0


From cb5022806910cfbb2ee0fa9926cbfe150ae4c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 10/32] fix: leave lists in use by the control loop alone on
 shutdown

The waits for the control loop ended when ros::ok() turned false and fell through
to code that changes the lists the control loop may be iterating over. Return
false instead, as the check inside the loops intends.
---
 controller_manager/src/controller_manager.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 210690a..b2cbae1 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -235,7 +235,7 @@ bool ControllerManager::loadController(const std::string& name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -353,7 +353,7 @@ bool ControllerManager::loadController(const std::string& name)
   // Destroys the old controllers list when the realtime thread is finished with it.
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -377,7 +377,7 @@ bool ControllerManager::unloadController(const std::string &name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -420,7 +420,7 @@ bool ControllerManager::unloadController(const std::string &name)
   ROS_DEBUG("Realtime switches over to new controller list");
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -621,7 +621,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   ROS_DEBUG("Request atomic controller switch from realtime loop");
   auto start_time = std::chrono::system_clock::now();
   bool timed_out = false;
-  while (ros::ok() && switch_params_.do_switch)
+  while (switch_params_.do_switch)
   {
     if (!ros::ok())
     {
-- 
2.43.0


From 0cef28db205c37ae774e4e6d0972b000222f0193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 11/32] fix: running controllers do not look stopped to
 requests during a reset

While update() restarted a running controller its state was briefly not running.
A request checking the state just then could unload it, or pass the resource
conflict check for a controller claiming the same resources.
---
 controller_manager/src/controller_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b2cbae1..b82c10f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -71,8 +71,9 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
   if (reset_controllers){
     for (const auto& controller : controllers_lists_[used_by_realtime_]){
       if (controller.c->isRunning()){
-        controller.c->stopRequest(time);
-        controller.c->startRequest(time);
+        // the controller stays in running state, requests in other threads must not take it for a stopped one
+        controller.c->stopping(time);
+        controller.c->starting(time);
       }
     }
   }
-- 
2.43.0


From 592b9cea89b3193f8b6f277f863c96d9889f716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 12/32] fix: a switch that timed out is not performed later

The request was reported as failed, but do_switch stayed set: the control loop would
still tell the hardware to switch, with no controllers stopped or started.
---
 controller_manager/src/controller_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b82c10f..074a85a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -637,6 +637,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         break;
     }
   }
+  if (timed_out)
+    switch_params_.do_switch = false; // this switch was given up, it must not happen later
   start_request_.clear();
   stop_request_.clear();
   if(timed_out){
-- 
2.43.0


From 11fb76a62cc9f71da8370ab10680da0481e40571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 13/32] fix: a switch request does not reset a switch in
 progress in another thread

The parameters of the current switch were reset before the lock was taken, so a
second caller of switchController() cancelled a switch in progress: the first call
reported success without its controllers being started or stopped.
---
 controller_manager/src/controller_manager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 074a85a..57eb627 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -442,6 +442,9 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
                                          const std::vector<std::string>& stop_controllers,
                                          int strictness, bool start_asap, double timeout)
 {
+  // lock controllers
+  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
+
   switch_params_ = SwitchParams();
 
   if (!stop_request_.empty() || !start_request_.empty())
@@ -460,9 +463,6 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   for (const auto& controller : stop_controllers)
     ROS_DEBUG(" - stopping controller '%s'", controller.c_str());
 
-  // lock controllers
-  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
-
   controller_interface::ControllerBase* ct;
   // list all controllers to stop
   for (const auto& controller : stop_controllers)
-- 
2.43.0


From 42ea85baac5a6bd5cbea2c6a00d8f8b21d6c9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 14/32] fix: no controller is loaded by another thread while
 libraries are reloaded

A loadController() call between the steps of the reload service made it fail an
assertion, or left a controller of a library being reloaded.
---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 57eb627..2f0dcb0 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -659,6 +659,9 @@ bool ControllerManager::reloadControllerLibrariesSrv(
   std::lock_guard<std::mutex> guard(services_lock_);
   ROS_DEBUG("reload libraries service locked");
 
+  // lock controllers, none may be loaded or started by another thread until the libraries are reloaded
+  std::lock_guard<std::recursive_mutex> controller_guard(controllers_lock_);
+
   // only reload libraries if no controllers are running
   std::vector<std::string> controllers;
   getControllerNames(controllers);
-- 
2.43.0


From 8136e9e9e4bfd8c1d7afc8d36c162dd8675635e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 15/32] fix: a combined robot fails cleanly whatever a
 component's constructor throws

---
 combined_robot_hw/src/combined_robot_hw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index 24b24f4..eed78f1 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -125,10 +125,14 @@ namespace combined_robot_hw
           }
         }
       }
-      catch (const std::runtime_error &ex)
+      catch (const std::exception &ex)
       {
         ROS_ERROR("Could not load class %s: %s", type.c_str(), ex.what());
       }
+      catch (...)
+      {
+        ROS_ERROR("Could not load class %s", type.c_str());
+      }
     }
     else
     {
-- 
2.43.0


From 158d533fb24e4edf77401c35177ef71dde8577d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 16/32] fix: a combined robot reports the switch results of its
 components

switchResult() was not forwarded, so a switch was always reported as done and
controllers were started on components still switching or having failed to.
---
 .../combined_robot_hw/combined_robot_hw.h     | 14 +++++++-
 combined_robot_hw/src/combined_robot_hw.cpp   | 36 ++++++++++++++++++-
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
index d1e1d34..22006c5 100644
--- a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
+++ b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
@@ -81,6 +81,18 @@ public:
   void doSwitch(const std::list<hardware_interface::ControllerInfo>& start_list,
                 const std::list<hardware_interface::ControllerInfo>& stop_list) override;
 
+  /**
+   * Return (in realtime) the state of the last doSwitch(): ERROR if any RobotHW reports an error, DONE once all of
+   * them are done.
+   */
+  SwitchState switchResult() const override;
+
+  /**
+   * Return (in realtime) the state of the last doSwitch() for a given controller, considering each RobotHW that the
+   * controller has to do with.
+   */
+  SwitchState switchResult(const hardware_interface::ControllerInfo& controller) const override;
+
   /**
    * Reads data from the robot HW
    *
@@ -110,7 +122,7 @@ protected:
    */
   void filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                             std::list<hardware_interface::ControllerInfo>& filtered_list,
-                            hardware_interface::RobotHWSharedPtr robot_hw);
+                            hardware_interface::RobotHWSharedPtr robot_hw) const;
 };
 
 }
diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index eed78f1..1b86b53 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -89,6 +89,40 @@ namespace combined_robot_hw
     }
   }
 
+  CombinedRobotHW::SwitchState CombinedRobotHW::switchResult() const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      const SwitchState state = robot_hw->switchResult();
+      if (state == SwitchState::ERROR)
+        return state;
+      if (state == SwitchState::ONGOING)
+        result = state;
+    }
+    return result;
+  }
+
+  CombinedRobotHW::SwitchState CombinedRobotHW::switchResult(const hardware_interface::ControllerInfo& controller) const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      // Generate a filtered version of the controller for each RobotHW, as for doSwitch
+      std::list<hardware_interface::ControllerInfo> filtered_list;
+      filterControllerList({controller}, filtered_list, robot_hw);
+      if (filtered_list.empty())
+        continue;
+
+      const SwitchState state = robot_hw->switchResult(filtered_list.front());
+      if (state == SwitchState::ERROR)
+        return state;
+      if (state == SwitchState::ONGOING)
+        result = state;
+    }
+    return result;
+  }
+
   bool CombinedRobotHW::loadRobotHW(const std::string& name)
   {
     ROS_DEBUG("Will load robot HW '%s'", name.c_str());
@@ -201,7 +235,7 @@ namespace combined_robot_hw
 
   void CombinedRobotHW::filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                                              std::list<hardware_interface::ControllerInfo>& filtered_list,
-                                             hardware_interface::RobotHWSharedPtr robot_hw)
+                                             hardware_interface::RobotHWSharedPtr robot_hw) const
   {
     filtered_list.clear();
     for (const auto& controller : list)
-- 
2.43.0


From d72d5744b08d5bcb6f2731ae3fb443d0196f92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 17/32] fix: refuse a robot description without root element

---
 transmission_interface/src/transmission_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transmission_interface/src/transmission_parser.cpp b/transmission_interface/src/transmission_parser.cpp
index 54835a3..339ba0f 100644
--- a/transmission_interface/src/transmission_parser.cpp
+++ b/transmission_interface/src/transmission_parser.cpp
@@ -51,6 +51,11 @@ bool TransmissionParser::parse(const std::string& urdf, std::vector<Transmission
 
   // Find joints in transmission tags
   TiXmlElement *root = doc.RootElement();
+  if (!root)
+  {
+    ROS_ERROR("Can't parse transmissions. Robot description has no root element.");
+    return false;
+  }
 
   // Constructs the transmissions by parsing custom xml.
   TiXmlElement *trans_it = nullptr;
-- 
2.43.0


From 93048f6bc40213c369ce035088709777fc5ac3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 18/32] fix: load transmissions into the robot's own joint
 state interface

---
 transmission_interface/src/effort_joint_interface_provider.cpp  | 2 +-
 .../src/position_joint_interface_provider.cpp                   | 2 +-
 .../src/velocity_joint_interface_provider.cpp                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/src/effort_joint_interface_provider.cpp b/transmission_interface/src/effort_joint_interface_provider.cpp
index b9ab5b9..9cf7f60 100644
--- a/transmission_interface/src/effort_joint_interface_provider.cpp
+++ b/transmission_interface/src/effort_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool EffortJointInterfaceProvider::updateJointInterfaces(const TransmissionInfo&
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.effort_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/position_joint_interface_provider.cpp b/transmission_interface/src/position_joint_interface_provider.cpp
index d032662..1592bec 100644
--- a/transmission_interface/src/position_joint_interface_provider.cpp
+++ b/transmission_interface/src/position_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool PositionJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.position_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/velocity_joint_interface_provider.cpp b/transmission_interface/src/velocity_joint_interface_provider.cpp
index a3cca76..fc4df29 100644
--- a/transmission_interface/src/velocity_joint_interface_provider.cpp
+++ b/transmission_interface/src/velocity_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool VelocityJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.velocity_cmd);
     interface.registerHandle(handle);
   }
-- 
2.43.0


From cf48b65edd62fa30ddbb2318cb888bd9624867e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 19/32] fix: wire joints and actuators to transmissions by role

---
 .../transmission_info.h                       |  1 +
 .../src/transmission_interface_loader.cpp     | 30 ++++++++++++++++++-
 .../src/transmission_parser.cpp               |  6 ++++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_info.h b/transmission_interface/include/transmission_interface/transmission_info.h
index 624aee4..9a289d2 100644
--- a/transmission_interface/include/transmission_interface/transmission_info.h
+++ b/transmission_interface/include/transmission_interface/transmission_info.h
@@ -69,6 +69,7 @@ struct ActuatorInfo
 {
   std::string name_;
   std::vector<std::string> hardware_interfaces_;
+  std::string role_;
   std::string xml_element_;
 };
 
diff --git a/transmission_interface/src/transmission_interface_loader.cpp b/transmission_interface/src/transmission_interface_loader.cpp
index 0b86528..44519a5 100644
--- a/transmission_interface/src/transmission_interface_loader.cpp
+++ b/transmission_interface/src/transmission_interface_loader.cpp
@@ -37,6 +37,29 @@
 namespace transmission_interface
 {
 
+namespace
+{
+
+/**
+ * Transmissions number their joints and actuators by role (eg. joint1, joint2), whatever the order in which they are
+ * described. Put them in this order, or leave them as they are if they don't have such roles.
+ */
+template <class Info>
+void sortByRole(std::vector<Info>& infos, const std::string& role_prefix)
+{
+  std::vector<Info> sorted;
+  for (std::size_t i = 0; i < infos.size(); ++i)
+  {
+    const std::string role = role_prefix + std::to_string(i + 1);
+    const auto it = std::find_if(infos.begin(), infos.end(), [&](const Info& info) {return info.role_ == role;});
+    if (it == infos.end()) {return;}
+    sorted.push_back(*it);
+  }
+  infos.swap(sorted);
+}
+
+} // namespace
+
 bool RequisiteProvider::loadTransmissionMaps(const TransmissionInfo& transmission_info,
                                              TransmissionLoaderData& loader_data,
                                              TransmissionSharedPtr   transmission)
@@ -131,8 +154,13 @@ bool TransmissionInterfaceLoader::load(const std::vector<TransmissionInfo>& tran
   return true;
 }
 
-bool TransmissionInterfaceLoader::load(const TransmissionInfo& transmission_info)
+bool TransmissionInterfaceLoader::load(const TransmissionInfo& transmission_info_in)
 {
+  // The data of joints and actuators is passed to the transmission in the order of their roles
+  TransmissionInfo transmission_info(transmission_info_in);
+  sortByRole(transmission_info.joints_,    "joint");
+  sortByRole(transmission_info.actuators_, "actuator");
+
   // Create transmission instance
   TransmissionSharedPtr transmission;
   try
diff --git a/transmission_interface/src/transmission_parser.cpp b/transmission_interface/src/transmission_parser.cpp
index 339ba0f..ca663b8 100644
--- a/transmission_interface/src/transmission_parser.cpp
+++ b/transmission_interface/src/transmission_parser.cpp
@@ -223,6 +223,12 @@ bool TransmissionParser::parseActuators(TiXmlElement *trans_it, std::vector<Actu
       return false;
     }
 
+    TiXmlElement *role_it = actuator_it->FirstChildElement("role");
+    if(role_it)
+    {
+      actuator.role_ = role_it->GetText() ? role_it->GetText() : std::string();
+    }
+
     // Hardware interfaces (optional)
     TiXmlElement *hw_iface_it = nullptr;
     for (hw_iface_it = actuator_it->FirstChildElement("hardwareInterface"); hw_iface_it;
-- 
2.43.0


From 10bfd401af6198c87bd934512b6d9f826bea75c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 20/32] fix: recognise controller managers by the whole name of
 their services

A service whose name merely contains list_controllers made its namespace be
listed twice, or hid a manager in a namespace with such a name.
---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index c41a5ff..94d97f6 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -147,8 +147,8 @@ def _sloppy_get_controller_managers(namespace):
     ns_list = []
     for srv_name in srv_list:
         match_str = '/' + _LIST_CONTROLLERS_STR
-        if match_str in srv_name:
-            ns = srv_name.split(match_str)[0]
+        if srv_name.endswith(match_str):
+            ns = srv_name[:-len(match_str)]
             if ns == '':
                 # controller manager services live in root namespace
                 # unlikely, but still possible
-- 
2.43.0


From 16095cee29570a8e67167fab20897ee11dfc5615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 21/32] fix: a dead controller manager does not hide the others

The registration of a manager that died remains on the master; asking for the
type of its services raised an exception out of get_controller_managers.
---
 .../src/controller_manager_msgs/utils.py                    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index 94d97f6..6489114 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -170,7 +170,11 @@ def _srv_exists(srv_name, srv_type):
     """
     if not srv_name or not srv_type:
         return False
-    return srv_type == rosservice.get_service_type(srv_name)
+    try:
+        return srv_type == rosservice.get_service_type(srv_name)
+    except rosservice.ROSServiceIOException:
+        # registered, but its provider cannot be reached (any more)
+        return False
 
 
 ###############################################################################
-- 
2.43.0


From 286b2fb22710da7fa17390584d69c0b8beba648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 22/32] fix: filter by an empty list of resources

filter_by_resources raised UnboundLocalError.
---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index 6489114..98a4030 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -370,8 +370,8 @@ def filter_by_resources(ctrl_list,
         for resource_set in ctrl.claimed_resources:
             if (hardware_interface is None or
                 hardware_interface == resource_set.hardware_interface):
+                add_ctrl = not match_any  # Initial flag value
                 for res in resources:
-                    add_ctrl = not match_any  # Initial flag value
                     if res in resource_set.resources:
                         if match_any:  # One hit: enough to accept controller
                             add_ctrl = True
-- 
2.43.0


From 924a73f932836f7ae6377f6f357f66d83c823b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 23/32] fix: spawner reads controller files with every version
 of PyYAML

yaml.load without a loader is an error since PyYAML 6, so that nothing listed
in a file was spawned; the files are plain data.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index af1dfaf..c457157 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -186,7 +186,7 @@ def main():
             # load yaml file onto the parameter server, using the namespace specified in the yaml file
             rosparam.set_param("",open(name))
             # list the controllers to be loaded
-            name_yaml = yaml.load(open(name))
+            name_yaml = yaml.safe_load(open(name))
             for controller in name_yaml:
                 controllers.append(controller)
         else:
-- 
2.43.0


From 45abdcc46f63270eae6178c67451b847e99a50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 24/32] fix: spawner waits for a topic also without a timeout

With --no-timeout or a timeout <= 0, --wait-for ended in a TypeError.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index c457157..55c6bf0 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -167,7 +167,7 @@ def main():
             if rospy.is_shutdown():
                 return
             if not warned_about_not_hearing_anything:
-                if time.time() - started_waiting > timeout:
+                if timeout is not None and time.time() - started_waiting > timeout:
                     warned_about_not_hearing_anything = True
                     rospy.logwarn("Controller Spawner hasn't heard anything from its \"wait for\" topic (%s)" % \
                                       wait_for_topic)
-- 
2.43.0


From 53a6d0c4c6f6312dbce855a1751d2103de55806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 25/32] fix: spawner can be ended while it waits for the clock

With simulated time and no clock yet, it kept looking for the manager without
end (and without a pause) after having been told to shut down.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 55c6bf0..655bb5e 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -137,7 +137,7 @@ def main():
             rospy.wait_for_service(unload_controller_service, timeout=timeout)
         except rospy.exceptions.ROSException:
             # If we use sim time, wait for the clock to be published
-            if rospy.get_param('/use_sim_time', False) and rospy.get_rostime() == rospy.Time(0):
+            if not rospy.is_shutdown() and rospy.get_param('/use_sim_time', False) and rospy.get_rostime() == rospy.Time(0):
                 rospy.loginfo("Waiting for /clock to be available...")
             else:
                 rospy.logwarn("Controller Spawner couldn't find the expected controller_manager ROS interface.")
-- 
2.43.0


From b30961a2d424fc6347a2bde1fc2f655da66c2a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:23 +0000
Subject: [PATCH 26/32] fix: spawner loads no more controllers once shut down

Those loaded after the shutdown hook had run were left behind.
---
 controller_manager/scripts/spawner | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 655bb5e..ebd5af1 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -194,6 +194,8 @@ def main():
 
     # load controllers
     for name in controllers:
+        if rospy.is_shutdown():
+            return
         rospy.loginfo("Loading controller: "+name)
         resp = load_controller(name)
         if resp.ok != 0:
-- 
2.43.0


From 5eec2091c542eb15d257b1c3c97737dbdb8c017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 27/32] fix: spawner stops whichever of its controllers are
 running

A strict request was refused as a whole when one of them did not run (any
more), so that the others kept running and could not be unloaded.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index ebd5af1..c892fb3 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -62,7 +62,7 @@ def shutdown():
         switch_controller = rospy.ServiceProxy(switch_controller_service, SwitchController)
 
         rospy.loginfo("Stopping all controllers...");
-        switch_controller([], loaded, SwitchControllerRequest.STRICT, False, 0.0)
+        switch_controller([], loaded, SwitchControllerRequest.BEST_EFFORT, False, 0.0)
         rospy.loginfo("Unloading all loaded controllers...");
         for name in reversed(loaded):
             rospy.logout("Trying to unload %s" % name)
-- 
2.43.0


From f69590a8c58de96eddf10a449f777d2c909cd2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 28/32] fix: show waiting and aborted controllers in
 rqt_controller_manager

There was no icon for these states, so that displaying such a controller
raised a KeyError.
---
 .../src/rqt_controller_manager/controller_manager.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 97448f7..ab30e1f 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -103,7 +103,9 @@ class ControllerManager(Plugin):
         self._icons = {'running': QIcon(path + '/resource/led_green.png'),
                        'stopped': QIcon(path + '/resource/led_red.png'),
                        'uninitialized': QIcon(path + '/resource/led_off.png'),
-                       'initialized': QIcon(path + '/resource/led_red.png')}
+                       'initialized': QIcon(path + '/resource/led_red.png'),
+                       'waiting': QIcon(path + '/resource/led_red.png'),
+                       'aborted': QIcon(path + '/resource/led_red.png')}
 
         # Controllers display
         table_view = self._widget.table_view
-- 
2.43.0


From b7494c29b6739e0a2a11dbfc0fb7489b18e12960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 29/32] fix: velocity limits survive a joint whose command is
 not set yet

A NaN command, which is what transmission loaders initialise commands to, was kept as the
reference for the acceleration limits and made the next command pass without any limit.
---
 .../include/joint_limits_interface/joint_limits_interface.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index 5f9c2b8..c99ba2f 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -453,8 +453,8 @@ public:
                                     vel_high);
     jh_.setCommand(vel_cmd);
 
-    // Cache variables
-    prev_cmd_ = jh_.getCommand();
+    // Cache variables. A NaN command (nothing commanded yet) is no reference for the acceleration limits.
+    if (!std::isnan(vel_cmd)) {prev_cmd_ = vel_cmd;}
   }
 
 private:
-- 
2.43.0


From 0d787c67fd78a57a424329cde9b3e6918e358723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:32 +0000
Subject: [PATCH 30/32] fix: the first control cycle never uses a replaced
 controller list

Requests wait only for a list the control loop has announced. In its first
cycle the loop announced the list after choosing it, so a request could
replace and clear the list in between.
---
 .../include/controller_manager/controller_manager.h    |  5 +++--
 controller_manager/src/controller_manager.cpp          | 10 ++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index 471f47a..ecd7c14 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -33,6 +33,7 @@
 
 
 #include "controller_manager/controller_spec.h"
+#include <atomic>
 #include <cstdio>
 #include <map>
 #include <mutex>
@@ -213,9 +214,9 @@ private:
   /// Double-buffered controllers list
   std::vector<ControllerSpec> controllers_lists_[2];
   /// The index of the current controllers list
-  int current_controllers_list_ = {0};
+  std::atomic<int> current_controllers_list_ = {0};
   /// The index of the controllers list being used in the real-time thread.
-  int used_by_realtime_ = {-1};
+  std::atomic<int> used_by_realtime_ = {-1};
   /*\}*/
 
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 2f0dcb0..2e61df4 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -65,8 +65,14 @@ ControllerManager::ControllerManager(hardware_interface::RobotHW *robot_hw, cons
 // Must be realtime safe.
 void ControllerManager::update(const ros::Time& time, const ros::Duration& period, bool reset_controllers)
 {
-  used_by_realtime_ = current_controllers_list_;
-  
+  // Announce the list that is going to be used, and check that it has not been replaced before it was announced:
+  // requests only wait for a list that is announced
+  do
+  {
+    used_by_realtime_ = current_controllers_list_.load();
+  }
+  while (used_by_realtime_ != current_controllers_list_);
+
   // Restart all running controllers if motors are re-enabled
   if (reset_controllers){
     for (const auto& controller : controllers_lists_[used_by_realtime_]){
-- 
2.43.0


From e71ed5695ae5a656347d8bfe2b344cd532b942d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 31/32] fix: a switch is given up or performed, never both

A request that gives up waiting withdrew its switch and cleared its lists even
while the control loop was performing it, and reported a failure for a switch
that finished at the last moment.
---
 .../controller_manager/controller_manager.h        |  3 +++
 controller_manager/src/controller_manager.cpp      | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index ecd7c14..7598b46 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -203,6 +203,9 @@ private:
 
   SwitchParams switch_params_;
 
+  /// Held while a switch is being performed or given up. The realtime thread never waits for it.
+  std::mutex switch_lock_;
+
   /*\}*/
 
   /** \name Controllers List
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 2e61df4..b6edd5f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -92,7 +92,12 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
   // there are controllers to start/stop
   if (switch_params_.do_switch)
   {
-    manageSwitch(time);
+    // the lock is taken only when the request is being given up
+    std::unique_lock<std::mutex> guard(switch_lock_, std::try_to_lock);
+    if (guard.owns_lock() && switch_params_.do_switch)
+    {
+      manageSwitch(time);
+    }
   }
 }
 
@@ -644,7 +649,12 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     }
   }
   if (timed_out)
-    switch_params_.do_switch = false; // this switch was given up, it must not happen later
+  {
+    // this switch is given up, it must not happen later, unless the realtime loop is performing it right now
+    std::lock_guard<std::mutex> switch_guard(switch_lock_);
+    timed_out = switch_params_.do_switch;
+    switch_params_.do_switch = false;
+  }
   start_request_.clear();
   stop_request_.clear();
   if(timed_out){
-- 
2.43.0


From e288af7d6dde7b1d111234d4655ab1bd6f86cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:00 +0000
Subject: [PATCH 32/32] fix: hand a switch over to the realtime thread through
 an atomic flag

The flag was a plain bool read by the realtime thread while a request wrote
it: a data race, and nothing made the request lists and options written
before visible with it.
---
 .../include/controller_manager/controller_manager.h            | 2 +-
 controller_manager/src/controller_manager.cpp                  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index 7598b46..e8606c5 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -191,7 +191,7 @@ private:
 
   struct SwitchParams
   {
-    bool do_switch      = {false};
+    std::atomic<bool> do_switch = {false}; ///< Hands the switch over to the realtime thread, and back
     bool started        = {false};
     ros::Time init_time = {ros::TIME_MAX};
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b6edd5f..0269e90 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -456,7 +456,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   // lock controllers
   std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
 
-  switch_params_ = SwitchParams();
+  switch_params_.do_switch = false;
+  switch_params_.started = false;
 
   if (!stop_request_.empty() || !start_request_.empty())
     ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
-- 
2.43.0

