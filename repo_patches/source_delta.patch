From fafef7171a81dc80416b3167c5bf707f4c02832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 01/35] fix: data races between the control loop and the
 services

The list indices, the switch hand-over flag and the controller state are shared between the real-time thread and the service threads: make them atomic. The real-time thread announced a list index it had read earlier, so before its first cycle had completed a service could clear that list under it: check the index again after announcing it.
---
 .../controller_interface/controller_base.h    |  3 ++-
 .../controller_manager/controller_manager.h   |  8 ++++---
 controller_manager/src/controller_manager.cpp | 22 ++++++++++++-------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/controller_interface/include/controller_interface/controller_base.h b/controller_interface/include/controller_interface/controller_base.h
index 59f4f79..ad0add1 100644
--- a/controller_interface/include/controller_interface/controller_base.h
+++ b/controller_interface/include/controller_interface/controller_base.h
@@ -34,6 +34,7 @@
 
 #include <ros/node_handle.h>
 #include <hardware_interface/robot_hw.h>
+#include <atomic>
 #include <memory>
 
 namespace controller_interface
@@ -251,7 +252,7 @@ public:
   };
 
   /// The current execution state of the controller
-  ControllerState state_ = ControllerState::CONSTRUCTED;
+  std::atomic<ControllerState> state_ = {ControllerState::CONSTRUCTED};
 
 };
 
diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index 471f47a..44266c4 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -33,6 +33,7 @@
 
 
 #include "controller_manager/controller_spec.h"
+#include <atomic>
 #include <cstdio>
 #include <map>
 #include <mutex>
@@ -190,7 +191,6 @@ private:
 
   struct SwitchParams
   {
-    bool do_switch      = {false};
     bool started        = {false};
     ros::Time init_time = {ros::TIME_MAX};
 
@@ -201,6 +201,8 @@ private:
   };
 
   SwitchParams switch_params_;
+  /// Hands the switch over to the real-time thread, and back once it is finished.
+  std::atomic<bool> do_switch_ = {false};
 
   /*\}*/
 
@@ -213,9 +215,9 @@ private:
   /// Double-buffered controllers list
   std::vector<ControllerSpec> controllers_lists_[2];
   /// The index of the current controllers list
-  int current_controllers_list_ = {0};
+  std::atomic<int> current_controllers_list_ = {0};
   /// The index of the controllers list being used in the real-time thread.
-  int used_by_realtime_ = {-1};
+  std::atomic<int> used_by_realtime_ = {-1};
   /*\}*/
 
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d78571d..8d0302d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -65,8 +65,13 @@ ControllerManager::ControllerManager(hardware_interface::RobotHW *robot_hw, cons
 // Must be realtime safe.
 void ControllerManager::update(const ros::Time& time, const ros::Duration& period, bool reset_controllers)
 {
-  used_by_realtime_ = current_controllers_list_;
-  
+  // Announce the list in use, and check again that it has not been swapped out in the meantime
+  do
+  {
+    used_by_realtime_ = current_controllers_list_.load();
+  }
+  while (used_by_realtime_ != current_controllers_list_);
+
   // Restart all running controllers if motors are re-enabled
   if (reset_controllers){
     for (const auto& controller : controllers_lists_[used_by_realtime_]){
@@ -83,7 +88,7 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
     controller.c->updateRequest(time, period);
 
   // there are controllers to start/stop
-  if (switch_params_.do_switch)
+  if (do_switch_)
   {
     manageSwitch(time);
   }
@@ -157,7 +162,7 @@ void ControllerManager::startControllers(const ros::Time& time)
       request->startRequest(time);
     }
 
-    switch_params_.do_switch = false;
+    do_switch_ = false;
   }
   // abort controllers in case of error or timeout (if set)
   else if ((robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::ERROR) ||
@@ -169,7 +174,7 @@ void ControllerManager::startControllers(const ros::Time& time)
       request->abortRequest(time);
     }
 
-    switch_params_.do_switch = false;
+    do_switch_ = false;
   }
   // wait controllers
   else
@@ -222,7 +227,7 @@ void ControllerManager::startControllersAsap(const ros::Time& time)
                     return request->isRunning() || request->isAborted();
                   }))
   {
-    switch_params_.do_switch = false;
+    do_switch_ = false;
   }
 }
 
@@ -438,6 +443,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
                                          int strictness, bool start_asap, double timeout)
 {
   switch_params_ = SwitchParams();
+  do_switch_ = false;
 
   if (!stop_request_.empty() || !start_request_.empty())
     ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
@@ -607,13 +613,13 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   switch_params_.start_asap = start_asap;
   switch_params_.init_time = ros::Time::now();
   switch_params_.timeout = timeout;
-  switch_params_.do_switch = true;
+  do_switch_ = true;
 
   // wait until switch is finished
   ROS_DEBUG("Request atomic controller switch from realtime loop");
   auto start_time = std::chrono::system_clock::now();
   bool timed_out = false;
-  while (ros::ok() && switch_params_.do_switch)
+  while (ros::ok() && do_switch_)
   {
     if (!ros::ok())
     {
-- 
2.43.0


From 15ecf8839fb46bbc7536bd8c860b376ac74cb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 02/35] fix: switchController reset the pending switch before
 taking the lock

A second call cancelled or corrupted the switch another thread was waiting for.
---
 controller_manager/src/controller_manager.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 8d0302d..02e9a2a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -442,12 +442,6 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
                                          const std::vector<std::string>& stop_controllers,
                                          int strictness, bool start_asap, double timeout)
 {
-  switch_params_ = SwitchParams();
-  do_switch_ = false;
-
-  if (!stop_request_.empty() || !start_request_.empty())
-    ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
-
   if (strictness == 0){
     ROS_WARN("Controller Manager: To switch controllers you need to specify a strictness level of controller_manager_msgs::SwitchController::STRICT (%d) or ::BEST_EFFORT (%d). Defaulting to ::BEST_EFFORT.",
              controller_manager_msgs::SwitchController::Request::STRICT,
@@ -464,6 +458,12 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   // lock controllers
   std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
 
+  switch_params_ = SwitchParams();
+  do_switch_ = false;
+
+  if (!stop_request_.empty() || !start_request_.empty())
+    ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
+
   controller_interface::ControllerBase* ct;
   // list all controllers to stop
   for (const auto& controller : stop_controllers)
-- 
2.43.0


From 71d1f5f21fc3ad6556b11490c7c9890834527934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 03/35] fix: a timed out switch stayed pending in the control
 loop

After switchController had given up waiting and cleared its request lists, later control cycles still committed the hardware switch, and a cycle in progress used the lists while they were cleared. Withdraw the switch under a lock that the real-time thread only tries to take.
---
 .../include/controller_manager/controller_manager.h      | 2 ++
 controller_manager/src/controller_manager.cpp            | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index 44266c4..b736e08 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -203,6 +203,8 @@ private:
   SwitchParams switch_params_;
   /// Hands the switch over to the real-time thread, and back once it is finished.
   std::atomic<bool> do_switch_ = {false};
+  /// Held by the real-time thread while it works on a switch (try-lock only), and to withdraw a switch.
+  std::mutex switch_lock_;
 
   /*\}*/
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 02e9a2a..58d0151 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -90,7 +90,10 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
   // there are controllers to start/stop
   if (do_switch_)
   {
-    manageSwitch(time);
+    // never blocks: the lock is only contended while the switch is being withdrawn
+    std::unique_lock<std::mutex> guard(switch_lock_, std::try_to_lock);
+    if (guard && do_switch_)
+      manageSwitch(time);
   }
 }
 
@@ -630,7 +633,9 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         std::this_thread::sleep_for(std::chrono::microseconds(100));
     } else {
         ROS_DEBUG("Timed out while switching controllers. Exiting...");
-        timed_out = true;
+        // withdraw the switch, unless the real-time thread has just finished it
+        std::lock_guard<std::mutex> switch_guard(switch_lock_);
+        timed_out = do_switch_.exchange(false);
         break;
     }
   }
-- 
2.43.0


From 9ad5c0dbcc95478379fc159364148c758eedae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 04/35] fix: switch requests acted on ineffective and duplicate
 entries

With BEST_EFFORT a controller that was already running was started (or set to waiting or aborted) again, a controller named twice was started twice, and one to be started could be stopped again while others were still waiting.
---
 controller_manager/src/controller_manager.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 58d0151..68e77ad 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -611,6 +611,21 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     return false;
   }
 
+  // keep only the requests that take effect, each of them once
+  const auto keep_effective = [](std::vector<controller_interface::ControllerBase*>& requests, bool running)
+  {
+    std::vector<controller_interface::ControllerBase*> effective;
+    for (const auto& request : requests)
+    {
+      if (request->isRunning() == running &&
+          std::find(effective.begin(), effective.end(), request) == effective.end())
+        effective.push_back(request);
+    }
+    requests.swap(effective);
+  };
+  keep_effective(stop_request_, true);
+  keep_effective(start_request_, false);
+
   // start the atomic controller switching
   switch_params_.strictness = strictness;
   switch_params_.start_asap = start_asap;
-- 
2.43.0


From c6b2475dd4714eb12496246d8de7533be908de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 05/35] fix: exceptions thrown while constructing a controller
 escaped from loadController

Only std::runtime_error was caught, unlike for its initialization.
---
 controller_manager/src/controller_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 68e77ad..406d4bc 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -303,10 +303,14 @@ bool ControllerManager::loadController(const std::string& name)
         ++it;
       }
     }
-    catch (const std::runtime_error &ex)
+    catch (const std::exception &ex)
     {
       ROS_ERROR("Could not load class '%s': %s", type.c_str(), ex.what());
     }
+    catch (...)
+    {
+      ROS_ERROR("Could not load class '%s'", type.c_str());
+    }
   }
   else
   {
-- 
2.43.0


From ee7dd4690572b296f39f7f2d41a9eb9b6bf4632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 06/35] fix: combined interfaces were never freed

---
 .../hardware_interface/internal/interface_manager.h  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index f057966..2b3bd75 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -32,6 +32,7 @@
 
 
 #include <map>
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -83,17 +84,17 @@ struct CheckIsResourceManager {
   { return callGR<T>(resources, iface, nullptr); }
 
   template <typename C>
-  static T* newCI(std::vector<ResourceManagerBase*> &guards, typename C::ResourceManagerType*)
+  static T* newCI(std::vector<std::shared_ptr<ResourceManagerBase> > &guards, typename C::ResourceManagerType*)
   {
     T* iface_combo = new T;
     // save the new interface pointer to allow for its correct destruction
-    guards.push_back(static_cast<ResourceManagerBase*>(iface_combo));
+    guards.push_back(std::shared_ptr<ResourceManagerBase>(iface_combo));
     return iface_combo;
   }
 
   // method called if C is not a ResourceManager
   template <typename C>
-  static T* newCI(std::vector<ResourceManagerBase*> &/*guards*/, ...) {
+  static T* newCI(std::vector<std::shared_ptr<ResourceManagerBase> > &/*guards*/, ...) {
     // it is not a ResourceManager
     ROS_ERROR("You cannot register multiple interfaces of the same type which are "
               "not of type ResourceManager. There is no established protocol "
@@ -101,7 +102,7 @@ struct CheckIsResourceManager {
     return nullptr;
   }
 
-  static T* newCombinedInterface(std::vector<ResourceManagerBase*> &guards)
+  static T* newCombinedInterface(std::vector<std::shared_ptr<ResourceManagerBase> > &guards)
   {
     return newCI<T>(guards, nullptr);
   }
@@ -308,7 +309,8 @@ protected:
   InterfaceMap interfaces_combo_;
   InterfaceManagerVector interface_managers_;
   SizeMap num_ifaces_registered_;
-  std::vector<ResourceManagerBase*> interface_destruction_list_;
+  /// Owns the combined interfaces
+  std::vector<std::shared_ptr<ResourceManagerBase> > interface_destruction_list_;
   /// This will allow us to check the resources based on the demangled type name of the interface
   ResourceMap resources_;
 };
-- 
2.43.0


From 619609e051ec12c4aec6005d8d8b50ce3649cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 07/35] fix: a combined interface kept using a part that had
 been replaced

It was cached by the number of its parts only.
---
 .../internal/interface_manager.h                   | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index 2b3bd75..4dad49b 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -215,11 +215,9 @@ public:
     // combined interface, or return one already constructed
     T* iface_combo;
     InterfaceMap::iterator it_combo = interfaces_combo_.find(type_name);
-    if(it_combo != interfaces_combo_.end() &&
-        num_ifaces_registered_[type_name] == iface_list.size()) {
-      // there exists a combined interface with the same number of interfaces combined
-      // (since you cannot unregister interfaces, this will be guaranteed to be the
-      //  same interfaces from previous calls)
+    const std::vector<void*> parts(iface_list.begin(), iface_list.end());
+    if(it_combo != interfaces_combo_.end() && ifaces_combined_[type_name] == parts) {
+      // there exists a combination of exactly these interfaces
       iface_combo = static_cast<T*>(it_combo->second);
     } else {
       // no existing combined interface
@@ -229,7 +227,7 @@ public:
         internal::CheckIsResourceManager<T>::callConcatManagers(iface_list, iface_combo);
         // save the combined interface for if this is called again
         interfaces_combo_[type_name] = iface_combo;
-        num_ifaces_registered_[type_name] = iface_list.size();
+        ifaces_combined_[type_name] = parts;
       } else {
         // Multiple interfaces of the same type which are not ResourceManager cannot be combined, so return
         // nullptr
@@ -302,13 +300,13 @@ public:
 protected:
   typedef std::map<std::string, void*> InterfaceMap;
   typedef std::vector<InterfaceManager*> InterfaceManagerVector;
-  typedef std::map<std::string, size_t> SizeMap;
+  typedef std::map<std::string, std::vector<void*> > PartsMap;
   typedef std::map<std::string, std::vector<std::string> > ResourceMap;
 
   InterfaceMap interfaces_;
   InterfaceMap interfaces_combo_;
   InterfaceManagerVector interface_managers_;
-  SizeMap num_ifaces_registered_;
+  PartsMap ifaces_combined_;
   /// Owns the combined interfaces
   std::vector<std::shared_ptr<ResourceManagerBase> > interface_destruction_list_;
   /// This will allow us to check the resources based on the demangled type name of the interface
-- 
2.43.0


From 7281e98f8bc3c59f58eafa5192b008436a138203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 08/35] fix: the size of actuator torque sensor data was not
 checked

The absolute position data was checked twice instead.
---
 .../include/transmission_interface/transmission_interface.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_interface.h b/transmission_interface/include/transmission_interface/transmission_interface.h
index 0b3b87a..9697cf2 100644
--- a/transmission_interface/include/transmission_interface/transmission_interface.h
+++ b/transmission_interface/include/transmission_interface/transmission_interface.h
@@ -106,7 +106,7 @@ protected:
     {
       throw TransmissionInterfaceException("Actuator absolute position data size does not match transmission.");
     }
-    if (!actuator_data.absolute_position.empty() && actuator_data.absolute_position.size() != transmission_->numActuators())
+    if (!actuator_data.torque_sensor.empty() && actuator_data.torque_sensor.size() != transmission_->numActuators())
     {
       throw TransmissionInterfaceException("Actuator torque sensor data size does not match transmission.");
     }
-- 
2.43.0


From 87f71897069a9f6a3045a3c6961d8dc48ac882ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 09/35] fix: the differential transmission's absolute position
 map accessed the position data

Its precondition check dereferenced the (possibly empty) actuator position vector.
---
 .../include/transmission_interface/differential_transmission.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/differential_transmission.h b/transmission_interface/include/transmission_interface/differential_transmission.h
index e2c1c24..939d61a 100644
--- a/transmission_interface/include/transmission_interface/differential_transmission.h
+++ b/transmission_interface/include/transmission_interface/differential_transmission.h
@@ -309,7 +309,7 @@ inline void DifferentialTransmission::actuatorToJointAbsolutePosition(const Actu
                                                                             JointData&    jnt_data)
 {
   assert(numActuators() == act_data.absolute_position.size() && numJoints() == jnt_data.absolute_position.size());
-  assert(act_data.position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
+  assert(act_data.absolute_position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
 
   const std::vector<double>& ar = act_reduction_;
   const std::vector<double>& jr = jnt_reduction_;
-- 
2.43.0


From 562c8b94b68b04ef69182d0605749475d9ed6354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 10/35] fix: non-inline functions in a header

Including the four-bar linkage transmission in two translation units of a program failed to link.
---
 .../four_bar_linkage_transmission.h                       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
index 1cdb6d5..7886379 100644
--- a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
+++ b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
@@ -283,8 +283,8 @@ inline void FourBarLinkageTransmission::actuatorToJointPosition(const ActuatorDa
                           + jnt_offset_[1];
 }
 
-void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorData& act_data,
-                                                                       JointData&    jnt_data)
+inline void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorData& act_data,
+                                                                              JointData&    jnt_data)
 {
 
   assert(numActuators() == act_data.absolute_position.size() && numJoints() == jnt_data.absolute_position.size());
@@ -298,8 +298,8 @@ void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorD
                                     jr[1] + jnt_offset_[1];
 }
 
-void FourBarLinkageTransmission::actuatorToJointTorqueSensor(const ActuatorData& act_data,
-                                                                   JointData&    jnt_data)
+inline void FourBarLinkageTransmission::actuatorToJointTorqueSensor(const ActuatorData& act_data,
+                                                                          JointData&    jnt_data)
 {
 
   assert(numActuators() == act_data.torque_sensor.size() && numJoints() == jnt_data.torque_sensor.size());
-- 
2.43.0


From bae73bc90d863d29127441b2a6676b0802e6872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 11/35] fix: exceptions thrown while constructing a part
 escaped from CombinedRobotHW::init

Only std::runtime_error was caught, unlike for its initialization.
---
 combined_robot_hw/src/combined_robot_hw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index 24b24f4..eed78f1 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -125,10 +125,14 @@ namespace combined_robot_hw
           }
         }
       }
-      catch (const std::runtime_error &ex)
+      catch (const std::exception &ex)
       {
         ROS_ERROR("Could not load class %s: %s", type.c_str(), ex.what());
       }
+      catch (...)
+      {
+        ROS_ERROR("Could not load class %s", type.c_str());
+      }
     }
     else
     {
-- 
2.43.0


From 692c2fe37007533a8f01c2a1d7e0a5323b8b7880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 12/35] fix: CombinedRobotHW::doSwitch allocated memory in the
 control loop

Filter the lists once, in prepareSwitch.
---
 .../combined_robot_hw/combined_robot_hw.h     |  7 ++++
 combined_robot_hw/src/combined_robot_hw.cpp   | 37 ++++++++-----------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
index d1e1d34..a9e2667 100644
--- a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
+++ b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
@@ -103,6 +103,13 @@ protected:
   pluginlib::ClassLoader<hardware_interface::RobotHW> robot_hw_loader_ = {"hardware_interface", "hardware_interface::RobotHW"};
   std::vector<hardware_interface::RobotHWSharedPtr> robot_hw_list_;
 
+  /// Start and stop lists of the switch in preparation or progress, as filtered for one RobotHW
+  struct SwitchLists
+  {
+    std::list<hardware_interface::ControllerInfo> start, stop;
+  };
+  std::vector<SwitchLists> switch_lists_;
+
   virtual bool loadRobotHW(const std::string& name);
 
   /** \brief Filters the start and stop lists so that they only contain the controllers and
diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index eed78f1..10f3f7d 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -56,36 +56,31 @@ namespace combined_robot_hw
   bool CombinedRobotHW::prepareSwitch(const std::list<hardware_interface::ControllerInfo>& start_list,
                              const std::list<hardware_interface::ControllerInfo>& stop_list)
   {
-    // Call the prepareSwitch method of the single RobotHW objects.
-    for (const auto& robot_hw : robot_hw_list_)
+    // Generate a filtered version of start_list and stop_list for each RobotHW. They are kept for doSwitch, which must
+    // be realtime safe.
+    switch_lists_.resize(robot_hw_list_.size());
+    for (size_t i = 0; i < robot_hw_list_.size(); ++i)
     {
-      std::list<hardware_interface::ControllerInfo> filtered_start_list;
-      std::list<hardware_interface::ControllerInfo> filtered_stop_list;
-
-      // Generate a filtered version of start_list and stop_list for each RobotHW before calling prepareSwitch
-      filterControllerList(start_list, filtered_start_list, robot_hw);
-      filterControllerList(stop_list, filtered_stop_list, robot_hw);
+      filterControllerList(start_list, switch_lists_[i].start, robot_hw_list_[i]);
+      filterControllerList(stop_list, switch_lists_[i].stop, robot_hw_list_[i]);
+    }
 
-      if (!robot_hw->prepareSwitch(filtered_start_list, filtered_stop_list))
+    // Call the prepareSwitch method of the single RobotHW objects.
+    for (size_t i = 0; i < robot_hw_list_.size(); ++i)
+    {
+      if (!robot_hw_list_[i]->prepareSwitch(switch_lists_[i].start, switch_lists_[i].stop))
         return false;
     }
     return true;
   }
 
-  void CombinedRobotHW::doSwitch(const std::list<hardware_interface::ControllerInfo>& start_list,
-                        const std::list<hardware_interface::ControllerInfo>& stop_list)
+  void CombinedRobotHW::doSwitch(const std::list<hardware_interface::ControllerInfo>& /*start_list*/,
+                        const std::list<hardware_interface::ControllerInfo>& /*stop_list*/)
   {
-    // Call the doSwitch method of the single RobotHW objects.
-    for (const auto& robot_hw : robot_hw_list_)
+    // Call the doSwitch method of the single RobotHW objects, with the lists filtered in prepareSwitch.
+    for (size_t i = 0; i < switch_lists_.size(); ++i)
     {
-      std::list<hardware_interface::ControllerInfo> filtered_start_list;
-      std::list<hardware_interface::ControllerInfo> filtered_stop_list;
-
-      // Generate a filtered version of start_list and stop_list for each RobotHW before calling doSwitch
-      filterControllerList(start_list, filtered_start_list, robot_hw);
-      filterControllerList(stop_list, filtered_stop_list, robot_hw);
-
-      robot_hw->doSwitch(filtered_start_list, filtered_stop_list);
+      robot_hw_list_[i]->doSwitch(switch_lists_[i].start, switch_lists_[i].stop);
     }
   }
 
-- 
2.43.0


From 8241101ce0f9778bf7f24850247be76ee78de7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 13/35] fix: a combined robot reported a switch as done while
 its parts were still switching

CombinedRobotHW did not delegate switchResult to its RobotHW objects.
---
 .../combined_robot_hw/combined_robot_hw.h     |  6 ++++
 combined_robot_hw/src/combined_robot_hw.cpp   | 34 +++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
index a9e2667..f1feff9 100644
--- a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
+++ b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
@@ -81,6 +81,12 @@ public:
   void doSwitch(const std::list<hardware_interface::ControllerInfo>& start_list,
                 const std::list<hardware_interface::ControllerInfo>& stop_list) override;
 
+  /** \brief Return (in realtime) the state of the last doSwitch() of all combined RobotHW objects. */
+  SwitchState switchResult() const override;
+
+  /** \brief Return (in realtime) the state of the last doSwitch() for a given controller. */
+  SwitchState switchResult(const hardware_interface::ControllerInfo& controller) const override;
+
   /**
    * Reads data from the robot HW
    *
diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index 10f3f7d..61c261b 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -84,6 +84,40 @@ namespace combined_robot_hw
     }
   }
 
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult() const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      const SwitchState part = robot_hw->switchResult();
+      if (part == SwitchState::ERROR)
+        return SwitchState::ERROR;
+      if (part == SwitchState::ONGOING)
+        result = SwitchState::ONGOING;
+    }
+    return result;
+  }
+
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult(const hardware_interface::ControllerInfo& controller) const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (size_t i = 0; i < switch_lists_.size(); ++i)
+    {
+      // Only ask the RobotHW objects involved in starting the controller, about their share of it
+      for (const auto& filtered_controller : switch_lists_[i].start)
+      {
+        if (filtered_controller.name != controller.name)
+          continue;
+        const SwitchState part = robot_hw_list_[i]->switchResult(filtered_controller);
+        if (part == SwitchState::ERROR)
+          return SwitchState::ERROR;
+        if (part == SwitchState::ONGOING)
+          result = SwitchState::ONGOING;
+      }
+    }
+    return result;
+  }
+
   bool CombinedRobotHW::loadRobotHW(const std::string& name)
   {
     ROS_DEBUG("Will load robot HW '%s'", name.c_str());
-- 
2.43.0


From 40f8fc8dd562a65cc0fd56e0cf08c54cf445f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 14/35] fix: the transmission parser crashed on a document
 without a root element

---
 transmission_interface/src/transmission_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transmission_interface/src/transmission_parser.cpp b/transmission_interface/src/transmission_parser.cpp
index 54835a3..339ba0f 100644
--- a/transmission_interface/src/transmission_parser.cpp
+++ b/transmission_interface/src/transmission_parser.cpp
@@ -51,6 +51,11 @@ bool TransmissionParser::parse(const std::string& urdf, std::vector<Transmission
 
   // Find joints in transmission tags
   TiXmlElement *root = doc.RootElement();
+  if (!root)
+  {
+    ROS_ERROR("Can't parse transmissions. Robot description has no root element.");
+    return false;
+  }
 
   // Constructs the transmissions by parsing custom xml.
   TiXmlElement *trans_it = nullptr;
-- 
2.43.0


From 8fcfc15218e79da16f6bb5b82ad956c5f30b7441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 15/35] fix: soft position limits could command positions
 beyond the hard limits

The upper bound may lie below the lower hard limit, and the lower bound above the upper one.
---
 .../include/joint_limits_interface/joint_limits_interface.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index c4f0c90..0cb0cde 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -226,8 +226,8 @@ public:
     if (limits_.has_position_limits)
     {
       // This extra measure safeguards against pathological cases, like when the soft limit lies beyond the hard limit
-      pos_low  = std::max(pos_low,  limits_.min_position);
-      pos_high = std::min(pos_high, limits_.max_position);
+      pos_low  = saturate(pos_low,  limits_.min_position, limits_.max_position);
+      pos_high = saturate(pos_high, limits_.min_position, limits_.max_position);
     }
 
     // Saturate position command according to bounds
-- 
2.43.0


From 09fb2a80a2ae5a1fa13dc05cb9347b8a74fd1adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 16/35] fix: velocity soft limits could command velocities
 beyond the velocity limit

If the measured velocity was below the negative velocity limit by more than the acceleration limit allows to recover, the command was too.
---
 .../include/joint_limits_interface/joint_limits_interface.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index 0cb0cde..2d0ff1a 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -509,8 +509,10 @@ public:
     {
       const double vel = jh_.getVelocity();
       const double delta_t = period.toSec();
-      min_vel = std::max(vel - limits_.max_acceleration * delta_t, min_vel);
-      max_vel = std::min(vel + limits_.max_acceleration * delta_t, max_vel);
+      const double min_acc_vel = saturate(vel - limits_.max_acceleration * delta_t, min_vel, max_vel);
+      const double max_acc_vel = saturate(vel + limits_.max_acceleration * delta_t, min_vel, max_vel);
+      min_vel = min_acc_vel;
+      max_vel = max_acc_vel;
     }
 
     jh_.setCommand(saturate(jh_.getCommand(), min_vel, max_vel));
-- 
2.43.0


From 76d560468466ca9de55dc55ba06ff3c874e2a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 17/35] fix: soft limits of the wrong type were partially
 applied and reported as found

---
 .../joint_limits_interface/joint_limits_rosparam.h       | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
index fae269a..69af007 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
@@ -216,12 +216,11 @@ inline bool getSoftJointLimits(const std::string& joint_name, const ros::NodeHan
   bool has_soft_limits;
   if(limits_nh.getParam("has_soft_limits", has_soft_limits))
   {
-    if(has_soft_limits && limits_nh.hasParam("k_position") && limits_nh.hasParam("k_velocity") && limits_nh.hasParam("soft_lower_limit") && limits_nh.hasParam("soft_upper_limit"))
+    SoftJointLimits limits;
+    if(has_soft_limits && limits_nh.getParam("k_position", limits.k_position) && limits_nh.getParam("k_velocity", limits.k_velocity) &&
+       limits_nh.getParam("soft_lower_limit", limits.min_position) && limits_nh.getParam("soft_upper_limit", limits.max_position))
     {
-      limits_nh.getParam("k_position", soft_limits.k_position);
-      limits_nh.getParam("k_velocity", soft_limits.k_velocity);
-      limits_nh.getParam("soft_lower_limit", soft_limits.min_position);
-      limits_nh.getParam("soft_upper_limit", soft_limits.max_position);
+      soft_limits = limits;
       return true;
     }
   }
-- 
2.43.0


From 3012d84ca50d23daa550a30616371c064d0a9960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 18/35] fix: filter_by_resources raised UnboundLocalError for
 an empty list of resources

---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index c41a5ff..b57d6bd 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -366,8 +366,8 @@ def filter_by_resources(ctrl_list,
         for resource_set in ctrl.claimed_resources:
             if (hardware_interface is None or
                 hardware_interface == resource_set.hardware_interface):
+                add_ctrl = not match_any  # Initial flag value
                 for res in resources:
-                    add_ctrl = not match_any  # Initial flag value
                     if res in resource_set.resources:
                         if match_any:  # One hit: enough to accept controller
                             add_ctrl = True
-- 
2.43.0


From 6977e606d41f92f6826e8e5908ff12cea40d3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 19/35] fix: spawner failed with --wait-for if it was to wait
 indefinitely for the services

It compared the elapsed time with None.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index af1dfaf..c5e4cff 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -166,7 +166,7 @@ def main():
             time.sleep(0.01)
             if rospy.is_shutdown():
                 return
-            if not warned_about_not_hearing_anything:
+            if timeout is not None and not warned_about_not_hearing_anything:
                 if time.time() - started_waiting > timeout:
                     warned_about_not_hearing_anything = True
                     rospy.logwarn("Controller Spawner hasn't heard anything from its \"wait for\" topic (%s)" % \
-- 
2.43.0


From 226a936a1681d2f526f6a451cd26830d1c4bc841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 20/35] fix: spawner failed to load configuration files

yaml.load requires a loader since PyYAML 6.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index c5e4cff..0199b82 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -186,7 +186,7 @@ def main():
             # load yaml file onto the parameter server, using the namespace specified in the yaml file
             rosparam.set_param("",open(name))
             # list the controllers to be loaded
-            name_yaml = yaml.load(open(name))
+            name_yaml = yaml.safe_load(open(name))
             for controller in name_yaml:
                 controllers.append(controller)
         else:
-- 
2.43.0


From 3aef32a67f1cc4836126fa0a43a36a7ad69f6d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 21/35] fix: spawner left controllers running on shutdown if
 some of its controllers were not

Stopping controllers that are not running makes a strict request fail as a whole.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 0199b82..20fcce1 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -62,7 +62,7 @@ def shutdown():
         switch_controller = rospy.ServiceProxy(switch_controller_service, SwitchController)
 
         rospy.loginfo("Stopping all controllers...");
-        switch_controller([], loaded, SwitchControllerRequest.STRICT, False, 0.0)
+        switch_controller([], loaded, SwitchControllerRequest.BEST_EFFORT, False, 0.0)
         rospy.loginfo("Unloading all loaded controllers...");
         for name in reversed(loaded):
             rospy.logout("Trying to unload %s" % name)
-- 
2.43.0


From 6d28e93ef07d6c8e4b4417c580e40c89acac0ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 22/35] fix: spawner kept loading controllers after it had been
 shut down

These were never unloaded.
---
 controller_manager/scripts/spawner | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 20fcce1..d0bffb1 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -194,6 +194,8 @@ def main():
 
     # load controllers
     for name in controllers:
+        if rospy.is_shutdown():
+            return
         rospy.loginfo("Loading controller: "+name)
         resp = load_controller(name)
         if resp.ok != 0:
-- 
2.43.0


From e93fb82fefb93146ca298baed8e4a96bff0df62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 23/35] fix: unspawner started controllers on exit that it had
 failed to stop

---
 controller_manager/scripts/unspawner | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/controller_manager/scripts/unspawner b/controller_manager/scripts/unspawner
index 8463d95..861e043 100755
--- a/controller_manager/scripts/unspawner
+++ b/controller_manager/scripts/unspawner
@@ -53,9 +53,10 @@ def main():
 
         if to_stop:
             rospy.logout("Inhibiting controllers: %s" % ', '.join(to_stop))
-            switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
-                              stop_controllers = list(to_stop))
-            inhibited.update(to_stop)
+            resp = switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
+                                     stop_controllers = list(to_stop))
+            if resp.ok:
+                inhibited.update(to_stop)
 
     stop_controllers()
     timer = rospy.Timer(rospy.Duration(3), stop_controllers)
-- 
2.43.0


From 2d0e9c3fa91fb85570ea52c948ec71bd4c6ed75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 24/35] fix: rqt_controller_manager could not display waiting
 and aborted controllers

---
 .../src/rqt_controller_manager/controller_manager.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 97448f7..ab30e1f 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -103,7 +103,9 @@ class ControllerManager(Plugin):
         self._icons = {'running': QIcon(path + '/resource/led_green.png'),
                        'stopped': QIcon(path + '/resource/led_red.png'),
                        'uninitialized': QIcon(path + '/resource/led_off.png'),
-                       'initialized': QIcon(path + '/resource/led_red.png')}
+                       'initialized': QIcon(path + '/resource/led_red.png'),
+                       'waiting': QIcon(path + '/resource/led_red.png'),
+                       'aborted': QIcon(path + '/resource/led_red.png')}
 
         # Controllers display
         table_view = self._widget.table_view
-- 
2.43.0


From 99414c159107a5b25bf15543ab1618e77176559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 25/35] fix: a running controller could be unloaded while it
 was being reset

The reset made the controller appear stopped for a moment, in which a
concurrent request could unload it (or report or treat it as stopped).
---
 controller_manager/src/controller_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 406d4bc..cb5cd54 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -76,8 +76,9 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
   if (reset_controllers){
     for (const auto& controller : controllers_lists_[used_by_realtime_]){
       if (controller.c->isRunning()){
-        controller.c->stopRequest(time);
-        controller.c->startRequest(time);
+        // it stays running meanwhile, otherwise a concurrent request could find it stopped and unload it
+        controller.c->stopping(time);
+        controller.c->starting(time);
       }
     }
   }
-- 
2.43.0


From 6e14755d640578298cb4f30d6dfd6652a446c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 26/35] fix: lookup of a non-combinable interface ignored
 ambiguous nested providers

---
 .../hardware_interface/internal/interface_manager.h    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index 4dad49b..7f8ddeb 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -31,6 +31,7 @@
 #pragma once
 
 
+#include <algorithm>
 #include <map>
 #include <memory>
 #include <string>
@@ -202,7 +203,16 @@ public:
     for (const auto& interface_manager : interface_managers_) {
       T* iface = interface_manager->get<T>();
       if (iface)
+      {
         iface_list.push_back(iface);
+      }
+      else
+      {
+        // The manager may itself have multiple interfaces of this type which cannot be combined
+        const std::vector<std::string> names = interface_manager->getNames();
+        if (std::find(names.begin(), names.end(), type_name) != names.end())
+          return nullptr;
+      }
     }
 
     if(iface_list.size() == 0)
-- 
2.43.0


From 4e6ac6a8c941baa5958a87d1c51fb13a8472fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 27/35] fix: joint commands could not be provided for robots
 with joint states of their own

Registering a joint command interface on a robot that already had a
JointStateInterface looked the joint's state up in an interface that was not
registered with the robot, and load() threw.
---
 transmission_interface/src/effort_joint_interface_provider.cpp  | 2 +-
 .../src/position_joint_interface_provider.cpp                   | 2 +-
 .../src/velocity_joint_interface_provider.cpp                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/src/effort_joint_interface_provider.cpp b/transmission_interface/src/effort_joint_interface_provider.cpp
index b9ab5b9..9cf7f60 100644
--- a/transmission_interface/src/effort_joint_interface_provider.cpp
+++ b/transmission_interface/src/effort_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool EffortJointInterfaceProvider::updateJointInterfaces(const TransmissionInfo&
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.effort_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/position_joint_interface_provider.cpp b/transmission_interface/src/position_joint_interface_provider.cpp
index d032662..1592bec 100644
--- a/transmission_interface/src/position_joint_interface_provider.cpp
+++ b/transmission_interface/src/position_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool PositionJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.position_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/velocity_joint_interface_provider.cpp b/transmission_interface/src/velocity_joint_interface_provider.cpp
index a3cca76..fc4df29 100644
--- a/transmission_interface/src/velocity_joint_interface_provider.cpp
+++ b/transmission_interface/src/velocity_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool VelocityJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.velocity_cmd);
     interface.registerHandle(handle);
   }
-- 
2.43.0


From 9c266fcba38bcf582b1f21b074c5e72d1c515a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 28/35] fix: spawner could load a controller right after it had
 been shut down

The shutdown hook may run while the message is being logged, i.e. between the
check and the request; the controller then stayed loaded.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index d0bffb1..dc71ec6 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -194,9 +194,9 @@ def main():
 
     # load controllers
     for name in controllers:
+        rospy.loginfo("Loading controller: "+name)
         if rospy.is_shutdown():
             return
-        rospy.loginfo("Loading controller: "+name)
         resp = load_controller(name)
         if resp.ok != 0:
             loaded.append(name)
-- 
2.43.0


From eccb66519826363219e7566474c0fa6a2eeaa50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 29/35] fix: spawner did not terminate when shut down while
 waiting for /clock

Once ROS is shut down wait_for_service raises immediately, the time stays zero
and the loop went on forever.
---
 controller_manager/scripts/spawner | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index dc71ec6..0f38565 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -136,6 +136,8 @@ def main():
             rospy.loginfo("Controller Spawner: Waiting for service "+unload_controller_service)
             rospy.wait_for_service(unload_controller_service, timeout=timeout)
         except rospy.exceptions.ROSException:
+            if rospy.is_shutdown():
+                return
             # If we use sim time, wait for the clock to be published
             if rospy.get_param('/use_sim_time', False) and rospy.get_rostime() == rospy.Time(0):
                 rospy.loginfo("Waiting for /clock to be available...")
-- 
2.43.0


From 88bb816f6b0e8527e4da9dee719292d6ea39e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 30/35] fix: services with similar names confused the lookup of
 controller managers

A service like <ns>/list_controllers_foo (or list_controllers_foo/bar) made
<ns> appear twice, and a manager in a namespace starting with list_controllers
was not found.
---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index b57d6bd..350f7c3 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -147,8 +147,8 @@ def _sloppy_get_controller_managers(namespace):
     ns_list = []
     for srv_name in srv_list:
         match_str = '/' + _LIST_CONTROLLERS_STR
-        if match_str in srv_name:
-            ns = srv_name.split(match_str)[0]
+        if srv_name.endswith(match_str):
+            ns = srv_name[:-len(match_str)]
             if ns == '':
                 # controller manager services live in root namespace
                 # unlikely, but still possible
-- 
2.43.0


From bf66e9cd88d85d7483ed279d13ecba352559c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 31/35] fix: an unreachable service made the lookup of
 controller managers fail

A single stale service registration (e.g. of a crashed manager) hid all the
other managers.
---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index 350f7c3..ae0e2ee 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -170,7 +170,10 @@ def _srv_exists(srv_name, srv_type):
     """
     if not srv_name or not srv_type:
         return False
-    return srv_type == rosservice.get_service_type(srv_name)
+    try:
+        return srv_type == rosservice.get_service_type(srv_name)
+    except rosservice.ROSServiceIOException:
+        return False  # Stale registration, or the master is not reachable
 
 
 ###############################################################################
-- 
2.43.0


From 435187ffcd179bb28c45d567fd6ed8109fa2342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 32/35] fix: rqt_controller_manager could not control a
 restarted manager

If the manager is restarted between two updates of the list the selection does
not change, and the persistent connections to the old one fail for good.
---
 .../rqt_controller_manager/controller_manager.py  | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index ab30e1f..0aacab0 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -180,21 +180,18 @@ class ControllerManager(Plugin):
 
     def _set_cm_services(self, cm_ns):
         if cm_ns:
-            # NOTE: Persistent services are used for performance reasons.
-            # If the controller manager dies, we detect it and disconnect from
-            # it anyway
+            # NOTE: Services are not persistent: if the controller manager is
+            # restarted between two updates we would not notice, and persistent
+            # connections stay broken
             load_srv_name = _append_ns(cm_ns, 'load_controller')
             self._load_srv = rospy.ServiceProxy(load_srv_name,
-                                                LoadController,
-                                                persistent=True)
+                                                LoadController)
             unload_srv_name = _append_ns(cm_ns, 'unload_controller')
             self._unload_srv = rospy.ServiceProxy(unload_srv_name,
-                                                  UnloadController,
-                                                  persistent=True)
+                                                  UnloadController)
             switch_srv_name = _append_ns(cm_ns, 'switch_controller')
             self._switch_srv = rospy.ServiceProxy(switch_srv_name,
-                                                  SwitchController,
-                                                  persistent=True)
+                                                  SwitchController)
         else:
             self._load_srv = None
             self._unload_srv = None
-- 
2.43.0


From 2a52d847cfe1c2190a72f84491cccb816c6f969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 33/35] fix: header menu of rqt_controller_manager

QHeaderView.resizeMode does not exist in Qt 5.
---
 .../src/rqt_controller_manager/controller_manager.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 0aacab0..ff79f75 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -319,7 +319,7 @@ class ControllerManager(Plugin):
 
         # Evaluate user action
         if action is action_toggle_auto_resize:
-            if header.resizeMode(0) == QHeaderView.ResizeToContents:
+            if header.sectionResizeMode(0) == QHeaderView.ResizeToContents:
                 header.setSectionResizeMode(QHeaderView.Interactive)
             else:
                 header.setSectionResizeMode(QHeaderView.ResizeToContents)
-- 
2.43.0


From 6d6471ece73f6abf3228fa44eeaa4da1fb33cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 34/35] fix: resources added to an interface after its
 registration were not known

The names were recorded when the interface was registered, so robots that
register interfaces before populating them (as the transmission interface
loader does) were left out of the hardware switches of a combined robot.
---
 .../internal/interface_manager.h              | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index 7f8ddeb..063d65d 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -71,18 +71,18 @@ struct CheckIsResourceManager {
 
   // method called if C is a ResourceManager
   template <typename C>
-  static void callGR(std::vector<std::string> &resources, C* iface, typename C::ResourceManagerType*)
+  static std::vector<std::string> callGR(C* iface, typename C::ResourceManagerType*)
   {
-    resources = iface->getNames();
+    return iface->getNames();
   }
 
   // method called if C is not a ResourceManager
   template <typename C>
-  static void callGR(std::vector<std::string> &/*resources*/, T* /*iface*/, ...) { }
+  static std::vector<std::string> callGR(T* /*iface*/, ...) { return std::vector<std::string>(); }
 
-  // calls ResourceManager::concatManagers if C is a ResourceManager
-  static void callGetResources(std::vector<std::string> &resources, T* iface)
-  { return callGR<T>(resources, iface, nullptr); }
+  // calls ResourceManager::getNames if C is a ResourceManager
+  static std::vector<std::string> callGetResources(void* iface)
+  { return callGR<T>(static_cast<T*>(iface), nullptr); }
 
   template <typename C>
   static T* newCI(std::vector<std::shared_ptr<ResourceManagerBase> > &guards, typename C::ResourceManagerType*)
@@ -145,7 +145,7 @@ public:
       ROS_WARN_STREAM("Replacing previously registered interface '" << iface_name << "'.");
     }
     interfaces_[iface_name] = iface;
-    internal::CheckIsResourceManager<T>::callGetResources(resources_[iface_name], iface);
+    resources_[iface_name] = &internal::CheckIsResourceManager<T>::callGetResources;
   }
 
   /**
@@ -295,7 +295,8 @@ public:
     ResourceMap::const_iterator it = resources_.find(iface_type);
     if(it != resources_.end())
     {
-      out = it->second;
+      // ask the interface itself, as resources may have been added to it after its registration
+      out = it->second(interfaces_.at(iface_type));
     }
 
     for (const auto& interface_manager : interface_managers_)
@@ -311,7 +312,7 @@ protected:
   typedef std::map<std::string, void*> InterfaceMap;
   typedef std::vector<InterfaceManager*> InterfaceManagerVector;
   typedef std::map<std::string, std::vector<void*> > PartsMap;
-  typedef std::map<std::string, std::vector<std::string> > ResourceMap;
+  typedef std::map<std::string, std::vector<std::string> (*)(void*)> ResourceMap;
 
   InterfaceMap interfaces_;
   InterfaceMap interfaces_combo_;
@@ -319,7 +320,7 @@ protected:
   PartsMap ifaces_combined_;
   /// Owns the combined interfaces
   std::vector<std::shared_ptr<ResourceManagerBase> > interface_destruction_list_;
-  /// This will allow us to check the resources based on the demangled type name of the interface
+  /// This will allow us to get the resources based on the demangled type name of the interface
   ResourceMap resources_;
 };
 
-- 
2.43.0


From bd0eda68e17e2f2ec92ac9f886f027fa3c8e035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 35/35] fix: a shutdown of ROS while a request was pending made
 the services race with the control loop

---
 controller_manager/src/controller_manager.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index cb5cd54..d666625 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -244,7 +244,7 @@ bool ControllerManager::loadController(const std::string& name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -362,7 +362,7 @@ bool ControllerManager::loadController(const std::string& name)
   // Destroys the old controllers list when the realtime thread is finished with it.
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -386,7 +386,7 @@ bool ControllerManager::unloadController(const std::string &name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -429,7 +429,7 @@ bool ControllerManager::unloadController(const std::string &name)
   ROS_DEBUG("Realtime switches over to new controller list");
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -642,17 +642,13 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   ROS_DEBUG("Request atomic controller switch from realtime loop");
   auto start_time = std::chrono::system_clock::now();
   bool timed_out = false;
-  while (ros::ok() && do_switch_)
+  while (do_switch_)
   {
-    if (!ros::ok())
-    {
-      return false;
-    }
     std::chrono::duration<double> diff = std::chrono::system_clock::now() - start_time;
-    if (diff.count() < timeout+1.0 || timeout == 0){
+    if (ros::ok() && (diff.count() < timeout+1.0 || timeout == 0)){
         std::this_thread::sleep_for(std::chrono::microseconds(100));
     } else {
-        ROS_DEBUG("Timed out while switching controllers. Exiting...");
+        ROS_DEBUG("Timed out or shut down while switching controllers. Exiting...");
         // withdraw the switch, unless the real-time thread has just finished it
         std::lock_guard<std::mutex> switch_guard(switch_lock_);
         timed_out = do_switch_.exchange(false);
-- 
2.43.0

