#include "races_user.h"
#include <controller_interface/multi_interface_controller.h>
#include <hardware_interface/joint_command_interface.h>
#include <ros/time.h>
#include <list>
#include <vector>
using namespace hardware_interface;
namespace user {
Answers answers; int performed, updates, resets, plans;
namespace {
void point(const char* w) { ros::shim::yieldPoint(w); }
struct Robot : RobotHW {
  PositionJointInterface pji; EffortJointInterface eji; std::vector<double> cells; std::vector<std::string> plan; int mode = 0, asked = 0;
  Robot(size_t first, size_t n) : cells(4 * n) { for (size_t i = 0; i < n; ++i) { JointStateHandle h("r" + std::to_string(first + i), &cells[4 * i], &cells[4 * i + 1], &cells[4 * i + 2]); pji.registerHandle(JointHandle(h, &cells[4 * i + 3])); eji.registerHandle(JointHandle(h, &cells[4 * i + 3])); } registerInterface(&pji); registerInterface(&eji); }
  // requests prepare, the control loop performs
  bool prepareSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { point("prepareSwitch"); plan.clear(); for (auto& i : a) plan.push_back(i.name); for (auto& i : b) plan.push_back(i.name); point("prepareSwitch"); return answers.prepare; }
  void doSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { ++performed; mode = (int)plan.size(); size_t n = 0; for (auto& i : a) n += i.name.size() + i.claimed_resources.size(); for (auto& i : b) n += i.name.size(); plans += (int)n; point("doSwitch"); }
  SwitchState switchResult() const override { return (SwitchState)answers.result; }
  SwitchState switchResult(const ControllerInfo& i) const override { plans += (int)i.name.size(); return (SwitchState)answers.result; }
};
struct Controller : controller_interface::MultiInterfaceController<PositionJointInterface, EffortJointInterface> {
  typedef controller_interface::MultiInterfaceController<PositionJointInterface, EffortJointInterface> Base;
  std::vector<double> gains; std::vector<JointHandle> joints; int started = 0, stopped = 0, waited = 0, aborted = 0, count = 0; double last = 0;
  Controller() : Base(true) {} ~Controller() override { point("destructor"); count = -1; last = 0; }
  bool init(RobotHW* hw, ros::NodeHandle&, ros::NodeHandle& nh) override
  {
    std::vector<std::string> use; point("init"); nh.getParam("joints", use); for (auto& j : use) joints.push_back(hw->get<PositionJointInterface>()->getHandle(j)); point("init"); gains.assign(joints.size() + 1, 0.5); return true;
  }
  void starting(const ros::Time& t) override { ++started; last = t.toSec() + gains.back(); point("starting"); }
  void stopping(const ros::Time& t) override { ++stopped; last = t.toSec(); point("stopping"); }
  void waiting(const ros::Time&) override { ++waited; } void aborting(const ros::Time&) override { ++aborted; }
  void update(const ros::Time&, const ros::Duration&) override { ++count; ++updates; for (size_t i = 0; i < joints.size(); ++i) joints[i].setCommand(gains[i] * joints[i].getPosition() + last); point("update"); }
};
}
void reset() { performed = updates = resets = plans = 0; answers = Answers(); }
RobotHW* makeRobot(size_t first, size_t n) { return new Robot(first, n); }
controller_interface::ControllerBase* makeController() { return new Controller; }
int look(controller_interface::ControllerBase* c) { auto* m = dynamic_cast<Controller*>(c); return m ? m->started + m->stopped + m->waited + m->aborted : -1; }
}
