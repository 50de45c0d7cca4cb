// C45: a robot and controllers as a user writes them, compiled with ThreadSanitizer like the repository's code (races.cpp is not).
#pragma once
#include <controller_interface/controller_base.h>
#include <hardware_interface/robot_hw.h>
namespace user {
struct Answers { int result = 0; bool prepare = true; };   // 0 done, 1 ongoing, 2 error; set by the harness
extern Answers answers;
extern int performed, updates, resets, plans;              // counted by the harness's rules: only the control loop writes them
void reset();
hardware_interface::RobotHW* makeRobot(size_t first, size_t joints);
controller_interface::ControllerBase* makeController();
int look(controller_interface::ControllerBase* c);         // reads what starting and stopping have written
}
