#pragma once
#include <ros/console.h>
#include <cassert>
#define ROS_ASSERT(cond) assert(cond)
#define ROS_ASSERT_MSG(cond, ...) assert(cond)
#define ROS_ASSERT_CMD(cond, cmd) do { if (!(cond)) { cmd; } } while (0)
#define ROS_BREAK() assert(false)
#define ROS_ISSUE_BREAK() assert(false)
