#pragma once
#include <ros/time.h>
#include <string>
#include <cstdint>
namespace std_msgs { template <class A> struct Header_ { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; typedef Header_<std::allocator<void>> Header; struct Bool { bool data = false; }; }
