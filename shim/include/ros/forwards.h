#pragma once
#include <string>
#include <map>
#include <vector>
namespace ros { typedef std::map<std::string, std::string> M_string; typedef std::vector<std::string> V_string; }
