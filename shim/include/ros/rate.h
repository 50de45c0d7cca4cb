#pragma once
#include <ros/time.h>
