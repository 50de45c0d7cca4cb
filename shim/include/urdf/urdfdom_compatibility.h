#pragma once
#include <urdf_model/joint.h>
