#pragma once
#include <memory>
#include <string>
