// Stand-in for the header the build generates from Version.h.in.
#pragma once
#include <string>
namespace BlasBooster {
const std::string version = "0.0";
const std::string revision = "verif";
}
