#pragma once
#include <oscpack/osc/OscAll.h>
