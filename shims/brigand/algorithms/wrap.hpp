#pragma once
#include <brigand/sequences/list.hpp>
