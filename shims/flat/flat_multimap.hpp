#pragma once
#include <flat/flat_impl.hpp>
