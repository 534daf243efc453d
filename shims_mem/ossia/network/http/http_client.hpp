#pragma once
#include <memweb.hpp>
