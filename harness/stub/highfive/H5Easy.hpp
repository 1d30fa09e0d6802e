#pragma once
#include "highfive_mem.hpp"
