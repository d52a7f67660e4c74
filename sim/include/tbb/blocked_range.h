#pragma once
#include "sim_tbb.h"
