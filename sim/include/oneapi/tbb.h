#pragma once
#include "../tbb/sim_tbb.h"
