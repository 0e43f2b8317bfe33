// Common parts of the DDP harnesses.
#pragma once
#include "problem.hpp"

#include <nmpc_ddp/BoxQP.h>
#include <nmpc_ddp/DDPSolver.h>
