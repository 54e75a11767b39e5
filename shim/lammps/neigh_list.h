#pragma once
#include "lammps_shim.h"
