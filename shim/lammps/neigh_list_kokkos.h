#pragma once
#include "lammps_shim_kk.h"
