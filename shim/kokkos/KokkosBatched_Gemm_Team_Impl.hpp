#pragma once
#include "KokkosBatched_Gemm_Decl.hpp"
