#pragma once
#include "KokkosBlas.hpp"
