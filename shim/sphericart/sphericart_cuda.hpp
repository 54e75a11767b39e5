#pragma once
#include "sphericart.hpp"
