#pragma once
#include "pybind11.h"
