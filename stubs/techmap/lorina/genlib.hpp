#pragma once
#include "fiction/algorithms/network_transformation/network_conversion.hpp"
