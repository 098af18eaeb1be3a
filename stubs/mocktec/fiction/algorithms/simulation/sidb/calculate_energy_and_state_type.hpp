// stand-in: the types of calculate_energy_and_state_type.hpp without its dependencies on kitty
#pragma once
#include <cstdint>
#include <utility>
#include <vector>
namespace fiction
{
enum class state_type : uint8_t
{
    ACCEPTED,
    REJECTED
};
using sidb_energy_and_state_type = std::vector<std::pair<double, state_type>>;
}
