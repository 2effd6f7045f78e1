// State of the failing allocation functions in oomnew.hpp.
#pragma once
#include <cstdint>

namespace cbm {
inline std::int64_t& failCountdown() { static std::int64_t c = -1; return c; }
inline bool& failHappened() { static bool b = false; return b; }
} // namespace cbm
