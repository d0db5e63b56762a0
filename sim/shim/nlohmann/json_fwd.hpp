#include "nlohmann/json.hpp"
