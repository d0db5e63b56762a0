#pragma once
#include <unordered_map>
#include <unordered_set>
