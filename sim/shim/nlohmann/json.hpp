#pragma once
#include <map>
#include <string>
namespace nlohmann { class json; }
