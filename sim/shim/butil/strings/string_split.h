#pragma once
#include <string>
#include <vector>
#include "butil/strings/string_util.h"
namespace butil {
inline void SplitString(const std::string& s, char sep, std::vector<std::string>* out) {
  out->clear(); std::string cur; 
  for (size_t i = 0, b = 0;; i++) if (i == s.size() || s[i] == sep) { std::string t; TrimWhitespaceASCII(s.substr(b, i - b), TRIM_ALL, &t); if (!(i == s.size() && out->empty() && t.empty())) out->push_back(t); b = i + 1; if (i == s.size()) break; }
}
}
