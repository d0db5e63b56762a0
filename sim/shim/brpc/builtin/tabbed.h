#pragma once
#include <string>
#include <vector>
namespace brpc {
struct TabInfo { std::string tab_name, path; bool valid() const { return !path.empty() && !tab_name.empty(); } };
class TabInfoList { public: TabInfo* add() { v_.emplace_back(); return &v_.back(); } size_t size() const { return v_.size(); } const TabInfo& operator[](size_t i) const { return v_[i]; } void resize(size_t n) { v_.resize(n); } private: std::vector<TabInfo> v_; };
class Tabbed { public: virtual ~Tabbed() = default; virtual void GetTabInfo(TabInfoList*) const = 0; };
}
