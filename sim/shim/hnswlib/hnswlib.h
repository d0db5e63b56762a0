#pragma once
#include <cstddef>
#include <cstdint>
namespace hnswlib {
typedef size_t labeltype;
class BaseFilterFunctor { public: virtual ~BaseFilterFunctor() = default; virtual bool operator()(labeltype) { return true; } };
template <typename T> class SpaceInterface; template <typename T> class HierarchicalNSW;
}
