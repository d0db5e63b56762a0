#pragma once
#include "bvar/bvar.h"
namespace dingodb {
template <typename T> using DingoMultiDimension = bvar::MultiDimension<T>;
}
