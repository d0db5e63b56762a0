#pragma once
#include <any>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "serial/buf.h"
namespace dingodb {
class BaseSchema { public: enum Type { kBool, kInteger, kFloat, kLong, kDouble, kString, kBoolList, kIntegerList, kFloatList, kLongList, kDoubleList, kStringList, kDecimal, kDecimalList }; virtual ~BaseSchema() = default; };
template <typename T> class DingoSchema;
template <> class DingoSchema<std::optional<int64_t>> {
 public:
  static void InternalEncodeKey(Buf* b, int64_t v) { b->WriteLong((int64_t)((uint64_t)v ^ 0x8000000000000000ull)); }
  static int64_t InternalDecodeKey(Buf* b) { return (int64_t)((uint64_t)b->ReadLong() ^ 0x8000000000000000ull); }
};
class RecordEncoder; class RecordDecoder;
}
