#pragma once
#include "butil/files/file_path.h"
namespace butil {
class File {
 public:
  enum Error { FILE_OK = 0, FILE_ERROR_FAILED = -1, FILE_ERROR_IN_USE = -2, FILE_ERROR_EXISTS = -3, FILE_ERROR_NOT_FOUND = -4, FILE_ERROR_ACCESS_DENIED = -5,
    FILE_ERROR_TOO_MANY_OPENED = -6, FILE_ERROR_NO_MEMORY = -7, FILE_ERROR_NO_SPACE = -8, FILE_ERROR_NOT_A_DIRECTORY = -9, FILE_ERROR_INVALID_OPERATION = -10,
    FILE_ERROR_SECURITY = -11, FILE_ERROR_ABORT = -12, FILE_ERROR_NOT_A_FILE = -13, FILE_ERROR_NOT_EMPTY = -14, FILE_ERROR_INVALID_URL = -15, FILE_ERROR_IO = -16, FILE_ERROR_MAX = -17 };
  struct Info { int64_t size = 0; bool is_directory = false; };
  static Error OSErrorToFileError(int e);
};
}
