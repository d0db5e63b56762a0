#pragma once
#include <cstdint>
#include "butil/files/file.h"
#include "butil/files/file_path.h"
namespace butil {
bool DeleteFile(const FilePath& p, bool recursive);
bool PathExists(const FilePath& p);
bool DirectoryExists(const FilePath& p);
bool CreateDirectory(const FilePath& p);
bool CreateDirectoryAndGetError(const FilePath& p, File::Error* e);
bool CreateDirectoryAndGetError(const FilePath& p, File::Error* e, bool create_parents);
bool GetFileSize(const FilePath& p, int64_t* sz);
bool ReplaceFile(const FilePath& a, const FilePath& b, File::Error* e);
bool ReadFileToString(const FilePath& p, std::string* s);
int WriteFile(const FilePath& p, const char* d, int n);
}
