#pragma once
#include <fcntl.h>
#include <sys/stat.h>
#include <memory>
#include <string>
#include <google/protobuf/message.h>
#include "butil/files/dir_reader_posix.h"
#include "butil/files/file.h"
#include "butil/iobuf.h"
#include "butil/macros.h"
#include "butil/memory/ref_counted.h"
#include "butil/fd_utility.h"
#ifndef O_CLOEXEC
#define O_CLOEXEC 0
#endif
namespace braft {
class DirReader { public: virtual ~DirReader() = default; virtual bool is_valid() const = 0; virtual bool next() = 0; virtual const char* name() const = 0; DirReader() = default; DirReader(const DirReader&) = delete; };
class FileAdaptor {
 public:
  virtual ~FileAdaptor() = default;
  virtual ssize_t write(const butil::IOBuf& data, off_t offset) = 0;
  virtual ssize_t read(butil::IOPortal* portal, off_t offset, size_t size) = 0;
  virtual ssize_t size() = 0;
  virtual bool sync() = 0;
  virtual bool close() = 0;
  FileAdaptor() = default;
  FileAdaptor(const FileAdaptor&) = delete;
};
class FileSystemAdaptor : public butil::RefCountedThreadSafe<FileSystemAdaptor> {
 public:
  FileSystemAdaptor() = default;
  virtual ~FileSystemAdaptor() = default;
  virtual FileAdaptor* open(const std::string& path, int oflag, const ::google::protobuf::Message* file_meta, butil::File::Error* e) = 0;
  virtual bool delete_file(const std::string& path, bool recursive) = 0;
  virtual bool rename(const std::string& a, const std::string& b) = 0;
  virtual bool link(const std::string& a, const std::string& b) = 0;
  virtual bool create_directory(const std::string& p, butil::File::Error* e, bool create_parent_directories) = 0;
  virtual bool path_exists(const std::string& p) = 0;
  virtual bool directory_exists(const std::string& p) = 0;
  virtual DirReader* directory_reader(const std::string& p) = 0;
  virtual bool open_snapshot(const std::string&) { return true; }
  virtual void close_snapshot(const std::string&) {}
};
class PosixDirReader : public DirReader {
 public:
  explicit PosixDirReader(const std::string& p) : r_(p.c_str()) {}
  bool is_valid() const override { return r_.IsValid(); }
  bool next() override { return r_.Next(); }
  const char* name() const override { return r_.name(); }
 private: butil::DirReaderPosix r_;
};
class PosixFileAdaptor : public FileAdaptor {
 public:
  explicit PosixFileAdaptor(int fd) : fd_(fd) {}
  ~PosixFileAdaptor() override;
  ssize_t write(const butil::IOBuf& data, off_t offset) override;
  ssize_t read(butil::IOPortal* portal, off_t offset, size_t size) override;
  ssize_t size() override;
  bool sync() override;
  bool close() override;
 protected: PosixFileAdaptor() = default;
 private: int fd_ = -1;
};
class PosixFileSystemAdaptor : public FileSystemAdaptor {
 public:
  FileAdaptor* open(const std::string& path, int oflag, const ::google::protobuf::Message* file_meta, butil::File::Error* e) override;
  bool delete_file(const std::string& path, bool recursive) override;
  bool rename(const std::string& a, const std::string& b) override;
  bool link(const std::string& a, const std::string& b) override;
  bool create_directory(const std::string& p, butil::File::Error* e, bool create_parent_directories) override;
  bool path_exists(const std::string& p) override;
  bool directory_exists(const std::string& p) override;
  DirReader* directory_reader(const std::string& p) override;
};
int file_error_to_os_error(butil::File::Error e);
butil::File::Error get_last_file_error_unused();
FileSystemAdaptor* default_file_system();
bool create_sub_directory(const std::string& parent, const std::string& sub, FileSystemAdaptor* fs = nullptr, butil::File::Error* e = nullptr);
}
