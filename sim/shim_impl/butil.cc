#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <fstream>
#include "butil/crc32c.h"
#include "butil/file_util.h"
#include "butil/files/dir_reader_posix.h"
#include "butil/iobuf.h"
#include "bvar/bvar.h"
#include "glog/logging.h"
#include "sim.h"
DEFINE_bool(logtostderr, false, ""); DEFINE_bool(alsologtostderr, false, ""); DEFINE_bool(logtostdout, false, ""); DEFINE_bool(colorlogtostdout, false, ""); DEFINE_bool(colorlogtostderr, false, "");
DEFINE_int32(stderrthreshold, 3, ""); DEFINE_int32(minloglevel, 0, ""); DEFINE_int32(v, 0, ""); DEFINE_int32(logbuflevel, 0, ""); DEFINE_int32(logbufsecs, 0, "");
DEFINE_string(log_dir, "", ""); DEFINE_bool(stop_logging_if_full_disk, false, ""); DEFINE_string(vmodule, "", ""); DEFINE_bool(log_prefix, true, ""); DEFINE_uint32(max_log_size, 80, "");
namespace bvar { int FLAGS_bvar_latency_p1 = 80, FLAGS_bvar_latency_p2 = 90, FLAGS_bvar_latency_p3 = 99, FLAGS_bvar_max_dump_multi_dimension_metric_number = 0; }
namespace bthread { int FLAGS_bthread_concurrency = 9; }
bool sim_log_on = getenv("SIM_DLOG") != nullptr;
void sim_log_fatal(const std::string& s) { if (sim_log_on) fprintf(stderr, "FATAL %s\n", s.c_str()); sim::Fatal(s); }
void sim_log_line(int sev, const char* f, int l, const std::string& s) {
  if (!sim_log_on) return; const char* b = strrchr(f, '/');
  fprintf(stderr, "%c t=%.3f n=%d f=%lu %s:%d %s\n", "IWEF"[sev & 3], sim::NowUs() / 1e6, sim::InSim() ? sim::Node() : -1, sim::InSim() ? (unsigned long)sim::SelfId() : 0, b ? b + 1 : f, l, s.c_str());
}
namespace sim_glog { bool Begin() { sim::NoPreempt(1); return true; } void End() { sim::NoPreempt(-1); } }
namespace butil {
ssize_t IOBuf::cut_into_file_descriptor(int fd, size_t hint) { return pcut_into_file_descriptor(fd, -1, hint); }
ssize_t IOBuf::pcut_into_file_descriptor(int fd, off_t off, size_t hint) {
  if (s_.empty()) return 0; size_t n = std::min(hint, s_.size());
  ssize_t w = off >= 0 ? ::pwrite(fd, s_.data(), n, off) : ::write(fd, s_.data(), n); if (w > 0) pop_front(w); return w; }
ssize_t IOBuf::cut_multiple_into_file_descriptor(int fd, IOBuf* const* p, size_t n) { return pcut_multiple_into_file_descriptor(fd, -1, p, n); }
ssize_t IOBuf::pcut_multiple_into_file_descriptor(int fd, off_t off, IOBuf* const* p, size_t n) {
  std::vector<iovec> v; for (size_t i = 0; i < n && v.size() < 64; i++) if (!p[i]->empty()) v.push_back({(void*)p[i]->raw().data(), p[i]->size()});
  if (v.empty()) return 0;
  ssize_t w = off >= 0 ? ::pwritev(fd, v.data(), v.size(), off) : ::writev(fd, v.data(), v.size());
  ssize_t left = w; for (size_t i = 0; i < n && left > 0; i++) left -= p[i]->pop_front(left); return w; }
ssize_t IOPortal::append_from_file_descriptor(int fd, size_t max) { return pappend_from_file_descriptor(fd, -1, max); }
ssize_t IOPortal::pappend_from_file_descriptor(int fd, off_t off, size_t max) { size_t o = s_.size(); s_.resize(o + max); ssize_t r = off >= 0 ? ::pread(fd, &s_[o], max, off) : ::read(fd, &s_[o], max); s_.resize(o + (r > 0 ? r : 0)); return r; }
File::Error File::OSErrorToFileError(int e) {
  switch (e) { case EACCES: case EISDIR: case EROFS: case EPERM: return FILE_ERROR_ACCESS_DENIED; case EBUSY: case ETXTBSY: return FILE_ERROR_IN_USE; case EEXIST: return FILE_ERROR_EXISTS; case ENOENT: return FILE_ERROR_NOT_FOUND; case EMFILE: return FILE_ERROR_TOO_MANY_OPENED; case ENOMEM: return FILE_ERROR_NO_MEMORY; case ENOSPC: return FILE_ERROR_NO_SPACE; case ENOTDIR: return FILE_ERROR_NOT_A_DIRECTORY; default: return FILE_ERROR_FAILED; } }
static int RmCb(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
// Deletion is confined to the run's scratch directory.
extern std::string g_scratch;
std::string g_scratch = "/nonexistent-sim-scratch";
static bool Inside(const std::string& p) { return p.compare(0, g_scratch.size(), g_scratch) == 0 && p.find("/../") == std::string::npos; }
bool DeleteFile(const FilePath& p, bool recursive) {
  struct stat st; if (lstat(p.value().c_str(), &st) != 0) return errno == ENOENT || errno == ENOTDIR;
  if (!Inside(p.value())) return false;
  if (!S_ISDIR(st.st_mode)) return ::unlink(p.value().c_str()) == 0;
  if (!recursive) return ::rmdir(p.value().c_str()) == 0;
  return nftw(p.value().c_str(), RmCb, 16, FTW_DEPTH | FTW_PHYS) == 0; }
bool PathExists(const FilePath& p) { return ::access(p.value().c_str(), F_OK) == 0; }
bool DirectoryExists(const FilePath& p) { struct stat st; return ::stat(p.value().c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
bool CreateDirectoryAndGetError(const FilePath& p, File::Error* e, bool parents) {
  std::string s = p.value();
  if (parents) for (size_t i = 1; i < s.size(); i++) if (s[i] == '/') ::mkdir(s.substr(0, i).c_str(), 0755);
  if (::mkdir(s.c_str(), 0755) == 0 || DirectoryExists(p)) return true;
  if (e) *e = File::OSErrorToFileError(errno); return false; }
bool CreateDirectoryAndGetError(const FilePath& p, File::Error* e) { return CreateDirectoryAndGetError(p, e, true); }
bool CreateDirectory(const FilePath& p) { return CreateDirectoryAndGetError(p, nullptr); }
bool GetFileSize(const FilePath& p, int64_t* sz) { struct stat st; if (::stat(p.value().c_str(), &st)) return false; *sz = st.st_size; return true; }
bool ReplaceFile(const FilePath& a, const FilePath& b, File::Error* e) { if (::rename(a.value().c_str(), b.value().c_str()) == 0) return true; if (e) *e = File::OSErrorToFileError(errno); return false; }
bool ReadFileToString(const FilePath& p, std::string* s) { std::ifstream f(p.value(), std::ios::binary); if (!f) return false; s->assign((std::istreambuf_iterator<char>(f)), {}); return true; }
int WriteFile(const FilePath& p, const char* d, int n) { std::ofstream f(p.value(), std::ios::binary | std::ios::trunc); f.write(d, n); return f ? n : -1; }
DirReaderPosix::DirReaderPosix(const char* p) { DIR* d = opendir(p); if (!d) return; ok_ = true; while (dirent* e = readdir(d)) n_.push_back(e->d_name); closedir(d); std::sort(n_.begin(), n_.end()); }
namespace crc32c {
static uint32_t T[256]; static bool init = [] { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0x82f63b78u ^ (c >> 1) : c >> 1; T[i] = c; } return true; }();
uint32_t Extend(uint32_t c, const char* d, size_t n) { c = ~c; while (n--) c = T[(c ^ (unsigned char)*d++) & 255] ^ (c >> 8); return ~c; }
}
}
