#pragma once
#include <string>
namespace butil {
class FilePath {
 public:
  typedef std::string StringType;
  FilePath() = default;
  explicit FilePath(const std::string& s) : p_(s) {}
  const std::string& value() const { return p_; }
  bool empty() const { return p_.empty(); }
  FilePath DirName() const { auto k = p_.rfind('/'); if (k == std::string::npos) return FilePath("."); if (k == 0) return FilePath("/"); return FilePath(p_.substr(0, k)); }
  FilePath BaseName() const { auto k = p_.rfind('/'); return FilePath(k == std::string::npos ? p_ : p_.substr(k + 1)); }
  FilePath Append(const std::string& s) const { if (p_.empty()) return FilePath(s); return FilePath(p_.back() == '/' ? p_ + s : p_ + "/" + s); }
  bool operator==(const FilePath& o) const { return p_ == o.p_; }
  bool operator<(const FilePath& o) const { return p_ < o.p_; }
 private:
  std::string p_;
};
}
