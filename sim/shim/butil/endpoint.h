#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <cstdlib>
#include <functional>
#include <ostream>
#include <string>
#include "butil/containers/hash_tables.h"
#include "butil/strings/string_piece.h"
namespace butil {
typedef struct in_addr ip_t;
static const ip_t IP_ANY = {INADDR_ANY};
static const ip_t IP_NONE = {INADDR_NONE};
}
inline bool operator==(butil::ip_t a, butil::ip_t b) { return a.s_addr == b.s_addr; }
inline bool operator!=(butil::ip_t a, butil::ip_t b) { return a.s_addr != b.s_addr; }
inline bool operator<(butil::ip_t a, butil::ip_t b) { return ntohl(a.s_addr) < ntohl(b.s_addr); }
namespace butil {
inline in_addr_t ip2int(ip_t ip) { return ip.s_addr; }
inline ip_t int2ip(in_addr_t v) { ip_t i; i.s_addr = v; return i; }
struct IPStr { const char* c_str() const { return buf; } char buf[INET_ADDRSTRLEN]; };
inline IPStr ip2str(ip_t ip) { IPStr s; inet_ntop(AF_INET, &ip, s.buf, sizeof s.buf); return s; }
inline int str2ip(const char* s, ip_t* ip) { while (*s == ' ') s++; return inet_pton(AF_INET, s, ip) > 0 ? 0 : -1; }
inline int hostname2ip(const char* h, ip_t* ip) { if (std::string(h) == "localhost") h = "127.0.0.1"; return str2ip(h, ip); }
inline int ip2hostname(ip_t ip, std::string* h) { *h = ip2str(ip).c_str(); return 0; }
inline int ip2hostname(ip_t ip, char* h, size_t n) { snprintf(h, n, "%s", ip2str(ip).c_str()); return 0; }
inline const char* my_hostname() { return "simhost"; }
struct EndPoint {
  EndPoint() : ip(IP_ANY), port(0) {}
  EndPoint(ip_t i, int p) : ip(i), port(p) {}
  explicit EndPoint(const sockaddr_in& in) : ip(in.sin_addr), port(ntohs(in.sin_port)) {}
  void reset() { ip = IP_ANY; port = 0; }
  ip_t ip; int port;
};
struct EndPointStr { const char* c_str() const { return buf; } char buf[INET_ADDRSTRLEN + 16]; };
inline EndPointStr endpoint2str(const EndPoint& e) { EndPointStr s; snprintf(s.buf, sizeof s.buf, "%s:%d", ip2str(e.ip).c_str(), e.port); return s; }
inline int str2endpoint(const char* str, EndPoint* ep) { std::string s(str); size_t c = s.find(':'); if (c == std::string::npos) return -1; if (str2ip(s.substr(0, c).c_str(), &ep->ip)) return -1; char* end; ep->port = strtol(s.c_str() + c + 1, &end, 10); if (end == s.c_str() + c + 1) return -1; while (*end == ' ') end++; if (*end) return -1; return ep->port < 0 || ep->port > 65535 ? -1 : 0; }
inline int str2endpoint(const char* ip, int port, EndPoint* ep) { if (str2ip(ip, &ep->ip)) return -1; ep->port = port; return 0; }
inline int hostname2endpoint(const char* str, EndPoint* ep) { return str2endpoint(str, ep); }
inline int hostname2endpoint(const char* h, int port, EndPoint* ep) { if (hostname2ip(h, &ep->ip)) return -1; ep->port = port; return 0; }
inline int endpoint2hostname(const EndPoint& e, std::string* h) { *h = endpoint2str(e).c_str(); return 0; }
inline int endpoint2hostname(const EndPoint& e, char* h, size_t n) { snprintf(h, n, "%s", endpoint2str(e).c_str()); return 0; }
inline bool operator<(EndPoint a, EndPoint b) { return (a.ip != b.ip) ? (a.ip < b.ip) : (a.port < b.port); }
inline bool operator>(EndPoint a, EndPoint b) { return b < a; }
inline bool operator==(EndPoint a, EndPoint b) { return a.ip == b.ip && a.port == b.port; }
inline bool operator!=(EndPoint a, EndPoint b) { return !(a == b); }
inline std::ostream& operator<<(std::ostream& os, const IPStr& s) { return os << s.c_str(); }
inline std::ostream& operator<<(std::ostream& os, const EndPointStr& s) { return os << s.c_str(); }
inline std::ostream& operator<<(std::ostream& os, const EndPoint& e) { return os << endpoint2str(e).c_str(); }
}
inline std::ostream& operator<<(std::ostream& os, butil::ip_t ip) { return os << butil::ip2str(ip); }
namespace std { template <> struct hash<butil::EndPoint> { size_t operator()(const butil::EndPoint& e) const { return e.ip.s_addr * 31ull + e.port; } }; }
