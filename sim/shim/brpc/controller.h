#pragma once
#include <google/protobuf/service.h>
#include <google/protobuf/stubs/callback.h>
#include <map>
#include <string>
#include "brpc/errno.pb.h"
#include "butil/endpoint.h"
#include "butil/iobuf.h"
#include "gflags/gflags.h"
namespace brpc {
class Server;
enum CompressType { COMPRESS_TYPE_NONE = 0, COMPRESS_TYPE_SNAPPY, COMPRESS_TYPE_GZIP, COMPRESS_TYPE_ZLIB };
enum class ConnectionType { CONNECTION_TYPE_UNKNOWN, CONNECTION_TYPE_SINGLE, CONNECTION_TYPE_POOLED, CONNECTION_TYPE_SHORT };
const ConnectionType CONNECTION_TYPE_SINGLE = ConnectionType::CONNECTION_TYPE_SINGLE, CONNECTION_TYPE_POOLED = ConnectionType::CONNECTION_TYPE_POOLED;
class URI { public: const std::string* GetQuery(const std::string& k) const { auto i = q.find(k); return i == q.end() ? nullptr : &i->second; } std::string path() const { return p; } std::map<std::string, std::string> q; std::string p; };
class HttpHeader {
 public:
  const std::string& unresolved_path() const { return path; }
  const URI& uri() const { return uri_; }
  URI& uri() { return uri_; }
  void set_content_type(const std::string& s) { ct = s; }
  const std::string& content_type() const { return ct; }
  void set_status_code(int c) { st = c; }
  int status_code() const { return st; }
  const std::string* GetHeader(const std::string& k) const { auto i = h.find(k); return i == h.end() ? nullptr : &i->second; }
  void SetHeader(const std::string& k, const std::string& v) { h[k] = v; }
  void AppendHeader(const std::string& k, const std::string& v) { h[k] += v; }
  std::string path, ct; URI uri_; int st = 200; std::map<std::string, std::string> h;
};
class Controller : public google::protobuf::RpcController {
 public:
  Controller() = default;
  ~Controller() override;
  void Reset() override;
  bool Failed() const override { return code_ != 0; }
  std::string ErrorText() const override { return text_; }
  int ErrorCode() const { return code_; }
  void StartCancel() override {}
  void SetFailed(const std::string& s) override { code_ = -1; text_ = s; }
  void SetFailed(int c, const char* fmt, ...) __attribute__((__format__(__printf__, 3, 4)));
  bool IsCanceled() const override { return canceled_; }
  void NotifyOnCancel(google::protobuf::Closure* c) override;
  void set_timeout_ms(int64_t t) { timeout_ms_ = t; }
  int64_t timeout_ms() const { return timeout_ms_; }
  void set_max_retry(int n) { max_retry_ = n; }
  int max_retry() const { return max_retry_; }
  void set_log_id(uint64_t id) { log_id_ = id; has_log_id_ = true; }
  uint64_t log_id() const { return log_id_; }
  bool has_log_id() const { return has_log_id_; }
  void set_request_id(const std::string& s) { request_id_ = s; }
  const std::string& request_id() const { return request_id_; }
  int64_t latency_us() const { return latency_us_; }
  butil::EndPoint remote_side() const { return remote_; }
  butil::EndPoint local_side() const { return local_; }
  void set_remote(const butil::EndPoint& e) { remote_ = e; }
  void set_local(const butil::EndPoint& e) { local_ = e; }
  butil::IOBuf& request_attachment() { return req_att_; }
  butil::IOBuf& response_attachment() { return resp_att_; }
  HttpHeader& http_request() { return http_req_; }
  HttpHeader& http_response() { return http_resp_; }
  bool has_http_request() const { return false; }
  Server* server() const { return server_; }
  void set_server(Server* s) { server_ = s; }
  void set_response_compress_type(CompressType) {}
  void set_request_compress_type(CompressType) {}
  void set_latency_us(int64_t v) { latency_us_ = v; }
  bool is_security_mode() const { return false; }
  void RunCancel();       // simulator: the peer went away
  void DropCancel();      // simulator: the call finished normally
 private:
  int code_ = 0; std::string text_; int64_t timeout_ms_ = -1; int max_retry_ = -1; uint64_t log_id_ = 0; bool has_log_id_ = false, canceled_ = false;
  std::string request_id_; int64_t latency_us_ = 0; butil::EndPoint remote_, local_; butil::IOBuf req_att_, resp_att_; HttpHeader http_req_, http_resp_;
  Server* server_ = nullptr; google::protobuf::Closure* on_cancel_ = nullptr;
};
using google::protobuf::NewCallback;
bool IsAskedToQuit();
void AskToQuit();
}
