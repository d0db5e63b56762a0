#pragma once
#include <map>
#include <string>
#include <vector>
#include "brpc/builtin/tabbed.h"
#include "brpc/channel.h"
namespace brpc {
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
struct H2Settings { uint32_t max_concurrent_streams = 0, stream_window_size = 0, connection_window_size = 0, max_frame_size = 0, max_header_list_size = 0; };
struct ServerOptions { int num_threads = 8; int idle_timeout_sec = -1; int max_concurrency = 0; std::string method_max_concurrency; H2Settings h2_settings; bool has_builtin_services = true; int bthread_tag = 0; std::string pid_file; int internal_port = -1; };
struct ServiceOptions { ServiceOwnership ownership = SERVER_OWNS_SERVICE; };
class Server {
 public:
  Server() = default;
  ~Server();
  int AddService(google::protobuf::Service* s, ServiceOwnership);
  int AddService(google::protobuf::Service* s, ServiceOwnership, const butil::StringPiece&) { return AddService(s, SERVER_DOESNT_OWN_SERVICE); }
  int Start(const butil::EndPoint& ep, const ServerOptions*);
  int Start(const char* addr, const ServerOptions*);
  int Start(int port, const ServerOptions*);
  int Stop(int = 0);
  int Join();
  void RunUntilAskedToQuit() {}
  bool IsRunning() const { return running_; }
  butil::EndPoint listen_address() const { return ep_; }
  const ServerOptions& options() const { return opt_; }
  google::protobuf::Service* FindService(const std::string& full_name) const;
 private:
  std::map<std::string, google::protobuf::Service*> s_; butil::EndPoint ep_; bool running_ = false; ServerOptions opt_;
};
}
