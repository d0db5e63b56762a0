#pragma once
#include <memory>
#include <string>
#include "brpc/controller.h"
namespace brpc {
struct ChannelOptions {
  int32_t connect_timeout_ms = 200; int32_t timeout_ms = 500; int32_t backup_request_ms = -1; int max_retry = 3;
  std::string connection_group; ConnectionType connection_type = ConnectionType::CONNECTION_TYPE_UNKNOWN; std::string protocol; bool log_succeed_without_server = true;
};
// The simulated network: requests travel to the service registered at the peer's address on the simulator.
class Channel : public google::protobuf::RpcChannel {
 public:
  Channel() = default;
  ~Channel() override = default;
  int Init(const char* addr, const ChannelOptions* o);
  int Init(const char* host, int port, const ChannelOptions* o);
  int Init(butil::EndPoint ep, const ChannelOptions* o);
  int Init(const char* ns, const char* lb, const ChannelOptions* o);
  void CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* c, const google::protobuf::Message* req,
                  google::protobuf::Message* resp, google::protobuf::Closure* done) override;
  const ChannelOptions& options() const { return opt_; }
 private:
  butil::EndPoint ep_; ChannelOptions opt_;
};
}
