#include <cstdarg>
#include <cerrno>
#include <memory>
#include <set>
#include "brpc/channel.h"
#include "brpc/server.h"
#include "sim.h"
#include "sim_net.h"
namespace sim_net {
Conf conf;
static std::map<butil::EndPoint, int>& Owner() { static auto* m = new std::map<butil::EndPoint, int>; return *m; }
static std::set<std::pair<int, int>>& Cuts() { static auto* m = new std::set<std::pair<int, int>>; return *m; }
static std::set<int>& Iso() { static auto* m = new std::set<int>; return *m; }
static std::set<int>& Down() { static auto* m = new std::set<int>; return *m; }
void Bind(const butil::EndPoint& ep, int node) { Owner()[ep] = node; }
int NodeOf(const butil::EndPoint& ep) { auto i = Owner().find(ep); return i == Owner().end() ? -2 : i->second; }
bool Reachable(int a, int b) { if (a == b) return true; if (Iso().count(a) || Iso().count(b)) return false; return !Cuts().count({a, b}); }
void Cut(int a, int b, bool both) { Cuts().insert({a, b}); if (both) Cuts().insert({b, a}); sim::Count("fault.link_cut"); }
void Isolate(int n, bool on) { if (on) { Iso().insert(n); sim::Count("fault.partition"); } else Iso().erase(n); }
void Heal() { Cuts().clear(); Iso().clear(); }
void Up(int n, bool up) { if (up) Down().erase(n); else Down().insert(n); }
bool IsUp(int n) { return !Down().count(n); }
uint64_t Delay() {
  uint64_t d = conf.min_us + sim::Choose((uint32_t)(conf.max_us - conf.min_us + 1), "net-delay");
  if (conf.slow_p > 0 && sim::ChooseChance(conf.slow_p, "net-slow")) { sim::Count("fault.slow_message"); d += sim::Choose((uint32_t)conf.slow_max_us, "net-slow-us"); }
  return d;
}
static std::map<butil::EndPoint, brpc::Server*>& Servers() { static auto* m = new std::map<butil::EndPoint, brpc::Server*>; return *m; }
void ForgetServers(int node) { for (auto i = Servers().begin(); i != Servers().end();) if (NodeOf(i->first) == node) i = Servers().erase(i); else ++i; }
}
namespace brpc {
static bool quit = false;
bool IsAskedToQuit() { return quit; }
void AskToQuit() { quit = true; }
Controller::~Controller() { DropCancel(); }
void Controller::Reset() { code_ = 0; text_.clear(); timeout_ms_ = -1; max_retry_ = -1; log_id_ = 0; has_log_id_ = false; latency_us_ = 0; req_att_.clear(); resp_att_.clear(); canceled_ = false; DropCancel(); }
void Controller::SetFailed(int c, const char* fmt, ...) { char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); code_ = c ? c : -1; text_ = b; }
void Controller::NotifyOnCancel(google::protobuf::Closure* c) { if (canceled_) { c->Run(); return; } on_cancel_ = c; }
void Controller::RunCancel() { canceled_ = true; auto* c = on_cancel_; on_cancel_ = nullptr; if (c) c->Run(); }
void Controller::DropCancel() { auto* c = on_cancel_; on_cancel_ = nullptr; if (c) c->Run(); }
int Channel::Init(const char* a, const ChannelOptions* o) { butil::EndPoint e; if (butil::str2endpoint(a, &e)) return -1; return Init(e, o); }
int Channel::Init(const char* h, int p, const ChannelOptions* o) { butil::EndPoint e; if (butil::str2endpoint(h, p, &e)) return -1; return Init(e, o); }
int Channel::Init(butil::EndPoint e, const ChannelOptions* o) { ep_ = e; if (o) opt_ = *o; return 0; }
int Channel::Init(const char* ns, const char*, const ChannelOptions* o) { std::string s(ns); auto k = s.find("://"); if (k != std::string::npos) s = s.substr(k + 3); s = s.substr(0, s.find(',')); return Init(s.c_str(), o); }
namespace {
struct Call {
  const google::protobuf::MethodDescriptor* m; Controller* cntl; google::protobuf::Message* resp; google::protobuf::Closure* done;
  std::string req_bytes; butil::IOBuf att; butil::EndPoint ep; int from; uint64_t log_id; bool has_log_id; std::unique_ptr<google::protobuf::Message> req;
  bool finished = false; sim::WaitList w; uint64_t start;
};
void Finish(std::shared_ptr<Call> c, int err, const std::string& text) {
  if (c->finished) return; c->finished = true;
  if (err) c->cntl->SetFailed(err, "%s", text.c_str());
  c->cntl->set_latency_us(sim::NowUs() - c->start);
  if (c->done) { auto* d = c->done; sim::Spawn([d] { d->Run(); }, "rpc-done", c->from); } else sim::Wake(c->w, true);
}
struct ServerCall : google::protobuf::Closure {
  std::shared_ptr<Call> c; std::unique_ptr<google::protobuf::Message> req, resp; Controller cntl; int node;
  void Run() override {
    std::string bytes = resp->SerializePartialAsString(); auto c2 = c; int node2 = node;
    int code = cntl.Failed() ? cntl.ErrorCode() : 0; std::string text = cntl.ErrorText(); butil::IOBuf att = cntl.response_attachment();
    if (sim_net::conf.drop_resp > 0 && sim::ChooseChance(sim_net::conf.drop_resp, "net-drop-resp")) sim::Count("fault.response_lost");
    else sim::At(sim::NowUs() + sim_net::Delay(), [=] {
      if (!sim_net::Reachable(node2, c2->from) || !sim_net::IsUp(node2)) { sim::Count("fault.response_cut"); return; }
      if (c2->finished || !sim_net::IsUp(c2->from)) return;
      if (code == 0) { c2->resp->ParsePartialFromString(bytes); c2->cntl->response_attachment() = att; }
      Finish(c2, code, text);
    });
    delete this;
  }
};
void Deliver(std::shared_ptr<Call> c) {
  int node = sim_net::NodeOf(c->ep);
  if (!sim_net::Reachable(c->from, node)) { sim::Count("fault.request_cut"); return; }
  auto i = sim_net::Servers().find(c->ep);
  google::protobuf::Service* svc = nullptr;
  if (i != sim_net::Servers().end() && sim_net::IsUp(node)) svc = i->second->FindService(c->m->service()->full_name());
  if (!svc) { Finish(c, ECONNREFUSED, "connection refused"); return; }
  brpc::Server* srv = i->second;
  sim::Spawn([=] {
    auto* sc = new ServerCall; sc->c = c; sc->node = node;
    sc->req.reset(svc->GetRequestPrototype(c->m).New()); sc->resp.reset(svc->GetResponsePrototype(c->m).New());
    sc->req->ParsePartialFromString(c->req_bytes); sc->cntl.request_attachment() = c->att; sc->cntl.set_server(srv);
    if (c->has_log_id) sc->cntl.set_log_id(c->log_id);
    sc->cntl.set_local(c->ep); sc->cntl.set_remote(butil::EndPoint(butil::int2ip(htonl(0x0a000000 + c->from + 100)), 1));
    svc->CallMethod(c->m, &sc->cntl, sc->req.get(), sc->resp.get(), sc);
  }, "rpc:" + c->m->name(), node);
}
}
void Channel::CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* rc, const google::protobuf::Message* req, google::protobuf::Message* resp, google::protobuf::Closure* done) {
  auto c = std::make_shared<Call>();
  c->m = m; c->cntl = static_cast<Controller*>(rc); c->resp = resp; c->done = done; c->req_bytes = req->SerializePartialAsString(); c->ep = ep_; c->from = sim::Node(); c->start = sim::NowUs();
  c->att = c->cntl->request_attachment(); c->has_log_id = c->cntl->has_log_id(); c->log_id = c->cntl->log_id();
  int64_t to = c->cntl->timeout_ms() > 0 ? c->cntl->timeout_ms() : opt_.timeout_ms;
  sim::Count("net.rpc");
  if (sim_net::conf.drop_req > 0 && sim::ChooseChance(sim_net::conf.drop_req, "net-drop-req")) sim::Count("fault.request_lost");
  else {
    sim::At(sim::NowUs() + sim_net::Delay(), [c] { Deliver(c); });
    if (sim_net::conf.dup > 0 && sim::ChooseChance(sim_net::conf.dup, "net-dup")) { sim::Count("fault.request_duplicated"); sim::At(sim::NowUs() + sim_net::Delay() * 2, [c] { Deliver(c); }); }
  }
  if (to > 0) sim::At(sim::NowUs() + to * 1000, [c] { Finish(c, ERPCTIMEDOUT, "rpc timed out"); });
  if (!done) while (!c->finished) sim::Block(c->w);
}
Server::~Server() = default;
int Server::AddService(google::protobuf::Service* s, ServiceOwnership) { const std::string& n = s->GetDescriptor()->full_name(); if (s_.count(n)) return -1; s_[n] = s; return 0; }
int Server::Start(const butil::EndPoint& ep, const ServerOptions* o) { ep_ = ep; if (o) opt_ = *o; if (sim_net::Servers().count(ep)) return -1; sim_net::Servers()[ep] = this; sim_net::Bind(ep, sim::Node()); running_ = true; return 0; }
int Server::Start(const char* a, const ServerOptions* o) { butil::EndPoint e; if (butil::str2endpoint(a, &e)) return -1; return Start(e, o); }
int Server::Start(int p, const ServerOptions* o) { return Start(butil::EndPoint(butil::IP_ANY, p), o); }
int Server::Stop(int) { if (running_) sim_net::Servers().erase(ep_); running_ = false; return 0; }
int Server::Join() { return 0; }
google::protobuf::Service* Server::FindService(const std::string& n) const { auto i = s_.find(n); return i == s_.end() ? nullptr : i->second; }
}
