#pragma once
#include "bthread/unstable.h"
#include "braft/macros.h"
namespace braft {
class RepeatedTimerTask {
 public:
  RepeatedTimerTask() = default;
  virtual ~RepeatedTimerTask() = default;
  int init(int timeout_ms);
  void start();
  void run_once_now();
  void stop();
  void reset();
  void reset(int timeout_ms);
  void destroy();
 protected:
  virtual void run() = 0;
  virtual int adjust_timeout_ms(int t) { return t; }
  virtual void on_destroy() = 0;
 private:
  struct State; 
  void schedule(); void fire(uint64_t gen);
  int timeout_ms_ = 0; uint64_t gen_ = 0; bool stopped_ = true, running_ = false, destroyed_ = false, invoking_ = false;
};
}
