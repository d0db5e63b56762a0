#pragma once
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include "bthread/bthread.h"
#include "bthread/mutex.h"
namespace bthread {
struct TaskOptions { TaskOptions() = default; TaskOptions(bool h, bool i) : high_priority(h), in_place_if_possible(i) {} bool high_priority = false, in_place_if_possible = false; };
static const TaskOptions TASK_OPTIONS_NORMAL{false, false}, TASK_OPTIONS_URGENT{true, false}, TASK_OPTIONS_INPLACE{false, true};
class Executor { public: virtual ~Executor() = default; virtual int submit(void* (*fn)(void*), void* a) = 0; };
struct ExecutionQueueOptions { bthread_attr_t bthread_attr = BTHREAD_ATTR_NORMAL; Executor* executor = nullptr; bool use_pthread = false; };
template <typename T> struct ExecutionQueueId { uint64_t value = 0; };
// Batches of tasks in submission order on a fiber of the simulator.
template <typename T> class TaskIterator {
 public:
  TaskIterator(std::deque<T>* q, bool stop) : q_(q), stop_(stop) { next(); }
  operator bool() const { return has_; }
  bool is_queue_stopped() const { return stop_ && !has_; }
  T& operator*() { return cur_; }
  T* operator->() { return &cur_; }
  void operator++() { next(); }
  void operator++(int) { next(); }
 private:
  void next() { has_ = !q_->empty(); if (has_) { cur_ = std::move(q_->front()); q_->pop_front(); } }
  std::deque<T>* q_; bool stop_, has_ = false; T cur_;
};
namespace eq {
struct Base { virtual ~Base() = default; std::function<void()> drain; bool stopping = false, running = false, dead = false; void* joiners = nullptr; };
uint64_t Register(std::shared_ptr<Base> b);
std::shared_ptr<Base> Find(uint64_t id);
void Kick(std::shared_ptr<Base> b);
int Stop(uint64_t id);
int Join(uint64_t id);
template <typename T> struct Queue : Base { std::deque<T> q; int (*fn)(void*, TaskIterator<T>&); void* meta; };
}
template <typename T>
int execution_queue_start(ExecutionQueueId<T>* id, const ExecutionQueueOptions*, int (*fn)(void*, TaskIterator<T>&), void* meta) {
  auto q = std::make_shared<eq::Queue<T>>();
  q->fn = fn; q->meta = meta;
  eq::Queue<T>* p = q.get();
  q->drain = [p] {
    while (!p->q.empty()) { std::deque<T> batch; batch.swap(p->q); TaskIterator<T> it(&batch, false); p->fn(p->meta, it); while (!batch.empty()) { p->q.push_front(std::move(batch.back())); batch.pop_back(); } }
    if (p->stopping && !p->dead) { std::deque<T> e; TaskIterator<T> it(&e, true); p->fn(p->meta, it); }
  };
  id->value = eq::Register(q);
  return 0;
}
template <typename T> int execution_queue_execute(ExecutionQueueId<T> id, const T& t, const TaskOptions* o = nullptr) {
  auto b = eq::Find(id.value);
  if (!b || b->stopping) return EINVAL;
  auto* q = static_cast<eq::Queue<T>*>(b.get());
  if (o && o->high_priority) q->q.push_front(t); else q->q.push_back(t);
  eq::Kick(b);
  return 0;
}
template <typename T> int execution_queue_execute(ExecutionQueueId<T> id, T&& t, const TaskOptions* o = nullptr) { T c(std::move(t)); const T& r = c; return execution_queue_execute<T>(id, r, o); }
template <typename T> int execution_queue_stop(ExecutionQueueId<T> id) { return eq::Stop(id.value); }
template <typename T> int execution_queue_join(ExecutionQueueId<T> id) { return eq::Join(id.value); }
}
