#pragma once
#include <mutex>
#include "bthread/mutex.h"
#include "butil/macros.h"
namespace butil { namespace detail {
template <typename M> struct LockGuardOf { using type = std::lock_guard<M>; };
template <> struct LockGuardOf<bthread_mutex_t> { using type = std::lock_guard<bthread_mutex_t>; };
template <> struct LockGuardOf<pthread_mutex_t> { using type = std::lock_guard<pthread_mutex_t>; };
} }
#define BAIDU_SCOPED_LOCK(ref_of_lock) \
  typename ::butil::detail::LockGuardOf<typename std::remove_reference<decltype(ref_of_lock)>::type>::type BAIDU_CONCAT(scoped_locker_dummy_at_line_, __LINE__)(ref_of_lock)
