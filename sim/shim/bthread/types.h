#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
typedef uint64_t bthread_t;
static const bthread_t INVALID_BTHREAD = 0;
typedef uint64_t bthread_timer_t;
typedef int bthread_tag_t;
static const bthread_tag_t BTHREAD_TAG_INVALID = -1, BTHREAD_TAG_DEFAULT = 0;
typedef unsigned bthread_stacktype_t, bthread_attrflags_t;
static const bthread_stacktype_t BTHREAD_STACKTYPE_PTHREAD = 1, BTHREAD_STACKTYPE_SMALL = 2, BTHREAD_STACKTYPE_NORMAL = 3, BTHREAD_STACKTYPE_LARGE = 4;
struct bthread_attr_t { bthread_stacktype_t stack_type; bthread_attrflags_t flags; void* keytable_pool; bthread_tag_t tag; };
static const bthread_attr_t BTHREAD_ATTR_PTHREAD = {1, 0, nullptr, -1}, BTHREAD_ATTR_SMALL = {2, 0, nullptr, -1}, BTHREAD_ATTR_NORMAL = {3, 0, nullptr, -1}, BTHREAD_ATTR_LARGE = {4, 0, nullptr, -1};
// owner 0: free. waiters: a sim::WaitList allocated on first contention.
struct bthread_mutex_t { uint64_t owner; void* waiters; void* csite; };
struct bthread_mutexattr_t {};
struct bthread_cond_t { bthread_mutex_t* m; void* waiters; };
struct bthread_condattr_t {};
struct bthread_rwlock_t { uint64_t writer; int64_t readers; void* waiters; };
struct bthread_rwlockattr_t {};
typedef uint32_t bthread_id_int;
struct bthread_id_t { uint64_t value; };
static const bthread_id_t INVALID_BTHREAD_ID = {0};
typedef unsigned bthread_key_pad_t;
struct bthread_key_t { uint32_t index; uint32_t version; };
