#pragma once
#include "bthread/types.h"
namespace bthread {
void* butex_create();
template <typename T> T* butex_create_checked() { return static_cast<T*>(butex_create()); }
void butex_destroy(void* b);
int butex_wake(void* b, bool nosignal = false);
int butex_wake_all(void* b, bool nosignal = false);
int butex_wait(void* b, int expected, const timespec* abstime, bool prepend = false);
}
