#pragma once
#include "bthread/bthread.h"
extern "C" {
int bthread_timer_add(bthread_timer_t* id, struct timespec t, void (*fn)(void*), void* arg);
int bthread_timer_del(bthread_timer_t id);
}
