#pragma once
#include <pthread.h>
#include <sys/time.h>
#include "bthread/types.h"
#include "butil/errno.h"
extern "C" {
int bthread_start_urgent(bthread_t* tid, const bthread_attr_t* attr, void* (*fn)(void*), void* arg);
int bthread_start_background(bthread_t* tid, const bthread_attr_t* attr, void* (*fn)(void*), void* arg);
int bthread_join(bthread_t t, void** ret);
int bthread_stop(bthread_t t);
int bthread_stopped(bthread_t t);
bthread_t bthread_self(void);
int bthread_equal(bthread_t a, bthread_t b);
void bthread_exit(void* r);
int bthread_yield(void);
int bthread_usleep(uint64_t us);
void bthread_flush(void);
int bthread_interrupt(bthread_t t);
int bthread_getconcurrency(void);
int bthread_setconcurrency(int n);
int bthread_getconcurrency_by_tag(bthread_tag_t t);
int bthread_setconcurrency_by_tag(int n, bthread_tag_t t);
int bthread_attr_init(bthread_attr_t* a);
int bthread_attr_destroy(bthread_attr_t* a);
int bthread_mutex_init(bthread_mutex_t* m, const bthread_mutexattr_t* a);
int bthread_mutex_destroy(bthread_mutex_t* m);
int bthread_mutex_trylock(bthread_mutex_t* m);
int bthread_mutex_lock(bthread_mutex_t* m);
int bthread_mutex_timedlock(bthread_mutex_t* m, const struct timespec* t);
int bthread_mutex_unlock(bthread_mutex_t* m);
int bthread_cond_init(bthread_cond_t* c, const bthread_condattr_t* a);
int bthread_cond_destroy(bthread_cond_t* c);
int bthread_cond_signal(bthread_cond_t* c);
int bthread_cond_broadcast(bthread_cond_t* c);
int bthread_cond_wait(bthread_cond_t* c, bthread_mutex_t* m);
int bthread_cond_timedwait(bthread_cond_t* c, bthread_mutex_t* m, const struct timespec* t);
int bthread_rwlock_init(bthread_rwlock_t* m, const bthread_rwlockattr_t* a);
int bthread_rwlock_destroy(bthread_rwlock_t* m);
int bthread_rwlock_rdlock(bthread_rwlock_t* m);
int bthread_rwlock_tryrdlock(bthread_rwlock_t* m);
int bthread_rwlock_wrlock(bthread_rwlock_t* m);
int bthread_rwlock_trywrlock(bthread_rwlock_t* m);
int bthread_rwlock_unlock(bthread_rwlock_t* m);
int bthread_key_create(bthread_key_t* k, void (*d)(void*));
int bthread_key_delete(bthread_key_t k);
int bthread_setspecific(bthread_key_t k, void* d);
void* bthread_getspecific(bthread_key_t k);
}
