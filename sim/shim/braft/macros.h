#pragma once
#include "bthread/mutex.h"
namespace braft { typedef bthread::Mutex raft_mutex_t; }
#define BRAFT_VLOG VLOG(89)
