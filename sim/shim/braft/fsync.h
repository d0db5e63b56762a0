#pragma once
#include "gflags/gflags.h"
namespace braft { DECLARE_bool(raft_use_fsync_rather_than_fdatasync); int raft_fsync(int fd); bool raft_sync_meta(); }
