#pragma once
#define __STDC_FORMAT_MACROS
#include <inttypes.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include "butil/atomicops.h"
#include "butil/iobuf.h"
#include "butil/scoped_lock.h"
#include "butil/time.h"
#include "bthread/bthread.h"
#include "bvar/bvar.h"
#include "butil/file_util.h"
#include "butil/string_printf.h"
#include "brpc/reloadable_flags.h"
#include "brpc/closure_guard.h"
#include "glog/logging.h"
#include "braft/raft.h"
#include "braft/util.h"
#include "braft/fsync.h"
#include "butil/crc32c.h"
#ifndef GIT_VERSION
#define GIT_VERSION "sim"
#define GIT_TAG_NAME "sim"
#define GIT_COMMIT_USER "sim"
#define GIT_COMMIT_MAIL "sim"
#define GIT_COMMIT_TIME "sim"
#define MAJOR_VERSION "0"
#define MINOR_VERSION "0"
#define DINGO_BUILD_TYPE "sim"
#define DINGO_CONTRIB_BUILD_TYPE "sim"
#endif
