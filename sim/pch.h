// precompiled prelude of every translation unit of /repo/src built into the simulation
#include "sim_prelude.h"
#include <deque>
#include <list>
#include <queue>
#include <regex>
#include <filesystem>
#include <chrono>
#include <fstream>
#include "proto/common.pb.h"
#include "proto/error.pb.h"
#include "proto/store.pb.h"
#include "proto/store_internal.pb.h"
#include "proto/coordinator.pb.h"
#include "proto/coordinator_internal.pb.h"
#include "proto/meta.pb.h"
#include "proto/version.pb.h"
#include "proto/raft.pb.h"
#include "proto/push.pb.h"
#include "proto/node.pb.h"
#include "proto/index.pb.h"
#include "proto/document.pb.h"
#include "proto/debug.pb.h"
#include "proto/file_service.pb.h"
#include "rocksdb/db.h"
#include "rocksdb/write_batch.h"
#include "brpc/server.h"
#include "brpc/channel.h"
#include "fmt/core.h"
#include "fmt/format.h"
#include "fmt/chrono.h"
#include "fmt/ranges.h"
#include "gflags/gflags.h"
