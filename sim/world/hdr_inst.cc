// Inline functions of the code under test, compiled with preemption points.
#include "mvcc/ts_provider.h"
namespace inst { void SetMinValidTs(dingodb::mvcc::TsProvider& p, int64_t ts) { p.SetMinValidTs(ts); } }
