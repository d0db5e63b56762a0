// What the host reports about itself (memory, CPU, disks) is fixed, so that a run does not depend on the machine it runs on.
#include <map>
#include <string>
#include "common/helper.h"
namespace sim_host { int64_t disk_total = 1ll << 40, disk_free = 1ll << 39, mem_total = 32ll << 30, mem_free = 16ll << 30; }
namespace dingodb {
bool Helper::GetSystemMemoryInfo(std::map<std::string, int64_t>& o) { for (auto k : {"system_shared_memory", "system_buffer_memory", "system_total_swap", "system_free_swap", "system_cached_memory"}) o[k] = 0; o["system_total_memory"] = sim_host::mem_total; o["system_free_memory"] = o["system_available_memory"] = sim_host::mem_free; return true; }
bool Helper::GetProcessMemoryInfo(std::map<std::string, int64_t>& o) { o["process_used_memory"] = 1 << 20; return true; }
bool Helper::GetSystemCpuUsage(std::map<std::string, int64_t>& o) { o["system_cpu_usage"] = 10; return true; }
bool Helper::GetSystemDiskIoUtil(const std::string&, std::map<std::string, int64_t>& o) { o["system_total_capacity"] = sim_host::disk_total; o["system_io_util"] = 5; return true; }
bool Helper::GetSystemDiskCapacity(const std::string&, std::map<std::string, int64_t>& o) { o["system_total_capacity"] = sim_host::disk_total; o["system_free_capacity"] = sim_host::disk_free; return true; }
}
