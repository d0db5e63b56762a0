#pragma once
// In-memory RocksDB with the observable contract the code relies on: atomic batches, snapshots, ordered
// iterators, column families, SST export/ingest, checkpoints, and a write-ahead log whose unsynced tail a
// machine crash may lose (never out of order).
#include <functional>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
namespace rocksdb {
class Slice {
 public:
  Slice() : data_(""), size_(0) {}
  Slice(const char* d, size_t n) : data_(d), size_(n) {}
  Slice(const std::string& s) : data_(s.data()), size_(s.size()) {}
  Slice(const std::string_view& s) : data_(s.data()), size_(s.size()) {}
  Slice(const char* s) : data_(s), size_(strlen(s)) {}
  const char* data() const { return data_; }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  char operator[](size_t i) const { return data_[i]; }
  void clear() { data_ = ""; size_ = 0; }
  void remove_prefix(size_t n) { data_ += n; size_ -= n; }
  void remove_suffix(size_t n) { size_ -= n; }
  std::string ToString(bool hex = false) const { if (!hex) return std::string(data_, size_); std::string r; char b[3]; for (size_t i = 0; i < size_; i++) { snprintf(b, 3, "%02X", (unsigned char)data_[i]); r += b; } return r; }
  std::string_view ToStringView() const { return std::string_view(data_, size_); }
  int compare(const Slice& o) const { int r = memcmp(data_, o.data_, size_ < o.size_ ? size_ : o.size_); return r ? r : size_ < o.size_ ? -1 : size_ > o.size_ ? 1 : 0; }
  bool starts_with(const Slice& x) const { return size_ >= x.size_ && memcmp(data_, x.data_, x.size_) == 0; }
  bool ends_with(const Slice& x) const { return size_ >= x.size_ && memcmp(data_ + size_ - x.size_, x.data_, x.size_) == 0; }
  const char* data_; size_t size_;
};
inline bool operator==(const Slice& a, const Slice& b) { return a.compare(b) == 0; }
inline bool operator!=(const Slice& a, const Slice& b) { return a.compare(b) != 0; }
class PinnableSlice : public Slice { public: std::string* GetSelf() { return &s; } void PinSelf() { data_ = s.data(); size_ = s.size(); } void Reset() { s.clear(); PinSelf(); } std::string s; };
struct SliceParts { const Slice* parts = nullptr; int num_parts = 0; };
class Status {
 public:
  enum Code : unsigned char { kOk = 0, kNotFound = 1, kCorruption = 2, kNotSupported = 3, kInvalidArgument = 4, kIOError = 5, kMergeInProgress = 6, kIncomplete = 7, kShutdownInProgress = 8, kTimedOut = 9, kAborted = 10, kBusy = 11, kExpired = 12, kTryAgain = 13 };
  Status() = default;
  Status(Code c, const std::string& m) : c_(c), m_(m) {}
  static Status OK() { return Status(); }
  static Status NotFound(const Slice& m = Slice()) { return Status(kNotFound, m.ToString()); }
  static Status Corruption(const Slice& m = Slice()) { return Status(kCorruption, m.ToString()); }
  static Status NotSupported(const Slice& m = Slice()) { return Status(kNotSupported, m.ToString()); }
  static Status InvalidArgument(const Slice& m = Slice()) { return Status(kInvalidArgument, m.ToString()); }
  static Status IOError(const Slice& m = Slice()) { return Status(kIOError, m.ToString()); }
  static Status IOError(const Slice& m, const Slice& n) { return Status(kIOError, m.ToString() + n.ToString()); }
  static Status Busy(const Slice& m = Slice()) { return Status(kBusy, m.ToString()); }
  static Status Aborted(const Slice& m = Slice()) { return Status(kAborted, m.ToString()); }
  bool ok() const { return c_ == kOk; }
  bool IsNotFound() const { return c_ == kNotFound; }
  bool IsCorruption() const { return c_ == kCorruption; }
  bool IsNotSupported() const { return c_ == kNotSupported; }
  bool IsInvalidArgument() const { return c_ == kInvalidArgument; }
  bool IsIOError() const { return c_ == kIOError; }
  bool IsBusy() const { return c_ == kBusy; }
  bool IsIncomplete() const { return c_ == kIncomplete; }
  bool IsPathNotFound() const { return false; }
  Code code() const { return c_; }
  int subcode() const { return 0; }
  const char* getState() const { return m_.c_str(); }
  std::string ToString() const { return c_ == kOk ? "OK" : m_; }
  void PermitUncheckedError() const {}
 private: Code c_ = kOk; std::string m_;
};
inline bool operator==(const Status& a, const Status& b) { return a.code() == b.code(); }
typedef uint64_t SequenceNumber;
class Snapshot { public: virtual SequenceNumber GetSequenceNumber() const = 0; protected: virtual ~Snapshot() = default; };
class Comparator;
const Comparator* BytewiseComparator();
class Env { public: static Env* Default(); void SetBackgroundThreads(int, int = 0) {} enum Priority { BOTTOM, LOW, HIGH, USER, TOTAL }; enum IOPriority { IO_LOW, IO_MID, IO_HIGH, IO_USER, IO_TOTAL }; };
struct EnvOptions {};
enum CompressionType : unsigned char { kNoCompression = 0, kSnappyCompression = 1, kZlibCompression = 2, kBZip2Compression = 3, kLZ4Compression = 4, kLZ4HCCompression = 5, kXpressCompression = 6, kZSTD = 7, kDisableCompressionOption = 0xff };
enum CompactionStyle : char { kCompactionStyleLevel = 0, kCompactionStyleUniversal = 1, kCompactionStyleFIFO = 2, kCompactionStyleNone = 3 };
enum CompactionPri : char { kByCompensatedSize = 0, kOldestLargestSeqFirst = 1, kOldestSmallestSeqFirst = 2, kMinOverlappingRatio = 3, kRoundRobin = 4 };
enum InfoLogLevel : unsigned char { DEBUG_LEVEL = 0, INFO_LEVEL, WARN_LEVEL, ERROR_LEVEL, FATAL_LEVEL, HEADER_LEVEL };
enum class WALRecoveryMode : char { kTolerateCorruptedTailRecords = 0, kAbsoluteConsistency, kPointInTimeRecovery, kSkipAnyCorruptedRecords };
enum class BottommostLevelCompaction { kSkip, kIfHaveCompactionFilter, kForce, kForceOptimized };
struct CompressionOptions { int window_bits = -14, level = 32767, strategy = 0; uint32_t max_dict_bytes = 0, zstd_max_train_bytes = 0, parallel_threads = 1; bool enabled = false; };
class SliceTransform { public: virtual ~SliceTransform() = default; };
const SliceTransform* NewCappedPrefixTransform(size_t);
const SliceTransform* NewFixedPrefixTransform(size_t);
class FilterPolicy { public: virtual ~FilterPolicy() = default; };
const FilterPolicy* NewBloomFilterPolicy(double, bool = false);
class Cache { public: virtual ~Cache() = default; size_t GetUsage() const { return 0; } size_t GetCapacity() const { return 0; } size_t GetPinnedUsage() const { return 0; } };
std::shared_ptr<Cache> NewLRUCache(size_t, int = -1, bool = false, double = 0.5);
class TableFactory { public: virtual ~TableFactory() = default; };
struct BlockBasedTableOptions {
  bool cache_index_and_filter_blocks = false, cache_index_and_filter_blocks_with_high_priority = true, pin_l0_filter_and_index_blocks_in_cache = false, pin_top_level_index_and_filter = true, whole_key_filtering = true, partition_filters = false, no_block_cache = false, optimize_filters_for_memory = false;
  enum IndexType : char { kBinarySearch, kHashSearch, kTwoLevelIndexSearch }; IndexType index_type = kBinarySearch;
  std::shared_ptr<const FilterPolicy> filter_policy; std::shared_ptr<Cache> block_cache; size_t block_size = 4096; uint64_t metadata_block_size = 4096; int block_restart_interval = 16; uint32_t format_version = 5;
};
TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions& = BlockBasedTableOptions());
class RateLimiter { public: enum class Mode { kReadsOnly, kWritesOnly, kAllIo }; virtual ~RateLimiter() = default; };
RateLimiter* NewGenericRateLimiter(int64_t, int64_t = 100000, int32_t = 10, RateLimiter::Mode = RateLimiter::Mode::kWritesOnly, bool = false);
class Statistics { public: virtual ~Statistics() = default; std::string ToString() const { return ""; } uint64_t getTickerCount(uint32_t) const { return 0; } void Reset() {} };
std::shared_ptr<Statistics> CreateDBStatistics();
class DB;
class ColumnFamilyHandle { public: virtual ~ColumnFamilyHandle() = default; virtual const std::string& GetName() const = 0; virtual uint32_t GetID() const = 0; };
struct FlushJobInfo { std::string cf_name, file_path; uint64_t smallest_seqno = 0, largest_seqno = 0; };
struct CompactionJobInfo { std::string cf_name; Status status; int base_input_level = 0, output_level = 0; std::vector<std::string> input_files, output_files; };
struct WriteStallInfo { std::string cf_name; };
class EventListener { public: virtual ~EventListener() = default; virtual void OnFlushCompleted(DB*, const FlushJobInfo&) {} virtual void OnFlushBegin(DB*, const FlushJobInfo&) {} virtual void OnCompactionBegin(DB*, const CompactionJobInfo&) {} virtual void OnCompactionCompleted(DB*, const CompactionJobInfo&) {} };
struct ColumnFamilyOptions {
  size_t write_buffer_size = 64 << 20, arena_block_size = 0; int max_write_buffer_number = 2, min_write_buffer_number_to_merge = 1, level0_file_num_compaction_trigger = 4, level0_slowdown_writes_trigger = 20, level0_stop_writes_trigger = 36, num_levels = 7, target_file_size_multiplier = 1;
  uint64_t max_compaction_bytes = 0, target_file_size_base = 64 << 20, max_bytes_for_level_base = 256 << 20, periodic_compaction_seconds = 0, ttl = 0, soft_pending_compaction_bytes_limit = 0, hard_pending_compaction_bytes_limit = 0; double max_bytes_for_level_multiplier = 10, memtable_prefix_bloom_size_ratio = 0;
  std::shared_ptr<const SliceTransform> prefix_extractor; std::shared_ptr<TableFactory> table_factory; std::vector<CompressionType> compression_per_level; CompressionType compression = kNoCompression, bottommost_compression = kNoCompression; CompressionOptions compression_opts, bottommost_compression_opts;
  const Comparator* comparator = nullptr; bool level_compaction_dynamic_level_bytes = false, optimize_filters_for_hits = false, disable_auto_compactions = false, memtable_whole_key_filtering = false, force_consistency_checks = true; CompactionStyle compaction_style = kCompactionStyleLevel; CompactionPri compaction_pri = kMinOverlappingRatio;
  ColumnFamilyOptions* OptimizeLevelStyleCompaction(uint64_t = 0) { return this; }
  ColumnFamilyOptions* OptimizeForPointLookup(uint64_t) { return this; }
};
struct DBOptions {
  bool create_if_missing = false, create_missing_column_families = false, error_if_exists = false, paranoid_checks = true, use_direct_io_for_flush_and_compaction = false, use_direct_reads = false, manual_wal_flush = false, enable_pipelined_write = false, allow_concurrent_memtable_write = true, use_fsync = false, allow_mmap_reads = false, allow_mmap_writes = false, atomic_flush = false, avoid_flush_during_shutdown = false, avoid_flush_during_recovery = false, unordered_write = false, two_write_queues = false, enable_write_thread_adaptive_yield = true, skip_stats_update_on_db_open = false;
  int max_background_jobs = 2, max_background_flushes = -1, max_background_compactions = -1, max_open_files = -1, max_file_opening_threads = 16; uint32_t max_subcompactions = 1; unsigned stats_dump_period_sec = 600, stats_persist_period_sec = 600; size_t recycle_log_file_num = 0, keep_log_file_num = 1000, max_log_file_size = 0, db_write_buffer_size = 0, compaction_readahead_size = 0, writable_file_max_buffer_size = 1 << 20; uint64_t max_total_wal_size = 0, bytes_per_sync = 0, wal_bytes_per_sync = 0, delayed_write_rate = 0, WAL_ttl_seconds = 0, WAL_size_limit_MB = 0, max_manifest_file_size = 1 << 30, delete_obsolete_files_period_micros = 0;
  std::shared_ptr<Statistics> statistics; std::shared_ptr<RateLimiter> rate_limiter; std::vector<std::shared_ptr<EventListener>> listeners; std::string db_log_dir, wal_dir; InfoLogLevel info_log_level = INFO_LEVEL; WALRecoveryMode wal_recovery_mode = WALRecoveryMode::kPointInTimeRecovery; Env* env = nullptr; std::shared_ptr<Cache> row_cache;
  DBOptions* IncreaseParallelism(int = 16) { return this; }
};
struct Options : public DBOptions, public ColumnFamilyOptions { Options() = default; Options(const DBOptions& d, const ColumnFamilyOptions& c) : DBOptions(d), ColumnFamilyOptions(c) {} Options* PrepareForBulkLoad() { return this; } };
struct ReadOptions { const Snapshot* snapshot = nullptr; const Slice* iterate_lower_bound = nullptr; const Slice* iterate_upper_bound = nullptr; bool verify_checksums = true, fill_cache = true, tailing = false, total_order_seek = false, auto_prefix_mode = false, prefix_same_as_start = false, pin_data = false, async_io = false, adaptive_readahead = false, ignore_range_deletions = false, background_purge_on_iterator_cleanup = false; size_t readahead_size = 0; ReadOptions() = default; ReadOptions(bool c, bool f) : verify_checksums(c), fill_cache(f) {} };
struct WriteOptions { bool sync = false, disableWAL = false, ignore_missing_column_families = false, no_slowdown = false, low_pri = false, memtable_insert_hint_per_batch = false; };
struct FlushOptions { bool wait = true, allow_write_stall = false; };
struct CompactRangeOptions { bool exclusive_manual_compaction = false, change_level = false, allow_write_stall = false; int target_level = -1; uint32_t target_path_id = 0, max_subcompactions = 0; BottommostLevelCompaction bottommost_level_compaction = BottommostLevelCompaction::kIfHaveCompactionFilter; };
struct IngestExternalFileOptions { bool move_files = false, failed_move_fall_back_to_copy = true, snapshot_consistency = true, allow_global_seqno = true, allow_blocking_flush = true, ingest_behind = false, write_global_seqno = false, verify_checksums_before_ingest = false, verify_file_checksum = true, fail_if_not_bottommost_level = false; };
struct SizeApproximationOptions { bool include_memtables = false, include_memtabtles = false, include_files = true; double files_size_error_margin = -1.0; };
struct WaitForCompactOptions {};
struct Range { Slice start, limit; Range() = default; Range(const Slice& s, const Slice& l) : start(s), limit(l) {} };
struct ColumnFamilyDescriptor { std::string name; ColumnFamilyOptions options; ColumnFamilyDescriptor() = default; ColumnFamilyDescriptor(const std::string& n, const ColumnFamilyOptions& o) : name(n), options(o) {} };
extern const std::string kDefaultColumnFamilyName;
struct SstFileMetaData { std::string name, db_path, smallestkey, largestkey, relative_filename; uint64_t size = 0, num_entries = 0, file_number = 0; };
struct LevelMetaData { int level = 0; uint64_t size = 0; std::vector<SstFileMetaData> files; };
struct LiveFileMetaData : SstFileMetaData { std::string column_family_name; int level = 0; };
struct ColumnFamilyMetaData { uint64_t size = 0; size_t file_count = 0; std::string name; std::vector<LevelMetaData> levels; };
class Iterator {
 public:
  virtual ~Iterator() = default;
  virtual bool Valid() const = 0;
  virtual void SeekToFirst() = 0;
  virtual void SeekToLast() = 0;
  virtual void Seek(const Slice& k) = 0;
  virtual void SeekForPrev(const Slice& k) = 0;
  virtual void Next() = 0;
  virtual void Prev() = 0;
  virtual Slice key() const = 0;
  virtual Slice value() const = 0;
  virtual Status status() const = 0;
  virtual Status Refresh() { return Status::NotSupported(); }
};
class WriteBatch {
 public:
  struct Op { int kind; uint32_t cf; std::string a, b; };  // 0 put, 1 delete, 2 delete range
  explicit WriteBatch(size_t = 0, size_t = 0) {}
  Status Put(ColumnFamilyHandle* c, const Slice& k, const Slice& v) { ops.push_back({0, c ? c->GetID() : 0, k.ToString(), v.ToString()}); return Status(); }
  Status Put(const Slice& k, const Slice& v) { return Put(nullptr, k, v); }
  Status Delete(ColumnFamilyHandle* c, const Slice& k) { ops.push_back({1, c ? c->GetID() : 0, k.ToString(), ""}); return Status(); }
  Status Delete(const Slice& k) { return Delete(nullptr, k); }
  Status SingleDelete(ColumnFamilyHandle* c, const Slice& k) { return Delete(c, k); }
  Status DeleteRange(ColumnFamilyHandle* c, const Slice& b, const Slice& e) { ops.push_back({2, c ? c->GetID() : 0, b.ToString(), e.ToString()}); return Status(); }
  Status DeleteRange(const Slice& b, const Slice& e) { return DeleteRange(nullptr, b, e); }
  void Clear() { ops.clear(); }
  uint32_t Count() const { return ops.size(); }
  size_t GetDataSize() const { size_t n = 12; for (auto& o : ops) n += o.a.size() + o.b.size() + 8; return n; }
  std::vector<Op> ops;
};
class DB {
 public:
  virtual ~DB() = default;
  static Status Open(const DBOptions& o, const std::string& path, const std::vector<ColumnFamilyDescriptor>& c, std::vector<ColumnFamilyHandle*>* h, DB** db);
  static Status Open(const Options& o, const std::string& path, DB** db);
  static Status OpenForReadOnly(const DBOptions& o, const std::string& path, const std::vector<ColumnFamilyDescriptor>& c, std::vector<ColumnFamilyHandle*>* h, DB** db, bool = false);
  static Status OpenForReadOnly(const Options& o, const std::string& path, DB** db, bool = false);
  static Status ListColumnFamilies(const DBOptions&, const std::string& path, std::vector<std::string>* out);
  virtual Status Close() = 0;
  virtual Status Write(const WriteOptions& o, WriteBatch* b) = 0;
  Status Put(const WriteOptions& o, ColumnFamilyHandle* c, const Slice& k, const Slice& v) { WriteBatch b; b.Put(c, k, v); return Write(o, &b); }
  Status Put(const WriteOptions& o, const Slice& k, const Slice& v) { return Put(o, nullptr, k, v); }
  Status Delete(const WriteOptions& o, ColumnFamilyHandle* c, const Slice& k) { WriteBatch b; b.Delete(c, k); return Write(o, &b); }
  Status Delete(const WriteOptions& o, const Slice& k) { return Delete(o, nullptr, k); }
  Status DeleteRange(const WriteOptions& o, ColumnFamilyHandle* c, const Slice& s, const Slice& e) { WriteBatch b; b.DeleteRange(c, s, e); return Write(o, &b); }
  Status DeleteRange(const WriteOptions& o, const Slice& s, const Slice& e) { return DeleteRange(o, nullptr, s, e); }
  virtual Status Get(const ReadOptions& o, ColumnFamilyHandle* c, const Slice& k, std::string* v) = 0;
  Status Get(const ReadOptions& o, const Slice& k, std::string* v) { return Get(o, nullptr, k, v); }
  Status Get(const ReadOptions& o, ColumnFamilyHandle* c, const Slice& k, PinnableSlice* v) { Status s = Get(o, c, k, v->GetSelf()); v->PinSelf(); return s; }
  std::vector<Status> MultiGet(const ReadOptions& o, const std::vector<ColumnFamilyHandle*>& c, const std::vector<Slice>& k, std::vector<std::string>* v) { std::vector<Status> r; v->resize(k.size()); for (size_t i = 0; i < k.size(); i++) r.push_back(Get(o, c[i], k[i], &(*v)[i])); return r; }
  virtual Iterator* NewIterator(const ReadOptions& o, ColumnFamilyHandle* c) = 0;
  Iterator* NewIterator(const ReadOptions& o) { return NewIterator(o, nullptr); }
  virtual const Snapshot* GetSnapshot() = 0;
  virtual void ReleaseSnapshot(const Snapshot* s) = 0;
  virtual Status Flush(const FlushOptions&, ColumnFamilyHandle* = nullptr) = 0;
  virtual Status Flush(const FlushOptions&, const std::vector<ColumnFamilyHandle*>&) = 0;
  virtual Status FlushWAL(bool sync) = 0;
  virtual Status SyncWAL() = 0;
  virtual Status CompactRange(const CompactRangeOptions&, ColumnFamilyHandle*, const Slice*, const Slice*) = 0;
  Status CompactRange(const CompactRangeOptions& o, const Slice* a, const Slice* b) { return CompactRange(o, nullptr, a, b); }
  virtual Status IngestExternalFile(ColumnFamilyHandle*, const std::vector<std::string>&, const IngestExternalFileOptions&) = 0;
  Status IngestExternalFile(const std::vector<std::string>& f, const IngestExternalFileOptions& o) { return IngestExternalFile(nullptr, f, o); }
  virtual Status DropColumnFamilies(const std::vector<ColumnFamilyHandle*>&) = 0;
  virtual Status DropColumnFamily(ColumnFamilyHandle* c) { return DropColumnFamilies({c}); }
  virtual Status CreateColumnFamily(const ColumnFamilyOptions&, const std::string& name, ColumnFamilyHandle** h) = 0;
  virtual Status DestroyColumnFamilyHandle(ColumnFamilyHandle* h) { delete h; return Status(); }
  virtual Status DisableFileDeletions() { return Status(); }
  virtual Status EnableFileDeletions(bool = true) { return Status(); }
  virtual void GetColumnFamilyMetaData(ColumnFamilyHandle*, ColumnFamilyMetaData*) = 0;
  virtual Status GetApproximateSizes(const SizeApproximationOptions&, ColumnFamilyHandle*, const Range* r, int n, uint64_t* sizes) = 0;
  void GetApproximateSizes(ColumnFamilyHandle* c, const Range* r, int n, uint64_t* s) { GetApproximateSizes(SizeApproximationOptions(), c, r, n, s); }
  virtual SequenceNumber GetLatestSequenceNumber() const = 0;
  virtual bool GetProperty(ColumnFamilyHandle*, const Slice&, std::string* v) { v->clear(); return false; }
  virtual bool GetProperty(const Slice&, std::string* v) { v->clear(); return false; }
  virtual ColumnFamilyHandle* DefaultColumnFamily() const = 0;
  virtual const std::string& GetName() const = 0;
  virtual void CancelAllBackgroundWork(bool) {}
  virtual Status PauseBackgroundWork() { return Status(); }
  virtual Status ContinueBackgroundWork() { return Status(); }
};
Status DeleteFilesInRange(DB*, ColumnFamilyHandle*, const Slice* b, const Slice* e, bool = true);
Status DestroyDB(const std::string& path, const Options&, const std::vector<ColumnFamilyDescriptor>& = {});
Status RepairDB(const std::string& path, const DBOptions&, const std::vector<ColumnFamilyDescriptor>&);
Status RepairDB(const std::string& path, const Options&);
class Checkpoint { public: static Status Create(DB* db, Checkpoint** c); virtual ~Checkpoint() = default; virtual Status CreateCheckpoint(const std::string& dir, uint64_t = 0, uint64_t* = nullptr) = 0; };
struct ExternalSstFileInfo { std::string file_path, smallest_key, largest_key; uint64_t file_size = 0, num_entries = 0; };
class SstFileWriter {
 public:
  SstFileWriter(const EnvOptions&, const Options&, ColumnFamilyHandle* = nullptr, bool = true, Env::IOPriority = Env::IO_TOTAL, bool = false) {}
  ~SstFileWriter() = default;
  Status Open(const std::string& p) { path_ = p; open_ = true; kv_.clear(); sz_ = 0; return Status(); }
  Status Put(const Slice& k, const Slice& v);
  Status Add(const Slice& k, const Slice& v) { return Put(k, v); }
  Status Delete(const Slice& k);
  Status Finish(ExternalSstFileInfo* i = nullptr);
  uint64_t FileSize() { return sz_; }
 private: std::string path_; bool open_ = false; std::vector<std::pair<std::string, std::string>> kv_; uint64_t sz_ = 0;
};
struct TableProperties { uint64_t num_entries = 0, data_size = 0, raw_key_size = 0, raw_value_size = 0; std::map<std::string, std::string> user_collected_properties; };
class SstFileReader {
 public:
  explicit SstFileReader(const Options&) {}
  Status Open(const std::string& p);
  Iterator* NewIterator(const ReadOptions&);
  std::shared_ptr<const TableProperties> GetTableProperties() const;
  Status VerifyChecksum() { return Status(); }
 private: std::shared_ptr<std::map<std::string, std::string>> m_;
};
enum PerfLevel : unsigned char { kUninitialized = 0, kDisable = 1, kEnableCount = 2, kEnableTimeExceptForMutex = 3, kEnableTimeAndCPUTimeExceptForMutex = 4, kEnableTime = 5, kOutOfBounds = 6 };
inline void SetPerfLevel(PerfLevel) {}
struct PerfContext { void Reset() {} std::string ToString(bool = false) const { return ""; } 
  uint64_t user_key_comparison_count = 0, block_cache_hit_count = 0, block_read_count = 0, block_read_byte = 0, block_read_time = 0, internal_key_skipped_count = 0, internal_delete_skipped_count = 0, internal_recent_skipped_count = 0, internal_merge_count = 0, get_snapshot_time = 0, get_from_memtable_time = 0, get_from_memtable_count = 0, get_read_bytes = 0, iter_read_bytes = 0, write_wal_time = 0, write_memtable_time = 0, write_delay_time = 0, seek_on_memtable_count = 0, seek_internal_seek_time = 0, find_next_user_entry_time = 0, block_decompress_time = 0, block_checksum_time = 0, seek_child_seek_time = 0, next_on_memtable_count = 0, prev_on_memtable_count = 0; };
PerfContext* get_perf_context();
inline void CancelAllBackgroundWork(DB*, bool = false) {}
struct IOStatsContext { void Reset() {} std::string ToString(bool = false) const { return ""; } };
IOStatsContext* get_iostats_context();
// ---- simulator controls
namespace simdisk {
void CrashPath(const std::string& path_prefix, bool machine);  // forget the open DBs below the prefix; machine: lose an unsynced tail
void SyncAll();                                                 // the operating system wrote back everything
extern double write_fault_p;                                   // probability that a write fails with an I/O error
// the process dies right before its n-th write from now on to a DB below the prefix; die must not return to the writer
void CrashAtWrite(const std::string& path_prefix, int n, std::function<void()> die);
void ForgetCrashes();
uint64_t LostWrites();
}
}
