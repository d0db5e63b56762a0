#include "rocksdb/db.h"
#include <sys/stat.h>
#include <algorithm>
#include <cstdio>
#include <cstdarg>
#include <fstream>
#include <set>
#include "sim.h"
namespace rocksdb { namespace simdisk { extern int armed; void Armed(const std::string& path); } }
namespace rocksdb {
const std::string kDefaultColumnFamilyName = "default";
const Comparator* BytewiseComparator() { return nullptr; }
Env* Env::Default() { static Env e; return &e; }
const SliceTransform* NewCappedPrefixTransform(size_t) { return new SliceTransform; }
const SliceTransform* NewFixedPrefixTransform(size_t) { return new SliceTransform; }
const FilterPolicy* NewBloomFilterPolicy(double, bool) { return new FilterPolicy; }
std::shared_ptr<Cache> NewLRUCache(size_t, int, bool, double) { return std::make_shared<Cache>(); }
TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions&) { return new TableFactory; }
RateLimiter* NewGenericRateLimiter(int64_t, int64_t, int32_t, RateLimiter::Mode, bool) { return new RateLimiter; }
std::shared_ptr<Statistics> CreateDBStatistics() { return std::make_shared<Statistics>(); }
PerfContext* get_perf_context() { static PerfContext p; return &p; }
IOStatsContext* get_iostats_context() { static IOStatsContext p; return &p; }

namespace {
// Debug aid (SIM_DB=1): writes, ingests and crash cuts go into the event log.
bool Trace() { static bool t = getenv("SIM_DB") != nullptr; return t; }
std::string Hex(const std::string& s) { std::string o; char b[5]; for (unsigned char c : s) { if (c > 32 && c < 127) o += (char)c; else { snprintf(b, 5, "\\%02x", c); o += b; } } return o; }
void Tr(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); sim::Log(b); }
struct Ver { uint64_t seq; bool del; std::string v; };
using Table = std::map<std::string, std::vector<Ver>>;
struct Cf { std::string name; uint32_t id; Table t; bool dropped = false; };
struct Disk {
  std::string path; uint64_t seq = 0, synced = 0, next_file = 10; uint32_t next_cf = 1;
  std::map<uint32_t, std::shared_ptr<Cf>> cfs; bool open = false;
  std::map<std::string, std::vector<SstFileMetaData>> live;  // cf -> files of the latest checkpoint
};
std::map<std::string, std::shared_ptr<Disk>>& Disks() { static auto* d = new std::map<std::string, std::shared_ptr<Disk>>; return *d; }
struct Handle : ColumnFamilyHandle { std::string n; uint32_t id; Handle(std::string a, uint32_t b) : n(a), id(b) {} const std::string& GetName() const override { return n; } uint32_t GetID() const override { return id; } };
struct Snap : Snapshot { uint64_t seq; explicit Snap(uint64_t s) : seq(s) {} SequenceNumber GetSequenceNumber() const override { return seq; } ~Snap() override = default; };
const Ver* Visible(const std::vector<Ver>& v, uint64_t seq) { for (size_t i = v.size(); i-- > 0;) if (v[i].seq <= seq) return v[i].del ? nullptr : &v[i]; return nullptr; }
uint64_t lost_writes = 0;

struct It : Iterator {
  std::shared_ptr<Cf> cf; uint64_t seq; bool has_lo = false, has_hi = false; std::string lo, hi;
  Table::iterator p; bool valid = false; std::string ck, cv;   // a position's key and value stay as they are while others write
  bool At() { const Ver* v = Visible(p->second, seq); if (!v) return false; ck = p->first; cv = v->v; return valid = true; }
  bool InB(const std::string& k) const { return (!has_lo || k >= lo) && (!has_hi || k < hi); }
  void Fwd() { valid = false; for (; p != cf->t.end(); ++p) { if (has_hi && p->first >= hi) return; if (At()) return; } }
  void Bwd() { valid = false; for (;;) { if (p != cf->t.end()) { if (has_lo && p->first < lo) return; if ((!has_hi || p->first < hi) && At()) return; } if (p == cf->t.begin()) return; --p; } }
  bool Valid() const override { return valid; }
  void SeekToFirst() override { sim::Point(); p = has_lo ? cf->t.lower_bound(lo) : cf->t.begin(); Fwd(); }
  void SeekToLast() override { sim::Point(); if (cf->t.empty()) { valid = false; return; } p = has_hi ? cf->t.lower_bound(hi) : cf->t.end(); if (p == cf->t.begin()) { valid = false; return; } --p; Bwd(); }
  void Seek(const Slice& k) override { sim::Point(); std::string s = k.ToString(); if (has_lo && s < lo) s = lo; p = cf->t.lower_bound(s); Fwd(); }
  void SeekForPrev(const Slice& k) override { sim::Point(); p = cf->t.upper_bound(k.ToString()); if (p == cf->t.begin()) { valid = false; return; } --p; Bwd(); }
  void Next() override { if (valid) { ++p; Fwd(); } }
  void Prev() override { if (!valid) return; if (p == cf->t.begin()) { valid = false; return; } --p; Bwd(); }
  Slice key() const override { return Slice(ck); }
  Slice value() const override { return Slice(cv); }
  Status status() const override { return Status(); }
};

struct Impl : DB {
  std::shared_ptr<Disk> d; bool ro = false; std::unique_ptr<Handle> def{new Handle("default", 0)};
  ~Impl() override { if (d && !ro) d->open = false; }
  std::shared_ptr<Cf> C(ColumnFamilyHandle* h) { auto i = d->cfs.find(h ? h->GetID() : 0); return i == d->cfs.end() ? nullptr : i->second; }
  Status Close() override { if (!ro) { d->open = false; d->synced = d->seq; } return Status(); }
  Status Write(const WriteOptions& o, WriteBatch* b) override {
    sim::Point();
    if (simdisk::armed && sim::InSim()) simdisk::Armed(d->path);
    if (simdisk::write_fault_p > 0 && sim::InSim() && sim::ChooseChance(simdisk::write_fault_p, "rocksdb-write-fault")) { sim::Count("fault.db_write_error"); return Status::IOError("simulated write error"); }
    for (auto& op : b->ops) if (!d->cfs.count(op.cf)) return Status::InvalidArgument("column family not found");
    uint64_t s = ++d->seq;
    if (Trace()) for (auto& op : b->ops) Tr("db %s @%lu cf%u %s %s %s%s", d->path.c_str(), (unsigned long)s, op.cf, op.kind == 2 ? "delrange" : op.kind ? "del" : "put", Hex(op.a).c_str(), op.kind == 2 ? Hex(op.b).c_str() : "", o.sync ? " sync" : "");
    for (auto& op : b->ops) {
      Table& t = d->cfs[op.cf]->t;
      if (op.kind == 2) { if (op.a < op.b) for (auto i = t.lower_bound(op.a); i != t.end() && i->first < op.b; ++i) Set(i->second, s, true, ""); }
      else Set(t[op.a], s, op.kind == 1, op.b);
    }
    if (o.sync) d->synced = s;
    sim::Point();
    return Status();
  }
  static void Set(std::vector<Ver>& v, uint64_t s, bool del, const std::string& x) {
    if (v.empty()) { if (del) { v.push_back({s, true, ""}); return; } }
    if (!v.empty() && v.back().seq == s) { v.back().del = del; v.back().v = x; } else v.push_back({s, del, x});
  }
  uint64_t Seq(const ReadOptions& o) const { return o.snapshot ? static_cast<const Snap*>(o.snapshot)->seq : d->seq; }
  Status Get(const ReadOptions& o, ColumnFamilyHandle* c, const Slice& k, std::string* v) override {
    sim::Point();
    auto cf = C(c); if (!cf) return Status::InvalidArgument("column family not found");
    auto i = cf->t.find(k.ToString()); const Ver* x = i == cf->t.end() ? nullptr : Visible(i->second, Seq(o));
    if (!x) return Status::NotFound(); *v = x->v; return Status();
  }
  Iterator* NewIterator(const ReadOptions& o, ColumnFamilyHandle* c) override {
    auto* it = new It; it->cf = C(c); it->seq = Seq(o); if (!it->cf) it->cf = std::make_shared<Cf>();
    if (o.iterate_lower_bound) { it->has_lo = true; it->lo = o.iterate_lower_bound->ToString(); }
    if (o.iterate_upper_bound) { it->has_hi = true; it->hi = o.iterate_upper_bound->ToString(); }
    it->p = it->cf->t.end(); return it;
  }
  const Snapshot* GetSnapshot() override { return new Snap(d->seq); }
  void ReleaseSnapshot(const Snapshot* s) override { delete static_cast<const Snap*>(s); }
  Status Flush(const FlushOptions&, ColumnFamilyHandle*) override { sim::Point(); d->synced = d->seq; return Status(); }
  Status Flush(const FlushOptions&, const std::vector<ColumnFamilyHandle*>&) override { sim::Point(); d->synced = d->seq; return Status(); }
  Status FlushWAL(bool sync) override { sim::Point(); if (sync) d->synced = d->seq; return Status(); }
  Status SyncWAL() override { sim::Point(); d->synced = d->seq; return Status(); }
  Status CompactRange(const CompactRangeOptions&, ColumnFamilyHandle*, const Slice*, const Slice*) override { return Status(); }
  Status IngestExternalFile(ColumnFamilyHandle* c, const std::vector<std::string>& files, const IngestExternalFileOptions& o) override;
  Status DropColumnFamilies(const std::vector<ColumnFamilyHandle*>& v) override { for (auto* h : v) { auto cf = C(h); if (cf) { cf->dropped = true; d->cfs.erase(h->GetID()); } } return Status(); }
  Status CreateColumnFamily(const ColumnFamilyOptions&, const std::string& n, ColumnFamilyHandle** h) override { auto cf = std::make_shared<Cf>(); cf->name = n; cf->id = d->next_cf++; d->cfs[cf->id] = cf; *h = new Handle(n, cf->id); return Status(); }
  void GetColumnFamilyMetaData(ColumnFamilyHandle* c, ColumnFamilyMetaData* m) override { m->name = c ? c->GetName() : "default"; m->levels.clear(); LevelMetaData l; l.level = 0; l.files = d->live[m->name]; m->levels.push_back(l); m->file_count = l.files.size(); }
  Status GetApproximateSizes(const SizeApproximationOptions&, ColumnFamilyHandle* c, const Range* r, int n, uint64_t* s) override {
    auto cf = C(c); for (int i = 0; i < n; i++) { s[i] = 0; if (cf) for (auto p = cf->t.lower_bound(r[i].start.ToString()); p != cf->t.end() && Slice(p->first).compare(r[i].limit) < 0; ++p) if (auto* v = Visible(p->second, d->seq)) s[i] += p->first.size() + v->v.size(); } return Status(); }
  SequenceNumber GetLatestSequenceNumber() const override { return d->seq; }
  ColumnFamilyHandle* DefaultColumnFamily() const override { return def.get(); }
  const std::string& GetName() const override { return d->path; }
};

void PutS(std::string& o, const std::string& s) { uint32_t n = s.size(); o.append((char*)&n, 4); o += s; }
bool GetS(const std::string& b, size_t& p, std::string& s) { uint32_t n; if (p + 4 > b.size()) return false; memcpy(&n, &b[p], 4); p += 4; if (p + n > b.size()) return false; s.assign(b, p, n); p += n; return true; }
bool WriteSst(const std::string& path, const std::vector<std::pair<std::string, std::string>>& kv) {
  std::string o = "SIMSST1\n"; for (auto& [k, v] : kv) { PutS(o, k); PutS(o, v); }
  uint64_t h = sim::Hash(o); o.append((char*)&h, 8);
  FILE* f = fopen(path.c_str(), "wb"); if (!f) return false; bool ok = fwrite(o.data(), 1, o.size(), f) == o.size(); fclose(f); return ok;
}
Status ReadSst(const std::string& path, std::vector<std::pair<std::string, std::string>>* kv) {
  std::ifstream f(path, std::ios::binary); if (!f) return Status::IOError("no such file: " + path);
  std::string b((std::istreambuf_iterator<char>(f)), {});
  if (b.size() < 16 || b.compare(0, 8, "SIMSST1\n") != 0) return Status::Corruption("bad sst magic: " + path);
  uint64_t h; memcpy(&h, &b[b.size() - 8], 8); b.resize(b.size() - 8); if (h != sim::Hash(b)) return Status::Corruption("sst checksum: " + path);
  size_t p = 8; std::string k, v; while (p < b.size()) { if (!GetS(b, p, k) || !GetS(b, p, v)) return Status::Corruption("sst format"); kv->emplace_back(k, v); }
  return Status();
}
Status Impl::IngestExternalFile(ColumnFamilyHandle* c, const std::vector<std::string>& files, const IngestExternalFileOptions& o) {
  sim::Point();
  auto cf = C(c); if (!cf) return Status::InvalidArgument("column family not found");
  std::vector<std::vector<std::pair<std::string, std::string>>> all;
  for (auto& f : files) { all.emplace_back(); Status s = ReadSst(f, &all.back()); if (!s.ok()) return s; if (all.back().empty()) return Status::InvalidArgument("file contain no entries"); }
  for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < i; j++) if (all[i].front().first <= all[j].back().first && all[j].front().first <= all[i].back().first && !o.allow_global_seqno) return Status::NotSupported("Files have overlapping ranges");
  for (auto& kv : all) { uint64_t s = ++d->seq; if (Trace()) for (auto& [k, v] : kv) Tr("db %s @%lu ingest %s", d->path.c_str(), (unsigned long)s, Hex(k).c_str()); for (auto& [k, v] : kv) Set(cf->t[k], s, false, v); }
  d->synced = d->seq;
  if (o.move_files) for (auto& f : files) ::remove(f.c_str());
  return Status();
}
Status OpenAt(const DBOptions& o, const std::string& path, const std::vector<ColumnFamilyDescriptor>& c, std::vector<ColumnFamilyHandle*>* h, DB** db, bool ro) {
  sim::Point();
  std::shared_ptr<Disk> d;
  auto i = Disks().find(path);
  if (i != Disks().end()) d = i->second;
  else {
    d = std::make_shared<Disk>(); d->path = path;
    std::ifstream man(path + "/MANIFEST-000001");
    if (man) {  // a checkpoint directory: column families and their files (missing files were pruned)
      std::string cf, file;
      auto def = std::make_shared<Cf>(); def->name = "default"; def->id = 0; d->cfs[0] = def;
      while (man >> cf >> file) {
        std::shared_ptr<Cf> t; for (auto& [id, x] : d->cfs) if (x->name == cf) t = x;
        if (!t) { t = std::make_shared<Cf>(); t->name = cf; t->id = d->next_cf++; d->cfs[t->id] = t; }
        std::vector<std::pair<std::string, std::string>> kv; if (!ReadSst(path + "/" + file, &kv).ok()) continue;
        uint64_t s = ++d->seq; for (auto& [k, v] : kv) Impl::Set(t->t[k], s, false, v);
      }
    } else {
      if (ro || !o.create_if_missing) return Status::InvalidArgument(path + " does not exist (create_if_missing is false)");
      auto def = std::make_shared<Cf>(); def->name = "default"; def->id = 0; d->cfs[0] = def;
      std::string mk; for (size_t p = 1; p <= path.size(); p++) if (p == path.size() || path[p] == '/') mkdir(path.substr(0, p).c_str(), 0755);
      Disks()[path] = d;
    }
  }
  if (!ro && d->open) return Status::IOError("lock hold by current process: " + path + "/LOCK");
  for (auto& x : c) {
    std::shared_ptr<Cf> t; for (auto& [id, y] : d->cfs) if (y->name == x.name) t = y;
    if (!t) { if (ro || !o.create_missing_column_families) return Status::InvalidArgument("Column family not found: " + x.name); t = std::make_shared<Cf>(); t->name = x.name; t->id = d->next_cf++; d->cfs[t->id] = t; }
    if (h) h->push_back(new Handle(t->name, t->id));
  }
  auto* im = new Impl; im->d = d; im->ro = ro; if (!ro) d->open = true; *db = im; return Status();
}
struct Ckpt : Checkpoint {
  Impl* db; explicit Ckpt(Impl* i) : db(i) {}
  Status CreateCheckpoint(const std::string& dir, uint64_t, uint64_t*) override {
    sim::Point();
    struct stat st; if (stat(dir.c_str(), &st) == 0) return Status::InvalidArgument("Directory exists");
    if (mkdir(dir.c_str(), 0755) != 0) return Status::IOError("mkdir " + dir);
    auto d = db->d; d->synced = d->seq; d->live.clear();
    std::ofstream man(dir + "/MANIFEST-000001"); std::ofstream(dir + "/CURRENT") << "MANIFEST-000001\n"; std::ofstream(dir + "/OPTIONS-000002") << "sim\n";
    for (auto& [id, cf] : d->cfs) {
      std::vector<std::pair<std::string, std::string>> kv; for (auto& [k, v] : cf->t) if (auto* x = Visible(v, d->seq)) kv.emplace_back(k, x->v);
      if (kv.empty()) continue;
      // several files per column family, so that pruning and multi-file paths are reached
      size_t parts = kv.size() >= 6 ? 2 : 1, from = 0;
      for (size_t i = 0; i < parts; i++) {
        size_t to = i + 1 == parts ? kv.size() : kv.size() / 2;
        char fn[32]; snprintf(fn, sizeof fn, "%06lu.sst", (unsigned long)d->next_file++);
        std::vector<std::pair<std::string, std::string>> part(kv.begin() + from, kv.begin() + to); from = to;
        if (!WriteSst(dir + "/" + fn, part)) return Status::IOError("write sst");
        man << cf->name << " " << fn << "\n";
        SstFileMetaData m; m.name = std::string("/") + fn; m.db_path = d->path; m.smallestkey = part.front().first; m.largestkey = part.back().first; m.num_entries = part.size(); m.relative_filename = fn;
        d->live[cf->name].push_back(m);
      }
    }
    return Status();
  }
};
}  // namespace
Status DB::Open(const DBOptions& o, const std::string& p, const std::vector<ColumnFamilyDescriptor>& c, std::vector<ColumnFamilyHandle*>* h, DB** db) { return OpenAt(o, p, c, h, db, false); }
Status DB::Open(const Options& o, const std::string& p, DB** db) { std::vector<ColumnFamilyHandle*> h; return OpenAt(o, p, {ColumnFamilyDescriptor("default", o)}, &h, db, false); }
Status DB::OpenForReadOnly(const DBOptions& o, const std::string& p, const std::vector<ColumnFamilyDescriptor>& c, std::vector<ColumnFamilyHandle*>* h, DB** db, bool) { return OpenAt(o, p, c, h, db, true); }
Status DB::OpenForReadOnly(const Options& o, const std::string& p, DB** db, bool) { std::vector<ColumnFamilyHandle*> h; return OpenAt(o, p, {ColumnFamilyDescriptor("default", o)}, &h, db, true); }
Status DB::ListColumnFamilies(const DBOptions&, const std::string& p, std::vector<std::string>* out) { out->clear(); auto i = Disks().find(p); if (i == Disks().end()) return Status::IOError("no db"); for (auto& [id, c] : i->second->cfs) out->push_back(c->name); return Status(); }
Status DeleteFilesInRange(DB*, ColumnFamilyHandle*, const Slice*, const Slice*, bool) { return Status(); }
Status DestroyDB(const std::string& p, const Options&, const std::vector<ColumnFamilyDescriptor>&) { Disks().erase(p); return Status(); }
Status RepairDB(const std::string&, const DBOptions&, const std::vector<ColumnFamilyDescriptor>&) { return Status(); }
Status RepairDB(const std::string&, const Options&) { return Status(); }
Status Checkpoint::Create(DB* db, Checkpoint** c) { *c = new Ckpt(static_cast<Impl*>(db)); return Status(); }
Status SstFileWriter::Put(const Slice& k, const Slice& v) { if (!open_) return Status::InvalidArgument("File is not opened"); if (!kv_.empty() && k.compare(kv_.back().first) <= 0) return Status::InvalidArgument("Keys must be added in strict ascending order."); kv_.emplace_back(k.ToString(), v.ToString()); sz_ += k.size() + v.size(); return Status(); }
Status SstFileWriter::Delete(const Slice&) { return Status::NotSupported("delete in sst"); }
Status SstFileWriter::Finish(ExternalSstFileInfo* i) {
  if (!open_) return Status::InvalidArgument("File is not opened"); open_ = false;
  if (kv_.empty()) return Status::InvalidArgument("Cannot create sst file with no entries");
  if (!WriteSst(path_, kv_)) return Status::IOError("cannot write " + path_);
  if (i) { i->file_path = path_; i->smallest_key = kv_.front().first; i->largest_key = kv_.back().first; i->file_size = sz_; i->num_entries = kv_.size(); }
  return Status();
}
Status SstFileReader::Open(const std::string& p) { std::vector<std::pair<std::string, std::string>> kv; Status s = ReadSst(p, &kv); if (!s.ok()) return s; m_ = std::make_shared<std::map<std::string, std::string>>(kv.begin(), kv.end()); return s; }
Iterator* SstFileReader::NewIterator(const ReadOptions& o) { auto* it = new It; it->cf = std::make_shared<Cf>(); it->seq = 1; for (auto& [k, v] : *m_) it->cf->t[k].push_back({1, false, v}); if (o.iterate_upper_bound) { it->has_hi = true; it->hi = o.iterate_upper_bound->ToString(); } it->p = it->cf->t.end(); return it; }
std::shared_ptr<const TableProperties> SstFileReader::GetTableProperties() const { auto t = std::make_shared<TableProperties>(); t->num_entries = m_ ? m_->size() : 0; return t; }
namespace simdisk {
double write_fault_p = 0;
int armed = 0; struct Arm { std::string prefix; int n; std::function<void()> die; };
static std::vector<Arm>& Arms() { static std::vector<Arm> v; return v; }
void CrashAtWrite(const std::string& p, int n, std::function<void()> die) { Arms().push_back({p, n, die}); armed++; }
void ForgetCrashes() { Arms().clear(); armed = 0; }
void Armed(const std::string& path) {
  auto& v = Arms(); for (size_t i = 0; i < v.size(); i++) if (path.compare(0, v[i].prefix.size(), v[i].prefix) == 0 && --v[i].n <= 0) { auto die = v[i].die; v.erase(v.begin() + i); armed--; die(); return; }
}
uint64_t LostWrites() { return lost_writes; }
void SyncAll() { for (auto& [p, d] : Disks()) d->synced = d->seq; }
void CrashPath(const std::string& prefix, bool machine) {
  for (auto& [p, d] : Disks()) {
    if (p.compare(0, prefix.size(), prefix) != 0) continue;
    // A crashed instance keeps its (dead) Disk object; the survivor is a copy cut at a durable prefix.
    auto n = std::make_shared<Disk>(*d); n->open = false;
    uint64_t cut = d->seq;
    if (machine && d->synced < d->seq) { cut = d->synced + sim::Choose((uint32_t)std::min<uint64_t>(d->seq - d->synced + 1, 1000000), "unsynced-tail"); if (cut < d->seq) { sim::Count("fault.unsynced_writes_lost", d->seq - cut); lost_writes += d->seq - cut; } }
    if (Trace()) Tr("db %s crash: written %lu synced %lu survives %lu", p.c_str(), (unsigned long)d->seq, (unsigned long)d->synced, (unsigned long)cut);
    for (auto& [id, cf] : n->cfs) {
      auto c = std::make_shared<Cf>(*cf); cf = c;
      if (cut < d->seq) for (auto& [k, v] : c->t) while (!v.empty() && v.back().seq > cut) v.pop_back();
    }
    n->seq = cut; n->synced = cut; d = n;
  }
}
}
}
