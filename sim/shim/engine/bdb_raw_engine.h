#pragma once
// BerkeleyDB is not installed; the engine kind is never selected in simulation.
#include "engine/raw_engine.h"
namespace dingodb { class BdbRawEngine : public RawEngine { public:
  bool Init(std::shared_ptr<Config>, const std::vector<std::string>&) override { return true; }
  void Close() override {} void Destroy() override {} std::string GetName() override { return "BDB"; }
  pb::common::RawEngine GetRawEngineType() override { return pb::common::RAW_ENG_BDB; }
  SnapshotPtr GetSnapshot() override { return nullptr; } ReaderPtr Reader() override { return nullptr; } WriterPtr Writer() override { return nullptr; } CheckpointPtr NewCheckpoint() override { return nullptr; }
  butil::Status MergeCheckpointFiles(const std::string&, const pb::common::Range&, const std::vector<std::string>&, std::vector<std::string>&) override { return butil::Status(1, "n/a"); }
  butil::Status IngestExternalFile(const std::string&, const std::vector<std::string>&) override { return butil::Status(1, "n/a"); }
  std::vector<int64_t> GetApproximateSizes(const std::string&, std::vector<pb::common::Range>&) override { return {}; }
  void Flush(const std::string&) override {} butil::Status Compact(const std::string&) override { return butil::Status(); } }; }
