// Versioned key-value store of the coordinators (revisions, leases, watches, compaction) under faults, against a model fed by the replicated log.
#include "coor.h"
#include "coordinator/kv_control.h"
#include "gflags/gflags.h"
namespace dingodb { DECLARE_bool(auto_compaction); DECLARE_int64(compaction_retention_rev_count); DECLARE_int64(version_lease_min_ttl_seconds); }
namespace co {
namespace {
using std::map; using std::string; using std::vector;
namespace ci = pb::coordinator_internal; namespace pv = pb::version;
struct St { bool live = false; string val; int64_t create = 0, mod = 0, ver = 0, lease = 0; };
string Show(const St& s) { return s.live ? "'" + s.val + "' created at " + S(s.create) + ", modified at " + S(s.mod) + ", version " + S(s.ver) + ", lease " + S(s.lease) : "absent"; }
string Show(const pv::Kv& k) { return k.kv().key().empty() && !k.mod_revision() ? "absent" : "'" + k.kv().value() + "' created at " + S(k.create_revision()) + ", modified at " + S(k.mod_revision()) + ", version " + S(k.version()) + ", lease " + S(k.lease()); }
struct OpR { string key, val; bool put = false, applied = false; int pos = 0; St before, after; };
struct Ver : Base {
  using Base::Base;
  vector<map<string, St>> tl{1}; vector<uint64_t> tl_at{0}; vector<int> entry_first, entry_last;
  map<int64_t, vector<OpR>> rev; map<string, vector<std::pair<int64_t, int64_t>>> hist; map<int64_t, int64_t> leases; int64_t cur = 0, max_ack = 0; int lo = 0;
  map<int64_t, vector<std::pair<uint64_t, uint64_t>>> renews; map<int64_t, int64_t> ttl; map<int64_t, uint64_t> asked; map<int64_t, uint64_t> granted_ok; std::set<string> compacted; map<string, int64_t> compact_to; bool skewed = false; int nk = 3;
  void Bad(const char* prop, const string& text) { if (c.Oracle(prop)) sim::Fail(string(prop) + ": " + text); else sim::Count("other_property_failed"); }
  static bool Same(const St& s, const pv::Kv& k, bool value = true) { return s.live && s.create == k.create_revision() && s.mod == k.mod_revision() && s.ver == k.version() && s.lease == k.lease() && (!value || s.val == k.kv().value()); }
  static bool In(const string& key, const string& a, const string& b) { return b.empty() ? key == a : b == string(1, '\0') ? key >= a : key >= a && key < b; }
  struct Fly { string a, b; int64_t lease; uint64_t t0, t1; }; vector<Fly> fly;
  // a put that carries the lease overlapped another change of the key or the end of the lease
  string Raced(const string& key, int64_t lease) { uint64_t now = sim::NowUs(); for (auto& x : fly) { if (x.a != key || x.b.size() || x.lease != lease) continue; if (x.t1 + 300000 > now || (asked.count(lease) && x.t1 > asked[lease])) return "overlapping changes of one key: "; for (auto& y : fly) if (&y != &x && y.t0 < x.t1 && x.t0 < y.t1 && In(key, y.a, y.b)) return "overlapping changes of one key: "; } return ""; }
  static string Tag() { string d = sim_raft::Describe(st::Group(kKv)); auto p = d.find("LEADER"); return p == string::npos ? "" : d.substr(p > 20 ? p - 20 : 0, 32); }
  void Push(const map<string, St>& m) { tl.push_back(m); tl_at.push_back(sim::NowUs()); }
  void OnCommit(const string& group, const string& data) {
    pb::raft::RaftCmdRequest q; if (!q.ParseFromString(data)) return;
    for (auto& r : q.requests()) { if (!r.has_meta_req()) continue; auto& mi = r.meta_req().meta_increment(); map<string, St> m = tl.back(); std::set<int64_t> dead; string text;
      for (auto& l : mi.leases()) {
        if (l.op_type() == ci::CREATE) { leases[l.id()] = l.lease().ttl_seconds(); text += " grant " + S(l.id()); }
        else if (l.op_type() == ci::DELETE) { text += " revoke " + S(l.id()); if (leases.count(l.id())) { dead.insert(l.id()); uint64_t now = sim::NowUs(); if (!asked.count(l.id()) && !skewed) for (auto& x : renews[l.id()]) if (x.second <= now && now < x.first + (uint64_t)ttl[l.id()] * 1000000) { Bad("C07", "lease " + S(l.id()) + " with a time to live of " + S(ttl[l.id()]) + " s is revoked " + S((now - x.first) / 1000) + " ms after it was granted or renewed"); } sim::Count("probe_lease_ended"); } leases.erase(l.id()); }
        else text += " renew " + S(l.id());
      }
      int64_t sub = 0, main = 0;
      for (auto& x : mi.kv_indexes()) {
        if (x.op_type() != ci::UPDATE) continue; auto& s = m[x.id()];
        if (x.event_type() == ci::KV_INDEX_EVENT_TYPE_COMPACTION) {
          int64_t cr = x.op_revision().main(); auto& h = hist[x.id()]; vector<std::pair<int64_t, int64_t>> keep; for (size_t i = 0; i < h.size(); i++) if (h[i].first >= cr || (s.live && i + 1 == h.size())) keep.push_back(h[i]); h = keep; compacted.insert(x.id()); compact_to[x.id()] = std::max(compact_to[x.id()], cr); text += " compact " + x.id() + " to " + S(cr); sim::Count("probe_compaction"); continue; }
        if (!main) main = ++cur; sub++; OpR o; o.key = x.id(); o.before = s; o.pos = tl.size();
        if (x.event_type() == ci::KV_INDEX_EVENT_TYPE_PUT) {
          o.put = true; o.val = x.value(); St n; n.live = true; n.val = x.ignore_value() ? s.val : x.value(); n.lease = x.ignore_lease() ? s.lease : x.lease_id(); n.mod = main; n.create = s.live ? s.create : main; n.ver = s.live ? s.ver + 1 : 1;
          if (n.lease > 0 && !leases.count(n.lease)) sim::Count("probe_put_dead_lease"); else { o.applied = true; s = n; hist[x.id()].push_back({main, sub}); }
          text += " put " + x.id() + "@" + S(main) + "=" + n.val + (n.lease ? " lease " + S(n.lease) : "") + (o.applied ? "" : " (lease gone)");
        } else {
          if (s.live) { o.applied = true; if (dead.size() && !dead.count(s.lease)) { string rc; for (auto d : dead) if (rc.empty()) rc = Raced(x.id(), d); Bad("C07", rc + "ending lease " + S(*dead.begin()) + " deletes key " + x.id() + ", which is attached to lease " + S(s.lease)); } hist[x.id()].push_back({main, sub}); s = St(); }
          text += " delete " + x.id() + "@" + S(main) + (o.applied ? "" : " (absent)");
        }
        o.after = s; rev[main].push_back(o); Push(m);
      }
      for (auto& kv : m) if (kv.second.live && dead.count(kv.second.lease)) { Bad("C07", Raced(kv.first, kv.second.lease) + "key " + kv.first + " outlives lease " + S(kv.second.lease) + " it is attached to"); }
      if (text.size()) sim::Log("log:" + text);
    }
  }
  // some state of the window [lo, now] that agrees with f
  template <class F> bool Window(int from, F f) { for (size_t p = from; p < tl.size(); p++) if (f(tl[p])) { lo = std::max<int>(lo, p); return true; } return false; }
  void Ack(int64_t r) { max_ack = std::max(max_ack, r); if (rev.count(r)) lo = std::max(lo, rev[r].back().pos); }
  string K(int i) { return "k" + S(i); }
  struct Pick { string a, b; };
  Pick Range(sim::Rng& r) { if (r.Chance(0.6)) return {K(r.Below(nk)), ""}; int i = r.Below(nk), j = r.Range(i + 1, nk); return {K(i), r.Chance(0.2) ? string(1, '\0') : K(j)}; }
  vector<int64_t> ids; map<string, int64_t> lease_of;
  struct Cl { Caller ca; Caller* operator->() { return &ca; } };
  void One(Caller& ca, sim::Rng& r, int id, int kind, const string& val, bool quiet) {
    Meta m; int from = lo; int64_t ack0 = max_ack; st::Res res = st::kNo; string text;
    if (kind == 0) {
      pv::PutRequest q; pv::PutResponse p; string key = K(r.Below(nk)); q.mutable_key_value()->set_key(key); bool iv = r.Chance(0.08), il = r.Chance(0.08); if (!iv) q.mutable_key_value()->set_value(val); q.set_ignore_value(iv); q.set_ignore_lease(il); q.set_need_prev_kv(r.Chance(0.5));
      int64_t l = 0; if (!il) { auto& s = tl.back()[key]; l = s.live ? s.lease : ids.size() && r.Chance(0.5) ? ids[r.Below(ids.size())] : 0; } q.set_lease(l); size_t fi = fly.size(); fly.push_back({key, "", il ? tl.back()[key].lease : l, sim::NowUs(), UINT64_MAX / 2});
      res = ca.Once(VerSvc(), "KvPut", q, p, &m); if (m.code != -1) fly[fi].t1 = sim::NowUs(); int64_t rv = p.header().revision(); text = "put " + key + "=" + (iv ? "(kept)" : val) + (l ? " lease " + S(l) : il ? " lease kept" : "") + " -> " + S(rv);
      if (res == st::kOk) {
        OpR* o = nullptr; if (rev.count(rv)) for (auto& x : rev[rv]) if (x.put && x.key == key && (iv || x.val == val)) o = &x;
        if (!o) { Bad("C06", "an answered put has no revision of its own: " + text); return; }
        if (!o->applied) { Bad("C06", "a put whose lease is gone was answered as done: " + text); return; }
        if (rv <= ack0) { Bad("C06", "revisions go backwards: " + text + " after " + S(ack0)); return; }
        if (!il && o->after.lease != l) { Bad("C06", "a put was stored with lease " + S(o->after.lease) + ": " + text); return; }
        if (il && o->after.lease != o->before.lease) { Bad("C06", "a put that keeps the lease changed it: " + text); return; }
        if (iv && o->after.val != o->before.val) { Bad("C06", "a put that keeps the value changed it from '" + o->before.val + "' to '" + o->after.val + "': " + text); return; }
        if (q.need_prev_kv() && !(o->before.live ? Same(o->before, p.prev_kv()) : !p.prev_kv().mod_revision())) { Bad("C06", "a put reports a wrong previous value: " + text + " reports " + Show(p.prev_kv()) + ", it replaced " + Show(o->before)); return; }
        Ack(rv); sim::Count("ops_ok");
      } }
    else if (kind == 1 || kind == 2) {
      pv::RangeRequest q; pv::RangeResponse p; auto g = kind == 1 ? Pick{K(r.Below(nk)), ""} : Range(r); q.set_key(g.a); q.set_range_end(g.b); int lim = r.Chance(0.3) ? r.Range(1, 2) : 0; q.set_limit(lim); q.set_keys_only(r.Chance(0.15)); q.set_count_only(r.Chance(0.15));
      res = ca.Once(VerSvc(), "KvRange", q, p, &m); text = "range [" + g.a + "," + (g.b == string(1, '\0') ? "end" : g.b) + ") limit " + S(lim) + (q.count_only() ? " count" : "") + " ->"; for (auto& x : p.kvs()) text += " " + x.kv().key() + ": " + Show(x); if (q.count_only()) text += " " + S(p.count());
      if (res == st::kOk && m.solid) {
        auto ok = [&](const map<string, St>& t) { vector<const St*> s; vector<string> ks; for (auto& x : t) if (x.second.live && In(x.first, g.a, g.b)) { s.push_back(&x.second); ks.push_back(x.first); } bool more = lim && (int)s.size() > lim; if (more) s.resize(lim); if (p.more() != more) return false; if (q.count_only()) return p.count() == (int64_t)s.size(); if (p.kvs_size() != (int)s.size()) return false; for (size_t i = 0; i < s.size(); i++) if (p.kvs(i).kv().key() != ks[i] || !Same(*s[i], p.kvs(i), !q.keys_only())) return false; return true; };
        if (!Window(from, ok)) { string t; for (auto& x : tl.back()) if (In(x.first, g.a, g.b)) t += " " + x.first + ": " + Show(x.second); Bad("C06", "a read returns what was never stored between its start and its end: " + text + "; asked at " + S((int64_t)m.t0) + ", now" + t); return; }
        sim::Count("ops_ok");
      } }
    else if (kind == 3) {
      pv::DeleteRangeRequest q; pv::DeleteRangeResponse p; auto g = Range(r); q.set_key(g.a); q.set_range_end(g.b); q.set_need_prev_kv(r.Chance(0.5)); size_t fi = fly.size(); fly.push_back({g.a, g.b, 0, sim::NowUs(), UINT64_MAX / 2});
      res = ca.Once(VerSvc(), "KvDeleteRange", q, p, &m); if (m.code != -1) fly[fi].t1 = sim::NowUs(); int64_t rv = p.header().revision(); text = "delete [" + g.a + "," + (g.b == string(1, '\0') ? "end" : g.b) + ") -> " + S(p.deleted()) + " @" + S(rv);
      if (res == st::kOk) {
        if (!rv) { if (p.deleted()) { Bad("C06", "a delete without a revision reports deleted keys: " + text); return; } if (m.solid && !Window(from, [&](const map<string, St>& t) { for (auto& x : t) if (x.second.live && In(x.first, g.a, g.b)) return false; return true; })) { Bad("C06", "a delete finds nothing although a key existed all the time: " + text); return; } }
        else {
          if (!rev.count(rv) || rv <= ack0) { Bad("C06", "an answered delete has no revision of its own: " + text); return; }
          int n = 0; std::set<string> named; for (auto& o : rev[rv]) { if (o.put || !In(o.key, g.a, g.b)) { Bad("C06", "a delete changed a key outside its range: " + text); return; } n += o.applied; named.insert(o.key); }
          if (n != p.deleted()) { Bad("C06", "a delete reports " + S(p.deleted()) + " deleted keys, it deleted " + S(n) + ": " + text); return; }
          if (q.need_prev_kv()) { int i = 0; for (auto& o : rev[rv]) if (o.applied && (i >= p.prev_kvs_size() || p.prev_kvs(i).kv().key() != o.key || !Same(o.before, p.prev_kvs(i++)))) { Bad("C06", "a delete reports a wrong previous value of " + o.key + ": " + text + "; it was " + Show(o.before)); return; } }
          for (auto& x : tl[from]) if (In(x.first, g.a, g.b) && !named.count(x.first)) { bool gone = false; for (int i = from; i <= rev[rv].back().pos; i++) if (!tl[i].count(x.first) || !tl[i][x.first].live) gone = true; if (!gone && m.solid) { Bad("C06", "a delete left key " + x.first + " of its range, which existed all the time: " + text); return; } }
          Ack(rv);
        }
        sim::Count("ops_ok");
      } }
    else if (kind == 4) {
      pv::LeaseGrantRequest q; pv::LeaseGrantResponse p; bool own = r.Chance(0.3); if (own) q.set_id(500 + r.Below(3)); q.set_ttl(r.Range(1, 6)); uint64_t s = sim::NowUs(); res = ca.Once(VerSvc(), "LeaseGrant", q, p, &m); text = "grant " + S(q.ttl()) + " s -> " + S(p.id()) + " " + S(p.ttl()) + " s";
      if (res == st::kOk) { int64_t i = p.id(); if (own && i != q.id()) { Bad("C07", "a lease was granted under another id: " + text); return; } if (p.ttl() < q.ttl()) { Bad("C07", "a lease was granted for less time than asked: " + text); return; }
        if (granted_ok.count(i) && !asked.count(i) && !skewed && leases.count(i) && granted_ok[i] + (uint64_t)ttl[i] * 1000000 > sim::NowUs() && renews[i].size() == 1) { Bad("C07", "lease " + S(i) + " was granted twice while it was alive"); return; }
        granted_ok[i] = s; if (!asked.count(i)) { ttl[i] = p.ttl(); renews[i].push_back({s, sim::NowUs()}); } ids.push_back(i); sim::Count("ops_ok"); } }
    else if (kind == 5 && ids.size()) { pv::LeaseRenewRequest q; pv::LeaseRenewResponse p; q.set_id(ids[r.Below(ids.size())]); uint64_t s = sim::NowUs(); res = ca.Once(VerSvc(), "LeaseRenew", q, p, &m); text = "renew " + S(q.id()); if (res == st::kOk) { renews[q.id()].push_back({s, sim::NowUs()}); sim::Count("ops_ok"); } }
    else if (kind == 6 && ids.size()) { pv::LeaseRevokeRequest q; pv::LeaseRevokeResponse p; q.set_id(ids[r.Below(ids.size())]); asked[q.id()] = sim::NowUs(); res = ca.Once(VerSvc(), "LeaseRevoke", q, p, &m); text = "revoke " + S(q.id()); if (res == st::kOk) sim::Count("ops_ok"); }
    else if (kind == 7) { pv::CompactionRequest q; pv::CompactionResponse p; auto g = Range(r); q.set_key(g.a); q.set_range_end(g.b); q.set_compact_revision(r.Chance(0.6) ? cur : cur - r.Below(10)); res = ca.Once(VerSvc(), "KvCompaction", q, p, &m); text = "compact [" + g.a + "," + (g.b == string(1, '\0') ? "end" : g.b) + ") to " + S(q.compact_revision()); }
    else if (kind == 8) { Watch(ca, r, id, quiet); return; }
    if (text.size()) sim::Log("c" + S(id) + " " + text + " at " + S(m.machine) + " code " + S(m.code)); if (res != st::kOk && m.code <= 0) sim::SleepUs(r.Below(150000)); else if (m.code == pb::error::ERAFT_NOTLEADER) sim::SleepUs(r.Below(100000));
  }
  void Watch(Caller& ca, sim::Rng& r, int id, bool quiet) {
    pv::WatchRequest q; pv::WatchResponse p; auto* o = q.mutable_one_time_request(); string key = K(r.Below(nk)); o->set_key(key); bool np = r.Chance(0.15), nd = !np && r.Chance(0.3), wait = r.Chance(0.7), prev = r.Chance(0.5); int64_t start = r.Chance(0.4) ? 0 : std::max<int64_t>(1, cur - (r.Chance(0.7) ? 0 : r.Range(-1, 4))); if (np) o->add_filters(pv::NOPUT); if (nd) o->add_filters(pv::NODELETE); o->set_wait_on_not_exist_key(wait); o->set_need_prev_kv(prev); o->set_start_revision(start);
    int from = lo; int64_t ack0 = max_ack; uint64_t t0 = sim::NowUs(); Meta m; string tag = Tag(); auto res = ca.Once(VerSvc(), "Watch", q, p, &m, quiet ? 4000 : 5000); uint64_t t1 = sim::NowUs(); sim::Count("ops_watch"); if (quiet && (tag.empty() || Tag() != tag || m.machine != Leader(kKv))) quiet = false;
    string text = "watch " + key + " from " + S(start) + (np ? " no puts" : "") + (nd ? " no deletes" : "") + (wait ? " waiting" : ""); 
    if (res == st::kOk) {
      if (p.events_size() > 1) { Bad("C08", "a one-time watch reports " + S(p.events_size()) + " events: " + text); return; }
      if (!p.events_size()) { sim::Log("c" + S(id) + " " + text + ": ended at " + S(m.machine)); if (quiet) Bad("C08", "a watch ends without an event although its leader stayed: " + text); return; }
      auto& e = p.events(0); text += " -> " + pv::Event_EventType_Name(e.type()) + " " + Show(e.kv()); sim::Log("c" + S(id) + " " + text + " at " + S(m.machine)); sim::Count("probe_watch_event");
      if (e.type() == pv::Event::NOT_EXISTS) { if (wait) { Bad("C08", "a watch that waits for a missing key says it is missing: " + text); return; } if (m.solid && !Window(from, [&](map<string, St>& t) { return !t.count(key) || !t[key].live; })) Bad("C08", "a watch calls a key missing that existed all the time: " + text); return; }
      bool put = e.type() == pv::Event::PUT; if (put ? np : nd) { Bad("C08", "a watch reports an event it asked to leave out: " + text); return; }
      int64_t rv = e.kv().mod_revision(); OpR* x = nullptr; if (rev.count(rv)) for (auto& y : rev[rv]) if (y.key == key && y.put == put && y.applied) x = &y;
      if (!x || (put && !Same(x->after, e.kv()))) { Bad("C08", "a watch reports an event that did not happen: " + text + (x ? ", stored was " + Show(x->after) : "")); return; }
      if (rv < (start ? start : ack0)) { Bad("C08", "a watch reports an event from before its start: " + text + ", start " + S(start ? start : ack0)); return; }
      if (prev && e.prev_kv().mod_revision() && !Same(x->before, e.prev_kv())) { Bad("C08", "a watch reports a wrong previous value: " + text + " reports " + Show(e.prev_kv()) + ", it was " + Show(x->before)); return; }
      if (quiet) for (auto& rr : rev) for (auto& y : rr.second) if (y.key == key && y.applied && rr.first < rv && rr.first >= (start ? start : ack0 + 1) && (y.put ? !np : !nd) && tl_at[y.pos] >= t0 + 1000000) { Bad("C08", "a watch skipped the event at revision " + S(rr.first) + ": " + text); return; }
      return;
    }
    sim::Log("c" + S(id) + " " + text + ": no answer, code " + S(m.code) + " at " + S(m.machine));
    if (quiet && m.code == -1) for (auto& rr : rev) for (auto& y : rr.second) {
      if (y.key != key || !y.applied || rr.first < (start ? start : ack0 + 1) || (y.put ? np : nd)) continue; uint64_t tc = tl_at[y.pos]; if (tc + 1000000 > t1) continue;
      bool sure = tc >= t0 + 1000000; if (!sure && y.put && start && rr.first > start) { sure = true; for (size_t i = y.pos; i < tl.size() && tl_at[i] < t0 + 1000000; i++) if (!tl[i].count(key) || !tl[i][key].live) sure = false; }
      if (sure) { Bad("C08", "a watch misses the event at revision " + S(rr.first) + ": " + text); return; }
    }
  }
  ci::MetaSnapshotFile DumpOf(int machine) { auto* s = new ci::MetaSnapshotFile(); auto* p = k.procs[machine]; cl::OnProc(p, "dump", [=] { auto kc = p->server->GetKvControl(); kc->LoadMetaToSnapshotFile(kc->PrepareRaftSnapshot(), *s); }); ci::MetaSnapshotFile r = *s; return r; }
  static string Hex(const string& s) { string o; for (unsigned char ch : s) { if (ch >= 32 && ch < 127) o += ch; else { char b[8]; snprintf(b, 8, "\\x%02x", ch); o += b; } } return o; }
  static string Diff(const google::protobuf::RepeatedPtrField<pb::common::KeyValue>& a, const google::protobuf::RepeatedPtrField<pb::common::KeyValue>& b) { map<string, string> x, y; for (auto& k : a) x[k.key()] = k.value(); for (auto& k : b) y[k.key()] = k.value(); for (auto& k : x) if (!y.count(k.first)) return "only one has " + Hex(k.first); else if (y[k.first] != k.second) return "different " + Hex(k.first) + ": " + Hex(k.second) + " / " + Hex(y[k.first]); for (auto& k : y) if (!x.count(k.first)) return "only one has " + Hex(k.first); return ""; }
  void Check() {
    if (!Settle(kKv)) { Bad("C06", "the coordinators do not catch up within 30 s after the last fault ended: " + sim_raft::Describe(st::Group(kKv))); return; }
    ci::MetaSnapshotFile d[3]; for (int i = 0; i < 3; i++) d[i] = DumpOf(cl::kCoorBase + 1 + i);
    for (int i = 1; i < 3; i++) { string t = Diff(d[0].kv_index_map_kvs(), d[i].kv_index_map_kvs()); if (t.empty()) t = Diff(d[0].kv_rev_map_kvs(), d[i].kv_rev_map_kvs()); if (t.size()) { Bad("C06", "coordinators " + S(cl::kCoorBase + 1) + " and " + S(cl::kCoorBase + 1 + i) + " applied the same log and differ: " + t); return; } t = Diff(d[0].lease_map_kvs(), d[i].lease_map_kvs()); if (t.size()) { Bad("C07", "coordinators that applied the same log hold different leases: " + t); return; } t = Diff(d[0].id_epoch_map_kvs(), d[i].id_epoch_map_kvs()); if (t.size()) { Bad("C06", "coordinators that applied the same log hold different counters: " + t); return; } }
    for (int i = 1; i <= 3; i++) {   // memory against the model
      auto* p = k.procs[cl::kCoorBase + i]; string* err = new string; const char** which = new const char*("C06");
      cl::OnProc(p, "compare", [=, this] { auto kc = p->server->GetKvControl(); vector<ci::LeaseInternal> ls; kc->ListLeases(ls); std::set<int64_t> have; for (auto& l : ls) have.insert(l.id()); for (auto& l : leases) if (!have.count(l.first)) { *which = "C07"; *err = "lease " + S(l.first) + " is lost"; return; } for (auto l : have) if (!leases.count(l)) { *which = "C07"; *err = "lease " + S(l) + " exists although it ended"; return; }
        for (auto& x : tl.back()) { ci::KvIndexInternal ix; bool ok = kc->GetRawKvIndex(x.first, ix).ok(); auto& h = hist[x.first]; if (!ok) { if (h.size()) { *err = "the history of key " + x.first + " is lost"; if (compacted.count(x.first)) *which = "C09"; return; } continue; }
          vector<std::pair<int64_t, int64_t>> got; for (auto& g : ix.generations()) for (auto& r : g.revisions()) got.push_back({r.main(), r.sub()}); bool live = ix.generations_size() && ix.generations(ix.generations_size() - 1).has_create_revision();
          if (got != h || live != x.second.live) { string a, b; for (auto& r : got) a += " " + S(r.first) + "." + S(r.second); for (auto& r : h) b += " " + S(r.first) + "." + S(r.second); *err = "key " + x.first + " has the revisions" + a + (live ? "" : " deleted") + " instead of" + b + (x.second.live ? "" : " deleted"); if (compacted.count(x.first)) *which = "C09"; return; }
          if (x.second.live) { ci::KvRevInternal rv; if (!kc->GetRawKvRev(ix.mod_revision(), rv).ok()) { *err = "the latest value of key " + x.first + " is lost"; if (compacted.count(x.first)) *which = "C09"; return; } auto& kv = rv.kv(); auto& s = x.second; if (kv.id() != x.first || kv.value() != s.val || kv.version() != s.ver || kv.create_revision().main() != s.create || kv.lease() != s.lease) { *err = "key " + x.first + " holds '" + kv.value() + "' version " + S(kv.version()) + " created at " + S(kv.create_revision().main()) + " lease " + S(kv.lease()) + " instead of " + Show(s); return; } }
          for (auto& h1 : h) { ci::RevisionInternal r; r.set_main(h1.first); r.set_sub(h1.second); ci::KvRevInternal rv; if (!kc->GetRawKvRev(r, rv).ok()) { *err = "revision " + S(h1.first) + "." + S(h1.second) + " of key " + x.first + " is lost"; if (compacted.count(x.first)) *which = "C09"; return; } } } });
      if (err->size()) { Bad(*which, "on coordinator " + S(cl::kCoorBase + i) + ": " + *err); return; }
    }
    size_t want = 0; for (auto& h : hist) want += h.second.size(); if ((size_t)d[0].kv_rev_map_kvs_size() != want) { Bad("C09", S(d[0].kv_rev_map_kvs_size()) + " revisions are stored, " + S(want) + " are referenced by keys"); return; }
    sim::Count("version_checked");
  }
  void Go() {
    Setup({kKv}); auto& rng = c.rng; string focus = c.Param("focus"); f.skew = rng.Chance(0.2); skewed = f.skew; nk = rng.Range(1, 4); int nc = rng.Range(2, 5), n = rng.Range(4, 18), qn = rng.Chance(0.7) ? rng.Range(3, 10) : 0; bool fill = focus == "compact" ? rng.Chance(0.2) : rng.Chance(0.03);
    FLAGS_auto_compaction = rng.Chance(0.4); FLAGS_compaction_retention_rev_count = rng.Chance(0.5) ? rng.Range(0, 10) : 1000; FLAGS_version_lease_min_ttl_seconds = 1; bool wl = focus == "lease" || rng.Chance(0.5), ww = focus == "watch" || rng.Chance(0.4), wc = focus == "compact" || rng.Chance(0.4);
    vector<int> w{8, 2, 2, 3, wl ? 3 : 0, wl ? 2 : 0, wl ? 2 : 0, wc ? 3 : 0, ww ? 3 : 0}; int sum = 0; for (int x : w) sum += x; static const char* nm[] = {"put", "get", "range", "delete", "grant", "renew", "revoke", "compact", "watch"};
    vector<vector<int>> pl(nc); vector<vector<bool>> on(nc); for (int i = 0; i < nc; i++) for (int j = 0; j < n + qn; j++) { int x = rng.Below(sum), kd = 0; while (x >= w[kd]) x -= w[kd++]; pl[i].push_back(kd); on[i].push_back(c.On("client " + S(i) + " operation " + S(j) + " " + nm[kd])); }
    bool tight = rng.Chance(0.5); sim_raft::on_commit = [this](const string& g, int64_t, const string& d) { OnCommit(g, d); }; auto stop = std::make_shared<bool>(false);
    sim::Spawn([&, nc, n, qn, tight, fill, stop] {
      if (!Up()) return;
      { auto* out = new int64_t(0); auto* p = k.procs[Leader(kKv)]; cl::OnProc(p, "base", [=] { *out = p->server->GetKvControl()->GetPresentId(pb::coordinator::IdEpochType::ID_NEXT_REVISION); }); cur = *out; }
      Ticks([](cl::Proc* p) { auto kc = p->server->GetKvControl(); kc->LeaseTask(); kc->RemoveOneTimeWatch(); if (kc->IsLeader()) kc->CompactionTask(); }, 300000, stop);
      auto part = [&](int a, int b, bool quiet) { vector<uint64_t> cs; for (int i = 0; i < nc; i++) cs.push_back(sim::Spawn([&, i, a, b, quiet] { Caller ca(k, kKv); if (quiet) ca.guess = Leader(kKv); sim::Rng rr(sim::Mix(c.seed, (quiet ? 800 : 700) + i)); for (int j = a; j < b && !sim::Failed(); j++) { sim::Rng r(rr.Next()); if (!on[i][j]) continue; if (!quiet && r.Chance(0.1)) ca.guess = cl::kCoorBase + r.Range(1, 3); sim::SleepUs(tight || quiet ? r.Below(r.Chance(0.8) ? 2000 : 300000) : r.Below(600000)); if (sim::Failed()) return; One(ca, r, i, pl[i][j], "v" + S(i) + "-" + S(j), quiet); } }, "client", cl::kClientBase + i)); for (auto x : cs) sim::Join(x); };
      if (fill) { Caller ca(k, kKv); for (int round = 0; round < 2; round++) for (int i = 0; i < 60 && !sim::Failed(); i++) { pv::PutRequest q; pv::PutResponse p; q.mutable_key_value()->set_key("z" + S(100 + i)); q.mutable_key_value()->set_value("f" + S(round)); for (int t = 0; t < 10 && ca.Once(VerSvc(), "KvPut", q, p) != st::kOk; t++) sim::SleepUs(100000); } }
      if (sim::Failed()) return;
      Under([&] { part(0, n, false); });
      if (sim::Failed()) return;
      bool ac = FLAGS_auto_compaction; FLAGS_auto_compaction = false; if (!Settle(kKv)) { Bad("C06", "the coordinators do not catch up within 30 s after the last fault ended: " + sim_raft::Describe(st::Group(kKv))); return; } FLAGS_auto_compaction = ac;
      sim::SleepUs(1500000); sim::Log("quiet part"); int l0 = Leader(kKv); if (qn && l0 > 0) part(n, n + qn, true);
      if (sim::Failed()) return;
      uint64_t end = sim::NowUs() + 20000000; while (!sim::Failed() && sim::NowUs() < end && leases.size()) sim::SleepUs(500000);
      if (sim::Failed()) return;
      if (leases.size() && !skewed) { Bad("C07", "lease " + S(leases.begin()->first) + " of " + S(leases.begin()->second) + " s is still there 20 s after everything stopped"); return; }
      for (auto& x : tl.back()) if (x.second.live && x.second.lease && !leases.count(x.second.lease)) { Bad("C07", Raced(x.first, x.second.lease) + "key " + x.first + " outlives lease " + S(x.second.lease)); return; }
      if (fill) { FLAGS_auto_compaction = true; FLAGS_compaction_retention_rev_count = 0; compact_to.clear(); sim::SleepUs(2500000); for (auto& h : hist) if (h.second.size() && !compact_to.count(h.first)) { Bad("C09", "auto compaction never reaches key " + h.first + " of " + S(hist.size())); return; } }
      *stop = true; sim::SleepUs(1500000); if (!sim::Failed()) Check(); if (!sim::Failed()) sim::Stop();
    }, "main", 1);
    sim::Run(); sim_raft::on_commit = nullptr;
  }
};
}
static void VerW(sim::Ctx& c) { auto* t = new Ver(c); t->Go(); }
static sim::World w3("ver", VerW);
}
