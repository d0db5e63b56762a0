# Title, statement, quantifier, reason, anchors per property; tools/gen.py writes properties.jsonl and MANIFEST.json from here.
T = {}
def P(i, title, st, over, q, why, files, mech, state=(), obs=()):
    T[i] = dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(obs), hook_needed=None))
P('U01', 'Requests on overlapping keys of a region are serialised and never stuck',
  'Two write requests to the same region whose key sets overlap are never processed at the same time. Every request that waits for its keys is eventually admitted once the earlier holders finish, without deadlock, lost wakeup or crash.',
  ['schedules', 'inputs'], 'every interleaving of any number of requests with any key sets', 'The unit tests run a handful of latch sequences on one thread; lost wakeups and double grants need particular interleavings.',
  ['src/common/latch.cc', 'src/server/service_helper.cc', 'src/meta/store_meta_manager.cc', 'src/common/synchronization.cc'],
  [('ordered key hashes and per-slot queues', 'src/common/latch.cc'), ('acquire, wait, release and wake', 'src/server/service_helper.cc')])
P('U02', 'Shared in-memory maps behave as one atomic map',
  'Concurrent operations on the shared in-memory maps (put, conditional put, multi put and erase, get, copy) take effect atomically in some order that respects real time. The reported result of each operation is the one that order implies.',
  ['schedules', 'inputs', 'histories'], 'every history of concurrent operations', 'Existing tests call the maps from one thread with fixed keys.',
  ['src/common/safe_map.h'], [('modification functions applied to both copies', 'src/common/safe_map.h')])
P('U03', 'Accepted background tasks run exactly once, in order, and by priority',
  'A task accepted by a worker pool runs exactly once, and a refused task never runs; draining a pool at shutdown runs what was accepted, and its pending count returns to zero. Tasks of one region in a region-ordered pool run one at a time in submission order. In a priority pool a waiting task of higher priority is started before one of lower priority.',
  ['schedules', 'inputs'], 'every interleaving of submitters, workers and shutdown, for every pool type, limit and priority', 'Tests submit a few tasks and sleep; ordering and shutdown races depend on the schedule.',
  ['src/common/runnable.cc', 'src/common/runnable.h'], [('worker loop and queue', 'src/common/runnable.cc'), ('task comparison', 'src/common/runnable.h')])
P('U05', 'Timestamps handed out by a node are unique, increasing and recent',
  'Timestamps a node hands out are never repeated, and a request that starts after another finished never gets a smaller one. Each is above the lower bound the caller asks for and above the minimum valid timestamp set before the call. A timestamp from a batch past its staleness limit is not handed out.',
  ['schedules', 'fault_sequences', 'histories'], 'every interleaving of callers, batch renewals, losses and clock times', 'The tests fetch timestamps from one client against a live service or skip without one.',
  ['src/mvcc/ts_provider.cc', 'src/mvcc/ts_provider.h'], [('lock-free list of timestamp batches', 'src/mvcc/ts_provider.cc')])
P('U06', 'Lock primitives give exclusion and lose no wakeup',
  'A writer holds the reader-writer lock alone, and readers share it only with readers. The semaphore never admits more holders than permits and a pooled resource has one user at a time. A wait for outstanding parties returns exactly when all have reported, and every waiter makes progress once the resource is free.',
  ['schedules'], 'every interleaving of lock, unlock, wait and signal', 'Unit tests exercise each primitive with a few threads and timing sleeps.',
  ['src/common/synchronization.cc', 'src/common/synchronization.h'], [('reader and writer counts', 'src/common/synchronization.cc'), ('counted condition', 'src/common/synchronization.cc')])
P('K01', 'Raw key-value operations on a region are linearizable',
  'Reported raw operations on one region (get, put, delete, range delete, conditional writes, batches and scans) take effect atomically in some order that respects real time, across leader changes, crashes and partitions. A batch reported successful takes effect as a whole, and a conditional write takes effect exactly when its condition held at that point. An operation whose outcome was not reported takes effect at most once, at any later time.',
  ['schedules', 'histories', 'fault_sequences', 'crash_points'], 'every history of clients on a replicated region under faults', 'Tests run a single process without faults; stale leaders, stale timestamps and lost conditions need leader changes at particular points.',
  ['src/engine/storage.cc', 'src/engine/mono_store_engine.cc', 'src/server/store_service.cc', 'src/mvcc/reader.cc', 'src/mvcc/ts_provider.cc'],
  [('leader validation', 'src/engine/storage.cc'), ('latched evaluation of conditions', 'src/server/store_service.cc'), ('versioned writes', 'src/engine/mono_store_engine.cc')])
P('R01', 'An acknowledged write survives crashes and the region recovers',
  'A write that was acknowledged stays visible through any sequence of process crashes, power failures, partitions, leader changes, snapshots and log truncations that leaves a majority of disks intact. Once faults stop, the region elects a leader, serves every key and all replicas catch up within a bounded time.',
  ['crash_points', 'fault_sequences', 'schedules'], 'every crash point, power failure and partition, for a 3-replica region', 'Unit tests never crash a node; recovery depends on what was durable at the crash.',
  ['src/raft/store_state_machine.cc', 'src/log/segment_log_storage.cc', 'src/log/rocks_log_storage.cc', 'src/engine/raft_store_engine.cc', 'src/meta/store_meta_manager.cc', 'src/handler/raft_snapshot_handler.cc'],
  [('apply and applied index', 'src/raft/store_state_machine.cc'), ('log storage', 'src/log/segment_log_storage.cc'), ('recovery of regions and raft nodes', 'src/server/server.cc')])
P('R02', 'Replicas that applied the same log hold the same data',
  'All replicas of a region that have applied the same log index hold byte-identical data in every column family. This holds whether a replica got there by applying entries, by replaying after a crash, or by installing a snapshot.',
  ['schedules', 'crash_points', 'fault_sequences'], 'every mix of live apply, replay after crash and snapshot install', 'No test runs three replicas; divergence appears only after replay or snapshot at particular indexes.',
  ['src/handler/raft_apply_handler.cc', 'src/handler/raft_snapshot_handler.cc', 'src/raft/dingo_filesystem_adaptor.cc', 'src/raft/store_state_machine.cc'],
  [('deterministic apply', 'src/handler/raft_apply_handler.cc'), ('snapshot stream', 'src/raft/dingo_filesystem_adaptor.cc')])
P('R03', 'A region split loses nothing and leaves every key exactly one owner',
  'While a region splits, every acknowledged write stays readable and reads and writes on any key keep one atomic order, whichever region serves it and whichever replica crashes. A request that carries the old region version is refused or ordered before the split. Once faults stop, every replica has carried the split out: regions cover the key range without gap or overlap, every region serves, and its replicas hold the same data.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'every split key and strategy, every crash point inside the split on each replica, and every interleaving with client writes', 'Tests check the split key functions; the split spans the raft log of one region, the metadata of two and a snapshot, so its errors need a crash or a race between those steps.',
  ['src/handler/raft_apply_handler.cc', 'src/store/region_controller.cc', 'src/split/split_checker.cc', 'src/meta/store_meta_manager.cc', 'src/raft/store_state_machine.cc'],
  [('split apply (pre-create and post-create)', 'src/handler/raft_apply_handler.cc'), ('region epoch check', 'src/server/service_helper.cc'), ('region metadata', 'src/meta/store_meta_manager.cc')])
P('R04', 'A region merge loses nothing and leaves every key exactly one owner',
  'While two neighbouring regions merge, every acknowledged write to either stays readable and operations keep one atomic order, whichever replica crashes or lags between preparation and commit. No write is accepted by the source once its merge was prepared. Once faults stop, every replica has carried the merge out and the remaining regions cover the key range without gap or overlap, serve, and hold the same data on all replicas.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'every crash or lag of a replica between merge preparation, commit and log catch-up, and every interleaving with client writes', 'A merge couples the logs of two regions on every replica; its errors need one replica to lag or restart between the steps, which no single-process test does.',
  ['src/handler/raft_apply_handler.cc', 'src/store/region_controller.cc', 'src/engine/mono_store_engine.cc', 'src/meta/store_meta_manager.cc', 'src/raft/store_state_machine.cc'],
  [('prepare, commit and rollback of a merge', 'src/handler/raft_apply_handler.cc'), ('log catch-up of the source', 'src/handler/raft_apply_handler.cc')])
TXF = ['src/engine/txn_engine_helper.cc', 'src/engine/storage.cc', 'src/server/store_service.cc', 'src/server/service_helper.cc', 'src/handler/raft_apply_handler.cc']
P('T01', 'A transaction takes effect on all of its keys at one commit timestamp or on none',
  'Once every lock is resolved, each transaction has either a commit record with the same commit timestamp and the written value on every key it wrote, in every region, or no commit record at all. A transaction reported committed is in the first case and one reported aborted in the second. A commit record, once written, is never overwritten or lost, and replicas agree on it.',
  ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every client death, message loss, store crash and leader change during prewrite, commit, rollback and lock resolution by others', 'The engine tests call the steps one after another on one store; partial effects need a client or leader to die between two steps and somebody else to resolve.',
  TXF, [('prewrite, commit, rollback', 'src/engine/txn_engine_helper.cc'), ('atomic apply of a multi column family batch', 'src/handler/raft_apply_handler.cc')])
P('T02', 'A snapshot read returns the newest version committed at or before its timestamp',
  'A get, batch get or scan at a timestamp returns, for every key, exactly the newest version whose commit timestamp is at or before it, and nothing committed later, locked, rolled back or deleted. This stays true for transactions that commit after the read was answered, and repeated reads at one timestamp agree. A scan returns its keys in order and without gaps across pages.',
  ['histories', 'schedules', 'fault_sequences'], 'every read timestamp and every interleaving with prewrites, commits and lock resolution', 'Tests check reads of a quiet store; an anomaly needs a commit racing the read.',
  TXF + ['src/mvcc/reader.cc'], [('lock check and version search of reads', 'src/engine/txn_engine_helper.cc'), ('scan', 'src/engine/txn_engine_helper.cc')])
P('T03', 'Committed transactions lose no update and insert only what is absent',
  'When a transaction commits a write on a key, no other transaction committed that key between the snapshot it started from (or locked at) and its own commit timestamp. An insert-if-absent commits only if the key did not exist just below its commit timestamp.',
  ['histories', 'schedules', 'fault_sequences'], 'every set of conflicting transactions, retries and repeated requests', 'Write conflicts are tested pairwise in a fixed order on one store.',
  TXF, [('write conflict check', 'src/engine/txn_engine_helper.cc'), ('key latches around check and write', 'src/server/service_helper.cc')])
P('T04', 'Live locks are respected and dead ones can always be resolved',
  'A transaction whose primary lock was acknowledged is not rolled back by others before the lock lifetime has passed. Once faults stop, the locks of dead clients can be resolved by other clients within a bounded time and every key becomes readable and its replicas converge.',
  ['histories', 'fault_sequences', 'crash_points'], 'every point at which clients and stores die, with clock skew', 'No test kills a client; expiry and resolution are tested with hand-made locks.',
  TXF, [('transaction status check', 'src/engine/txn_engine_helper.cc'), ('lock resolution and heartbeat', 'src/engine/txn_engine_helper.cc')])
P('T05', 'Async and one-phase commits are as durable and isolated as two-phase ones',
  'When a client may conclude from prewrite answers that an async or one-phase transaction is committed at a timestamp, it ends committed at exactly that timestamp, whoever resolves it and through any crash or leader change. No read already answered at or above that timestamp missed it.',
  ['histories', 'schedules', 'fault_sequences', 'crash_points'], 'every interleaving of prewrite answers, reads, leader changes and resolution by other clients', 'The commit timestamp is computed from in-memory state of the leader; only a leader change or a racing read exposes an error.',
  TXF + ['src/engine/concurrency_manager.cc', 'src/event/store_state_machine_event.cc'], [('minimum commit timestamp and in-memory lock table', 'src/engine/txn_engine_helper.cc'), ('secondary lock check', 'src/engine/txn_engine_helper.cc')])
P('T06', 'A pessimistic lock that was granted keeps other writers out',
  'While a pessimistic lock that was acknowledged is alive, no other transaction commits a write to its key. The value returned with the lock is the one just below the commit timestamp of the transaction that holds it, if that transaction commits.',
  ['histories', 'schedules', 'fault_sequences'], 'every interleaving of lock, prewrite, commit and rollback requests and their repetitions', 'Lock conflicts are tested with two transactions in a fixed order and without lost replies.',
  TXF, [('pessimistic lock and its conversion by prewrite', 'src/engine/txn_engine_helper.cc')])
P('T07', 'Garbage collection does not change what reads at or above the safe point see',
  'Collecting old versions up to a safe point changes no result of any read at a timestamp at or above the safe point, whether the read runs before, during or after the collection, and through crashes in its middle. It never removes locks, data or commit records that such a read or an unfinished transaction needs.',
  ['histories', 'crash_points', 'schedules', 'inputs'], 'every version history, safe point, batch size and crash or leader change during collection', 'Tests collect a fixed data set on one store and compare counts.',
  ['src/engine/txn_engine_helper.cc', 'src/engine/gc_safe_point.cc', 'src/server/store_service.cc'], [('version selection and batches', 'src/engine/txn_engine_helper.cc'), ('safe point bookkeeping', 'src/engine/gc_safe_point.cc')])
COF = ['src/coordinator/coordinator_control_fsm.cc', 'src/server/coordinator_service.cc', 'src/engine/raft_store_engine.cc']
P('C01', 'Timestamps from the coordinator are unique and increasing across leaders',
  'Any two timestamps handed out by the coordinator group are different, and a request that starts after another was answered gets only larger ones. This holds through crashes, power failures, leader changes, clock jumps and explicit updates of the clock. Once faults stop, timestamps are served again within a bounded time.',
  ['schedules', 'fault_sequences', 'crash_points', 'histories'], 'every sequence of leader changes, restarts, clock jumps and concurrent requests', 'No test runs a coordinator group; reuse needs a leader change between a grant and its synchronisation.',
  ['src/coordinator/tso_control.cc', 'src/coordinator/tso_control.h'] + COF[1:], [('physical and logical clock, saved upper bound', 'src/coordinator/tso_control.cc'), ('start of a new leader', 'src/coordinator/tso_control.cc')])
P('C02', 'Auto-increment ids are never handed out twice',
  'Id ranges generated for a table never overlap, follow the requested increment and offset, and lie above every start value that was set before. Create, update, delete and get of a counter and generated ranges take effect atomically in an order that respects real time, through crashes, leader changes and retried requests. A counter is lost only when it is deleted.',
  ['schedules', 'fault_sequences', 'crash_points', 'inputs', 'histories'], 'every history of counter operations, with any counts, increments and offsets, under faults', 'Tests skip without a live coordinator; overlap needs large counts, repeated requests or leader changes.',
  ['src/coordinator/auto_increment_control.cc', 'src/coordinator/auto_increment_control.h'] + COF[1:], [('range computation', 'src/coordinator/auto_increment_control.cc'), ('replicated apply of counter changes', 'src/coordinator/auto_increment_control.cc')])
CVQ = (['schedules', 'histories', 'fault_sequences', 'crash_points'], 'every history of clients on replicated coordinators, under crashes at any point, snapshots, partitions and leader changes', 'The unit tests call the index code on one process without a replicated log; the failures need crashes, log replay, races between clients or leader changes.')
P('C06', 'Version KV revisions, reads and previous values match one ordered history',
  'Every applied put or delete of the version KV store gets its own revision, revisions grow with the replicated order, and the create revision, modify revision, version and lease of each key follow from that order. A read, an answered put or delete, and the previous values they report agree with that history at a point inside the request; a read at an older revision returns what was current then. Crashes, restarts, snapshots and leader changes neither change nor repeat the history, and all replicas and their in-memory indexes agree with it.',
  *CVQ, ['src/coordinator/kv_control_kv.cc', 'src/coordinator/kv_control_fsm.cc', 'src/coordinator/kv_control.h', 'src/server/version_service.cc'],
  [('revision and index records', 'src/coordinator/kv_control_kv.cc'), ('replicated apply, snapshot load and recovery', 'src/coordinator/kv_control_fsm.cc')])
P('C07', 'A version KV lease ends exactly when it should and takes its keys with it',
  'A granted lease that is renewed in time does not end, and one that is not renewed ends after its time to live, also across leader changes and restarts. When a lease ends, exactly the keys attached to it at that moment are deleted, and no key stays attached to a lease that is gone. Lease ids are not granted twice, and lease queries report the granted leases and the keys attached to them.',
  *CVQ, ['src/coordinator/kv_control_lease.cc', 'src/coordinator/kv_control_kv.cc', 'src/coordinator/kv_control_fsm.cc', 'src/server/version_service.cc'],
  [('lease grant, renew, revoke and expiry task', 'src/coordinator/kv_control_lease.cc')])
P('C08', 'A one-time version KV watch reports the first matching event',
  'A one-time watch from a revision is answered with the first event on its key at or after that revision that passes its filters, with the values of the replicated history. While the leader stays and the node is up, a watch whose event happened is answered and a watch is never answered without such an event.',
  *CVQ, ['src/coordinator/kv_control_watch.cc', 'src/coordinator/kv_control_kv.cc', 'src/coordinator/kv_control_fsm.cc', 'src/server/version_service.cc'],
  [('watch registry and triggers', 'src/coordinator/kv_control_watch.cc')])
P('C09', 'Version KV compaction removes history and nothing else',
  'Compacting a key to a revision removes only versions older than it that a later version replaced: the current value and every revision at or above the point stay readable with the same content. Automatic compaction reaches every key, and replicas agree after it, also when leaders change or nodes crash in between.',
  *CVQ, ['src/coordinator/kv_control_kv.cc', 'src/coordinator/kv_control_fsm.cc'],
  [('manual and automatic compaction', 'src/coordinator/kv_control_kv.cc')])
NA = {}
