# What each check runs. Titles and statements are in properties.jsonl.
COMMON_ASSUME = ['sequentially consistent memory between scheduling points (weaker hardware orderings are not explored)', 'brpc, bthread, braft and RocksDB are simulator stand-ins with their documented semantics; the code under /repo/src is compiled and run as is']
SHIM = ['bthread/pthread locks, fibers and clocks (simulator)']
STORE = ['server/store_service, engine (storage, mono_store_engine, rocks_raw_engine), mvcc, raft state machine and node wrapper, log storages, handler (apply, snapshot, vote), meta, event, config, crontab']
CLU = ['braft consensus core (simulated protocol: elections, replication, snapshots, joint configuration)', 'brpc transport', 'RocksDB storage (in-memory model with WAL loss on power failure)', 'coordinator (timestamp service only)']
TXR = ['engine/txn_engine_helper, concurrency_manager, gc_safe_point']
TX = '3 stores, 1-2 regions, 2-4 clients that run the Percolator client protocol (optimistic or pessimistic, two-phase, async or one-phase commit), die at random steps and resolve the locks of others, while 0-5 faults happen; '
COORD = ['server/coordinator_service, meta_service, version_service', 'engine (raft_store_engine, raft_meta_engine, rocks_raw_engine)', 'raft meta state machine and node wrapper', 'coordinator (the control object of the property), crontab, config']
CST = ['braft consensus core (simulated protocol)', 'brpc transport', 'RocksDB storage (in-memory model with WAL loss on power failure)']
CO = '3 coordinators with their raft groups, 2-5 clients that follow leader hints and retry, 0-6 faults (crash, power failure, partition, leader cut from its peers, stepdown, clock jump, slow disk, snapshot); '
VR = CO + 'clients put, delete, range over, compact, watch, and grant, renew, revoke and query leases on 2-4 keys of the version store; '
RG = '3 stores under a scripted coordinator and 2-4 clients that write and read and follow the region map while regions '
RGR = ['store/region_controller (split, merge, create tasks)', 'handler/raft_apply_handler split and merge handlers', 'meta/store_meta_manager, region change recorder']
PROPS = {
 'U01': dict(worlds=['latch'], quick_secs=30, thorough_secs=600, rule='2-10 clients latch random overlapping key sets on one region, with 1-16 slots.', real=['common/latch', 'server/service_helper latch protocol', 'meta/store_meta_manager Region latches', 'common/synchronization BthreadCond'], stub=SHIM),
 'U02': dict(worlds=['smap', 'stdmap'], quick_secs=30, thorough_secs=600, rule='2-5 clients run up to 14 mixed map operations; the history is searched for an atomic order.', real=['common/safe_map'], stub=SHIM + ['butil::DoublyBufferedData']),
 'U03': dict(worlds=['wset', 'wset', 'wprio', 'wdrain', 'wdrain'], quick_secs=30, thorough_secs=600, rule='1-5 clients submit tasks to one of the three worker sets with random limits, modes, and shutdown times.', real=['common/runnable worker sets'], stub=SHIM + ['bthread execution queue']),
 'U05': dict(worlds=['tsp'], quick_secs=40, thorough_secs=600, rule='1-6 clients fetch timestamps while batches expire, requests are lost and duplicated, and lower bounds move.', real=['mvcc/ts_provider', 'coordinator/coordinator_interaction', 'common/runnable'], stub=SHIM + ['timestamp service (monotonic counter)', 'network']),
 'U06': dict(worlds=['rw'], quick_secs=30, thorough_secs=600, rule='2-7 clients use the reader-writer lock, the semaphore, the resource pool and a countdown condition.', real=['common/synchronization'], stub=SHIM),
 'K01': dict(worlds=['raw'], quick_secs=80, thorough_secs=1500, rule='3 stores, one raft region, 2-5 clients run 4-14 raw operations each on 1-4 keys while 0-6 faults happen; the reported operations are searched for one atomic order.', real=STORE, stub=SHIM + CLU),
 'R01': dict(worlds=['raw'], params=dict(sep=1), quick_secs=60, thorough_secs=1200, rule='The raw operations of K01 with crashes, power failures, partitions, stepdowns, forced snapshots and disk errors; afterwards faults stop and every key must be served and every replica must catch up within 30 simulated seconds.', real=STORE, stub=SHIM + CLU),
 'R02': dict(worlds=['raw'], params=dict(sep=1), quick_secs=60, thorough_secs=1200, rule='After the faults stop and all replicas applied the same index, the full contents of every column family are compared byte for byte.', real=STORE, stub=SHIM + CLU),
 'R03': dict(worlds=['reg'], quick_secs=50, thorough_secs=1200, rule=RG + 'split at random keys (both split strategies), with crashes, power failures, partitions, snapshots and stepdowns; afterwards every store must have the same regions without gap or overlap, every key must be served, replicas must be equal, and the operation history must have one atomic order.', real=STORE + RGR, stub=SHIM + CLU),
 'R04': dict(worlds=['reg'], params=dict(merge=1), quick_secs=50, thorough_secs=1200, rule=RG + 'split and adjacent regions merge, with the same faults and final checks.', real=STORE + RGR, stub=SHIM + CLU),
 'T01': dict(worlds=['txn'], quick_secs=40, thorough_secs=1000, rule=TX + 'at the end every lock is resolved and the commit records of every transaction are compared with what was reported, and replicas byte for byte.', real=STORE + TXR, stub=SHIM + CLU),
 'T02': dict(worlds=['txn'], quick_secs=40, thorough_secs=1000, rule=TX + 'every read is compared with the committed versions taken from the replicated log.', real=STORE + TXR, stub=SHIM + CLU),
 'T03': dict(worlds=['txn'], quick_secs=40, thorough_secs=900, rule=TX + 'every committed write is checked against the other commits between its base snapshot and its commit.', real=STORE + TXR, stub=SHIM + CLU),
 'T04': dict(worlds=['txn'], params=dict(ttl=1), quick_secs=50, thorough_secs=900, rule=TX + 'rollback records are checked against acknowledged lock lifetimes; after the faults a sweep must clear every lock within 40 simulated seconds.', real=STORE + TXR, stub=SHIM + CLU),
 'T05': dict(worlds=['txn'], params=dict(mode=234), quick_secs=50, thorough_secs=1200, rule=TX + 'most transactions use async or one-phase commit.', real=STORE + TXR, stub=SHIM + CLU),
 'T06': dict(worlds=['txn'], params=dict(mode=1), quick_secs=40, thorough_secs=900, rule=TX + 'most transactions are pessimistic.', real=STORE + TXR, stub=SHIM + CLU),
 'T07': dict(worlds=['txn'], params=dict(gc=1), quick_secs=50, thorough_secs=1000, rule=TX + 'a collector publishes safe points below every active read and collects with small and large batches.', real=STORE + TXR, stub=SHIM + CLU),
 'C01': dict(worlds=['tso'], quick_secs=40, thorough_secs=800, rule=CO + 'clients fetch batches of timestamps and sometimes update or reset the clock.', real=COORD, stub=SHIM + CST),
 'C02': dict(worlds=['inc'], quick_secs=40, thorough_secs=800, rule=CO + 'clients create, update, generate from, read and delete 1-3 counters; the history is searched for an atomic order and the ranges for overlap.', real=COORD, stub=SHIM + CST),
 'C06': dict(worlds=['ver'], quick_secs=40, thorough_secs=900, rule=VR + 'every answer, every replica and every in-memory index is compared with a model fed by the replicated log.', real=COORD, stub=SHIM + CST),
 'C07': dict(worlds=['ver'], params=dict(focus='lease'), quick_secs=40, thorough_secs=900, rule=VR + 'most operations are about leases; leases must live and end on time and take exactly their keys.', real=COORD, stub=SHIM + CST),
 'C08': dict(worlds=['ver'], params=dict(focus='watch'), quick_secs=40, thorough_secs=900, rule=VR + 'most operations are watches and changes of the watched keys; in the quiet phase every watch must be answered with the first matching event.', real=COORD, stub=SHIM + CST),
 'C09': dict(worlds=['ver'], params=dict(focus='compact'), quick_secs=40, thorough_secs=900, rule=VR + 'many manual and automatic compactions; old revisions are read back and compared.', real=COORD, stub=SHIM + CST),
}
