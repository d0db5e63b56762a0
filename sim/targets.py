import os
REPO = os.environ.get('VERIF_REPO', '/repo')
def d(dirname, skip=()):
    return [f'{dirname}/{f}' for f in sorted(os.listdir(f'{REPO}/src/{dirname}')) if f.endswith('.cc') and not any(s in f for s in skip)]
PBS = ['proto/'+p for p in ('cluster_stat','common','coordinator','coordinator_internal','debug','diskann','document','error','file_service','index','meta','node','push','raft','store','store_internal','stream','util','version')] + ['braft/enum','braft/errno','braft/local_storage','braft/local_file_meta','braft/raft']
LIBS = ['-lprotobuf', '-lgflags', '-lfmt', '-lboost_context', '-lyaml-cpp', '-lcrypto', '-ldl', '-lrt']
CORE = ['core/sim.cc', 'core/heap.cc', 'core/runner.cc', 'shim_impl/butil.cc', 'shim_impl/sync.cc', 'shim_impl/rocksdb.cc', 'shim_impl/brpc.cc', 'shim_impl/braft.cc']
NOPCH = {'core/sim.cc', 'core/heap.cc', 'core/runner.cc', 'shim_impl/sync.cc'}
# process-wide singletons become per simulated process: these symbols are weakened and world/cluster.cc defines them
PERNODE = {
  'common/helper.cc': ['_ZN7dingodb6Helper17GetSystemCpuUsageERSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEElSt4lessIS7_ESaISt4pairIKS7_lEEE',
    '_ZN7dingodb6Helper19GetSystemDiskIoUtilERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERSt3mapIS6_lSt4lessIS6_ESaISt4pairIS7_lEEE',
    '_ZN7dingodb6Helper19GetSystemMemoryInfoERSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEElSt4lessIS7_ESaISt4pairIKS7_lEEE',
    '_ZN7dingodb6Helper20GetProcessMemoryInfoERSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEElSt4lessIS7_ESaISt4pairIKS7_lEEE',
    '_ZN7dingodb6Helper21GetSystemDiskCapacityERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERSt3mapIS6_lSt4lessIS6_ESaISt4pairIS7_lEEE'],
  'server/server.cc': ['_ZN7dingodb6Server11GetInstanceEv'],
  'config/config_manager.cc': ['_ZN7dingodb13ConfigManager11GetInstanceEv'],
  'engine/gc_task_tracker.cc': ['_ZN7dingodb13GcTaskTracker11GetInstanceEv'],
  'metrics/store_bvar_metrics.cc': ['_ZN7dingodb16StoreBvarMetrics11GetInstanceEv'],
  'common/failpoint.cc': ['_ZN7dingodb16FailPointManager11GetInstanceEv'],
  'common/service_access.cc': ['_ZN7dingodb11ChannelPool11GetInstanceEv'],
  'server/version_service.cc': ['_ZN7dingodb14VersionService11GetInstanceEv'],
  'server/file_service.cc': ['_ZN7dingodb24FileServiceReaderManager11GetInstanceEv'],
  'common/role.cc': ['_ZN7dingodb11GetRoleNameB5cxx11Ev', '_ZN7dingodb7GetRoleEv'],
}
SKIP = ('bdb_raw', 'xdprocks', 'diskann', 'debug_service', 'document_service', 'index_service', 'util_service', 'cluster_service','region_service','table_service','job_service','store_metrics_service','store_operation_service')
FULL = sum([d(x, SKIP) for x in 'common config crontab event handler log merge meta metrics mvcc raft scan split store engine coordinator'.split()], []) + [f for f in d('server', SKIP) if not f.endswith('/main.cc')]
EXTRA = ['vector/codec.cc', 'vector/vector_index_manager.cc', 'vector/vector_index_flat.cc', 'vector/vector_index_factory.cc', 'vector/vector_index_bruteforce.cc', 'document/document_index_manager.cc', 'coprocessor/raw_coprocessor.cc']
FULL += EXTRA
CLUSTER = ['shim_impl/hostinfo.cc', 'world/cluster.cc', 'world/store.cc']
WORLDS = ['world/comp.cc', 'world/hdr_inst.cc', 'world/raw.cc', 'world/txn.cc', 'world/coor.cc', 'world/ver.cc', 'world/reg.cc'] + CLUSTER
TARGETS = {
  'full': {'src': FULL, 'sim': CORE + WORLDS, 'stubs': True},
}
if os.environ.get('SIM_DEMO_SRC') is not None:
    s = os.environ['SIM_DEMO_SRC'].split()
    TARGETS['demo'] = {'src': FULL if s == ['FULL'] else s, 'sim': CORE + ['world/demo.cc'] + (CLUSTER if s == ['FULL'] else []), 'stubs': True}
