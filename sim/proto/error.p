syntax = "proto3"; package dingodb.pb.error; import "proto/common.proto"; option cc_enable_arenas = true;
enum Errno { OK = 0;
  EAUTO_INCREMENT_EXIST = 10001;
  EAUTO_INCREMENT_NOT_FOUND = 10002;
  EAUTO_INCREMENT_WHILE_CREATING_TABLE = 10003;
  EBACKUP_CREATE_REMOTE_DIR = 10004;
  EBACKUP_DINGO_STORE_JOB_LIST_EXIST = 10005;
  EBACKUP_TASK_EXIST = 10006;
  EBACKUP_TASK_NAME_NOT_MATCH = 10007;
  EBACKUP_TXN_FOUND_LOCK = 10008;
  EBACKUP_VERSION_NOT_MATCH = 10009;
  EBDB_COMMIT = 10010;
  EBDB_DEADLOCK = 10011;
  EBDB_EXCEPTION = 10012;
  EBDB_UNKNOW = 10013;
  EBIND_CORE = 10014;
  EBRAFT_EINVAL = 10015;
  ECHANGE_PEER_STATUS_ILLEGAL = 10016;
  ECHANGE_PEER_STORE_ENGINE_NOT_MATCH = 10017;
  ECHANGE_PEER_UNABLE_TO_REMOVE_LEADER = 10018;
  EDISKANN_AIO_NOT_ENOUGH = 10019;
  EDISKANN_BUILD_STATE_WRONG = 10020;
  EDISKANN_FILE_TRANSFER_QUANTITY_MISMATCH = 10021;
  EDISKANN_ID_BIN_COUNT_NOT_MATCH = 10022;
  EDISKANN_ID_BIN_DIMENSION_NOT_MATCH = 10023;
  EDISKANN_ID_BIN_READ_ERROR = 10024;
  EDISKANN_IMPORT_COUNT_TOO_FEW = 10025;
  EDISKANN_IMPORT_COUNT_TOO_MANY = 10026;
  EDISKANN_IMPORT_FAILED = 10027;
  EDISKANN_IMPORT_STATE_WRONG = 10028;
  EDISKANN_IMPORT_TIMEOUT = 10029;
  EDISKANN_IMPORT_TSO_NOT_MATCH = 10030;
  EDISKANN_IMPORT_TS_NOT_MATCH = 10031;
  EDISKANN_IMPORT_VECTOR_ID_COUNT_NOT_MATCH = 10032;
  EDISKANN_IMPORT_VECTOR_ID_DUPLICATED = 10033;
  EDISKANN_IS_BUILDING = 10034;
  EDISKANN_IS_IMPORTING = 10035;
  EDISKANN_IS_LOADING = 10036;
  EDISKANN_IS_NO_DATA = 10037;
  EDISKANN_LOAD_STATE_WRONG = 10038;
  EDISKANN_NET_DISCONNECTED = 10039;
  EDISKANN_NOT_BUILD = 10040;
  EDISKANN_NOT_IMPORT = 10041;
  EDISKANN_NOT_INIT = 10042;
  EDISKANN_NOT_LOAD = 10043;
  EDISKANN_NOT_UPDATE = 10044;
  EDISKANN_NO_DATA_STATE_WRONG = 10045;
  EDISKANN_TRYLOAD_STATE_WRONG = 10046;
  EDOCUMENT_EMPTY = 10047;
  EDOCUMENT_EXCEED_MAX_BATCH_COUNT = 10048;
  EDOCUMENT_EXCEED_MAX_REQUEST_SIZE = 10049;
  EDOCUMENT_INDEX_BUILD_ERROR = 10050;
  EDOCUMENT_INDEX_FULL = 10051;
  EDOCUMENT_INDEX_LOAD_SNAPSHOT = 10052;
  EDOCUMENT_INDEX_NOT_FOUND = 10053;
  EDOCUMENT_INDEX_NOT_READY = 10054;
  EENGINE_NOT_FOUND = 10055;
  EEXECUTOR_NOT_FOUND = 10056;
  EEXEC_FAIL = 10057;
  EFAIL_POINT = 10058;
  EFAIL_POINT_RETURN = 10059;
  EFILE_CROSS_DEVICE = 10060;
  EFILE_EXIST = 10061;
  EFILE_NOT_DIRECTORY = 10062;
  EFILE_NOT_EXIST = 10063;
  EFILE_NOT_FOUND_READER = 10064;
  EFILE_NOT_OWNER_READABLE = 10065;
  EFILE_NOT_REGULAR = 10066;
  EFILE_PERMISSION_DENIED = 10067;
  EFILE_READ = 10068;
  EILLEGAL_PARAMTETERS = 10069;
  EINDEX_COLUMN_NOT_FOUND = 10070;
  EINDEX_COMPATIBILITY = 10071;
  EINDEX_COUNT_EXCEED_LIMIT = 10072;
  EINDEX_DEFINITION_ILLEGAL = 10073;
  EINDEX_EXISTS = 10074;
  EINDEX_METRICS_FAILED = 10075;
  EINDEX_NOT_FOUND = 10076;
  EINDEX_REGION_CREATE_FAILED = 10077;
  EINTERNAL = 10078;
  EJOB_ID_EMPTY = 10079;
  EKEYRING_ILLEGAL = 10080;
  EKEY_EMPTY = 10081;
  EKEY_INVALID = 10082;
  EKEY_NOT_FOUND = 10083;
  EKEY_OUT_OF_RANGE = 10084;
  EKV_COUNT_EXCEEDS_LIMIT = 10085;
  ELEASE_COUNT_EXCEEDS_LIMIT = 10086;
  ELEASE_NOT_EXISTS_OR_EXPIRED = 10087;
  EMERGE_PART_NOT_MATCH = 10088;
  EMERGE_PEER_NOT_MATCH = 10089;
  EMERGE_RANGE_NOT_MATCH = 10090;
  EMERGE_RAW_ENGINE_NOT_MATCH = 10091;
  EMERGE_REGION_TYPE_NOT_MATCH = 10092;
  EMERGE_STATUS_ILLEGAL = 10093;
  EMERGE_STORE_ENGINE_NOT_MATCH = 10094;
  EMERGE_VECTOR_INDEX_PARAMETER_NOT_MATCH = 10095;
  EMERGE_VECTOR_INDEX_TYPE_NOT_MATCH = 10096;
  ENOT_SUPPORT = 10097;
  ENO_ENTRIES = 10098;
  ERAFT_COMMITLOG = 10099;
  ERAFT_DISABLE_SAVE_SNAPSHOT = 10100;
  ERAFT_EXIST_CHANGE_LOG = 10101;
  ERAFT_INIT = 10102;
  ERAFT_META_NOT_FOUND = 10103;
  ERAFT_NOTLEADER = 10104;
  ERAFT_NOT_CONSISTENT_READ = 10105;
  ERAFT_NOT_FOUND = 10106;
  ERAFT_NOT_FOUND_LOG_STORAGE = 10107;
  ERAFT_NOT_NEED_SNAPSHOT = 10108;
  ERAFT_SAVE_SNAPSHOT = 10109;
  ERAFT_TRANSFER_LEADER = 10110;
  ERANGE_INVALID = 10111;
  ERAW_ENGINE_NOT_FOUND = 10112;
  EREGION_BUSY = 10113;
  EREGION_CMD_NOT_FOUND = 10114;
  EREGION_CMD_ONGOING_CONFLICT = 10115;
  EREGION_COUNT_EXCEED_LIMIT = 10116;
  EREGION_DELETED = 10117;
  EREGION_DELETING = 10118;
  EREGION_DISABLE_CHANGE = 10119;
  EREGION_DISABLE_MERGE = 10120;
  EREGION_DISABLE_SPLIT = 10121;
  EREGION_EXIST = 10122;
  EREGION_MERGEING = 10123;
  EREGION_NEW = 10124;
  EREGION_NOT_FOUND = 10125;
  EREGION_NOT_NEIGHBOR = 10126;
  EREGION_ORPHAN = 10127;
  EREGION_PEER_CHANGEING = 10128;
  EREGION_RANGE_CONFLICT = 10129;
  EREGION_REDIRECT = 10130;
  EREGION_REPEAT_COMMAND = 10131;
  EREGION_SNAPSHOT_EPOCH_NOT_MATCH = 10132;
  EREGION_SPLITING = 10133;
  EREGION_STANDBY = 10134;
  EREGION_STATE = 10135;
  EREGION_TOMBSTONE = 10136;
  EREGION_UNAVAILABLE = 10137;
  EREGION_VERSION = 10138;
  EREQUEST_FULL = 10139;
  ERESTORE_BACKEND_NOT_SUPPORT = 10140;
  ERESTORE_CF_NOT_MATCH = 10141;
  ERESTORE_DINGO_STORE_IS_BACKING_UP = 10142;
  ERESTORE_DINGO_STORE_NOT_EMPTY = 10143;
  ERESTORE_DOCUMENT_NODE_NOT_EXIST = 10144;
  ERESTORE_FIELD_NOT_MATCH = 10145;
  ERESTORE_FILE_CHECKSUM_NOT_MATCH = 10146;
  ERESTORE_INDEX_NODE_NOT_EXIST = 10147;
  ERESTORE_NOT_FOUND_KEY_IN_FILE = 10148;
  ERESTORE_PARSE_FILE_NAME_FAILED = 10149;
  ERESTORE_REGION_ID_NOT_MATCH = 10150;
  ERESTORE_REGION_META_NOT_FOUND = 10151;
  ERESTORE_STORE_NODE_NOT_EXIST = 10152;
  ERESTORE_TASK_EXIST = 10153;
  ERESTORE_TASK_NAME_NOT_MATCH = 10154;
  ERETRY_LATER = 10155;
  EROCKS_ENGINE_UPDATE = 10156;
  ESCAN_NOTFOUND = 10157;
  ESCHEMA_EXISTS = 10158;
  ESCHEMA_NOT_EMPTY = 10159;
  ESCHEMA_NOT_FOUND = 10160;
  ESEND_STORE_OPERATION_FAIL = 10161;
  ESPLIT_PEER_NOT_MATCH = 10162;
  ESPLIT_STATUS_ILLEGAL = 10163;
  ESTD_EXCEPTION = 10164;
  ESTORE_IN_USE = 10165;
  ESTORE_NOT_FOUND = 10166;
  ESTORE_OPERATION_CONFLICT = 10167;
  ESTREAM_EXPIRED = 10168;
  ESYSTEM_CLUSTER_READ_ONLY = 10169;
  ETABLE_COUNT_EXCEED_LIMIT = 10170;
  ETABLE_DEFINITION_ILLEGAL = 10171;
  ETABLE_EXISTS = 10172;
  ETABLE_METRICS_FAILED = 10173;
  ETABLE_NOT_FOUND = 10174;
  ETABLE_REGION_CREATE_FAILED = 10175;
  ETASK_LIST_CONFLICT = 10176;
  ETHREADPOOL_NOTFOUND = 10177;
  ETSO_NOT_AVAILABLE = 10178;
  ETXN_LOCK_CONFLICT = 10179;
  ETXN_MEMORY_LOCK_CONFLICT = 10180;
  ETXN_RESULT_INFO_NOT_NULL = 10181;
  ETXN_SCAN_FINISH = 10182;
  EUNBIND_CORE = 10183;
  EUNSUPPORT_REQ_TYPE = 10184;
  EUSER_ALREADY_EXIST = 10185;
  EUSER_NOT_EXIST = 10186;
  EVALUE_EMPTY = 10187;
  EVECTOR_EMPTY = 10188;
  EVECTOR_EXCEED_MAX_BATCH_COUNT = 10189;
  EVECTOR_EXCEED_MAX_REQUEST_SIZE = 10190;
  EVECTOR_ID_DUPLICATED = 10191;
  EVECTOR_INDEX_BUILD_ERROR = 10192;
  EVECTOR_INDEX_EXCEED_MAX_ELEMENTS = 10193;
  EVECTOR_INDEX_LOAD_SNAPSHOT = 10194;
  EVECTOR_INDEX_NOT_FOUND = 10195;
  EVECTOR_INDEX_NOT_FOUND_DOCUMENT_INDEX = 10196;
  EVECTOR_INDEX_NOT_READY = 10197;
  EVECTOR_INDEX_NOT_SUPPORT_SPEEDUP = 10198;
  EVECTOR_INDEX_SAVE_SUCCESS = 10199;
  EVECTOR_INDEX_SNAPSHOT_VERSION_NOT_MATCH = 10200;
  EVECTOR_INVALID = 10201;
  EVECTOR_NOT_NEED_SNAPSHOT = 10202;
  EVECTOR_NOT_SUPPORT = 10203;
  EVECTOR_NOT_TRAIN = 10204;
  EVECTOR_SNAPSHOT_EXIST = 10205;
  EVECTOR_SNAPSHOT_NOT_FOUND = 10206;
  EWATCH_COUNT_EXCEEDS_LIMIT = 10207;
  EWATCH_EXIST = 10208;
  EWATCH_NOT_EXIST = 10209;
}
message StoreRegionInfo { common.RegionEpoch current_region_epoch; common.Range current_range; repeated common.Peer peers; int64 region_id; }
message Error { Errno errcode; string errmsg; common.Location leader_location; int64 store_id; StoreRegionInfo store_region_info; }


