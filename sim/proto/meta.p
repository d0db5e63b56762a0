syntax = "proto3"; package dingodb.pb.meta; import "proto/common.proto"; import "proto/error.proto"; import "proto/coordinator.proto"; import "proto/store.proto"; option cc_generic_services = true;
enum EntityType { ENTITY_TYPE_SCHEMA, ENTITY_TYPE_TABLE, ENTITY_TYPE_INDEX, ENTITY_TYPE_PART; }
enum ReservedSchemaIds { ROOT_SCHEMA, META_SCHEMA, DINGO_SCHEMA, MYSQL_SCHEMA, INFORMATION_SCHEMA; }
enum TsoOpType { OP_NONE, OP_GEN_TSO, OP_RESET_TSO, OP_UPDATE_TSO, OP_QUERY_TSO_INFO; }
enum MetaEventType { META_EVENT_NONE, META_EVENT_SCHEMA_CREATE, META_EVENT_SCHEMA_UPDATE, META_EVENT_SCHEMA_DELETE, META_EVENT_TABLE_CREATE, META_EVENT_TABLE_UPDATE, META_EVENT_TABLE_DELETE, META_EVENT_TABLE_INDEX_CREATE, META_EVENT_TABLE_INDEX_UPDATE, META_EVENT_TABLE_INDEX_DELETE, META_EVENT_INDEX_CREATE, META_EVENT_INDEX_UPDATE, META_EVENT_INDEX_DELETE, META_EVENT_REGION_CREATE, META_EVENT_REGION_UPDATE, META_EVENT_REGION_DELETE, META_EVENT_TENANT_CREATE, META_EVENT_TENANT_UPDATE, META_EVENT_TENANT_DELETE; }
message AddIndexOnTableRequest { common.RequestInfo request_info; TableDefinitionWithId table_definition_with_id; DingoCommonId table_id; }
message AddIndexOnTableResponse { error.Error error; }
message CleanDeletedIndexRequest { DingoCommonId index_id; common.RequestInfo request_info; }
message CleanDeletedIndexResponse { error.Error error; }
message CleanDeletedTableRequest { common.RequestInfo request_info; DingoCommonId table_id; }
message CleanDeletedTableResponse { error.Error error; }
message ColumnDefinition { bool is_auto_increment; string sql_type; }
message CreateAutoIncrementRequest { common.RequestInfo request_info; int64 start_id; DingoCommonId table_id; }
message CreateAutoIncrementResponse { error.Error error; }
message CreateAutoIncrementsRequest { common.RequestInfo request_info; TableIncrementGroup table_increment_group; }
message CreateAutoIncrementsResponse { error.Error error; }
message CreateIndexIdRequest { common.RequestInfo request_info; DingoCommonId schema_id; }
message CreateIndexIdResponse { error.Error error; DingoCommonId index_id; }
message CreateIndexMetasRequest { common.RequestInfo request_info; map<string,TablesAndIndexes> tables_and_indexes; }
message CreateIndexMetasResponse { error.Error error; }
message CreateIndexRequest { IndexDefinition index_definition; DingoCommonId index_id; common.RequestInfo request_info; DingoCommonId schema_id; }
message CreateIndexResponse { error.Error error; DingoCommonId index_id; }
message CreateOrUpdateAutoIncrementsRequest { common.RequestInfo request_info; TableIncrementGroup table_increment_group; }
message CreateOrUpdateAutoIncrementsResponse { error.Error error; }
message CreateSchemaRequest { DingoCommonId parent_schema_id; common.RequestInfo request_info; string schema_name; int64 tenant_id; }
message CreateSchemaResponse { error.Error error; Schema schema; }
message CreateSchemasRequest { common.RequestInfo request_info; map<int64,Schemas> schemas; }
message CreateSchemasResponse { error.Error error; }
message CreateTableIdRequest { common.RequestInfo request_info; DingoCommonId schema_id; }
message CreateTableIdResponse { error.Error error; DingoCommonId table_id; }
message CreateTableIdsRequest { int64 count; common.RequestInfo request_info; DingoCommonId schema_id; }
message CreateTableIdsResponse { error.Error error; repeated DingoCommonId table_ids; }
message CreateTableRequest { common.RequestInfo request_info; DingoCommonId schema_id; TableDefinition table_definition; DingoCommonId table_id; }
message CreateTableResponse { error.Error error; DingoCommonId table_id; }
message CreateTablesRequest { common.RequestInfo request_info; DingoCommonId schema_id; repeated TableDefinitionWithId table_definition_with_ids; }
message CreateTablesResponse { error.Error error; repeated DingoCommonId table_ids; }
message CreateTenantRequest { common.RequestInfo request_info; Tenant tenant; }
message CreateTenantResponse { error.Error error; Tenant tenant; }
message CreateTenantsRequest { common.RequestInfo request_info; repeated Tenant tenants; }
message CreateTenantsResponse { error.Error error; }
message DeleteAutoIncrementRequest { common.RequestInfo request_info; DingoCommonId table_id; }
message DeleteAutoIncrementResponse { error.Error error; }
message DingoCommonId { int64 entity_id; EntityType entity_type; int64 parent_entity_id; }
message DropIndexOnTableRequest { DingoCommonId index_id; common.RequestInfo request_info; DingoCommonId table_id; }
message DropIndexOnTableResponse { error.Error error; }
message DropIndexRequest { DingoCommonId index_id; common.RequestInfo request_info; }
message DropIndexResponse { error.Error error; }
message DropSchemaRequest { common.RequestInfo request_info; DingoCommonId schema_id; int64 tenant_id; }
message DropSchemaResponse { error.Error error; }
message DropTableRequest { common.RequestInfo request_info; DingoCommonId table_id; }
message DropTableResponse { error.Error error; }
message DropTablesRequest { common.RequestInfo request_info; repeated DingoCommonId table_ids; }
message DropTablesResponse { error.Error error; }
message DropTenantRequest { common.RequestInfo request_info; int64 tenant_id; }
message DropTenantResponse { error.Error error; }
message ExportMetaRequest { common.RequestInfo request_info; }
message ExportMetaResponse { error.Error error; MetaALL meta_all; }
message GenerateAutoIncrementRequest { int64 auto_increment_increment; int64 auto_increment_offset; int64 count; common.RequestInfo request_info; DingoCommonId table_id; }
message GenerateAutoIncrementResponse { int64 end_id; error.Error error; int64 start_id; }
message GenerateTableIdsRequest { TableWithPartCount count; common.RequestInfo request_info; DingoCommonId schema_id; }
message GenerateTableIdsResponse { error.Error error; repeated TableIdWithPartIds ids; }
message GetAutoIncrementRequest { common.RequestInfo request_info; DingoCommonId table_id; }
message GetAutoIncrementResponse { error.Error error; int64 start_id; }
message GetAutoIncrementsRequest { common.RequestInfo request_info; }
message GetAutoIncrementsResponse { error.Error error; repeated TableIncrement table_increments; }
message GetDeletedIndexRequest { DingoCommonId index_id; common.RequestInfo request_info; }
message GetDeletedIndexResponse { error.Error error; repeated TableDefinitionWithId table_definition_with_ids; }
message GetDeletedTableRequest { common.RequestInfo request_info; DingoCommonId table_id; }
message GetDeletedTableResponse { error.Error error; repeated TableDefinitionWithId table_definition_with_ids; }
message GetIndexByNameRequest { string index_name; common.RequestInfo request_info; DingoCommonId schema_id; }
message GetIndexByNameResponse { error.Error error; IndexDefinitionWithId index_definition_with_id; }
message GetIndexMetricsRequest { DingoCommonId index_id; common.RequestInfo request_info; }
message GetIndexMetricsResponse { error.Error error; IndexMetricsWithId index_metrics; }
message GetIndexRangeRequest { DingoCommonId index_id; common.RequestInfo request_info; }
message GetIndexRangeResponse { error.Error error; IndexRange index_range; }
message GetIndexRequest { DingoCommonId index_id; common.RequestInfo request_info; }
message GetIndexResponse { error.Error error; IndexDefinitionWithId index_definition_with_id; }
message GetIndexesCountRequest { common.RequestInfo request_info; DingoCommonId schema_id; }
message GetIndexesCountResponse { error.Error error; int64 indexes_count; }
message GetIndexesRequest { common.RequestInfo request_info; DingoCommonId schema_id; }
message GetIndexesResponse { error.Error error; repeated IndexDefinitionWithId index_definition_with_ids; }
message GetSchemaByNameRequest { common.RequestInfo request_info; string schema_name; int64 tenant_id; }
message GetSchemaByNameResponse { error.Error error; Schema schema; }
message GetSchemaRequest { common.RequestInfo request_info; DingoCommonId schema_id; }
message GetSchemaResponse { error.Error error; Schema schema; }
message GetSchemasRequest { common.RequestInfo request_info; DingoCommonId schema_id; int64 tenant_id; }
message GetSchemasResponse { error.Error error; repeated Schema schemas; }
message GetTableByNameRequest { common.RequestInfo request_info; DingoCommonId schema_id; string table_name; }
message GetTableByNameResponse { error.Error error; TableDefinitionWithId table_definition_with_id; }
message GetTableMetricsRequest { common.RequestInfo request_info; DingoCommonId table_id; }
message GetTableMetricsResponse { error.Error error; TableMetricsWithId table_metrics; }
message GetTableRangeRequest { common.RequestInfo request_info; DingoCommonId table_id; }
message GetTableRangeResponse { error.Error error; TableRange table_range; }
message GetTableRequest { common.RequestInfo request_info; DingoCommonId table_id; }
message GetTableResponse { error.Error error; TableDefinitionWithId table_definition_with_id; }
message GetTablesBySchemaRequest { common.RequestInfo request_info; DingoCommonId schema_id; }
message GetTablesBySchemaResponse { error.Error error; repeated TableDefinitionWithId table_definition_with_ids; }
message GetTablesCountRequest { common.RequestInfo request_info; DingoCommonId schema_id; }
message GetTablesCountResponse { error.Error error; int64 tables_count; }
message GetTablesRequest { common.RequestInfo request_info; DingoCommonId table_id; }
message GetTablesResponse { error.Error error; int64 revision; repeated TableDefinitionWithId table_definition_with_ids; }
message GetTenantsRequest { common.RequestInfo request_info; repeated int64 tenant_ids; }
message GetTenantsResponse { error.Error error; repeated Tenant tenants; }
message HelloRequest { bool get_memory_info; string hello; common.RequestInfo request_info; }
message HelloResponse { error.Error error; coordinator.CoordinatorMemoryInfo memory_info; }
message IdEpochTypeAndValue { repeated IdEpochTypeAndValueItem items; }
message IdEpochTypeAndValueItem { coordinator.IdEpochType type; int64 value; }
message ImportIdEpochTypeRequest { IdEpochTypeAndValue id_epoch_type_and_value; common.RequestInfo request_info; }
message ImportIdEpochTypeResponse { error.Error error; }
message ImportMetaRequest { MetaALL meta_all; common.RequestInfo request_info; }
message ImportMetaResponse { error.Error error; }
message IndexDefinition { int64 auto_increment; common.Engine engine; common.IndexParameter index_parameter; PartitionRule index_partition; string name; int64 replica; int64 version; bool with_auto_incrment; }
message IndexDefinitionWithId { IndexDefinition index_definition; DingoCommonId index_id; int64 tenant_id; }
message IndexMetrics { int64 current_count; int64 deleted_count; int64 max_id; bytes max_key; int64 memory_bytes; int64 min_id; bytes min_key; int64 part_count; int64 rows_count; common.VectorIndexType vector_index_type; }
message IndexMetricsWithId { DingoCommonId id; IndexMetrics index_metrics; }
message IndexRange { repeated RangeDistribution range_distribution; }
message ListWatchRequest { common.RequestInfo request_info; int64 watch_id; }
message ListWatchResponse { error.Error error; repeated WatchNode watch_nodes; }
message MetaALL { map<int64,Schemas> schemas; map<string,TablesAndIndexes> tables_and_indexes; repeated Tenant tenants; }
message MetaEvent { MetaEventType event_type; MetaEventIndex index; MetaEventRegion region; MetaEventSchema schema; MetaEventTable table; MetaEventTableIndex table_index; MetaEventTenant tenant; }
message PartitionRule { repeated Partition partitions; PartitionStrategy strategy; }
message RangeDistribution { DingoCommonId id; common.Location leader; repeated common.Location learners; common.Range range; common.RegionEpoch region_epoch; int64 regionmap_epoch; coordinator.ScanRegionStatus status; int64 storemap_epoch; repeated common.Location voters; }
message SaveIdEpochTypeRequest { common.RequestInfo request_info; }
message SaveIdEpochTypeResponse { error.Error error; IdEpochTypeAndValue id_epoch_type_and_value; }
message Schema { DingoCommonId id; repeated DingoCommonId index_ids; string name; int64 revision; repeated DingoCommonId table_ids; int64 tenant_id; }
message Schemas { repeated Schema schemas; }
message SwitchAutoSplitRequest { bool auto_split; common.RequestInfo request_info; DingoCommonId table_id; }
message SwitchAutoSplitResponse { error.Error error; }
message TableDefinition { int64 auto_increment; repeated ColumnDefinition columns; int64 create_timestamp; int64 delete_timestamp; common.Engine engine; common.IndexParameter index_parameter; string name; int64 replica; int64 revision; common.StorageEngine store_engine; PartitionRule table_partition; int64 version; }
message TableDefinitionWithId { TableDefinition table_definition; DingoCommonId table_id; }
message TableIdWithPartIds { repeated DingoCommonId part_ids; DingoCommonId table_id; }
message TableIncrementGroup { repeated TableIncrement table_increments; }
message TableMetrics { bytes max_key; bytes min_key; int64 part_count; int64 rows_count; int64 table_size; }
message TableMetricsWithId { DingoCommonId id; TableMetrics table_metrics; }
message TableRange { repeated RangeDistribution range_distribution; }
message TableWithPartCount { int64 index_count; repeated int64 index_part_count; bool table; int64 table_part_count; bool has_table; }
message TablesAndIndexes { int64 at; int64 end; int64 find; repeated IndexDefinitionWithId indexes; repeated TableDefinitionWithId tables; }
message Tenant { string comment; int64 create_timestamp; int64 delete_timestamp; int64 id; string name; int64 resolve_lock_safe_point_ts; int64 revision; int64 safe_point_ts; int64 update_timestamp; }
message TsoRequest { int64 count; TsoTimestamp current_timestamp; bool force; TsoOpType op_type; common.RequestInfo request_info; int64 save_physical; }
message TsoResponse { int64 count; error.Error error; TsoOpType op_type; int64 save_physical; TsoTimestamp start_timestamp; int64 system_time; }
message TsoTimestamp { int64 logical; int64 physical; }
message UpdateAutoIncrementRequest { bool force; common.RequestInfo request_info; int64 start_id; DingoCommonId table_id; }
message UpdateAutoIncrementResponse { error.Error error; }
message UpdateIndexRequest { DingoCommonId index_id; IndexDefinition new_index_definition; common.RequestInfo request_info; }
message UpdateIndexResponse { error.Error error; }
message UpdateTablesRequest { common.RequestInfo request_info; TableDefinitionWithId table_definition_with_id; }
message UpdateTablesResponse { error.Error error; }
message UpdateTenantRequest { common.RequestInfo request_info; Tenant tenant; }
message UpdateTenantResponse { error.Error error; Tenant tenant; }
message WatchCreateRequest { repeated MetaEventType event_types; int64 start_revision; int64 watch_id; }
message WatchRequest { WatchCancelRequest cancel_request; WatchCreateRequest create_request; WatchProgressRequest progress_request; common.RequestInfo request_info; }
message WatchResponse { string cancel_reason; bool canceled; int64 compact_revision; bool created; error.Error error; repeated MetaEvent events; int64 watch_id; }
enum PartitionStrategy { PT_STRATEGY_RANGE, PT_STRATEGY_HASH; }
message TableIncrement { int64 table_id, start_id; } message WatchNode { repeated MetaEventType event_types; bool is_watching; int64 last_send_timestamp_ms; repeated MetaEvent pending_events; int64 start_revision; int64 watch_id; int64 watched_revision; } message Partition { DingoCommonId id; common.Range range; } message MetaEventTable { TableDefinition definition; int64 id; int64 parent_table_id; int64 schema_id; } message MetaEventIndex { TableDefinition definition; int64 id; int64 parent_table_id; int64 schema_id; } message MetaEventRegion { int64 create_timestamp; common.RegionDefinition definition; int64 id; common.RegionType region_type; common.RegionState state; } message MetaEventSchema { int64 id; string name; int64 revision; } message MetaEventTableIndex { int64 id; int64 revision; repeated DingoCommonId table_ids; } message MetaEventTenant { string comment; int64 id; string name; int64 revision; } message WatchCancelRequest { int64 watch_id; } message WatchProgressRequest { int64 watch_id; }

service MetaService {
  rpc GetSchemas(GetSchemasRequest) returns (GetSchemasResponse);
  rpc GetSchema(GetSchemaRequest) returns (GetSchemaResponse);
  rpc GetSchemaByName(GetSchemaByNameRequest) returns (GetSchemaByNameResponse);
  rpc GetTablesBySchema(GetTablesBySchemaRequest) returns (GetTablesBySchemaResponse);
  rpc GetTablesCount(GetTablesCountRequest) returns (GetTablesCountResponse);
  rpc GetTable(GetTableRequest) returns (GetTableResponse);
  rpc GetTableByName(GetTableByNameRequest) returns (GetTableByNameResponse);
  rpc GetTableRange(GetTableRangeRequest) returns (GetTableRangeResponse);
  rpc GetTableMetrics(GetTableMetricsRequest) returns (GetTableMetricsResponse);
  rpc CreateTable(CreateTableRequest) returns (CreateTableResponse);
  rpc DropTable(DropTableRequest) returns (DropTableResponse);
  rpc CreateTableId(CreateTableIdRequest) returns (CreateTableIdResponse);
  rpc CreateTableIds(CreateTableIdsRequest) returns (CreateTableIdsResponse);
  rpc GetIndexes(GetIndexesRequest) returns (GetIndexesResponse);
  rpc GetIndexesCount(GetIndexesCountRequest) returns (GetIndexesCountResponse);
  rpc GetIndex(GetIndexRequest) returns (GetIndexResponse);
  rpc GetIndexByName(GetIndexByNameRequest) returns (GetIndexByNameResponse);
  rpc GetIndexRange(GetIndexRangeRequest) returns (GetIndexRangeResponse);
  rpc GetIndexMetrics(GetIndexMetricsRequest) returns (GetIndexMetricsResponse);
  rpc CreateIndex(CreateIndexRequest) returns (CreateIndexResponse);
  rpc UpdateIndex(UpdateIndexRequest) returns (UpdateIndexResponse);
  rpc DropIndex(DropIndexRequest) returns (DropIndexResponse);
  rpc CreateIndexId(CreateIndexIdRequest) returns (CreateIndexIdResponse);
  rpc CreateSchema(CreateSchemaRequest) returns (CreateSchemaResponse);
  rpc DropSchema(DropSchemaRequest) returns (DropSchemaResponse);
  rpc GenerateTableIds(GenerateTableIdsRequest) returns (GenerateTableIdsResponse);
  rpc CreateTables(CreateTablesRequest) returns (CreateTablesResponse);
  rpc GetTables(GetTablesRequest) returns (GetTablesResponse);
  rpc DropTables(DropTablesRequest) returns (DropTablesResponse);
  rpc UpdateTables(UpdateTablesRequest) returns (UpdateTablesResponse);
  rpc AddIndexOnTable(AddIndexOnTableRequest) returns (AddIndexOnTableResponse);
  rpc DropIndexOnTable(DropIndexOnTableRequest) returns (DropIndexOnTableResponse);
  rpc GetAutoIncrements(GetAutoIncrementsRequest) returns (GetAutoIncrementsResponse);
  rpc GetAutoIncrement(GetAutoIncrementRequest) returns (GetAutoIncrementResponse);
  rpc CreateAutoIncrement(CreateAutoIncrementRequest) returns (CreateAutoIncrementResponse);
  rpc CreateAutoIncrements(CreateAutoIncrementsRequest) returns (CreateAutoIncrementsResponse);
  rpc UpdateAutoIncrement(UpdateAutoIncrementRequest) returns (UpdateAutoIncrementResponse);
  rpc GenerateAutoIncrement(GenerateAutoIncrementRequest) returns (GenerateAutoIncrementResponse);
  rpc DeleteAutoIncrement(DeleteAutoIncrementRequest) returns (DeleteAutoIncrementResponse);
  rpc SwitchAutoSplit(SwitchAutoSplitRequest) returns (SwitchAutoSplitResponse);
  rpc TsoService(TsoRequest) returns (TsoResponse);
  rpc GetDeletedTable(GetDeletedTableRequest) returns (GetDeletedTableResponse);
  rpc GetDeletedIndex(GetDeletedIndexRequest) returns (GetDeletedIndexResponse);
  rpc CleanDeletedTable(CleanDeletedTableRequest) returns (CleanDeletedTableResponse);
  rpc CleanDeletedIndex(CleanDeletedIndexRequest) returns (CleanDeletedIndexResponse);
  rpc CreateTenant(CreateTenantRequest) returns (CreateTenantResponse);
  rpc UpdateTenant(UpdateTenantRequest) returns (UpdateTenantResponse);
  rpc DropTenant(DropTenantRequest) returns (DropTenantResponse);
  rpc GetTenants(GetTenantsRequest) returns (GetTenantsResponse);
  rpc Hello(HelloRequest) returns (HelloResponse);
  rpc GetMemoryInfo(HelloRequest) returns (HelloResponse);
  rpc GetTsoInfo(TsoRequest) returns (TsoResponse);
  rpc Watch(WatchRequest) returns (WatchResponse);
  rpc ListWatch(ListWatchRequest) returns (ListWatchResponse);
  rpc ExportMeta(ExportMetaRequest) returns (ExportMetaResponse);
  rpc SaveIdEpochType(SaveIdEpochTypeRequest) returns (SaveIdEpochTypeResponse);
  rpc ImportMeta(ImportMetaRequest) returns (ImportMetaResponse);
  rpc ImportIdEpochType(ImportIdEpochTypeRequest) returns (ImportIdEpochTypeResponse);
  rpc CreateOrUpdateAutoIncrements(CreateOrUpdateAutoIncrementsRequest) returns (CreateOrUpdateAutoIncrementsResponse);
  rpc CreateTenants(CreateTenantsRequest) returns (CreateTenantsResponse);
  rpc CreateSchemas(CreateSchemasRequest) returns (CreateSchemasResponse);
  rpc CreateIndexMetas(CreateIndexMetasRequest) returns (CreateIndexMetasResponse);
}
