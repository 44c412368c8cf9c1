package p27

import (
	"context"

	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

func (r *routed) SaveKnowledge(ctx context.Context, q cortexdb.KnowledgeSaveRequest) (*cortexdb.KnowledgeSaveResponse, error) {
	return write(r, ctx, "knowledge_save", q, r.API.SaveKnowledge)
}

func (r *routed) UpdateKnowledge(ctx context.Context, q cortexdb.KnowledgeUpdateRequest) (*cortexdb.KnowledgeSaveResponse, error) {
	return write(r, ctx, "knowledge_update", q, r.API.UpdateKnowledge)
}

func (r *routed) GetKnowledge(ctx context.Context, q cortexdb.KnowledgeGetRequest) (*cortexdb.KnowledgeGetResponse, error) {
	return read(r, ctx, "knowledge_get", q, r.API.GetKnowledge)
}

func (r *routed) DeleteKnowledge(ctx context.Context, q cortexdb.KnowledgeDeleteRequest) (*cortexdb.KnowledgeDeleteResponse, error) {
	return write(r, ctx, "knowledge_delete", q, r.API.DeleteKnowledge)
}

func (r *routed) SearchKnowledge(ctx context.Context, q cortexdb.KnowledgeSearchRequest) (*cortexdb.KnowledgeSearchResponse, error) {
	return read(r, ctx, "knowledge_search", q, r.API.SearchKnowledge)
}

func (r *routed) SaveMemory(ctx context.Context, q cortexdb.MemorySaveRequest) (*cortexdb.MemorySaveResponse, error) {
	return write(r, ctx, "memory_save", q, r.API.SaveMemory)
}

func (r *routed) UpdateMemory(ctx context.Context, q cortexdb.MemoryUpdateRequest) (*cortexdb.MemorySaveResponse, error) {
	return write(r, ctx, "memory_update", q, r.API.UpdateMemory)
}

func (r *routed) GetMemory(ctx context.Context, q cortexdb.MemoryGetRequest) (*cortexdb.MemoryGetResponse, error) {
	return read(r, ctx, "memory_get", q, r.API.GetMemory)
}

func (r *routed) DeleteMemory(ctx context.Context, q cortexdb.MemoryDeleteRequest) (*cortexdb.MemoryDeleteResponse, error) {
	return write(r, ctx, "memory_delete", q, r.API.DeleteMemory)
}

func (r *routed) SearchMemory(ctx context.Context, q cortexdb.MemorySearchRequest) (*cortexdb.MemorySearchResponse, error) {
	return read(r, ctx, "memory_search", q, r.API.SearchMemory)
}

func (r *routed) IngestDocument(ctx context.Context, q cortexdb.ToolIngestDocumentRequest) (*cortexdb.ToolIngestDocumentResponse, error) {
	return write(r, ctx, "ingest_document", q, r.API.IngestDocument)
}

func (r *routed) UpsertEntities(ctx context.Context, q cortexdb.ToolUpsertEntitiesRequest) (*cortexdb.ToolUpsertEntitiesResponse, error) {
	return write(r, ctx, "upsert_entities", q, r.API.UpsertEntities)
}

func (r *routed) UpsertRelations(ctx context.Context, q cortexdb.ToolUpsertRelationsRequest) (*cortexdb.ToolUpsertRelationsResponse, error) {
	return write(r, ctx, "upsert_relations", q, r.API.UpsertRelations)
}

func (r *routed) SearchText(ctx context.Context, q cortexdb.ToolSearchTextRequest) (*cortexdb.ToolSearchTextResponse, error) {
	return read(r, ctx, "search_text", q, r.API.SearchText)
}

func (r *routed) SearchChunksByEntities(ctx context.Context, q cortexdb.ToolSearchChunksByEntitiesRequest) (*cortexdb.ToolSearchChunksByEntitiesResponse, error) {
	return read(r, ctx, "search_chunks_by_entities", q, r.API.SearchChunksByEntities)
}

func (r *routed) ExpandGraph(ctx context.Context, q cortexdb.ToolExpandGraphRequest) (*cortexdb.ToolExpandGraphResponse, error) {
	return read(r, ctx, "expand_graph", q, r.API.ExpandGraph)
}

func (r *routed) GetNodes(ctx context.Context, q cortexdb.ToolGetNodesRequest) (*cortexdb.ToolGetNodesResponse, error) {
	return read(r, ctx, "get_nodes", q, r.API.GetNodes)
}

func (r *routed) GetChunks(ctx context.Context, q cortexdb.ToolGetChunksRequest) (*cortexdb.ToolGetChunksResponse, error) {
	return read(r, ctx, "get_chunks", q, r.API.GetChunks)
}

func (r *routed) BuildContext(ctx context.Context, q cortexdb.ToolBuildContextRequest) (*cortexdb.ToolBuildContextResponse, error) {
	return read(r, ctx, "build_context", q, r.API.BuildContext)
}

func (r *routed) SearchGraphRAGLexical(ctx context.Context, q cortexdb.ToolSearchGraphRAGLexicalRequest) (*cortexdb.GraphRAGQueryResult, error) {
	return read(r, ctx, "search_graphrag_lexical", q, r.API.SearchGraphRAGLexical)
}

// requests are the typed requests of the tools.
var requests = map[string]func() any{
	"knowledge_save":            func() any { return new(cortexdb.KnowledgeSaveRequest) },
	"knowledge_update":          func() any { return new(cortexdb.KnowledgeUpdateRequest) },
	"knowledge_get":             func() any { return new(cortexdb.KnowledgeGetRequest) },
	"knowledge_delete":          func() any { return new(cortexdb.KnowledgeDeleteRequest) },
	"knowledge_search":          func() any { return new(cortexdb.KnowledgeSearchRequest) },
	"memory_save":               func() any { return new(cortexdb.MemorySaveRequest) },
	"memory_update":             func() any { return new(cortexdb.MemoryUpdateRequest) },
	"memory_get":                func() any { return new(cortexdb.MemoryGetRequest) },
	"memory_delete":             func() any { return new(cortexdb.MemoryDeleteRequest) },
	"memory_search":             func() any { return new(cortexdb.MemorySearchRequest) },
	"ingest_document":           func() any { return new(cortexdb.ToolIngestDocumentRequest) },
	"upsert_entities":           func() any { return new(cortexdb.ToolUpsertEntitiesRequest) },
	"upsert_relations":          func() any { return new(cortexdb.ToolUpsertRelationsRequest) },
	"search_text":               func() any { return new(cortexdb.ToolSearchTextRequest) },
	"search_chunks_by_entities": func() any { return new(cortexdb.ToolSearchChunksByEntitiesRequest) },
	"expand_graph":              func() any { return new(cortexdb.ToolExpandGraphRequest) },
	"get_nodes":                 func() any { return new(cortexdb.ToolGetNodesRequest) },
	"get_chunks":                func() any { return new(cortexdb.ToolGetChunksRequest) },
	"build_context":             func() any { return new(cortexdb.ToolBuildContextRequest) },
	"search_graphrag_lexical":   func() any { return new(cortexdb.ToolSearchGraphRAGLexicalRequest) },
}
