package kb

import (
	"context"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

// API is the tool surface; the models call the database through it.
type API interface {
	SaveKnowledge(context.Context, cortexdb.KnowledgeSaveRequest) (*cortexdb.KnowledgeSaveResponse, error)
	UpdateKnowledge(context.Context, cortexdb.KnowledgeUpdateRequest) (*cortexdb.KnowledgeSaveResponse, error)
	GetKnowledge(context.Context, cortexdb.KnowledgeGetRequest) (*cortexdb.KnowledgeGetResponse, error)
	DeleteKnowledge(context.Context, cortexdb.KnowledgeDeleteRequest) (*cortexdb.KnowledgeDeleteResponse, error)
	SearchKnowledge(context.Context, cortexdb.KnowledgeSearchRequest) (*cortexdb.KnowledgeSearchResponse, error)
	SaveMemory(context.Context, cortexdb.MemorySaveRequest) (*cortexdb.MemorySaveResponse, error)
	UpdateMemory(context.Context, cortexdb.MemoryUpdateRequest) (*cortexdb.MemorySaveResponse, error)
	GetMemory(context.Context, cortexdb.MemoryGetRequest) (*cortexdb.MemoryGetResponse, error)
	DeleteMemory(context.Context, cortexdb.MemoryDeleteRequest) (*cortexdb.MemoryDeleteResponse, error)
	SearchMemory(context.Context, cortexdb.MemorySearchRequest) (*cortexdb.MemorySearchResponse, error)
	IngestDocument(context.Context, cortexdb.ToolIngestDocumentRequest) (*cortexdb.ToolIngestDocumentResponse, error)
	UpsertEntities(context.Context, cortexdb.ToolUpsertEntitiesRequest) (*cortexdb.ToolUpsertEntitiesResponse, error)
	UpsertRelations(context.Context, cortexdb.ToolUpsertRelationsRequest) (*cortexdb.ToolUpsertRelationsResponse, error)
	SearchText(context.Context, cortexdb.ToolSearchTextRequest) (*cortexdb.ToolSearchTextResponse, error)
	SearchChunksByEntities(context.Context, cortexdb.ToolSearchChunksByEntitiesRequest) (*cortexdb.ToolSearchChunksByEntitiesResponse, error)
	ExpandGraph(context.Context, cortexdb.ToolExpandGraphRequest) (*cortexdb.ToolExpandGraphResponse, error)
	GetNodes(context.Context, cortexdb.ToolGetNodesRequest) (*cortexdb.ToolGetNodesResponse, error)
	GetChunks(context.Context, cortexdb.ToolGetChunksRequest) (*cortexdb.ToolGetChunksResponse, error)
	BuildContext(context.Context, cortexdb.ToolBuildContextRequest) (*cortexdb.ToolBuildContextResponse, error)
	SearchGraphRAGLexical(context.Context, cortexdb.ToolSearchGraphRAGLexicalRequest) (*cortexdb.GraphRAGQueryResult, error)
}

// direct calls the database's own methods where it has them and the toolbox's otherwise.
type direct struct {
	*cortexdb.GraphRAGToolbox
	db *cortexdb.DB
}

// Direct is the API of the database itself.
func Direct(d *DB) API { return direct{d.GraphRAGTools(), d.DB} }

func (d direct) SaveKnowledge(c context.Context, r cortexdb.KnowledgeSaveRequest) (*cortexdb.KnowledgeSaveResponse, error) {
	return d.db.SaveKnowledge(c, r)
}
func (d direct) UpdateKnowledge(c context.Context, r cortexdb.KnowledgeUpdateRequest) (*cortexdb.KnowledgeSaveResponse, error) {
	return d.db.UpdateKnowledge(c, r)
}
func (d direct) GetKnowledge(c context.Context, r cortexdb.KnowledgeGetRequest) (*cortexdb.KnowledgeGetResponse, error) {
	return d.db.GetKnowledge(c, r)
}
func (d direct) DeleteKnowledge(c context.Context, r cortexdb.KnowledgeDeleteRequest) (*cortexdb.KnowledgeDeleteResponse, error) {
	return d.db.DeleteKnowledge(c, r)
}
func (d direct) SearchKnowledge(c context.Context, r cortexdb.KnowledgeSearchRequest) (*cortexdb.KnowledgeSearchResponse, error) {
	return d.db.SearchKnowledge(c, r)
}
func (d direct) SaveMemory(c context.Context, r cortexdb.MemorySaveRequest) (*cortexdb.MemorySaveResponse, error) {
	return d.db.SaveMemory(c, r)
}
func (d direct) UpdateMemory(c context.Context, r cortexdb.MemoryUpdateRequest) (*cortexdb.MemorySaveResponse, error) {
	return d.db.UpdateMemory(c, r)
}
func (d direct) GetMemory(c context.Context, r cortexdb.MemoryGetRequest) (*cortexdb.MemoryGetResponse, error) {
	return d.db.GetMemory(c, r)
}
func (d direct) DeleteMemory(c context.Context, r cortexdb.MemoryDeleteRequest) (*cortexdb.MemoryDeleteResponse, error) {
	return d.db.DeleteMemory(c, r)
}
func (d direct) SearchMemory(c context.Context, r cortexdb.MemorySearchRequest) (*cortexdb.MemorySearchResponse, error) {
	return d.db.SearchMemory(c, r)
}

// NotFound tells whether an operation failed because the item is not there, also when the error came as text.
func NotFound(err error) bool {
	return err != nil && strings.Contains(err.Error(), core.ErrNotFound.Error())
}
