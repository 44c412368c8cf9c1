prop("P01", "Stored vectors behave as a map from id to the last record written",
 "After any sequence of single and batch upserts, deletions (by id, batch, document, filter, collection, document record, clear) and reopenings, reading by id, by document, by type, the document and collection listings and all counts show exactly the records a map from id to last successfully written record would hold. A read-back record carries the id, vector, content, document, collection, metadata and access list it was written with, bit for bit. A write naming an unknown collection or document, or a deletion of an absent id or collection, reports an error and changes nothing.",
 ["histories", "inputs", "configurations"], "every history of mutations, any ids, vectors, texts and metadata, with and without the vector index",
 "The tests store a handful of records in one order; the claim is about every order of overwrites, moves between collections and documents, and removals.",
 [C+"store_crud.go", C+"collections.go", C+"document.go", C+"store_query.go"],
 [("ON CONFLICT upsert", C+"store_crud.go"), ("foreign keys cascading from documents", C+"store_init.go"), ("collection deletion", C+"collections.go")],
 "Generated histories of writes, deletions and reopenings (about 18 steps); after every step everything readable is compared with a map. Non-trivial: the history replaced a stored record and removed a stored record.",
 "stateful model-based property testing (rapid) against a map", "Random histories over small id, collection and document sets; no proof for longer ones.",
 observe=["get by id", "get by document", "listings", "statistics"])

prop("P02", "Exact similarity search returns the true best matches",
 "On a store without an approximate index, a search returns exactly the TopK stored records that satisfy the collection, filter and threshold and score highest under the configured similarity (cosine, dot product or negative Euclidean distance): no better eligible record is left out, none is repeated or stale, every score is the true similarity, the order is descending, and TopK 0 means 10. A range search returns exactly the records within the radius of the query, nearest first, with true distances and its limit. A query of the wrong length or with non-finite components is refused.",
 ["inputs", "configurations", "histories"], "all stores, queries, filters, thresholds, limits and the three similarities",
 "Tests search three or four hand-made vectors; the claim is for every vector set, ties, zero vectors, thresholds and filter combinations.",
 [C+"store_query.go", C+"similarity.go", C+"store_search.go", C+"advanced_search.go"],
 [("linear scoring and top-k", C+"store_query.go"), ("similarity functions", C+"similarity.go"), ("range search", C+"advanced_search.go")],
 "Generated stores with replaced and deleted records; queries with generated limits, thresholds, filters and collections, compared with brute force in float64. Non-trivial: some but not all records qualify or are cut off by the limit.",
 "differential property testing (rapid) against brute-force scoring", "Stores up to tens of records; scores compared to 1e-6 relative.", observe=["search results"])

prop("P03", "Indexed search agrees with the stored data",
 "With an HNSW or IVF index on (with or without quantization), whatever history of upserts, overwrites, deletions, clears, bulk deletions, retraining and reopenings preceded, a search only returns records that are stored now, that satisfy the collection and filter, each once, with their true score, in descending order, and as many as exist up to TopK. On stores small enough to be searched exhaustively the result equals the exact one; on larger ones a stored vector finds its own record and most of the true neighbours are found. The index never shows a deleted record or an old vector.",
 ["histories", "configurations", "inputs"], "all histories of mutation and reopening for each index type, similarity and quantization",
 "Index staleness needs a particular order of update, delete, train and reopen; tests insert once and search.",
 [C+"store_query.go", C+"store_crud.go", C+"store_init.go", C+"store_index.go", "pkg/index/hnsw.go", "pkg/index/ivf.go"],
 [("index maintenance on every mutation", C+"store_crud.go"), ("snapshot and rebuild on open", C+"store_init.go"), ("candidate fetch and rescoring", C+"store_query.go"), ("graph maintenance", "pkg/index/hnsw.go")],
 "Generated histories on small stores compared with brute force; larger generated stores checked for soundness, self-retrieval and recall (at least 0.8 HNSW, 0.4 IVF on average). Non-trivial: records were replaced or deleted after indexing and searches had results.",
 "stateful differential property testing (rapid) against brute force", "Exactness only for stores the index covers exhaustively; recall is a statistical floor over generated data.", observe=["search results"])

prop("P04", "Committed data survives crashes; interrupted writes leave no trace",
 "If the process dies at any moment, reopening the database recovers the state as it was between two operations, never earlier than the last operation acknowledged as successful before the process was killed: records, documents, collections, messages and graph all agree. An operation that was under way (including batches, document or collection deletions and graph batches) is there whole or not at all. A clean close loses nothing.",
 ["crash_points", "histories"], "every crash point of every history of operations",
 "Tests always close the database; what a crash leaves depends on where between the writes of an operation it falls.",
 [C+"store_init.go", C+"store_crud.go", C+"document.go", C+"collections.go", "pkg/graph/graph_batch.go"],
 [("write-ahead log and transactions", C+"store_init.go"), ("batch transaction", C+"store_crud.go"), ("cascading deletes", C+"document.go")],
 "Generated histories; the write-ahead log is cut at every commit and frame boundary and reopened, and a child process running generated operations is killed at a generated moment. Non-trivial: a multi-row operation was cut or the kill fell while operations were running.",
 "crash-point injection driven by generated histories (rapid)", "Process crashes and torn logs, not storage that reorders or loses flushed writes.", observe=["whole store state after reopening"])

prop("P05", "A failed operation changes nothing",
 "When an upsert, batch upsert, batch or document or collection or filter deletion fails at any element, because the input is invalid, because the database refuses a row, because the database fails, or because the context is cancelled, it returns an error and the stored records, documents, listings, keyword index and vector index are as if it had never been called; when it returns no error, all of it has happened.",
 ["faults", "inputs"], "every position of every failing element and every cancellation moment",
 "Tests exercise the success path; a failure half-way through a batch is only visible when injected.",
 [C+"store_crud.go", C+"collections.go", C+"document.go"],
 [("transaction rollback", C+"store_crud.go"), ("index update after commit", C+"store_crud.go")],
 "Generated stores and operations with a failing element (invalid vector, unknown collection or document, a database trigger that refuses a row) or a cancellation; the whole state is compared before and after, including index searches. In a second test two stores take the same generated writes, one of them interrupted at a drawn use of the context or with a drawn call of the database driver failing: all tables and the index searches must be as before or as on the other store. Non-trivial: the operation had elements that succeed before the failing one, or writes were interrupted and failed.",
 "fault-injection property testing (rapid) with state comparison", "Faults are refused rows, I/O errors of database calls, invalid input and cancellation.", observe=["records", "listings", "index search"])

prop("P06", "Access control decides exactly which records a user may see",
 "SearchWithACL returns a record only if the user's id or one of the user's groups is on the record's access list, or the record has no list of its own and the same holds for its document's list, or neither has a list; among those visible it returns the best matches exactly as an ordinary search over only the visible records would. This holds through updates, reopening and with indexes on.",
 ["inputs", "histories"], "all access lists, identities and histories",
 "A leak shows only for particular combinations of record list, document list, user and group names (one being part of another, quotes, wildcards).",
 [C+"store_search.go"], [("access predicate", C+"store_search.go")],
 "Generated records and documents with lists over look-alike names; generated identities; result compared with the rule applied by brute force. Non-trivial: the identity sees some records and not others.",
 "stateful differential property testing (rapid) against the rule", "Small sets of users and groups.", observe=["search results"])

prop("P07", "A collection is unaffected by what other collections hold",
 "Every way of looking into one collection (search, filtered, range, hybrid, faceted, negative and diverse search, statistics, listing, aggregation) shows exactly what a store would show that held only that collection's records, whatever is stored, overwritten or deleted in other collections.",
 ["histories", "inputs"], "all histories over several collections",
 "Leaks appear when ids, documents or candidates interact across collections; tests use one collection or disjoint data.",
 [C+"collections.go", C+"store_query.go", C+"advanced_search.go", C+"aggregations.go"],
 [("collection predicate in each query", C+"store_query.go")],
 "Generated histories over several collections; each view compared with the same view on a store holding only that collection. Non-trivial: other collections hold closer records than the viewed one.",
 "metamorphic (non-interference) property testing (rapid)", "Small collections.", observe=["all read interfaces scoped to a collection"])

prop("P08", "Metadata filters mean the same everywhere and match their definition",
 "A filter (equality maps, comparison, IN, BETWEEN, LIKE, null tests, and, or, not, nested; built with the fluent builder or parsed from text) selects exactly the records for which it is true by its definition, and the same records whether it is applied in the database, after scoring, in an advanced search or in a deletion by filter. Faceted search keeps exactly the records meeting every facet and counts each facet's values exactly.",
 ["inputs"], "all filter expressions over all metadata",
 "Each filter form has two implementations (SQL and in memory); agreement is a statement about all expressions and values.",
 [C+"advanced_filter.go", C+"faceted_search.go", C+"advanced_search.go", C+"store_crud.go"],
 [("SQL translation", C+"advanced_filter.go"), ("in-memory evaluation", C+"advanced_filter.go"), ("facets", C+"faceted_search.go")],
 "Generated metadata and generated filter expressions up to depth 3; selection compared with a reference evaluator in each place. Non-trivial: the filter selects some records but not all.",
 "differential property testing (rapid) of generated expressions against a reference evaluator", "Expression depth up to 3, small value domain with numbers, text and look-alikes.", observe=["search results", "facet counts", "deleted records"])

prop("P09", "Keyword search finds exactly the records that contain the words",
 "After any history of upserts, content changes, deletions and reopenings, a keyword search for words returns exactly the stored records (or, for messages, exactly that user's messages outside the excluded session) whose current text contains all of them regardless of letter case, restricted to the collection and filter; it finds nothing deleted or replaced. Any text whatsoever can be searched for: punctuation, quotes and query syntax never make it fail, and a word surrounded by punctuation still finds its records.",
 ["histories", "inputs"], "all histories and all query texts",
 "The full-text table is maintained by triggers beside the data; drift appears only after particular update and delete sequences.",
 [C+"advanced_search.go", C+"store_init.go", C+"chat.go"],
 [("full-text triggers", C+"store_init.go"), ("keyword query", C+"advanced_search.go"), ("message keyword query", C+"chat.go")],
 "Generated histories with texts over a known vocabulary, then lookups compared with word containment; generated arbitrary query texts. Non-trivial: something was found after records had been replaced or deleted.",
 "stateful model-based property testing (rapid) and input fuzzing", "English words without common stems.", observe=["keyword and hybrid search results"])

prop("P10", "Hybrid search fuses the two rankings by reciprocal rank",
 "A hybrid search scores each record by the sum of 1/(k+rank) over its rank (from 1) in the vector ranking and in the keyword ranking (k is RRFK, 60 by default), returns each record once, in descending score, at most TopK, restricted to the collection and filter. A keyword-only search scores by keyword rank alone; without text it is the vector ranking.",
 ["inputs", "configurations"], "all stores, queries, texts, k and limits",
 "Tests check that something relevant comes first; the exact fused score and order are only wrong for records in one ranking or at cut-offs.",
 [C+"advanced_search.go"], [("reciprocal rank fusion", C+"advanced_search.go")],
 "Generated stores and queries; the fused ranking recomputed from the two rankings. Non-trivial: some records are in both rankings and some in only one.",
 "differential property testing (rapid) against recomputed fusion", "Queries whose vector scores tie are skipped.", observe=["hybrid search results"])

prop("P11", "Every stored vector has the store's dimension, reached as the policy says",
 "A store has one vector dimension: the configured one, or the length of the first vector stored (a refused write decides nothing). Every write path (single, batch, import) and every search over the records, whatever its variant, brings a vector of another length to it exactly as the configured policy says (refuse under the strict policy, otherwise truncate or pad to unit length in the documented way, never changing a vector that already fits) or refuses it; a refused vector leaves no trace. Non-finite components are refused. The dimension survives reopening, and no mixture of lengths is ever stored.",
 ["inputs", "configurations", "histories"], "all policies, lengths, write paths and histories",
 "Tests adapt single vectors in isolation; whether every path applies the same policy at every moment of a store's life is a statement about histories.",
 [C+"dimension.go", C+"store_crud.go", C+"store_init.go", C+"io.go"],
 [("adaptation by policy", C+"dimension.go"), ("dimension detection on first insert", C+"store_crud.go"), ("dimension restored on open", C+"store_init.go")],
 "Generated policies, configured or detected dimensions and histories of writes of varying length; every stored vector compared with the policy applied by a reference. Non-trivial: a vector of another length was adapted or refused after the dimension was fixed.",
 "stateful model-based property testing (rapid) against a reference adapter", "Smart expansion adds noise: checked for direction and length only.", observe=["stored vectors", "errors", "dimension after reopening"])

prop("P12", "Dumps, backups and exported indexes carry everything back",
 "Records dumped (JSON or JSON lines, whole or filtered by collection, document or metadata) and loaded into another store are the same records in every part: id, vector bit for bit, content, document, collection, metadata and access list; a CSV dump shows them all. Records that already exist are skipped or replaced as asked, and the reported counts are true. A backup file is a complete database holding the state at the time, whatever happens to the original later. Importing an exported index changes no search. A truncated or damaged file is refused or loads only records that are whole; a dump that cannot be written completely reports an error.",
 ["inputs", "histories", "faults"], "all stores, formats, options and damage",
 "Tests round-trip a few plain records; losses show for unusual texts, access lists, filters or damage.",
 [C+"io.go"], [("dump and load", C+"io.go"), ("backup", C+"io.go"), ("index export and import", C+"io.go")],
 "Generated stores after histories, generated options; loaded into a second store and compared record by record; truncations and corruptions of the files; writers that fail at a generated byte. Non-trivial: several records after updates or deletions, or damage inside the payload.",
 "round-trip property testing (rapid) with injected damage", "Target store has the collections and documents the dump refers to.", observe=["records of the target store", "load statistics", "CSV rows"])

prop("P13", "Document records and chat sessions keep exactly what was put in",
 "A document record reads back with the title, source, version, author, metadata and access list last written, is listed under exactly its author's filter, newest first within the limit, and deleting it deletes its chunks and no others. A session reads back as created; adding to an unknown session or with a used message id is refused without effect; its history of n messages is the last n messages in the order they were added, complete with role, text, vector and metadata. Message search by vector returns exactly the best-scoring messages of that session, or of that user outside the excluded session.",
 ["histories", "inputs"], "all histories over several documents, users and sessions",
 "Ordering, scoping and cascades only go wrong for particular interleavings of users, sessions and overwrites.",
 [C+"document.go", C+"chat.go"], [("document records and cascade", C+"document.go"), ("message order and scoping", C+"chat.go")],
 "Generated histories over a few documents, sessions and users with look-alike names; everything read back compared with a model after each step. Non-trivial: searches selected some but not all messages, or documents with chunks were replaced and deleted.",
 "stateful model-based property testing (rapid)", "Small histories.", observe=["documents", "sessions", "histories", "message search"])

prop("P14", "Concurrent use behaves as some sequential order, and close is clean",
 "When goroutines use one store at the same time, every write either fails with an error or takes effect at one moment between its call and its return, and reads show the state at one moment: each record behaves as a linearizable register, no acknowledged write is lost, no write fails merely because another is running, and once all are done the index shows exactly what is stored. No operation hangs, panics or races on memory. After Close, operations on the store report that it is closed; Close may run at any time and be repeated; what was acknowledged before is there on reopening.",
 ["schedules", "histories"], "all schedules of concurrent readers, writers, retraining and close",
 "Tests run one schedule without checking the order of what was seen.",
 [C+"store.go", C+"store_crud.go", C+"store_init.go", "pkg/index/hnsw.go"],
 [("store lock", C+"store.go"), ("row and index change together", C+"store_crud.go"), ("closed check", C+"store_query.go")],
 "Generated programs for several goroutines run under the race detector; histories judged by a linearizability checker (porcupine), index and rows compared at rest; a close at a generated moment. Non-trivial: operations on one record overlapped.",
 "concurrent generated histories (rapid) with linearizability checking (porcupine) and the race detector", "Schedules are sampled by the Go scheduler with generated pauses; not exhaustive.", observe=["histories of calls and returns", "search at rest", "errors after close"], race=True)

prop("P15", "The index structures hold the last vector of each id and rank truly",
 "Each in-memory index (flat, inverted file, LSH, HNSW, hybrid, multi) behaves as a map from id to its last vector: after any inserts, batches, re-inserts, deletions, retraining, clears and saving and loading, its size is the number of ids held, a search returns only held ids, each once, nearest first, at their true distance and at most k of them, and a range search returns exactly the ids within the radius. Flat search, probing all lists, and HNSW on few vectors are exact; a stored vector is found by a search for itself, and HNSW finds nearly all true neighbours among hundreds, also where a whole neighbourhood was deleted. A vector of the wrong length is refused without effect, and the index keeps its own copy of the caller's vectors.",
 ["histories", "inputs", "configurations"], "all histories, distance functions and settings of each structure",
 "Stale entries need a re-insert or deletion in a particular order; tests insert distinct ids once.",
 ["pkg/index/flat.go", "pkg/index/hnsw.go", "pkg/index/ivf.go", "pkg/index/lsh.go", "pkg/index/multi_index.go"],
 [("replacing and removing", "pkg/index/ivf.go"), ("graph links and soft deletion", "pkg/index/hnsw.go"), ("buckets", "pkg/index/lsh.go"), ("re-ranking", "pkg/index/multi_index.go")],
 "Generated histories of about 25 steps over each structure; every search compared with brute force over a map; hundreds of vectors for recall, with whole neighbourhoods deleted. Non-trivial: vectors were replaced (where that is allowed) and removed, and searches had results.",
 "stateful model-based property testing (rapid) against brute force", "Exactness of the graph index only while it is completely linked; recall is a floor over generated data.", observe=["search results", "size"])

G = "pkg/graph/"
prop("P19", "The graph is a map of nodes and a map of edges between existing nodes",
 "After any sequence of single and batch upserts, deletions, combined batches and reopenings, nodes and edges read back (by id, by type, in bulk, by direction) exactly as last written: vector, content, type, properties, ends, weight (0 is stored as 1) and edge vector. Deleting a node deletes exactly its edges with it. An edge whose ends do not both exist, and a node or edge without id or vector or with properties that cannot be encoded, is refused and changes nothing; a batch stores the rest and reports exactly how many rows succeeded and failed. Deleting what is not there is an error.",
 ["histories", "inputs"], "all histories of graph mutations, any ids, properties and batch sizes",
 "Tests build one small graph; replaced edges, cascades and mixed batches only differ in particular orders.",
 [G+"graph.go", G+"graph_batch.go"], [("node and edge upsert", G+"graph.go"), ("foreign keys with cascade", G+"graph.go"), ("batches in one transaction", G+"graph_batch.go")],
 "Generated histories of about 20 steps over a few ids, invalid rows included, and batches of up to 1500 rows; everything readable compared with two maps after each step. Non-trivial: something was replaced, edges were removed with their node, and something was refused.",
 "stateful model-based property testing (rapid) against two maps", "Small id sets; random histories.", observe=["nodes", "edges by direction", "batch counts"])

prop("P20", "Graph traversals follow exactly the stored edges",
 "Neighbors returns exactly the nodes reachable from the start within the depth (1 by default) along edges of the given direction and types, having the given node types, without the start, each once, nearest first, and with a limit that many of the nearest. ShortestPath returns a path of the fewest directed edges, its nodes and edges as stored and joined, with the sum of its weights, and an error exactly if there is none. Connected is true exactly if the undirected distance is within the depth (6 by default). Subgraph returns exactly the named nodes that exist and the edges among them, each once.",
 ["inputs", "histories"], "all graphs with cycles, loops, parallel edges and chains, and all options",
 "Tests walk one fixed graph; cycles, filters combined with limits and depth bounds need many.",
 [G+"graph_traversal.go"], [("breadth-first neighbours", G+"graph_traversal.go"), ("shortest path", G+"graph_traversal.go")],
 "Generated graphs (cycles, loops, parallel edges, chains, trees of up to 400 nodes) after a history; results compared with a reference breadth-first search. Non-trivial: at least two queries selected a proper part of the graph or a path of several steps.",
 "differential property testing (rapid) against reference graph search", "Graphs up to hundreds of nodes.", observe=["traversal results"])

prop("P21", "Graph algorithms compute their definitions on the stored graph",
 "PageRank gives every node its score under s(v) = (1-d)/n + d * sum of s(u)/outdegree(u) over incoming edges (parallel edges count each), iterated from 1/n, best first. Community detection partitions the nodes, largest community first, never joins unconnected nodes, scores a community by its share of the nodes, and leaves no node more strongly tied to another community than to its own. Edge prediction returns exactly the nodes not yet connected that score over 0.5 by vector similarity, averaged with the share of common neighbours if there are any, best first within the limit. Graph statistics (counts, average degree, density, connected components) are true.",
 ["inputs", "histories"], "all graphs and parameters",
 "Tests check that results exist; the values are only right or wrong against a recomputation on arbitrary graphs.",
 [G+"graph_algorithms.go"], [("PageRank iteration", G+"graph_algorithms.go"), ("community moves", G+"graph_algorithms.go"), ("edge scores", G+"graph_algorithms.go")],
 "Generated graphs after a history, up to 400 nodes; ranks, components and predictions recomputed, communities checked for the stated optimality. Non-trivial: several but not only single communities, and some edges predicted.",
 "differential and invariant property testing (rapid)", "PageRank compared to 3e-5, since iteration may stop early.", observe=["algorithm results"])

prop("P22", "An exported graph comes back whole",
 "Exporting a graph as GraphML, GEXF or JSON and importing it gives the same nodes and edges in every part: ids, vectors bit for bit, content, types, weights, properties and edge vectors; what the target already held is replaced where ids coincide and kept otherwise, and its vector index knows the imported nodes. The format of an export is detected. A truncated file is refused without effect; an import that cannot store every node and edge, and an export that is cancelled or cannot be written completely, report an error.",
 ["inputs", "faults"], "all graphs whose texts the formats can carry, all formats, truncations and failing writers",
 "Tests export two plain nodes; losses show with unusual weights, texts, edge vectors or partial failures.",
 [G+"graph_export.go"], [("GraphML", G+"graph_export.go"), ("GEXF", G+"graph_export.go"), ("JSON", G+"graph_export.go")],
 "Generated graphs after a history exported and imported into an empty or occupied store, with generated truncations and writers that fail at a generated byte. Non-trivial: several nodes and edges after updates or deletions, or an import with an edge to nowhere.",
 "round-trip property testing (rapid) with injected damage", "Control characters that XML cannot carry are not generated.", observe=["nodes and edges of the target", "errors"])

prop("P23", "Vector and hybrid search over the graph rank the stored nodes truly",
 "The graph's vector index, whatever single or batch writes, replacements, deletions and imports preceded, and whether enabled before or after them, finds exactly the stored nodes scoring at least the threshold, best first within k, at their true similarity (nearly all of them in large graphs). Similar-node and neighbourhood searches rank exactly the other nodes, respectively the start and the nodes the traversal options select. Hybrid search scores a node by the normalised weights of its similarity, of 1/(distance+1) from the start along directed edges within the depth, and of the product of the weights on a shortest path, over exactly the nodes found by vector or by traversal with the given types, and leaves the query unchanged; around centres the graph score is 1 over the number of nodes on the shortest path.",
 ["histories", "inputs", "configurations"], "all graphs, histories, queries, weights and thresholds, with and without the index",
 "The index only goes wrong after particular insertions and removals; scores only against recomputation.",
 [G+"graph_hnsw.go", G+"graph_hybrid.go"], [("index maintenance", G+"graph_batch.go"), ("hybrid scoring", G+"graph_hybrid.go"), ("index search", G+"graph_hnsw.go")],
 "Generated graphs after a history for three similarities; each search compared with brute force and reference distances; graphs of up to 500 nodes for recall (at least 0.8). Non-trivial: limits or thresholds cut at least two results in a graph with edges.",
 "differential property testing (rapid) against brute force", "Edge strength is ambiguous between shortest paths of different weights; then any of them is accepted.", observe=["search results"])

K = "pkg/cortexdb/"

prop("P25", "A memory is kept, changed and found only in its own bucket",
 "A saved memory reads back with the content, role, scope, namespace, importance, time to live and metadata last written; an update changes exactly the fields it names (metadata key by key); a save or update that is refused, for lack of an owner, text or embedding, changes nothing; deletion removes that memory and nothing else, and chat sessions are never affected. A search names a scope, owner and namespace and returns only live memories of exactly that bucket, whatever characters the names contain, each at most once, best first within the limit: by similarity, the closest ones; by words, as many as match any keyword of the query, whatever punctuation it holds, and for a single word, of two texts of equal length the one with more occurrences first. A memory whose time to live has passed is not returned and displaces no live one.",
 ["histories", "inputs", "faults"], "all histories of saves, updates, deletions, searches, expiries, reopenings and embedder failures over look-alike owners and namespaces",
 "Leaks between owners, ranking and expiry only show with particular names, queries and mixtures of live and expired memories.",
 [K+"memory_api.go", K+"knowledge_memory_helpers.go", C+"chat.go"], [("bucket of a memory", K+"memory_api.go"), ("memory search", K+"memory_api.go")],
 "Generated histories over colliding owners and namespaces with and without an embedder that may fail, every record compared with a model after each step and every search recomputed; real waiting for expiry. Non-trivial: a search selected some but not all memories of a bucket or was cut at its limit.",
 "stateful model-based property testing (rapid)", "Small buckets; whether an update without a new time to live restarts it is left open. Metadata keys the library uses itself are not generated.", observe=["memory records", "search results", "chat histories"])

prop("P24", "A knowledge item and everything derived from it are replaced and removed as one",
 "After any history of saves, updates, document ingestions, entity and relation additions, deletions and reopenings, with an embedder that may fail at any call, the stored documents, chunk texts, document and chunk nodes, chains of chunks, entity mentions and relations are exactly those of the last successful write of each item: nothing of an earlier version or of a deleted item remains, nothing of another item is touched, and a refused or failed write leaves the item as it was. The chunks are the text cut into the requested word windows in order; counts and ids reported are those stored; the record reads back with every field it was given.",
 ["histories", "faults", "inputs"], "all histories of writes, failures and reopenings, with and without an embedder, over look-alike ids",
 "Left-overs of earlier versions and losses after a failing embedder only appear after particular sequences of replacement, failure and deletion.",
 [K+"knowledge_api.go", K+"graphrag.go", K+"graphrag_tools.go"], [("replacement of a knowledge item", K+"knowledge_api.go"), ("document ingestion", K+"graphrag.go"), ("entities and relations", K+"graphrag_tools.go")],
 "Generated histories (about 15 steps) over ids that are prefixes of each other, with embedder failures at a generated call; after each step documents, chunks, nodes and edges are compared with a model. Non-trivial: an item was replaced and another removed or a write failed.",
 "stateful model-based property testing (rapid) with fault injection", "Small texts; entities themselves are kept when no longer mentioned, as documented. A database failure half-way through a replacement is not covered.", observe=["records", "chunks", "graph nodes and edges"])

prop("P26", "Retrieval returns the relevant chunks of its collection within its limits",
 "A knowledge or GraphRAG search returns only chunks of the requested collection, each once, with their stored text, document and mentioned entities, at most the allowed number in all and per document and, beyond one chunk, within the allowed context length; the context is those chunks in order. With an embedder the best chunks by similarity are the seeds; without, as many as match a keyword of the query, a planned keyword or an alternate query, up to the limit. With the graph in use further chunks come only from within the allowed number of links from a seed or a named entity, as many as asked for; with it disabled, none. The items reported group exactly those chunks under their records, best first, each with the beginning of its best chunk.",
 ["inputs", "histories", "configurations"], "all knowledge bases, queries, modes and limits",
 "Which chunks are eligible depends on collection, graph links, entities and limits together; tests query one fixed text.",
 [K+"graphrag.go", K+"graphrag_tools.go", K+"knowledge_api.go"], [("seed search and expansion", K+"graphrag.go"), ("lexical retrieval", K+"graphrag_tools.go"), ("packing and grouping", K+"knowledge_api.go")],
 "Generated knowledge bases (saves, updates, deletions, entities) queried with generated words, modes, keywords, entity names and limits; eligibility is recomputed by brute force over the model. Non-trivial: some but not all chunks of the collection are returned.",
 "model-based property testing (rapid) against brute force", "The order chosen by reranking is not specified; exact seeds are required only while the vector index is exhaustive.", observe=["chunks", "entities", "context", "items"])

prop("P27", "Every tool does the same through each entrance and refuses what does not fit",
 "The typed methods, Call with JSON arguments and the MCP server offer the same tools and do the same: after any history of calls through any mixture of entrances the knowledge base and the memories are those of the model, and a reading tool gives the same answer through all three and on repetition. Arguments that fit a tool's schema are accepted and each reaches the field of its name; an unknown tool, malformed JSON, an argument of the wrong type or a missing required text is refused with an error and no effect. Text search returns as many matching chunks as the limit allows, best first; search by entities the chunks within the given number of links, by the number of entities reached; expansion exactly the nodes within reach and all links among them; fetching exactly what exists in the order asked; context packing keeps the order and leaves out only what a limit excludes.",
 ["inputs", "histories"], "all tool calls with generated arguments, through all entrances, in any order",
 "Twenty tools times three entrances and their argument combinations; tests call a few by one entrance with fixed arguments.",
 [K+"graphrag_tools.go", K+"mcp.go", K+"knowledge_memory_tooldefs.go", K+"knowledge_memory_types.go"], [("dispatch", K+"graphrag_tools.go"), ("MCP server", K+"mcp.go"), ("schemas", K+"knowledge_memory_tooldefs.go")],
 "Schema-driven argument generation with reflection; histories whose writes go through a generated entrance and whose reads go through all three and are compared with each other and with the model; damaged calls. Non-trivial: the history replaced or removed items, or optional arguments were present.",
 "schema-driven and differential stateful property testing (rapid)", "MCP over the in-memory transport, not over a process's standard streams. The JSON names are those of the documented schemas.", observe=["tool results", "records", "graph"])

G = "pkg/hindsight/"
prop("P28", "A memory bank keeps what was retained and recalls from that bank alone",
 "After any history of creating and deleting banks, retaining memories and observations, conversations with automatic retention and reopenings: the banks are those created and not deleted, with all their fields; every memory and observation reads back with the content, vector, type, entities, confidence, exact date and metadata it was given, and no other bank, graph node or conversation is affected. A recall returns only memories of the named bank, each once: by meaning the closest, by date the closest within the inclusive range, by entity the closest naming one of the entities exactly, by words those holding the words (helped by closeness when a vector is given), at most the allowed number per strategy; with several strategies, the reciprocal rank fusion of what each finds alone, reordered by the reranker if it answers, then cut at the limit. Reflecting uses exactly the recalled memories within its token budget; observing stores exactly the observations of the requested types that reach the confidence asked for. Automatic retention passes the last messages of the conversation in order to the extractor at every trigger and stores each complete fact; a failing extractor costs no message.",
 ["histories", "inputs", "faults"], "all histories over look-alike banks, entities and dates, with failing extractors and rerankers",
 "Leaks between banks, starved filters and losses on reopening need particular mixtures of banks, dates and entities; tests use one bank and zero vectors.",
 [G+"hindsight.go", G+"bank.go", G+"hooks.go", G+"chat.go"], [("retain and recall", G+"hindsight.go"), ("fact extraction", G+"hooks.go"), ("automatic retention", G+"chat.go")],
 "Generated histories (about 24 steps) over colliding banks, entities and dates; after each step all banks, memories, observations, conversations and foreign graph nodes are compared with a model; single strategies are recomputed by brute force, fused ones from the single ones. Non-trivial: a recall selected some but not all memories, a window dropped older messages or a reranker reordered.",
 "stateful model-based and metamorphic property testing (rapid) with fault injection", "What becomes of the memories of a deleted bank is not specified; extracted facts get ids unique across banks; entity names without commas. Which patterns Observe detects is not specified.", observe=["banks", "recalled memories", "observations", "extractor calls"])

prop("P30", "Reranked, diversified and example-based searches select by their stated rule",
 "A search with a reranker hands it the nearest records, best first, with the query text, and returns its ranking cut at threshold and limit with its scores or, if asked, the original ones; its error is reported. Every built-in reranker returns exactly the records it was given, in order of the new score, without changing its input: normalization maps the range linearly, a keyword match never lowers a score and multiplies it per matching word, reciprocal rank fusion puts no record behind one worse by both measures, maximal marginal relevance picks greedily, a hybrid is the weighted mean of its parts. A diversified search returns stored records of the named collection and filter, each once, from the 3k nearest, at most k: by marginal relevance the greedy picks, by distance records at least that far apart leaving none out without reason, at random k of the nearest in order. Search by positive and negative examples scores every record by its closest positive minus the weighted closest negative; anomalies are ranked by mean distance to their five nearest neighbours; the best k are returned.",
 ["inputs", "configurations"], "all record sets, queries, similarity measures, rerankers and options",
 "Which records win depends on all pairwise similarities, on ties, on negative scores and on the measure; tests use one small fixed set with cosine.",
 [C+"reranker.go", C+"advanced_search.go"], [("SearchWithReranker and rerankers", C+"reranker.go"), ("diversity and examples", C+"advanced_search.go")],
 "Generated candidate lists, stores (up to 14 records, three similarity measures, two collections) and options; the picks and scores are recomputed by definition. Non-trivial: more records are eligible than may be returned.",
 "property-based testing (rapid) against brute force", "The determinantal method is only required to return eligible records; ties are free.", observe=["results", "scores", "order"])

prop("P31", "Aggregations give the counts, sums and extremes of the matching records",
 "For any stored records, an aggregation over a metadata field gives exactly the count, sum, mean, minimum or maximum over the records of the named collection (or all) that match every filter, whether the filter value is text, a number or a truth value; grouped, one result for each combination of values of the grouping fields, absent values forming their own group, each with its own number of members and value, at most the limit, largest first; a condition on the value keeps exactly the groups that have it. Records without metadata or without the field and keys with any characters but a double quote do no harm. An aggregation that is not defined is refused.",
 ["inputs", "histories"], "all record sets, fields, groupings, filters, orders and limits",
 "Absent fields, odd keys and mixed groups decide the outcome; tests aggregate a handful of uniform records.",
 [C+"aggregations.go"], [("aggregation queries", C+"aggregations.go")],
 "Generated stores (up to 20 records, overwritten in between) and requests; every result is recomputed from the model. Non-trivial: some but not all records are selected.",
 "model-based property testing (rapid)", "Fields aggregated numerically hold numbers; conditions on the aggregated value are equality, the only one offered.", observe=["results", "groups", "counts"])

prop("P32", "A multi-vector entity is one record over all its vectors",
 "After any history of upserts, refused upserts, deletions and reopenings, each entity reads back with exactly its named vectors, content and metadata, text, number or truth value; other entities and plain records are unaffected; deleting it removes all its vectors. A vector that is not finite or does not fit the store's dimension policy is refused and changes nothing. A search over several named vectors scores each entity that has any of the queried fields and matches the filter by the maximum, minimum, sum or mean of its field similarities, each multiplied by the weight of its field, and returns the best entities, each once, with content and metadata.",
 ["histories", "inputs"], "all histories over look-alike entity ids and fields, with any weights, methods and filters",
 "Entities share one table with plain records; which fields and entities take part in a score depends on the whole content.",
 [C+"multi_vector.go"], [("multi-vector entities", C+"multi_vector.go")],
 "Generated histories (about 14 steps) over ids that are parts of each other, plain records and reopenings, with and without index; after each step every entity and record is compared with a model; searches are recomputed by definition. Non-trivial: after a replacement or deletion, a search selects some but not all entities.",
 "stateful model-based property testing (rapid)", "An upsert that leaves out a field the entity already has is not generated: whether the field is kept is not documented.", observe=["entities", "search results", "record count"])

prop("P33", "Streaming searches and queued updates lose, repeat and reorder nothing",
 "A streaming search delivers to a consumer that keeps up every record of its collection and filter exactly once with its true score, in numbered batches of the given size, each best first, with progress rising to the total; ending early, it stops only once as many results as asked for reach the quality threshold, and then sends no further batch; cancelled, it ends. Parallel and merged streams carry each stream's results unchanged; collecting gives the k best (or k results all above 0.9). Updates queued in an incremental index are each stored, last version last, at the latest when Close returns, unaffected by others that cannot be stored; a search through it sees every update accepted before, each id once; after Close nothing is accepted.",
 ["schedules", "histories", "inputs"], "all record sets, batch sizes, interleavings of queued updates with searches, waits, concurrent writers and close",
 "Loss and reordering depend on when the background processor runs relative to searches and close; tests sleep and look at counts.",
 [C+"streaming.go"], [("streaming search", C+"streaming.go"), ("incremental index", C+"streaming.go")],
 "Generated stores and options with every delivered result compared with the model; generated histories of queued updates; concurrent writers, readers and close at a generated moment, under the race detector. Non-trivial: several batches or streams; several queued updates of which some replace each other or are refused; a reader ran beside writers.",
 "stateful and concurrent property testing (rapid, race detector)", "The latency limit is set high, since dropping results for a slow consumer is documented.", observe=["streamed results", "stored records", "search results"], race=True)

R = "pkg/semantic-router/"
prop("P29", "Semantic routing picks the best route, and stored routes survive",
 "After any history of adding routes singly and in batches, refused additions, removals, a temporarily failing embedder and, with a store, new routers and reopenings: the listed routes are those added and not removed, each with all its utterances in order and its metadata; a query goes to a route holding the most similar utterance under the configured measure, whatever the sign of the scores, with that score and that route's handler, and counts as matched exactly if it reaches the threshold. An invalid, duplicate or unstorable route, or a batch with one, is refused whole and leaves routes and store as they were; records of the store that are no routes are untouched. BM25 and TF-IDF weights follow their formulas over the last corpus fitted; word routing picks the best cosine of those weights; the hybrid score is alpha times the vector score plus (1-alpha) times the word score and a route enters both of its parts or none. A caching embedder gives the wrapped embedder's vectors and asks once for each text. Routers may be used from several goroutines.",
 ["histories", "inputs", "faults", "schedules"], "all histories over look-alike route names, measures, thresholds, corpora and embedder failures",
 "Tests add two or three routes with positive similarities and never restart a stored router; lost utterances and sticky failures need a restart or a failure in between.",
 [R+"router.go", R+"hybrid.go", R+"sparse.go", R+"embedder.go"], [("routing and storage of routes", R+"router.go"), ("hybrid routing", R+"hybrid.go"), ("sparse encoders", R+"sparse.go"), ("caching embedder", R+"embedder.go")],
 "Generated histories (about 16 steps) with embedder failures and restarts compared with a model; generated corpora and texts against the formulas; concurrent use under the race detector. Non-trivial: a query was routed among several routes after a removal, restart or failure; several documents and terms; several hybrid routes.",
 "stateful model-based property testing (rapid) with fault injection and the race detector", "Handlers are functions and not stored; what a route scores while its utterances cannot be embedded is not specified; ties are free.", observe=["routes", "routing results", "sparse weights", "embedder calls"], race=True)

prop("P34", "Function routing extracts each parameter with its value and type, or reports it",
 "For any function schema and text, extraction never panics and gives each parameter at most once: the value that follows its name, a word of its description or matches its registered pattern, spelled as in the text and converted to its type with sign and fraction, else a mentioned enumeration value, else its default; a number parameter without a number counts as not found. A required parameter, whether marked itself or listed by the schema, is either among the arguments or among the missing ones, never both or neither, and nothing else is missing. A text routed to a function gives a call of that function with those arguments, using the schema's own extractor if set; a text that matches none gives no call. An incomplete call is never executed; a complete one runs its handler once with exactly the arguments. A schema survives its JSON form.",
 ["inputs"], "all parameter names, descriptions, types, patterns and texts",
 "Names with pattern characters, upper case, negative and fractional values and invalid patterns do not occur in the tests.",
 [R+"schema.go"], [("parameter extraction and function calls", R+"schema.go")],
 "Generated schemas and texts that name values in various ways, with the expected arguments known by construction; arbitrary texts, names and descriptions for the panic and required/missing rules. Non-trivial: several parameters of which some are found.",
 "property-based testing (rapid) with expectations known by construction", "Which of several mentions of a parameter counts is not specified.", observe=["arguments", "missing parameters", "handler calls"])

Q = "pkg/quantization/"
prop("P16", "Quantizers lose no more than their precision and survive saving",
 "Trained on any finite vectors, constant or of huge range, a scalar quantizer packs every vector into exactly the promised number of bits and gives back each component, clamped to the trained range, within one step, never NaN, and keeps their order; a binary quantizer sets exactly the bits of the components above the mean and decodes to a vector with the same code; a product quantizer picks in each part the nearest centroid and estimates distances consistently with the decoded vector. Searches over codes return the k nearest codes in order with their distances. A saved quantizer, loaded into any other, encodes identically. Untrained quantizers, wrong dimensions, lengths, codes and sizes are refused; a refused training or load, damaged data included, changes nothing and does not panic.",
 ["inputs", "faults"], "all dimensions, bit widths, training sets, vectors and damaged saved forms",
 "Constant and extreme components, odd bit positions and damaged data are the cases that lose precision or panic; tests use uniform random vectors.",
 [Q+"scalar_quantization.go", Q+"product_quantization.go"], [("scalar and binary", Q+"scalar_quantization.go"), ("product", Q+"product_quantization.go")],
 "Generated dimensions, training sets with constant, tiny and huge components, vectors, searches and damaged saved forms; errors bounded by the step computed from the training set, searches against brute force. Non-trivial: several components and training vectors; a search that leaves out some codes.",
 "property-based testing (rapid): round trips, error bounds, brute force", "How good a product quantizer's centroids are is not specified; codes that do not fit are not passed to the searches.", observe=["codes", "decoded vectors", "search results"])

prop("P17", "Stored bytes come back exactly; damage to them is noticed and contained",
 "Every vector, of any length with any bit patterns, and every metadata map with any text come back from their stored form exactly; shortened bytes or bytes whose count does not fit are an error, never a wrong vector or a panic. In a store with damaged vector bytes a damaged record is reported when read and left out of searches, which return all the others exactly, with any index, and also when the stored index snapshot is damaged and the store is opened again.",
 ["inputs", "faults"], "all vectors, metadata and damage to stored bytes and index snapshots",
 "Damage has no place in the tests; a decoder that trusts a count reads wrong memory or panics only for particular bytes.",
 ["internal/encoding/utils.go", C+"store_search.go", C+"store_index.go"], [("codec", "internal/encoding/utils.go"), ("searches over damaged records", C+"store_search.go"), ("index snapshots", C+"store_index.go")],
 "Generated vectors and maps, round trips, shortened and altered bytes; generated stores in which some records and the index snapshot are damaged behind the store's back. Non-trivial: several components or keys; some but not all records are damaged.",
 "property-based testing (rapid) with fault injection", "Damage that leaves a well-formed vector cannot be noticed and is not generated.", observe=["decoded values", "errors", "search results"])

prop("P18", "Geographic searches return exactly the points that qualify",
 "After any history of inserts, moves, deletions and clearings, a radius search returns exactly the stored points within that great-circle distance, each once with its current position and its distance in the given unit, nearest first, everywhere on the globe: near the poles, across the date line, around zero and for radii up to the whole earth; a nearest-neighbour search the k nearest; a box search exactly the points in the box, edges included; a polygon search the points inside a convex polygon in either direction. Points, sizes and lookups are those of the last inserts; invalid points and queries are refused and change nothing.",
 ["histories", "inputs"], "all sets of points, centers, radii, units, boxes and convex polygons",
 "The grid is wrong only in particular places: at high latitudes, across the date line, in cells around zero or after moves; tests look at a few cities.",
 ["pkg/geo/geospatial.go"], [("geo index", "pkg/geo/geospatial.go")],
 "Generated histories (about 25 steps) over few or up to 1500 points at poles, date line, antipodes and close together, with searches compared with brute force over positions on the sphere. Non-trivial: after a move and a deletion a search returns some but not all points.",
 "stateful model-based property testing (rapid)", "Points within a millimetre of a boundary count either way; polygons do not cross the date line.", observe=["search results", "distances", "points"])

prop("P35", "The text interface stores and finds each text by its own embedding",
 "After any history of inserting texts singly, in batches and through the quick interface, adding vectors, refused operations, an embedder that fails or answers too little, and reopenings with or without an embedder: every record holds its text, its metadata and the embedding of exactly that text under its id, in the named collection; generated ids are new; nothing else is stored. Searching by text gives what searching by the embedding of that text gives, the k nearest of the collection or of all with true scores; the hybrid search gives the store's hybrid search; the text-only search, which needs no embedder, gives the records holding all words, best first. Without an embedder, with an empty text or when embedding fails, the documented error is returned and nothing changes; empty texts in a batch are skipped.",
 ["histories", "inputs", "faults"], "all histories over texts, collections, index types, similarity measures and embedder failures",
 "Pairing texts with vectors goes through maps and batches; a mix-up or a partial batch needs particular sizes and failures.",
 [K+"cortexdb.go", K+"embedder.go"], [("text and quick interface", K+"cortexdb.go")],
 "Generated histories (about 18 steps); after each step all records are compared with a model, searches with brute force. Non-trivial: more than two records are eligible after a replacement, refusal or reopening.",
 "stateful model-based property testing (rapid) with fault injection", "Kept below the number of records up to which the index is exhaustive.", observe=["records", "search results", "errors"])

prop("P36", "Graph, indexes, memories and knowledge can be used concurrently",
 "When goroutines use one database at the same time, no operation fails, hangs, panics or races on memory merely because another runs. Each graph node, agent memory and memory bank behaves as a linearizable register whose parts (content, vector, properties) always belong to one version; concurrent updates of one memory or knowledge item are all kept; writes of one knowledge item take effect one after the other, so that at rest its record, chunks and graph nodes all belong to the version written last and a deleted item leaves nothing; a search beside writers returns no item twice and no parts of different versions. The standalone index structures keep every acknowledged insertion and deletion. At rest searches show exactly what is stored, and reopening changes nothing.",
 ["schedules", "histories"], "all schedules of concurrent writers, deleters, readers and searchers of the graph, the index structures, memories, knowledge and banks",
 "Tests use these parts from one goroutine; a lost update, a failed first save or a stale index entry needs two writers at the same moment.",
 ["pkg/graph/graph.go", "pkg/graph/graph_batch.go", "pkg/graph/graph_hnsw.go", K+"memory_api.go", K+"knowledge_api.go", "pkg/hindsight/hindsight.go", "pkg/index/flat.go", "pkg/index/hnsw.go", "pkg/index/ivf.go", "pkg/index/lsh.go", "pkg/index/multi_index.go"],
 [("node row and index entry", "pkg/graph/graph.go"), ("memory and its bucket", K+"memory_api.go"), ("knowledge and its chunks", K+"knowledge_api.go"), ("banks", "pkg/hindsight/hindsight.go"), ("index locks", "pkg/index/hnsw.go")],
 "Generated programs for two to six goroutines on few ids run under the race detector; histories judged by a linearizability checker (porcupine), derived data and searches compared at rest. Non-trivial: writes of one id overlapped; several vectors remain in an index.",
 "concurrent generated histories (rapid) with linearizability checking (porcupine) and the race detector", "Schedules are sampled by the Go scheduler, not enumerated. What a read of a knowledge item shows while that item is being written is left open; each index id is written by one goroutine.", observe=["histories of calls and returns", "records, chunks and nodes at rest", "search results"], race=True)

prop("P37", "An interrupted read is reported, never answered in part",
 "When the context of a read is cancelled or runs out, or the database fails, at whatever moment, the read returns either its whole answer, exactly what it would have returned undisturbed, or an error that is not 'not found'. It never returns a shorter list, an empty result, a missing record or a partial path as if that were all there is. This holds for record, document, collection, session and message reads, every kind of search, aggregation and export of the store, for graph reads, traversals, analyses, searches and exports, and for knowledge, memory, GraphRAG and memory bank retrieval.",
 ["faults", "inputs"], "every moment at which any read can be interrupted or any of its database calls can fail, on any stored data",
 "Tests never interrupt a read half-way; a swallowed error looks like a correct but shorter answer.",
 [C+"store_query.go", C+"store_search.go", C+"advanced_search.go", C+"chat.go", "pkg/graph/graph_traversal.go", "pkg/graph/graph_hybrid.go", K+"knowledge_api.go", K+"memory_api.go", "pkg/hindsight/hindsight.go"],
 [("row iteration errors", C+"store_query.go"), ("lookups inside searches", "pkg/graph/graph_hybrid.go"), ("chunk loading", K+"knowledge_api.go"), ("recall channels", "pkg/hindsight/hindsight.go")],
 "Generated stores, graphs, knowledge bases, memories and banks; each of some 75 reads is run once undisturbed and then either with a context that is cancelled at a drawn one of its uses, so between two statements or two rows, or with one drawn call of the database driver (statement, row, begin, commit), or all from it on, failing with an I/O error. Non-trivial: at least two disturbed reads of the case failed.",
 "fault-injection differential property testing (rapid) against the uninterrupted answer", "Interruption is by the caller's context and never inside a driver call, where the pinned SQLite driver can leave its connection locked. Text searches of knowledge, which are tried another way when they fail once, meet lasting failures only. Facet counts, the last insertion time and the estimated database size, which are best effort, are not compared; an answer that differs between undisturbed runs is skipped.", observe=["answers and errors of all reads"])

prop("P38", "An interrupted write can be repeated and loses nothing",
 "When a write is interrupted by its context, or a call to the database fails, at whatever moment, either it reports success and everything it does has happened, or it reports an error and repeating it undisturbed leaves the database exactly as if it had been done once. An interrupted save, update or ingestion of a knowledge item leaves the item's chunks, their vectors and nodes as they were before or as they are afterwards, never without chunks, in part or in another collection; other items are untouched. This holds for knowledge, entities, relations, memories, graph nodes and edges, memory bank memories and observations, sessions and messages.",
 ["faults", "histories"], "every moment at which any write can be interrupted, in any history",
 "Tests never interrupt a write; what is left behind depends on which of its many steps it had reached.",
 [K+"graphrag.go", K+"graphrag_tools.go", K+"knowledge_api.go", K+"memory_api.go", "pkg/graph/graph.go", "pkg/graph/graph_batch.go", "pkg/hindsight/hindsight.go", C+"chat.go"],
 [("replacing an item's chunks and nodes", K+"graphrag.go"), ("lexical ingestion", K+"graphrag_tools.go"), ("memory and its bucket", K+"memory_api.go"), ("batch transactions", "pkg/graph/graph_batch.go")],
 "Generated histories applied to two databases, one undisturbed, one with every write either interrupted at a drawn use of its context (between two statements or rows) or meeting an I/O error in one drawn call of the database driver, or in all from it on, and repeated if it failed; all tables are compared after each write, and the item between the interruption and the repetition. Non-trivial: at least two disturbed writes of the case failed.",
 "fault-injection differential property testing (rapid) against an undisturbed twin", "After a failure of the database an item may be incomplete until the write is repeated, and an update of an item is not repeated (its collection is not known any more); Interruption is by the caller's context and never inside a driver call; times, version counters and empty memory buckets are not compared, nor the graph entities of bank memories, which are kept as best it goes.", observe=["all tables", "node search", "chunks of an item"])
