CRASHNOTE = "Covers the executions that the seed and the scheduler produced; "

prop("C14", "Concurrent use of the engine is free of data races, crashes and deadlocks",
 "The methods of one engine (Index, IndexDoc, RemoveDoc, Search, SearchDoc, SearchID, HasDoc, HasDocDB, the listings, the counters, Segment, Flush) may be called from any number of goroutines at the same time. No such use contains a data race inside the repository, crashes the process, or reaches a state in which a call can never return.",
 ["schedules", "configurations", "inputs"],
 "every set of concurrent calls on shared document ids, on every configuration, tokenization mode and store backend",
 "Tests call the engine from one goroutine and run without the race detector.",
 ["engine.go", "core/indexer.go", "core/ranker.go", "core/data.go", "indexer_worker.go", "ranker_worker.go", "store_worker.go", "segment.go", "counters.go"],
 [("locks of index and ranker", "core/indexer.go, core/ranker.go tableLock/lock"), ("channels between the workers", "engine.go, *_worker.go"), ("counters", "engine.go numDocsIndexed and the like, counters.go")],
 "runtime monitoring: Go race detector, crash and dead-state detection over concurrent stress of the real engine with injected delays",
 CRASHNOTE + "the race detector reports only accesses that were executed.", observe=["race reports", "process exit", "goroutine states"], hook=DELAYS)

prop("C15", "Writes to some documents never disturb searches for the others",
 "While documents are indexed, replaced and removed concurrently, every search still returns each document that matches and is not being written, with its own payload, in the right order relative to the others and counted, and no search returns a document twice or one that never had the searched keys. A document that is being written appears only as one of its versions.",
 ["schedules", "histories", "configurations"],
 "every interleaving of writers on one set of documents with searchers on all documents, in every mode and configuration",
 "No test searches while another goroutine writes.",
 ["core/indexer.go", "core/ranker.go", "engine.go", "ranker_worker.go", "indexer_worker.go"],
 [("posting lists changed in place under the table lock", "core/indexer.go AddDocs/RemoveDocs/Lookup"), ("payload maps", "core/ranker.go")],
 "runtime monitoring: online oracle on searches during churn, with stable documents as sentinels",
 MODEL, observe=["Engine.Search"], hook=DELAYS)

prop("C17", "The ranker always shows one consistent version of a document",
 "However AddDoc, RemoveDoc and Rank calls on one Ranker overlap, each returned document carries the content, attributes and fields of one single AddDoc call, no older than the last one that finished before the search began, and the scoring criteria see the fields of that version. Removed documents are not returned once RemoveDoc has finished.",
 ["schedules", "histories"],
 "every interleaving of concurrent additions, replacements, removals and rankings on shared documents",
 "The ranker tests use one goroutine and never replace a document.",
 ["core/ranker.go", "core/data.go"],
 [("payloads of a document under one lock", "core/ranker.go AddDoc, RemoveDoc, RankDocs")],
 "runtime monitoring: versioned payloads checked against call intervals, under the race detector",
 MODEL, observe=["core.Ranker.Rank"], hook=DELAYS)

prop("C18", "A restart on the same folder restores exactly the live documents",
 "An engine opened on the store folder of an engine that was closed finds exactly the documents that were live at Close, each with the version given last, its keys, content, attributes and fields, and can be written, searched and restarted again. This holds for every backend and for other numbers of threads, shards and caches in the next life. Records that cannot be decoded are skipped without harm to the others.",
 ["histories", "configurations", "inputs"],
 "every history of writes over several lives, every backend, any options except the folder and the number of store shards, and any undecodable record",
 "The store test restarts once, with a few documents and one backend, and never after replacements and removals.",
 ["engine.go", "store_worker.go", "store/store.go", "store/ldb_store.go", "store/bolt_store.go", "store/badger_store.go", "counters.go"],
 [("persisting documents", "store_worker.go storeIndex/storeRemove"), ("recovery", "store_worker.go storeInit, engine.go Store"), ("closing", "engine.go Close")],
 "runtime monitoring: model-based oracle over histories with restarts on the real backends",
 MODEL, observe=["Engine.Search", "Engine.HasDoc", "Engine.GetDBAllDocs"], hook=DELAYS)

prop("C20", "The persistent store mirrors the live documents after Flush",
 "With UseStore, after Flush the store lists exactly the live document ids, each with the document given last (the version that searches show, when several goroutines index one id at once), decoded equal to it, and HasDocDB agrees. This holds for every backend, number of store shards and history of concurrent writes. An engine without a store lists nothing, and HasDocDB says no.",
 ["histories", "configurations", "schedules"],
 "every history of index, re-index and removal calls, every backend and number of store shards",
 "Tests list the store once after a fixed set of documents.",
 ["store_worker.go", "engine.go", "counters.go", "store/store.go"],
 [("order of store requests per document", "engine.go internalIndexDoc/RemoveDoc, store_worker.go"), ("listing the store", "counters.go, store_worker.go")],
 "runtime monitoring: model-based oracle comparing the listed and decoded store with the model after each Flush",
 MODEL, observe=["Engine.GetDBAllIds", "Engine.GetDBAllDocs", "Engine.HasDocDB"], hook=DELAYS)

prop("C30", "The counters count exactly the calls, tokens and documents",
 "After Flush, NumDocsIndexed counts the Index calls made and the documents recovered from the store, NumDocsRemoved one for every shard of every RemoveDoc call, and NumTokenIndexAdded the distinct keys summed over the indexed documents, exactly, however the calls were spread over goroutines, shards and caches. No counter decreases or runs ahead of the calls issued; NumTokenAdded, NumIndexed and NumRemoved report the same values.",
 ["histories", "configurations", "schedules"],
 "every history of concurrent writes and every configuration",
 "No test compares a counter after concurrent calls, replacements or removals.",
 ["engine.go", "counters.go", "indexer_worker.go", "ranker_worker.go", "store_worker.go"],
 [("atomic counters", "engine.go, *_worker.go"), ("accessors", "counters.go, engine.go NumTokenAdded, NumIndexed, NumRemoved")],
 "runtime monitoring: conservation oracle counting the calls and postings of random histories",
 MODEL, observe=["Engine.NumDocsIndexed", "Engine.NumDocsRemoved", "Engine.NumTokenIndexAdded"], hook=DELAYS)

prop("C31", "Engines in one process are independent of each other",
 "Several engines in one process, with whatever options and whatever is done on them concurrently, each answer as if they were alone: documents, payloads, scores, default options and counters of one never appear in or change another.",
 ["histories", "configurations", "schedules"],
 "every number of engines, their options and histories, interleaved in any way",
 "Tests create engines one after the other and never use an older one again.",
 ["core/data.go", "core/ranker.go", "core/indexer.go", "types/init_options.go", "types/indexer_init_options.go", "engine.go"],
 [("package-level registry of shards", "core/data.go"), ("package-level defaults", "types/init_options.go")],
 "runtime monitoring: one model per engine over interleaved histories",
 MODEL, observe=["Engine.Search", "Engine counters"])

prop("C32", "No document or request content can crash or corrupt the engine",
 "Documents with empty, huge, binary or repeated contents, tokens, labels and locations, requests with unknown keys, odd ranks, negative numbers and unusual criteria are all answered without a panic or a blocked call, and the ordinary documents are found afterwards exactly as before.",
 ["inputs", "configurations"],
 "every document and request that the types can express, except the document ids and logic flags that the documentation reserves",
 "Tests use well-formed documents and requests only.",
 ["engine.go", "segment.go", "core/indexer.go", "core/ranker.go", "types/search_response.go"],
 [("request handling", "engine.go Search, Tokens"), ("lookup of missing keys", "core/indexer.go internalLookup/LogicLookup"), ("criteria results of any length", "types/search_response.go Less")],
 "runtime monitoring: crash and dead-state detection over generated hostile documents and requests, with ordinary documents compared against the model",
 MODEL, observe=["process exit", "Engine.Search"])

prop("C33", "Calls never change the caller's data, and answers never change later",
 "Requests and documents given to the engine are left unmodified, so they can be used again, by several goroutines at once, and a request may be changed as soon as its search has returned, even by its timeout. A response, once returned, is not changed by later calls on the engine, shares nothing with its request, and changing its documents has no influence on later answers.",
 ["histories", "inputs", "schedules"],
 "every request, document and response of every mode, whatever calls follow",
 "No test compares a request before and after a call, or an old response after writes.",
 ["engine.go", "core/ranker.go", "core/indexer.go", "segment.go", "types/search_request.go"],
 [("copying of labels and tokens of the query", "engine.go Tokens, Search"), ("result slices", "core/ranker.go rankOutDocs")],
 "runtime monitoring: deep snapshots of requests, documents and responses compared after the calls",
 MODEL + " Token location slices inside responses are not claimed.", observe=["Engine.Search", "Engine.Index"])

prop("C19", "A crash at any point loses nothing that was flushed and corrupts nothing",
 "If the process dies at any point, during recovery included, the next engine opened on the folder recovers every document in a whole version no older than the one that the last Flush to return had covered and no younger than the last one issued; a removal covered by Flush stays in force. The recovered engine is consistent: index, payloads and store agree, and it can be written, flushed and crashed again.",
 ["crash_points", "histories", "configurations"],
 "every history of writes and flushes, every point of a process crash including the middle of a store write, repeated crashes, and every backend",
 "No test ends the process; the restart test closes the engine first.",
 ["store_worker.go", "engine.go", "store/ldb_store.go", "store/bolt_store.go", "store/badger_store.go"],
 [("write to the store before counting it", "store_worker.go storeIndexDoc"), ("Flush waits for the store", "engine.go Flush"), ("recovery does not rewrite the store", "store_worker.go storeInit, engine.go Store")],
 "runtime monitoring with fault injection: worker processes killed at enumerated store operations and hook points, recovered state checked against the issued and flushed histories",
 "Enumerates kinds of points and samples their ordinals in quick, all ordinals in thorough. Power loss is not modelled beyond a torn last write.",
 level="fault_enumeration", observe=["Engine.GetDBAllDocs after restart", "Engine.Search after restart"], hook=DELAYS)

prop("C16", "The index is linearizable: every lookup sees one consistent snapshot",
 "Calls of AddDocToCache, RemoveDocToCache, Lookup and HasDoc on one Indexer from any number of goroutines can be ordered, consistently with their real-time order, so that each Lookup and HasDoc answers from the state that this order gives: a forced add or a removal takes effect within its call, an unforced add no later than the next forced one. Re-adding an existing document counts as its removal followed by its addition.",
 ["schedules", "histories"],
 "every concurrent history of adds, removals and lookups on few documents with caches of any size, without removals of documents that wait in the add cache",
 "The index tests use one goroutine.",
 ["core/indexer.go"],
 [("lock order of add cache, remove cache and table", "core/indexer.go AddDocToCache, RemoveDocToCache"), ("lookup under the read lock", "core/indexer.go Lookup, HasDoc")],
 "runtime monitoring: offline linearizability checker (Wing-Gong search) over recorded concurrent histories with injected delays",
 "Covers the recorded histories of up to about 50 calls; a search that exceeds its step limit is counted as undecided.",
 observe=["core.Indexer.Lookup", "core.Indexer.HasDoc"], hook=DELAYS)

prop("C29", "The exported sorters sort, and the shard registry keeps every entry",
 "Asc, Desc, StableAsc and StableDesc turn any slice of uint64 into its ascending or descending order and touch nothing else; IsSortedAsc and IsSortedDesc tell whether a slice is in that order. The registry functions of core/data.go keep every entry added by any goroutine, IsDocExist finds exactly the ids added, and the counter of a shard counts the additions.",
 ["inputs", "schedules"],
 "every slice of uint64 values, and every concurrent history of registry calls",
 "No test calls these functions.",
 ["core/uint64.go", "core/data.go", "utils/utils.go"],
 [("quicksort, heapsort and insertion sort", "core/uint64.go"), ("registry lock", "core/data.go")],
 "runtime monitoring: comparison with the standard library over enumerated and shaped slices, model of the registry under the race detector",
 MODEL, observe=["core.Asc", "core.Desc", "core.IsDocExist"])

prop("C21", "Every store backend behaves as a persistent map",
 "Each backend (leveldb, bolt, badger) keeps exactly the last value set for every key that was not deleted since, over Close and reopening; Get, Has and ForEach report this, ForEach gives every record once and stops with the error of its callback. Values and buffers belong to the caller before and after each call, also when the store is closed. OpenStore picks the backend by name, environment or default, and reports unknown names and what it cannot open.",
 ["histories", "inputs"],
 "every sequence of operations and reopenings with any non-empty keys and any values",
 "The store tests set and get one key.",
 ["store/store.go", "store/ldb_store.go", "store/bolt_store.go", "store/badger_store.go"],
 [("backends", "store/ldb_store.go, store/bolt_store.go, store/badger_store.go"), ("choice of backend", "store/store.go OpenStore, RegisterStore")],
 "runtime monitoring: model-based oracle (a map) over random operation sequences on the real backends, with poisoned and retained buffers",
 MODEL + " One finding is listed in KNOWN_FINDINGS.txt: empty values in bolt.", observe=["store.Store methods", "store.OpenStore"])

prop("C22", "Store backends are linearizable per key under concurrent use",
 "Set, Delete, Get, Has and ForEach of one opened store may be called from any number of goroutines. The operations on each key have an order, consistent with real time, that explains all answers, no answer shows a value that was never stored, ForEach gives no key twice and every key that is present throughout, and nothing races or blocks forever.",
 ["schedules", "histories"],
 "every concurrent history of operations on few keys, on every backend",
 "The store tests use one goroutine.",
 ["store/ldb_store.go", "store/bolt_store.go", "store/badger_store.go"],
 [("transactions", "store/bolt_store.go, store/badger_store.go"), ("iterator snapshot", "store/*_store.go ForEach")],
 "runtime monitoring: offline linearizability checker per key over recorded concurrent histories, under the race detector",
 "Covers the recorded histories.", observe=["store.Store methods"])

prop("C23", "The HTTP service answers for exactly the documents added through it",
 "Documents sent to AddIndex and not deleted since through DelIndex are found by Search, after the host flushed the engine, by the words of their last content, with that content and the time they were added; others are not, and documents that are not being written stay found during writes. The response lists them newest first (id descending among equals), gives their number, and applies offset and limit, taking the configured ones when the request has no positive limit. The documents are kept in the configured store and survive a restart of the server.",
 ["histories", "inputs", "configurations", "schedules"],
 "every history of concurrent requests, flushes and restarts, any request parameters and any engine configuration",
 "No test starts the HTTP service.",
 ["net/http/http.go", "net/http/search.go", "net/com/search.go", "net/com/conf.go"],
 [("handlers", "net/http/http.go Search, AddIndex, DelIndex"), ("order of responses", "net/http/search.go docsSlice"), ("engine behind the services", "net/com/search.go")],
 "runtime monitoring: black-box server process with a model-based oracle on every response",
 "The client sees a service over loopback; "+MODEL, observe=["HTTP responses of the handlers"])

prop("C24", "A distributed HTTP search is the merge of what its own backends answer",
 "WgDist asks every configured backend once, with the parameters of its own request (or the configured offset and limit when there is no positive limit), and answers with the documents of all backends that answered, newest first, cut to the limit, each as the backend gave it. Backends that fail or hang contribute nothing and never fail the request; concurrent requests never mix.",
 ["schedules", "inputs", "fault_sequences"],
 "every number of backends, every answer, delay and failure of each, and any number of concurrent requests",
 "No test calls the distributed handler.",
 ["net/http/dist.go", "net/http/http.go", "net/http/search.go"],
 [("fan-out and merge", "net/http/dist.go WgDist"), ("client with a deadline", "net/http/http.go Post")],
 "runtime monitoring: reference merge compared with every response over stub backends with delays and faults, exactly-once request counting, race detector",
 "Covers the answers, delays and schedules that the seed produced.", observe=["HTTP responses of WgDist", "requests at the backends", "race reports"])

prop("C25", "The gRPC service answers for exactly the documents given to it",
 "Documents sent with DocInx (or the client helper InitGrpcc) and not deleted since are found by Search, after the host flushed the engine, by the words of their last content, by their tokens and by logic expressions, within the document filter, with that content and those times; others are not, and no request ends the server. The reply lists them newest first (id descending among equals), gives their number, and applies offset and limit, taking the configured ones when the request has no positive limit. HeartBeat echoes its number, and the documents survive a restart.",
 ["histories", "inputs", "configurations", "schedules"],
 "every history of concurrent calls, flushes and restarts, any request contents and any engine configuration",
 "No test starts the gRPC service.",
 ["net/grpc/grpc.go", "net/grpc/grpcc.go", "net/grpc/search.go", "net/com/search.go"],
 [("service", "net/grpc/grpc.go server"), ("client helpers", "net/grpc/grpcc.go"), ("search and order", "net/grpc/search.go rpcSearch, rpcSlice")],
 "runtime monitoring: black-box server process with a model-based oracle on every reply",
 "The client sees a service over loopback; "+MODEL, observe=["gRPC replies"])

prop("C26", "A distributed gRPC search is the merge of what its own backends answer",
 "The distributed server asks every configured backend once, with the parameters, filter and logic of its own request (or the configured offset and limit when there is no positive limit), and replies with the documents of all backends that answered, newest first, cut to the limit, each as the backend gave it. Backends that fail contribute nothing and never fail the request or end the process; concurrent requests never mix; documents given to it reach its own engine.",
 ["schedules", "inputs", "fault_sequences"],
 "every number of backends, every answer, delay and failure of each, and any number of concurrent requests",
 "No test calls the distributed server.",
 ["net/grpc/search.go", "net/grpc/etcd.go", "net/grpc/grpcc.go"],
 [("fan-out and merge", "net/grpc/search.go wgGrpc"), ("distributed server", "net/grpc/etcd.go eserver"), ("client", "net/grpc/grpcc.go InitSearchRpc")],
 "runtime monitoring: reference merge compared with every reply over stub backends with delays and faults, exactly-once request counting, race detector",
 "Covers the answers, delays and schedules that the seed produced; the server is reached without its registration in etcd.", observe=["replies of the distributed server", "requests at the backends", "race reports"], hook="net/grpc/verif_on.go gives the distributed server without registering it in etcd")

prop("C27", "The heartbeat restarts a failing service and kills only what is asked",
 "The supervisor counts every beat that fails or is answered wrongly; the fourth since the last restart or kill runs the restart command once, in the given directory, waits for its end before the next beat, and starts the count again; a failing command does not end the supervision, and a service that came back is supervised on; Health reports the count. KillSer and RestartSer kill exactly the processes named in the request, never run or pass on anything else of it, and reset the count. All of this may happen concurrently.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "every sequence of beat outcomes, every name in a request, any concurrent use of the handlers",
 "No test runs the heartbeat.",
 ["net/heartb/heart.go"],
 [("supervision loop", "net/heartb/heart.go Grpcc, heart, restart"), ("handlers", "net/heartb/heart.go Health, KillSer, RestartSer, kill")],
 "runtime monitoring: trace oracle inside every beat over planned outcomes, recording stand-in for killall, race detector",
 "A beat takes a second, so the sequences are short; the death of processes is left to killall.", observe=["beats", "restart runs", "Health", "arguments of killall", "race reports"])

prop("C28", "Options left out take their defaults, and constructors mean what they say",
 "EngineOpts.Init and IndexerOpts.Init keep every option that is set, give every other its default (8 shards, BM25 with K1 2.0 and B 0.75, frequency index, ranking by BM25, positive thread and buffer counts) and may be repeated. New and NewEngine with a dictionary, folder and number of shards, and New with a configuration file, make the engine those values stand for, persisted in that folder in that many parts.",
 ["inputs", "configurations", "histories"],
 "every combination of options set and left out, every form of the constructors",
 "Tests use New once with default arguments.",
 ["types/engine_init_options.go", "types/indexer_init_options.go", "riot.go", "engine.go"],
 [("defaults", "types/engine_init_options.go Init"), ("constructors", "riot.go New, NewEngine"), ("default folder", "engine.go initDef")],
 "runtime monitoring: field-by-field oracle over random options; model-based oracle on engines made by every constructor",
 MODEL, observe=["EngineOpts after Init", "Engine.Search", "store folder"])

prop("C34", "Network operations leave no goroutine, connection or process behind",
 "A distributed HTTP or gRPC search, a call of a gRPC client helper, a request to a handler, a kill request and a restart by the supervisor keep nothing once they are over: however often they are repeated, with backends that answer, fail in any way, or are not there, the goroutines, open files and child processes of the process do not grow with their number.",
 ["histories", "fault_sequences", "inputs"],
 "every number of repetitions, any mixture of answers and failures",
 "Tests make single calls and never look at what the process holds.",
 ["net/http/dist.go", "net/http/http.go", "net/http/search.go", "net/grpc/grpcc.go", "net/grpc/search.go", "net/heartb/heart.go"],
 [("connections of the clients", "net/grpc/grpcc.go InitGrpcc, InitSearchRpc, InitDelGrpcc"), ("HTTP client", "net/http/http.go Post"), ("child processes", "net/heartb/heart.go restart, kill")],
 "runtime monitoring: goroutines, descriptors and child processes of the process counted at rest before and after repetition",
 "A resource kept by fewer than a quarter of the operations stays below the threshold; the client of etcd is not run.", observe=["goroutines", "open descriptors", "child processes", "zombies"])

prop("C35", "Removed documents are given up, and closed stores let go of their files",
 "Searches, timed out ones included, leave no goroutine and no memory behind. The content, fields, attributes and keys of removed documents and replaced versions are given up once the engine is flushed, so memory does not grow with the history of a corpus of bounded size. Closing a store or an engine, failing to open one, and reading stop tokens leave no file open.",
 ["histories", "configurations", "schedules", "fault_sequences"],
 "every number of repetitions, every configuration and backend",
 "Tests do each thing once and never look at what the process holds.",
 ["engine.go", "core/indexer.go", "core/ranker.go", "store/ldb_store.go", "store/bolt_store.go", "store/badger_store.go", "stop_tokens.go"],
 [("postings of removed documents", "core/indexer.go RemoveDocs"), ("payload maps", "core/ranker.go RemoveDoc"), ("answers after a timeout", "engine.go Search, TimeOut"), ("closing", "engine.go Close, store/*_store.go Close")],
 "runtime monitoring: goroutines, descriptors and live heap of the process measured at rest before and after repetition",
 "Growth below a twelfth of what the repetitions handled stays unseen; the engine keeps some bytes per document id and its goroutines after Close.", observe=["goroutines", "open descriptors", "live heap"])

prop("C36", "A store in use cannot be opened a second time",
 "While a store of any backend is open, no other opener gets it, be it a goroutine, a process or an engine on the same folder: leveldb and badger refuse, bolt waits. The holder goes on reading and writing undisturbed, and whoever gets the store once it is closed finds everything written before, with the openers taking turns. A holder that is killed leaves no lock behind.",
 ["schedules", "crash_points", "histories", "configurations"],
 "every backend, any number of openers in any processes, every moment of an attempt",
 "Tests open each store once, in one process.",
 ["store/store.go", "store/ldb_store.go", "store/badger_store.go", "store/bolt_store.go", "engine.go"],
 [("opening", "store/store.go OpenStore; store/*_store.go Open*"), ("an engine's stores", "engine.go Store, Close")],
 "runtime monitoring: mutual-exclusion monitor (exclusively created mark files) over competing goroutines and processes, and content oracles of what every opener found",
 "How long bolt waits is not judged; the moments at which an engine that is being initialized reopens its own store are not contended.", observe=["OpenStore", "mark files", "ForEach", "Engine.Init in other processes"])

prop("C37", "A store that fails or stalls never reaches the searches",
 "Whatever the persistent store refuses (writes, removals, reads, listings, closings, payloads that cannot be stored), the index, the searches and the payloads are as with a store that works; Index, RemoveDoc, Flush and Close return, each document's last write or removal has been asked of the store, and a refused write leaves the record before it. A start whose reading of one part breaks off brings back exactly what that part gave and all of the others, and the engine goes on. While the store stalls, searches are answered and Flush waits.",
 ["fault_sequences", "histories", "schedules", "configurations"],
 "every sequence of failing and succeeding store operations, every part of the store, every moment of a stall",
 "No test uses a store that fails.",
 ["store_worker.go", "engine.go", "riot.go", "store/store.go"],
 [("writing", "store_worker.go storeIndexDoc, storeRemoveDoc"), ("recovery", "store_worker.go storeInit; engine.go Store"), ("waiting", "engine.go Flush, Close"), ("reading", "riot.go HasDocDB, GetDBAllIds, GetDBAllDocs"), ("registered backends", "store/store.go RegisterStore")],
 "runtime monitoring with fault injection: a registered stand-in makes store operations fail or wait and models the content; model-based oracle on searches, store content and recovery; dead-state detector",
 MODEL + " A store that cannot be opened ends the process, as the code says; failures are errors returned, not panics.", observe=["store operations asked for", "Engine.Search", "Engine.Flush", "records given at recovery", "GetDBAllIds, GetDBAllDocs, HasDocDB"])
