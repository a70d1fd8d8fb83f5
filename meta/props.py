#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they agree."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note,
         level="exploration", observe=None, hook=None, state=None, built=True):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a,
        _technique=technique, _note=note, _level=level, _built=built))

SAMPLES = "The existing tests check a handful of fixed documents and queries, one history each, on one configuration."
DELAYS = "utils/hook points (build tag verif) inject delays and report progress; the verdict does not depend on them"
MODEL = "Trusts the reference model and the Go runtime; covers the histories generated from the seed, under the schedules that occurred."

prop("C01", "A flushed search returns exactly the documents that contain every key",
 "After Flush, a search without logic returns each indexed document that contains all the searched tokens and labels (and is among the requested DocIds, when given) exactly once, returns no other document, and its NumDocs counts exactly these. This holds for every engine configuration and every history of Index and RemoveDoc calls.",
 ["histories", "inputs", "configurations", "schedules"],
 "every history of concurrent Index/IndexDoc/RemoveDoc/Flush calls with any documents and ids, every number of shards, threads, buffer and cache sizes and index type, and every conjunction of tokens and labels with or without a DocIds filter",
 SAMPLES + " They cannot cover interleavings of the cached add and remove paths, cache boundaries, or sharding.",
 ["engine.go", "core/indexer.go", "core/ranker.go", "indexer_worker.go", "ranker_worker.go", "segment.go"],
 [("inverted index insertion and merge", "core/indexer.go AddDocs/RemoveDocs"), ("posting intersection", "core/indexer.go internalLookup"), ("fan out and merge over shards", "engine.go Search")],
 "runtime monitoring: model-based online oracle over random concurrent histories of the real engine and index, with injected delays",
 MODEL, observe=["Engine.Search", "core.Indexer.Lookup"], hook=DELAYS)

prop("C02", "Logic searches return exactly what Must, Should and NotIn select",
 "After Flush, a search with the Must, Should and NotIn flags or their expressions returns exactly the documents that have all the Must keys, at least one Should key (when a Should clause is given) and none of the NotIn keys, each once, and NumDocs counts exactly these. A clause given as an expression uses the expression's keys, a clause given as a flag uses the request's keys. The DocIds filter applies as in other searches.",
 ["histories", "inputs", "configurations", "schedules"],
 "every history of writes, every configuration, and every combination of Must/Should/NotIn flags and expressions that has a must or should clause, with keys present and absent",
 "The logic tests run a few fixed combinations on one engine and never with keys missing from the table, or after removals.",
 ["core/indexer.go", "types/search_request.go", "engine.go"],
 [("logic lookup", "core/indexer.go LogicLookup, unionTable, findIn*Table")],
 "runtime monitoring: model-based online oracle over random concurrent histories and random logic expressions",
 MODEL + " One finding is listed in KNOWN_FINDINGS.txt: a logic search without must clause ignores DocIds.",
 observe=["Engine.Search", "core.Indexer.Lookup"], hook=DELAYS)

prop("C03", "Indexing a document id again replaces its previous version completely",
 "After Flush, a document id that was indexed several times is found exactly under the keys of the version given last and carries that version's payload; no key, location or payload of an earlier version remains, and the document is counted once. This holds however many versions lie between two flushes, wherever the caches fill up in between, and whatever the new content is; of versions indexed by several goroutines at once, exactly one remains, the last of one of them.",
 ["histories", "configurations", "schedules"],
 "every sequence of versions per id issued in order, interleaved with writes to other ids from other goroutines, forced or not, on every configuration",
 "No test re-indexes an id with different content and checks the old keys; none does so under small caches or several shards.",
 ["engine.go", "core/indexer.go", "segment.go", "core/ranker.go", "indexer_worker.go"],
 [("update as removal plus insertion", "core/indexer.go AddDocToCache, RemoveDocs, AddDocs"), ("routing an update to the document's shard", "engine.go internalIndexDoc"), ("order of two updates", "engine.go internalIndexDoc, segment.go segmenterWorker")],
 "runtime monitoring: model-based oracle over histories of repeated versions, comparing all posting lists and payloads after each Flush",
 MODEL, observe=["Engine.Search", "Engine.HasDoc", "core.Indexer.Lookup"], hook=DELAYS)

prop("C04", "A removed document is gone from every search, and can be indexed again",
 "After RemoveDoc and Flush the document is found under no key it ever had, in no search mode, and HasDoc denies it; all other documents stay. Indexing the id again afterwards makes exactly the new version searchable. Removing unknown, already removed or still unindexed ids is harmless.",
 ["histories", "configurations", "schedules"],
 "every history of index, flush, remove, flush and re-index with repeated and spurious removals, on every configuration",
 "Removal tests remove one or two documents from small fixed indexes.",
 ["engine.go", "core/indexer.go", "core/ranker.go", "indexer_worker.go", "ranker_worker.go"],
 [("removal from all shards", "engine.go RemoveDoc"), ("batched removal", "core/indexer.go RemoveDocToCache, flushRemoveCache, RemoveDocs"), ("payload removal", "core/ranker.go RemoveDoc")],
 "runtime monitoring: model-based oracle searching every key a removed document ever had, in all modes",
 MODEL, observe=["Engine.Search", "Engine.HasDoc"], hook=DELAYS)

prop("C05", "Shards, threads, caches, buffers and forced updates never change the outcome",
 "The same writes followed by Flush give the same documents for every search, whatever the numbers of shards, worker threads and buffer lengths, the capacity of the document caches, the index type, and whichever calls force an update. No history of calls, racing writes on one id included, panics, blocks, or leaves documents that cannot be replaced or removed afterwards.",
 ["configurations", "histories", "schedules"],
 "every pair of configurations over every history, every cache size from one up, every mixture of cached and forced adds and removes from several goroutines",
 "Each test uses one configuration, mostly with caches larger than its data.",
 ["engine.go", "core/indexer.go", "indexer_worker.go", "ranker_worker.go", "segment.go"],
 [("add cache", "core/indexer.go AddDocToCache"), ("remove cache", "core/indexer.go RemoveDocToCache, flushRemoveCache"), ("sharding by hash", "engine.go getShard, internalIndexDoc, RemoveDoc")],
 "runtime monitoring: metamorphic runs of one history under different configurations, and chaos histories under crash and dead-state detection",
 MODEL, observe=["Engine.Search", "process exit"], hook=DELAYS)

prop("C06", "Results are ordered by score, with offset and limit applied globally",
 "Results come in the order of their scores as the scoring criteria gave them, compared lexicographically, largest first or smallest first with ReverseOrder; documents for which the criteria give no score are dropped. Offset and limit then cut the globally ordered list, whatever the number of shards, so that pages join without gap or repetition, a page beyond the end is empty and no limit means all. The request's RankOpts (or the engine's defaults when absent) decide.",
 ["inputs", "configurations", "histories"],
 "every corpus, scoring criteria, order, offset, limit, number of shards and result mode",
 "Ranking tests rank two or three documents in one shard with fixed criteria.",
 ["engine.go", "core/ranker.go", "types/search_response.go", "types/scoring_criteria.go", "ranker_worker.go"],
 [("per-shard ranking", "core/ranker.go rankOutDocs/rankOutIDs, maxOutput"), ("merge of shards", "engine.go Ranks/RankID, maxRankOutput"), ("order", "types/search_response.go Less")],
 "runtime monitoring: reference sort of the matching documents under random criteria compared with every response",
 MODEL, observe=["Engine.Search"], hook=DELAYS)

prop("C07", "A search result carries the content, attributes and fields of its document",
 "Every returned document carries the Content, Attri and Fields given with the live version of that document id (an id-only engine returns the same ids without them), and the scoring criteria are given the fields of the document they score. Payloads of two documents or two versions are never mixed.",
 ["histories", "inputs", "configurations", "schedules"],
 "every history of index, re-index and removal calls and every configuration, over payloads of any shape",
 "Tests read the content of one search result; no test re-indexes documents with different payloads and compares all of them.",
 ["core/ranker.go", "engine.go", "ranker_worker.go", "indexer_worker.go", "segment.go", "types/search_response.go"],
 [("stored payloads", "core/ranker.go AddDoc/RemoveDoc/rankOutDocs"), ("hand-over to the ranker", "segment.go segmenterWorker, ranker_worker.go")],
 "runtime monitoring: versioned payloads of every result compared with the model over random histories",
 MODEL, observe=["Engine.Search", "ScoringCriteria.Score"], hook=DELAYS)

prop("C08", "BM25 scores equal the documented formula over the live documents",
 "For every match of a search without logic, the BM25 value given to the scoring criteria equals the documented formula, with the engine's parameters, over the documents that are live in its shard: their number, their token counts, the document frequency of each searched key and its frequency in the document. Documents that were removed or replaced have no influence.",
 ["inputs", "histories", "configurations"],
 "every corpus, every history of updates and removals, every conjunction of keys and every choice of the BM25 parameters",
 "One test computes one BM25 value for three documents that never change.",
 ["core/indexer.go", "types/indexer_init_options.go", "types/scoring_criteria.go"],
 [("bm25", "core/indexer.go internalLookup"), ("collection statistics", "core/indexer.go AddDocs/RemoveDocs/AddDocToCache")],
 "runtime monitoring: every BM25 value recomputed in float64 from the model",
 MODEL + " Relative tolerance 1e-4 for float32.", observe=["core.Indexer.Lookup", "Engine.Search"])

prop("C09", "Token locations and token proximity equal their definitions",
 "With the locations index, every match reports for each searched token, in the order of the query, the locations the document was indexed with. The token proximity is the smallest total distance over all choices of one location per token, and the reported snippet locations are a choice that attains it; the exported criteria RankByTokenProximity ranks by it.",
 ["inputs", "histories", "configurations"],
 "every document, every set of ascending locations and every conjunction of tokens and labels, after any history of updates and removals",
 "Two tests check four proximities and one set of locations of fixed documents.",
 ["core/indexer.go"],
 [("locations", "core/indexer.go internalLookup, AddDocs, RemoveDocs"), ("proximity by dynamic programming", "core/indexer.go computeTokenProximity")],
 "runtime monitoring: brute-force recomputation over all choices of one occurrence per token",
 MODEL, observe=["core.Indexer.Lookup", "Engine.Search"])

prop("C10", "Every search mode answers the same request consistently",
 "Search, SearchDoc, SearchID, counting only, unordered, with a limit, with a generous timeout, repeated, and on an id-only engine: all modes agree on the documents, NumDocs, the searched tokens and the scores of the same request. Counting only reports the number of matches and no documents.",
 ["inputs", "configurations"],
 "every corpus and every request, over all the result modes of the API",
 "Tests call the modes on different data and never compare them.",
 ["engine.go", "core/ranker.go", "types/search_response.go", "indexer_worker.go", "core/indexer.go"],
 [("mode dispatch", "engine.go Search/Ranks/RankID/NotTimeOut/TimeOut"), ("rankers", "core/ranker.go RankDocID/RankDocs"), ("unordered results", "indexer_worker.go orderLess")],
 "runtime monitoring: differential oracle between the modes and the model on the same random request",
 MODEL, observe=["Engine.Search", "Engine.SearchID", "Engine.SearchDoc"])

prop("C11", "Tokenization gives the documented keys in every mode",
 "In every tokenization mode (segmenter on or off, each Using mode, search mode, stop tokens, pinyin) a document is found under exactly the keys that the documented rules derive from its content, tokens and labels, with the locations of the segmenter, of the given tokens or the running number of the piece; stop tokens are found under no key. A search text is split by the same rules, so that a document is found by its own text in any case.",
 ["inputs", "configurations"],
 "every document text, token and label list and search text, in every mode",
 "Tests run one or two texts in a few modes.",
 ["segment.go", "engine.go", "stop_tokens.go", "riot.go"],
 [("document keys", "segment.go makeTokensMap, splitData, segmenterData, PinYin"), ("query keys", "engine.go Tokens, Segment"), ("stop tokens", "stop_tokens.go")],
 "runtime monitoring: independent tokenization model compared with the engine's posting lists for every candidate key",
 MODEL + " Word boundaries and pinyin are taken from the gse and gpy libraries.", observe=["Engine.Search"])

prop("C12", "A search waits for every shard, or stops at its timeout and says so",
 "A search without a timeout, or one whose timeout does not expire, returns only when every shard has answered, with the complete result and Timeout false. When the timeout expires first, the search returns without waiting for the slow shards, sets Timeout, and gives only documents with the scores and order that the full result has, those of the shards that answered among them. Late answers neither change a response nor disturb later searches.",
 ["schedules", "inputs", "configurations"],
 "every set of shards that are slow, every timeout value (zero and negative included), request and configuration",
 "One test sets a timeout on an idle engine.",
 ["engine.go", "ranker_worker.go", "indexer_worker.go"],
 [("collecting the shards' answers", "engine.go NotTimeOut, TimeOut"), ("answer channel with room for every shard", "engine.go Search")],
 "runtime monitoring: scoring held back by a gate in the criteria; order of release and return, and set inclusion against the model",
 MODEL + " A shard that is not held back is assumed to answer within 20 s.", observe=["Engine.Search"])

prop("C13", "After Flush everything issued before it is complete and visible",
 "When Flush returns, every Index and RemoveDoc call that returned before Flush was called has taken full effect: in searches, in HasDoc, in the payloads and in the persistent store. This holds while other goroutines go on writing, searching and flushing, and Flush always returns once the writers pause.",
 ["schedules", "histories", "configurations"],
 "every interleaving of several writers that flush in their own time, on every configuration, with and without a store",
 "Tests flush once, from the only goroutine, when the engine has long been idle.",
 ["engine.go", "indexer_worker.go", "ranker_worker.go", "store_worker.go", "segment.go"],
 [("counters of requests and completions", "engine.go Flush, counters updated in *_worker.go"), ("forced update of every shard", "segment.go segmenterWorker, core/indexer.go AddDocToCache")],
 "runtime monitoring: per-goroutine session oracle after each Flush under injected delays, with dead-state detection",
 MODEL, observe=["Engine.Flush", "Engine.Search", "Engine.HasDocDB"], hook=DELAYS)
exec(open(os.path.join(HERE, "meta", "more.py")).read())

def main():
    src = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    hooks = [l.split()[0] for l in src.splitlines() if l.split(" ", 1)[1].startswith("verif")]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "verif", "enable": "go build -tags verif (run.sh does it)", "source_commits": hooks},
         "checks": [{"property": p["id"], "quick_cmd": "./run.sh " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["_technique"], "level": p["_level"], "level_note": p["_note"]}
                    for p in P if p["_built"]],
         "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in P if not p["_built"]]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
main()
