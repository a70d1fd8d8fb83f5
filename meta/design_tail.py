import json,os,glob
s=open('/verif/DESIGN.md').read()
i=s.find('\n## 5. Defects')
if i>0: s=s[:i+1]
s=s.rstrip()+'\n\n'
seeds=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json')); seeds.append((d,m))
s+='''## 5. Defects found

Every defect was shown against the real code before it was repaired, and each
repair is one `fix:` commit in /repo; `KNOWN_FINDINGS.txt` lists them with their
property and what failed. By weight:

* **Lost or ghost documents** – the add cache and the remove cache deadlocked or
  overflowed (96074e2, 3ef29a9); a document removed while it waited in the cache
  could never be indexed again (d7a62e9); the older of two versions could win
  (3a9e3a5, ab8401f); old content stayed searchable when the new content moved the
  document to another shard (8eda23d); a search between the removal and the next
  Index of an id could return both versions (6f75f5c); removed documents survived in
  the store (56aae1a); racing Index calls of one id left one version in the index and
  another in the store (5905cc7); Flush returned early (87f4b10).
* **Crashes** – labels with the locations index (4e93847), logic searches with an
  absent key (00cc7a0), negative or huge limits (8fea79f), SearchDoc and SearchID
  while counting (3a98e7b), HasDocDB without a store (db69f1c), the gRPC Delete (927c735) and logic-free gRPC searches
  (f31d99e), a failing backend (8f3cb1b), a document without attributes in a
  backend's reply (44ed0e3), badger after a torn write (bdb2d7e).
* **Isolation** – HasDoc changed a shared registry (e529f96), distributed searches
  shared globals (f890bc8, 818e29f), phrase segmenter (8e3d805), counters (1a8f11a,
  09092db), memory of a closed bolt transaction (4c10722), token locations handed to
  callers were the index's own (5d54614).
* **Security** – a kill request could run any shell command (2c22703).
* **Wrong answers** – token proximity (1e15985), spaces in a query (45fba2d),
  timeouts of more than 292 years (7141196) and timeouts that did not count while the
  request waited for a full queue (088342e), services that persisted nothing
  (2c6d554) or gave every document one id (511400e).

* **A document not found by its own text** (C11) – search texts were cut by another
  algorithm than documents (ebc69c9), capital letters outside ASCII stayed in the
  document's keys while search texts are lower-cased (eb57a12).

Three findings are recorded and not repaired:

* `should-only-search-ignores-docids` (C02). The documentation says that only the
  given ids are searched; a logic search without a must clause goes through
  `unionTable`, which does not look at them. The repair is four lines, but the
  repository's own TestSearchLogic expects documents outside its DocIds (the
  filter lists 0 to 9 and it expects document 10 first), so it fails with the
  repair; the existing suite has to pass unedited.
* `bolt-empty-value-gc-crash` (C21). The defect is in bbolt 1.3.4 (a pointer behind
  the end of an inline bucket that newer collectors reject); the dependency cannot
  be changed here.
* `own-text-gsemode-hmm` (C11). With GseMode documents are cut by
  `ModeSegment(.., true)` but search texts by `CutSearch`, whose order and subwords
  differ; with Hmm the search text gets words that no dictionary has. The document
  is then not always found by its own text. Making both sides equal means to change
  what one of them gives: TestRiotGse pins Segment's output in GseMode, and documents
  indexed before would lose keys. That is a decision for the maintainers, no small
  repair. That every *key* of the document finds it, in both modes, is still checked
  under other keys.

The checks keep watching all three: another violation of C02, C11 or C21 is reported.

## 6. False alarms that were corrected

Alarms that turned out to be mistakes of the check, and what was done:

* **C16**: the first specification ordered unforced adds of *different* documents as
  they were issued. The cache gives no such order; the specification now only fixes
  that an unforced add takes effect no later than the next forced one.
* **C05/C13**: RemoveDoc followed by Index of the same id without a Flush in between
  was judged; the documentation leaves that order open, so histories flush between
  the two, or the outcome is only required to be one of both.
* **C06, C33**: with a limit, documents of equal score may be cut either way between
  shards; two answers to one request are compared without the limit, or by their
  score sequence.
* **C08**: exact BM25 is only defined per shard; and beyond 2^24 tokens the float32
  total loses units. The model uses one shard and bounds the lengths.
* **C18/C25**: quadratic numbers of keys in the splitting modes (every prefix is a
  key) made long contents time out; long contents are only used where keys are words.
* **C22–C26**: a forked child inherits badger's lock file descriptor for a moment, so
  a reopening server could find the folder locked. The harness excludes forks while
  a badger store is being opened.
* **C12, C24**: upper bounds on durations were first a fixed factor; under full load
  they alarmed. Decisions now rest on what the harness holds back and releases.
* **C11 (own mask)**: the oracle called the phrase library with its own segmenter,
  which set the same global as the engine and hid an engine that did not set it. The
  oracle now leaves a wrong segmenter behind and computes only after Flush.
* **C27**: a kill request that names nothing was judged as one process "".

## 7. Planted bugs

Every planted bug in `seeded/` was confirmed in a scratch copy: the patch changes
only lines of the original repository, compiles, the stable tests pass, `demo.sh`
passes on the unchanged tree and fails with the patch. The check named is the one
of its property; each was run and exits 1 with the property's VIOLATION line.

| planted bug | property | needs |
|---|---|---|
'''
for d,m in seeds:
    s+=f"| {d} | {m['property']} | {m['needs']} |\n"
s+='''
Planted bugs that a check missed at first, and what was added for them:
c01-gallop (runs of more than eight documents: wide posting lists), c04-batch-remove
(several removals in one batch), c05-remove-room (the index driven directly with
removal caches that are almost full), c12-return-cap (a further search after several
that timed out), c16-remove-chunks (part wide), c18-decode-reuse and
c18-content-tokens (documents with parts left out, contents together with tokens),
c19-stored-early (crash right after Flush), c20-same-content and c23-same-content
(repeated contents), c21-badger-has (empty values), c25-tokens-noloc (tokens with no
location), c28-k1-only (parameters with zeros), c29-heap (killer sequences),
c09-rarest-first (documents in the dozens now and then, rich documents, in every check
that draws a vocabulary), c10-count-tokens (the tokens in every mode), c11-stop-case
(tokens that differ from a stop token in case only), c15-rank-break (engines that keep
ids only), c31-dict-name (dictionaries of the same file name in different folders), c10-idonly-timeout
(every mode on an id-only engine and through the typed searches), c31-bm25-default
(engines with BM25 parameters and default rank options of their own), c24-decode-reuse
(all attributes and the scores of the backends' documents compared, some documents
without them), c25-attri-garbage (attributes that cannot be decoded), c06-shard-cap, c11-many-words,
c18-big-record, c09-far-apart, c24-large-answer and c08-long-docs (one vocabulary in
sixteen is now of a larger scale in one dimension: documents, tokens, occurrences,
labels or lengths; deep pages; long contents, records, answers and queries; a dynamic
program as the proximity oracle), c02-must-limit (the known finding of C02 had filled the
list of violations: a listed finding is now kept three times and then only counted), c22-badger-view (keys
with one writer under readers that never pause, decided exactly over long histories),
c33-request-tokens (the caller changes its request, or the tokens of the response,
after the search), c06-three-scores (more than three scores), c09-repeated-word (words
searched twice, more than eight words), c11-long-pinyin (long texts in pinyin),
c27-relative-dir, c31 engines (options against the environment), c01-pointer-16,
c18-recover-many, c18-close-eight, c24-sixteen, c26-sixteen, c23-thousand and a cap on
remembered ids (large runs, many backends, many store shards, many keys and labels),
c12-count-timed (count-only and orderless searches with timeouts), c08-split-length
(BM25 lengths in the splitting modes), c34-*, c35-* and c27-restart-behind
(properties and monitors for resources, restart commands that take longer than a beat).

## 8. Mutation runs

Beside the planted bugs, mechanical mutants of every non-test source file of the
engine, the index, the stores and the services were made (conditions forced either
way, operators and constants changed, statements deleted), two rounds, about 2700
mutants. In the last round of 1561: 315 do not compile, 942 fail the repository's own
tests (root package and network tests included) or hang, 226 are killed by the checks
here, 78 survived. Each survivor was read. What was a gap became a case (C11 phrase segmenter, C18
undecodable records, C23/C25 repeated contents, C27 requests without a name, C28 no
arguments and zero parameters, C29 the key counter, C33 aliasing). What remains is
logging, capacity hints, equivalent arithmetic (`0+1`), unreachable error branches
(gob encoding into memory, `net.Listen` on a free port), defaults that nobody can
observe (buffer lengths), and code that needs an etcd server. Random samples of
mutants are drawn again whenever the checks have grown; the last sample of 120 gave 6
that do not compile, 19 that the tests kill, 69 killed here and 26 survivors, of which
one showed a gap (lengths in the splitting modes, now in C08) and one a property that
was missing (an unclosed connection: C34).

## 9. What is not covered

* **etcd discovery** (`net/grpc/etcd.go`: InitErpc and the resolver) needs an etcd
  server; there is none here. The distribution logic it feeds is checked with static
  backends (C26).
* **info.go** wraps a module that is missing from the sandbox; it is stubbed for the
  build and reports machine data only. `net/rpcx` and `net/rpc.go` are empty.
* **Power loss.** C19's crash is the death of the process; the backends are opened
  without syncing every write, so nothing more is promised.
* **Very large collections.** Long posting lists, contents, records, answers, label and
  filter sets (thousands) are used where code may change behaviour with size, not
  millions of documents; float32 counters above 2^24 are out of the model.
* **Library internals**: word boundaries (gse), pinyin (gpy), the stores' own
  durability are taken as given; the oracle calls the same library.
* **Schedules** are sampled, not enumerated: `hook.Point` delays and the race detector
  widen what is reached, but a window that needs an exact interleaving of several
  goroutines without a hook in between may stay unseen in a quick run.
* **Hanging gRPC peers**: the heartbeat and the gRPC aggregator set no deadline, so a
  peer that accepts a request and never answers is waited for; the properties do not
  promise otherwise (C24, whose client has a deadline, does).
* The number of store shards is assumed to stay the same between restarts, as the
  routing of the engine needs. gRPC's limit of 4 MB per message, Flush under writers
  that never pause, and what data/ holds (main programs with fixed ports) are not
  judged; neither is the switch to a store at 99.99 % of memory (info.go, whose
  dependency is missing here).
* Pathological memory use of the splitting modes on long contents is documented
  behaviour and not judged.
'''
open('/verif/DESIGN.md','w').write(s)
