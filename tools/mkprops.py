import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Loading yields exactly the entities the input describes, under any schedule",
  "Loading a pathbuilder and an nquads file produces, for every enabled bundle, exactly the entities, field values (with language), nested children and supporting triples that the pathbuilder's paths match in the data, after taking same-as and inverse-of statements into account. Nothing is lost, duplicated, invented or attached to the wrong entity, and this does not depend on how the concurrent extraction of bundles, fields and children is interleaved.",
  ["inputs","schedules"],"Every pathbuilder with nested bundles and fields, every set of quads (same-as, inverse-of, literals, languages, blank nodes, shared children), every interleaving of the extraction goroutines and every compaction interval.",
  "No existing test loads a pathbuilder at all; the igraph tests query one fixed graph sequentially. The extraction runs one goroutine per bundle, field and child list, so its result has to be checked over schedules.",
  ["internal/sparkl/index.go","internal/sparkl/context.go","internal/sparkl/pathbuilder.go","internal/sparkl/storages/memory.go","internal/triplestore/igraph/index.go","internal/triplestore/igraph/paths.go","internal/triplestore/imap/imap.go","internal/sparkl/cache.go"],
  [("staged extraction with wait groups (entities, then fields, then children)","internal/sparkl/context.go: Context.Store/Wait"),("three-pass indexing (same-as, inverse-of, data)","internal/sparkl/index.go: MakeIndex"),("path query engine","internal/triplestore/igraph/paths.go")],
  ["n2j JSON output","viewer /api/v1/bundle and /api/v1/entity responses"])
p("C02","Loading through an on-disk cache gives the same result as in memory",
  "For the same input, loading with a cache directory yields the same bundles, entities, field values, children and triples as loading in memory, and both report the same statistics about the triples. This holds for every schedule and no matter when the on-disk stores flush or compact.",
  ["inputs","schedules","configurations"],"Every input and schedule, with small and large on-disk write buffers so that flushes and compactions happen at arbitrary moments.",
  "Tests exercise the two storage engines separately on one fixed graph, never the bundle storages, and never compare them.",
  ["internal/sparkl/storages/disk.go","internal/sparkl/storages/memory.go","internal/triplestore/igraph/engine_disk.go","internal/triplestore/igraph/engine_memory.go","internal/triplestore/imap/map_disk.go","internal/triplestore/imap/memory.go"],
  [("common storage interfaces with two implementations","internal/sparkl/storages/storages.go, internal/triplestore/igraph/engine.go, internal/triplestore/imap/map.go")],
  ["n2j -cache output vs n2j output","hangover -cache responses"])
p("C03","A failing cache disk fails the load; it never silently changes the result",
  "If reading, writing, syncing or creating cache files fails at any point while loading with an on-disk cache (I/O error, short write, full disk), the load either still produces the complete correct result or reports an error. It never reports success with missing, extra or altered data, and it never crashes or hangs.",
  ["fault_sequences","schedules","inputs"],"Every position at which a cache file operation can fail (transiently or from then on), every kind of failure, and every schedule.",
  "Tests never inject a storage fault; each of the hundreds of file operations of a load is a separate place where an error can be dropped.",
  ["internal/sparkl/index.go","internal/sparkl/context.go","internal/sparkl/storages/disk.go","internal/triplestore/igraph/index.go","internal/triplestore/igraph/engine_disk.go","internal/triplestore/imap/imap.go","internal/triplestore/imap/map_disk.go","internal/glass/glass.go"],
  [("error returns propagated from every storage call","internal/triplestore, internal/sparkl"),("first error of the concurrent extraction is kept","internal/sparkl/context.go: reportError/Wait")],
  ["exit status and output of n2j -cache / hangover -cache -export"])
p("C04","Unreadable or truncated source input is reported, never loaded partially",
  "If reading the nquads file or the pathbuilder fails part-way (an I/O error at any offset and in any of the passes over the file, or a failing seek between passes), or a line is malformed, the load reports an error. If the reads merely return fewer bytes than asked for or are interrupted, the result is exactly the same as without.",
  ["fault_sequences","inputs"],"Every offset and pass at which a read can fail, be short or be interrupted, for every input.",
  "No test reads an nquads file; error paths of the three passes are never taken.",
  ["internal/sparkl/index.go","internal/sparkl/index_source.go","internal/glass/glass.go","load.go"],
  [("error tokens end each pass with an error","internal/sparkl/index.go: indexSameAs/indexInverseOf/indexData"),("re-reading from the start for every pass","internal/sparkl/index_source.go: QuadSource.Open")],
  ["exit status and output of n2j and hangover -export"])
p("C05","A crash while caching never poisons a later load, and only the cache is touched",
  "After a load with an on-disk cache is killed at any point (losing any writes that were not synced), loading again with the same cache directory gives exactly the result of a load with a fresh directory, even if the input or pathbuilder changed in between. No load ever modifies or deletes files outside its cache directory, whatever names the pathbuilder uses.",
  ["crash_points","schedules","inputs","configurations"],"Every crash instant (including torn and lost unsynced writes), every leftover state of the cache directory, every pathbuilder including empty, duplicate or path-like identifiers.",
  "Tests always start from an empty temporary directory and never stop a load half-way.",
  ["internal/sparkl/storages/disk.go","internal/triplestore/igraph/engine_disk.go","internal/triplestore/imap/map_disk.go"],
  [("every store is wiped before it is opened","NewDiskStorage, NewDiskHash, DiskEngine.NewStorage")],
  ["n2j -cache / hangover -cache run after a crash"])
p("C06","A successful export can always be imported again, with identical contents",
  "If exporting an index reports success, the file is complete: importing it gives a server that answers every request exactly like the one that loaded the data directly (bundles, entities, aliases, resolving of URIs, triples, pathbuilder and display flags). If any write, flush or close of the export file fails, exporting reports an error.",
  ["fault_sequences","inputs","configurations"],"Every input and set of flags, every position at which writing the export can fail or be short, every schedule, and a crash right after the export finished.",
  "The sgob test encodes maps of numbers to memory; nothing exports or imports an index, and no write ever fails.",
  ["internal/glass/glass.go","internal/sparkl/cache.go","pkg/sgob/sgob.go","internal/viewer/viewer.go","internal/triplestore/imap/memory.go"],
  [("streaming encode of all cache parts in fixed order","internal/sparkl/cache.go: EncodeTo/DecodeFrom"),("gzip writer closed and errors returned","internal/glass/glass.go: Export")],
  ["hangover -export and hangover <export>"])
p("C07","A damaged export is rejected with an error",
  "Importing an export file that has been truncated at any point, had bytes altered, or becomes unreadable part-way ends with an error, unless the damage leaves its contents unaffected (such as in unused header fields). It never succeeds with different or missing data, never crashes, never hangs, and never allocates memory out of proportion to the file.",
  ["fault_sequences","inputs"],"Every truncation point, every flipped byte, zeroed or swapped block and every read error offset, for every export.",
  "No test imports an export, let alone a damaged one.",
  ["internal/glass/glass.go","pkg/sgob/sgob.go","internal/sparkl/cache.go"],
  [("checksum verified to the end of the file","internal/glass/glass.go: Import"),("length-prefixed decoding","pkg/sgob/sgob.go")],
  ["hangover <export>"])
p("C08","While loading, no request sees data; once ready, every request sees all of it",
  "Requests for data arriving before the data is ready get the loading answer (the JSON API: status 503 with progress and Retry-After, no data; HTML: the loading page with progress) and never crash the server or return a partial or empty result. As soon as the server has become ready every request is answered from the complete data, and it never goes back.",
  ["schedules","histories"],"Every interleaving of requests with the stages of loading and with publication of the data.",
  "There are no tests of the viewer at all.",
  ["internal/viewer/viewer.go","internal/viewer/fallback.go","internal/viewer/json.go","internal/viewer/html.go","internal/stats/status.go","cmd/hangover/hangover.go"],
  [("data is published before the stats are marked done","internal/viewer/viewer.go: Prepare"),("fallback checked first in every handler","internal/viewer/fallback.go")],
  ["HTTP responses during start-up"])
p("C09","Concurrent requests are answered as if alone; failing clients harm no one",
  "Any number of concurrent requests get exactly the responses (status, headers, body) that each would get alone, whichever pages they ask for. A client that disconnects, stalls or fails while its response is being written affects no other request, and unknown bundles or entities give a 404.",
  ["schedules","fault_sequences","histories"],"Every mix of concurrent requests, every interleaving of their handlers and every point at which a client's connection fails.",
  "There are no tests of the viewer at all.",
  ["internal/viewer/viewer.go","internal/viewer/html.go","internal/viewer/json.go","internal/sparkl/cache.go","internal/wisski/entity.go","internal/assets/assets.go"],
  [("immutable cache after publication","internal/sparkl/cache.go"),("handlers keep no shared state","internal/viewer")],
  ["HTTP responses"])
p("C10","Progress and statistics are consistent and monotone under concurrency",
  "While a load runs, every observation of the progress is one that really occurred: the stage names appear in order, within a stage the count never goes backwards and ends at the total, and current and total always belong together. Finished stages are recorded once each in order with an end not before their start, updates begun after the statistics were closed change nothing, and observing, updating and logging concurrently never crashes or interleaves output lines.",
  ["schedules","histories"],"Every interleaving of the loading goroutines' updates with readers of the progress and with closing.",
  "No test touches the statistics; lost updates and races need particular interleavings.",
  ["internal/stats/status.go","internal/sparkl/context.go","internal/sparkl/index.go","pkg/progress/progress.go"],
  [("mutex around the current stage","internal/stats/status.go"),("counter of finished bundles","internal/sparkl/context.go: StoreBundles")],
  ["/api/v1/progress","/api/v1/perf","terminal output"])
p("C11","The SQL export contains every entity and value exactly once",
  "After a successful SQL export the database holds one row per entity in its bundle's table, one row per child in the child's table with its parent, and every field value exactly once (joined by the separator, or in per-field tables with language), for every batch size and variable limit, and however the bundles' exports interleave. Exporting again into the same database, also after a crash in the middle of an earlier export, gives the same contents as exporting into an empty one.",
  ["inputs","schedules","configurations","crash_points"],"Every input, batch size (including around multiples of the batch size), limit of query variables, both field modes, every schedule and every crash point of a previous export.",
  "There is no test of the exporters; boundaries of batches and interleaved bundles are exactly what samples miss.",
  ["internal/sparkl/exporter/sql.go","internal/sparkl/pathbuilder.go","cmd/n2j/sqlite.go"],
  [("batches per bundle under a lock","internal/sparkl/exporter/sql.go: Add/End"),("tables dropped and re-created","internal/sparkl/exporter/sql.go: createBundleTable/CreateFieldTable")],
  ["n2j -sqlite database contents","n2j -csv files"])
p("C12","A failing database makes the SQL export fail",
  "If any statement of an SQL export fails, or closing the database fails, the export reports an error (the first one); it reports success only if every statement succeeded and nothing was left out. Other bundles being exported at the same time do not crash or hang, and the database is closed.",
  ["fault_sequences","schedules"],"Every statement that can fail, transiently or from then on, and every schedule.",
  "There is no test of the exporters and none that makes a statement fail.",
  ["internal/sparkl/exporter/sql.go","internal/sparkl/pathbuilder.go","cmd/n2j/sqlite.go"],
  [("first error kept across bundle goroutines","internal/sparkl/pathbuilder.go: Export")],
  ["exit status of n2j -sqlite"])
p("C13","The command line tools exit with success only if their output is complete",
  "n2j (JSON, SQLite and CSV output, in memory or cached) and hangover -export exit with status 0 only if the complete correct output has been written; if reading the input or writing the output fails at any point they exit with a non-zero status and a message. Without faults they always succeed, and they never crash or hang.",
  ["fault_sequences","schedules","inputs","configurations"],"Every failing operation on input, cache and output (including a full disk and a closed standard output), every option combination and schedule.",
  "No test runs the programs.",
  ["cmd/n2j/n2j.go","cmd/n2j/json.go","cmd/n2j/sqlite.go","cmd/hangover/hangover.go","load.go","internal/glass/glass.go"],
  [("fatal logging on every error","cmd/n2j, cmd/hangover")],
  ["process exit status","standard output","output files"])
p("C14","Loads always finish and release everything they opened",
  "Every load, export and import finishes in bounded time once no more faults occur, with or without an error. When it has finished no goroutine of it is still running and every file it opened is closed, also after errors.",
  ["schedules","fault_sequences"],"Every schedule and every single or repeated fault position.",
  "Deadlocks and leaked handles depend on interleavings and error paths that tests do not take.",
  ["internal/sparkl/context.go","internal/sparkl/pathbuilder.go","internal/sparkl/index.go","internal/triplestore/igraph/index.go","internal/triplestore/igraph/paths.go","internal/sparkl/storages/disk.go","internal/glass/glass.go"],
  [("closers of all storages","internal/sparkl/context.go: Close"),("index closed on every path","internal/sparkl/index.go, internal/glass/glass.go")],
  ["goroutines and open files after return"])
p("C15","Labels identified as the same resolve together, whatever the order",
  "After any sequence of additions and same-as statements, two labels resolve to the same identifier exactly if the statements connect them, every label keeps its own literal identity, distinct labels never share one, and the canonical label of a group is the one the statements prescribe. This is the same for the in-memory and the on-disk implementation, with compactions at arbitrary points, and a storage fault is reported instead of corrupting the mapping.",
  ["histories","fault_sequences","configurations"],"Every history of additions, identifications, lookups and compactions, on both backends, with faults at any operation.",
  "The tests mark one fixed pattern of identical labels; chains, cycles, re-identifications and faults are not covered.",
  ["internal/triplestore/imap/imap.go","internal/triplestore/imap/map_disk.go","internal/triplestore/imap/memory.go","internal/sparkl/cache.go"],
  [("canonical ids rewritten for all labels of a merged group","internal/triplestore/imap/imap.go: MarkIdentical")],
  ["resolving of aliases in the viewer","canonical URIs in the output"])
p("C16","Queries on a finished index may run concurrently and may be abandoned",
  "Any number of path queries running at the same time over one finished index return exactly the matches that each returns alone, with the data and triples belonging to each path. Abandoning a query early, or a storage error in one of them, neither affects the others nor leaves anything running, and modifying a finished index is refused.",
  ["schedules","histories","fault_sequences"],"Every set of concurrent queries, every interleaving, every point at which one is closed early or fails.",
  "The tests run one query sequentially to its end.",
  ["internal/triplestore/igraph/paths.go","internal/triplestore/igraph/index.go","internal/triplestore/igraph/engine_disk.go","internal/triplestore/igraph/engine_memory.go"],
  [("queries only read the index","internal/triplestore/igraph/paths.go"),("finalized flag","internal/triplestore/igraph/index.go")],
  ["results of path queries"])
p("C17","Loading the same input twice gives the same answers",
  "Two loads of the same input with the same flags and the same kind of storage give identical answers to every request: the same order of bundles and entities, the same resolution of URIs and aliases, the same pages. This does not depend on scheduling or on randomised map iteration.",
  ["schedules","configurations"],"Every pair of schedules and every order in which maps are iterated.",
  "No test loads an input twice or compares answers.",
  ["internal/sparkl/cache.go","internal/sparkl/pathbuilder.go","internal/viewer/html.go","internal/viewer/api.go","internal/wisski/entity.go","internal/triplestore/igraph/engine_memory.go"],
  [("sorted bundle names and keys","internal/sparkl/cache.go, internal/triplestore/igraph/engine_memory.go")],
  ["HTTP responses"])
p("C18","Progress output never alters the data and always ends with the final state",
  "Reading or writing through the progress counters passes on exactly the same bytes, counts and errors as without them, whatever short or failing transfers occur. The rewritten terminal line is updated no more often than the flush interval of the clock allows (unless forced), always shows the latest state when forced or when the interval has passed, and always fully covers what it showed before. The counters count exactly the bytes that were transferred.",
  ["fault_sequences","histories"],"Every sequence of reads and writes with short transfers and errors, every progression of the clock including jumps.",
  "The two examples copy one string without errors and without looking at timing.",
  ["pkg/progress/progress.go","internal/stats/status.go"],
  [("rate-limited rewriting","pkg/progress/progress.go: Rewritable.Flush"),("pass-through of counts and errors","pkg/progress/progress.go: Reader/Writer")],
  ["terminal output","export and import streams"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
