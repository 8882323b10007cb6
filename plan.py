"""Which harness package decides which property, and how it is run."""
DOC_ASSUME = [
    "Swarm (the Bee node) is replaced by an in-memory stand-in that stores and returns chunks, feeds and tags faithfully",
    "the fairOS-dfs dependency is compiled with a logical feed clock, no read timeout and a race-free feed cache (dep_overlay in check.py)",
    "the fairOS-dfs dependency is the pinned one; inputs it is known to mishandle (KNOWN_FINDINGS) are probed separately",
]
INDEX_ASSUME = [
    "Swarm (the Bee node) is replaced by an in-memory stand-in; the key-value table is fairOS-dfs's real one",
    "the index draws node levels from math/rand, seeded per case",
]
CLOG_ASSUME = [
    "logs are those an index can write: a node is added before it is linked and only once, links are cleared only of existing nodes",
    "an interruption leaves the files as they were between two system calls (file contents are those written so far, in order)",
]
PLAN = {
    "P01": {"pkg": "doc", "level": "exploration", "rounds": (1, 16), "assumptions": DOC_ASSUME},
    "P02": {"pkg": "doc", "level": "exploration", "rounds": (1, 16), "assumptions": DOC_ASSUME},
    "P03": {"pkg": "doc", "level": "exploration", "rounds": (1, 20), "assumptions": DOC_ASSUME},
    "P04": {"pkg": "doc", "level": "exploration", "rounds": (1, 16), "assumptions": DOC_ASSUME},
    "P05": {"pkg": "doc", "level": "exploration", "rounds": (1, 16), "assumptions": DOC_ASSUME},
    "P06": {"pkg": "doc", "level": "exploration", "rounds": (1, 20), "assumptions": DOC_ASSUME},
    "P07": {"pkg": "doc", "level": "fault_enumeration", "rounds": (1, 16), "assumptions": DOC_ASSUME},
    "P08": {"pkg": "rest", "level": "exploration", "rounds": (1, 20), "assumptions": DOC_ASSUME},
    "P09": {"pkg": "rest", "level": "exploration", "rounds": (1, 14), "assumptions": DOC_ASSUME},
    "P10": {"pkg": "doc", "level": "exploration", "rounds": (1, 14), "assumptions": DOC_ASSUME},
    "P11": {"pkg": "vec", "level": "fault_enumeration", "assumptions": ["the vectorizer is a local HTTP server whose failures are generated"]},
    "P12": {"pkg": "dist", "level": "exploration", "assumptions": ["float64 arithmetic of the reference, with a tolerance of the float32 rounding of the sum"]},
    "P13": {"pkg": "index", "level": "exploration", "rounds": (1, 10), "assumptions": INDEX_ASSUME},
    "P14": {"pkg": "index", "level": "exploration", "rounds": (1, 20), "assumptions": INDEX_ASSUME},
    "P15": {"pkg": "index", "level": "exploration", "rounds": (1, 10), "assumptions": INDEX_ASSUME},
    "P16": {"pkg": "small", "level": "exploration", "assumptions": ["distances are numbers (no NaN)"]},
    "P17": {"pkg": "small", "level": "exploration", "assumptions": []},
    "P18": {"pkg": "small", "level": "exploration", "assumptions": []},
    "P19": {"pkg": "clog", "level": "exploration", "rounds": (1, 8), "assumptions": CLOG_ASSUME},
    "P20": {"pkg": "clog", "level": "fault_enumeration", "assumptions": CLOG_ASSUME},
    "P21": {"pkg": "clog", "level": "fault_enumeration", "assumptions": CLOG_ASSUME},
    "P22": {"pkg": "doc", "level": "exploration", "rounds": (4, 96), "assumptions": DOC_ASSUME + ["schedules are the Go runtime's, perturbed by generated delays in the storage"]},
    "P23": {"pkg": "small", "level": "exploration", "assumptions": []},
    "P24": {"pkg": "index", "level": "exploration", "rounds": (1, 16), "assumptions": INDEX_ASSUME},
    "P25": {"pkg": "clog", "level": "exploration", "rounds": (1, 10), "assumptions": CLOG_ASSUME},
    "P26": {"pkg": "vec", "level": "exploration", "assumptions": []},
    "P27": {"pkg": "index", "level": "exploration", "rounds": (1, 10), "assumptions": INDEX_ASSUME},
    "P29": {"pkg": "index", "level": "exploration", "rounds": (1, 12), "assumptions": INDEX_ASSUME + ["schedules are the Go runtime's; vectors are added by one caller at a time, as the document client does"]},
    "P30": {"pkg": "index", "level": "exploration", "rounds": (1, 12), "assumptions": INDEX_ASSUME},
    "P28": {"pkg": "doc", "level": "fault_enumeration", "rounds": (1, 20), "assumptions": DOC_ASSUME + ["content uploads fail; uploads of feed updates do not (the storage library does not report their failure)"]},
}

NOT_YET = {}
H = "model-based property testing (rapid): generated histories of client calls against a reference model"
TECH = {
    "P01": (H, "Every hit of every search in generated histories (batches, replacements, restarts, several collections) is compared with a reference model: current content, recomputed cosine distance, order, bound, limit, no duplicates. Exploration over seeded random cases, not exhaustive; trusts the in-memory Swarm stand-in."),
    "P02": (H + "; brute-force oracle", "Small collections must give exactly the brute-force answer; on larger scattered ones recall >= 0.95 and self-queries are required (the unchanged tree measures 1.0)."),
    "P03": (H, "Lookups by id and by every index type against the model, also for values no document has; the known defects of the storage library are probed separately."),
    "P04": (H + " with restarts", "A restart is a new client over the same stored data; answers before and after must agree and the final audit is done by a fresh client."),
    "P05": ("metamorphic property testing (rapid): one document sequence batched in two ways, both checked against the model", "Both ways of batching must give the model's content; replacement is included as far as the storage library supports it (known findings)."),
    "P06": (H + " over several collections and pods", "Create, delete, re-create, list, fill and search in every order; names that are prefixes of each other included, except the known finding."),
    "P07": ("fault-injection property testing (rapid): batches with generated bad documents against the model", "Bad documents of many kinds at generated positions; the call has to report them and all other documents stay right."),
    "P10": ("metamorphic property testing (rapid) with a deterministic stand-in vectorizer", "Text search is compared with vector search by the vector of the text and with the model; the vectorizer is a local HTTP server."),
    "P08": ("structured fuzzing (rapid) of HTTP requests against the real server, with a liveness and integrity oracle", "Requests of every shape (valid, mutated, garbage, wrong method, huge numbers) against the server started by its own handler set-up; each gets a well-formed answer, the process survives and the stored documents still answer right."),
    "P09": ("differential property testing (rapid): the HTTP API against the reference model and the client behind it", "Generated histories of the documented calls over HTTP; every answer is compared with the model."),
    "P11": ("fault-injection property testing (rapid): generated vectorizer answers and failures", "Status codes, malformed, truncated, mis-sized and empty answers; what the caller gets is compared with what was served."),
    "P22": ("concurrency property testing (rapid): generated calls of 2-6 callers at once, checked per call and by a final audit", "Every call is checked against what was certainly added before it and possibly added by its end; then all content is audited, also after a restart. Schedules are sampled, not enumerated."),
    "P12": ("differential property testing (rapid) against float64 definitions, plus metamorphic relations", "Lengths 0..300 and more, offsets into larger arrays, special magnitudes; tolerance is a bound on float32 rounding, so errors below it are not seen."),
    "P13": ("stateful property testing (rapid): invariants over the stored graph after every generated batch", "Nodes are read back from the key-value table; settings, metrics and ids are generated."),
    "P14": ("model-based property testing (rapid): brute-force oracle for filtered and bounded searches", "Exact on indexes that are fully linked; soundness on all; cut-off between scan and graph generated."),
    "P15": ("stateful property testing (rapid): flush and reload at generated points, differential against the flushed index and the model", "Includes ids beyond the cache sizes and one index that outgrows its caches per run."),
    "P16": ("model-based property testing (rapid): operation sequences against a multiset", "Insert, pop, top, reset, grow in generated order."),
    "P17": ("model-based property testing (rapid): visit and reset sequences against a set, pool borrowing in parallel goroutines", "Hundreds of resets (version wrap) and ids beyond the initial size; schedules are the runtime's."),
    "P18": ("property testing (rapid) of the settings parser and of run-time changes against a table of documented settings", "Values of right and wrong types, missing ones, any JSON."),
    "P23": ("model-based property testing (rapid): generated environments and configuration files against a table of documented variables", "Every subset of variables, values generated."),
    "P24": ("stateful property testing (rapid): generated deletes among adds and searches against a model", "Deleting the entry point and reusing deleted ids are not covered (the port has no tombstone clean-up)."),
    "P25": ("stateful property testing (rapid): generated histories with backups, the listed files replayed against the stored graph", "Real index with the real commit logger; maintenance cycles run when the history says so."),
    "P26": ("property testing (rapid) against a float64 reference", "Components are finite and at most 1e6 in magnitude, except a few special values."),
    "P27": ("differential property testing (rapid): a changed index against one opened with the settings", "Settings of the vector cache show in no result and are only exercised; switching to compressed vectors is not covered."),
    "P29": ("concurrency property testing (rapid): generated searches by 1-5 callers during generated additions and deletions, against what had certainly and what had possibly been added", "Every search during the changes is checked against a brute-force model of what must and what may be found; then the index, its stored graph and its reload are audited. Schedules are sampled, not enumerated."),
    "P30": ("property testing (rapid) of the recall of generated indexes against brute force", "Recall over 40 queries per generated index, by two kinds of search, with thresholds well below what the unchanged tree measured in 12,000 cases (its minimum per class was 0.93, 0.97, 0.97 and 0.99), plus trimmed means over a dozen indices."),
    "P28": ("fault-injection property testing (rapid): generated upload failures during generated adds, against the model", "The number of uploads that still work and that fail are generated; after each failure the model's documents are audited in the same process and in a new one, and other documents are added. Reading failures are not injected: the storage library reports them as absence."),
    "P19": ("stateful property testing (rapid): generated sequences of logged operations, and real logged indexes, replayed against a reference model", "Operations, ids, levels, link counts and switches generated; the reader's result, order of links and valid length are compared with a model of each record."),
    "P20": ("fault-enumerating property testing (rapid): generated logs cut at every byte offset", "Every offset of every generated log (sampled beyond a size), garbage record types at record boundaries; the model knows each record's size and effect."),
    "P21": ("stateful property testing (rapid) with fault enumeration: condense, combine and maintenance cycles against the replay model, and every crash state between their file operations", "Crash states are rebuilt from the file events of the real run; recovery is what a start does. The unfinished mmap condensor is not covered."),
}
