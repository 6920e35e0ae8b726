"""Writes /verif/properties.jsonl (kept as a script only because long JSON lines are painful to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


Q = "mixtera/core/query/"
prop("C01", "Every selected sample is handed out at most once, and none is lost",
     "Over the whole life of a query result, every sample the query selected appears in at most one chunk and no sample that was not selected ever appears; when the arbitrary mixture is used the chunks together contain every selected sample exactly once, and with a best-effort mixture that covers every domain fewer samples than one chunk are left out at the end. This holds for any number of files, ranges and domains and any chunk size, and also when several processes pull chunks from the same query result concurrently.",
     ["inputs", "schedules", "configurations"],
     "All selections (datasets x files x domains x interval layouts) up to the bound, all mixtures and chunk sizes up to the bound, all interleavings of concurrent pullers sharing one result.",
     "Existing tests never run the chunk generator at all in this environment (they need the native module), and upstream ones sample a handful of index layouts with a single puller.",
     [Q + "query_result.py", Q + "query.py"],
     [("chunk generator (coroutine) with shared chunk index under a lock", Q + "query_result.py"), ("per-key range cursors that are split when a range is only partially used", Q + "query_result.py")],
     [("index/lock", "shared next-chunk counter", Q + "query_result.py")], ["intervals inside the returned chunks"])
prop("C02", "Each chunk honours the requested mixture exactly",
     "Under a strict mixture every chunk contains, for every domain of the mixture, exactly the number of samples the mixture assigns to it and nothing else, and the stream ends only when the mixture can no longer be met. Under a best-effort mixture every chunk but the last still has exactly the requested chunk size, deviates from the mixture only for domains that have run out, and missing samples are taken from the remaining domains of the mixture in proportion to their weights; a chunk's reported mixture always equals what the chunk contains.",
     ["inputs", "configurations"],
     "All sizes of up to three domains, all integer mixtures over them up to the bound, strict and best effort, all property shapes of keys (single, multi-valued, partially specified).",
     "Upstream tests only check a few fixed mixtures; none is runnable here. Exhaustion and redistribution depends on the joint sizes of all domains.",
     [Q + "query_result.py", Q + "result_chunk.py", "mixtera/utils/utils.py"],
     [("strict / best-effort generation with redistribution", Q + "query_result.py"), ("distribute_by_ratio", "mixtera/utils/utils.py")], [],
     ["per-domain counts of each chunk", "mixture reported by the chunk"])
prop("C03", "Chunk distribution: replicas see the same chunks, groups and workers share none",
     "All nodes of one data-parallel group receive, worker by worker, the identical sequence of chunks; different data-parallel groups and different workers never receive a common sample, and no chunk is skipped or handed out twice to the same (group, node, worker). This holds for every order in which the nodes and workers of all groups issue their requests, including some nodes running arbitrarily far ahead, and every requester eventually gets a clean end of data exactly when the result is exhausted.",
     ["schedules", "configurations"],
     "All request orders (interleavings) of all (dp group, node, worker) triples up to the bound on groups, nodes, workers and total chunks.",
     "Upstream tests use a few fixed request orders; the per-chunk usage accounting and cache eviction depend on the relative progress of all nodes.",
     [Q + "chunk_distributor.py"],
     [("per dp-group chunk cache and usage counts", Q + "chunk_distributor.py"), ("chunk id = worker id + k * workers", Q + "chunk_distributor.py")],
     [("_next_chunk, _chunk_cache, _chunk_usage", "progress and cached chunks", Q + "chunk_distributor.py")], ["return value of next_chunk_for"])
prop("C04", "Chunks and sample streams are reproducible",
     "Executing the same query with the same mixture on the same data yields the same sequence of chunks, and streaming a chunk with the same arguments yields the same sequence of samples with the same positions and domain ids, independent of process, hash seed, the order in which the index enumerates domains, datasets and files, the number of threads used to build the index, and of whether the chunk or the result was pickled and sent elsewhere in between.",
     ["configurations", "inputs", "histories"],
     "All enumeration orders of the index up to the bound, all small selections and mixtures; pickling at every point of the chunk sequence.",
     "A test runs in one process with one enumeration order; the order comes from an unordered native map.",
     [Q + "query_result.py", Q + "mixture/inferring_mixture.py", Q + "result_chunk.py", "mixtera/utils/utils.py"],
     [("seeded shuffles, sorted keys", "mixtera/utils/utils.py")], [], ["chunk contents", "streamed samples"])
prop("C05", "Restoring a checkpoint resumes exactly where the workers reported to be",
     "After restoring a completed checkpoint, each worker on each node receives exactly the samples it had not yet reported as consumed, then the same chunks as the uninterrupted run would have handed out when requests arrive in the same order: no sample lost, none repeated, same order, same domain ids. This holds for every request history before the checkpoint (including runs that already reached the end of the data), every reported progress, every kind of mixture including ones updated in between, cached and uncached queries, and checkpoints of restored runs.",
     ["histories", "configurations"],
     "All request histories up to the bound, times all reported sample positions, times mixture kinds, times second-generation checkpoints.",
     "Tests use one history and one position; the persisted cursor, replay count and mixture log must agree for every combination.",
     [Q + "chunk_distributor.py", Q + "query_result.py", "mixtera/core/client/local/local_stub.py", "mixtera/network/server/server.py", "mixtera/utils/checkpoint.py"],
     [("rolled-back worker cursors + samples to skip", Q + "chunk_distributor.py"), ("deterministic replay of the chunk generator with the mixture log", Q + "query_result.py")],
     [], ["chunks and samples obtained after restore"])
prop("C06", "A checkpoint is a barrier over all nodes, and failures do not wedge it",
     "For every order in which nodes report their worker status, all nodes of a round obtain the same checkpoint identifier, distinct rounds get distinct identifiers, persisting starts exactly once and only when every (group, node) has reported, and completion is reported only after everything is written. Duplicate reports and statuses that place the nodes of one group in different chunks are rejected (if the nodes merely are at different samples of the same chunk the most advanced position counts), and a rejected or failed round never prevents a later complete round from succeeding.",
     ["schedules", "histories", "fault_sequences"],
     "All orders of reports (and duplicates, contradicting reports, completion queries, chunk requests) for up to 2 groups x 2 nodes over two rounds.",
     "Tests report in one order and a single round.",
     [Q + "chunk_distributor.py"],
     [("nodes-reported set, checkpoint counter, on-disk status", Q + "chunk_distributor.py")], [("_nodes_reported", "who reported in this round", Q + "chunk_distributor.py")], ["checkpoint(), checkpoint_completed()"])
prop("C07", "Crashes while checkpointing never yield a wrong or half-written restore",
     "Whatever the point at which the persisting process or the whole job dies, the last checkpoint that was reported complete stays restorable with unchanged contents, and an incomplete one is either refused cleanly or restores to the full correct state; it never restores to fewer or different data. The same holds when a later checkpoint is taken while an earlier one is still being written.",
     ["crash_points", "schedules"],
     "Every file-system operation boundary of the persisting code as crash point, and all orders of two overlapping persisting processes.",
     "Tests never kill the persisting process.",
     [Q + "chunk_distributor.py", "mixtera/utils/checkpoint.py"],
     [("ordered writes of query result and distributor state", Q + "chunk_distributor.py")], [], ["restored distributor"])
prop("C08", "A query selects exactly the samples that satisfy its filter",
     "For every filter expression the result intervals denote exactly the set of (dataset, file, sample) whose stored properties satisfy it: conditions inside one select are conjunctive, chained selects are alternatives, a list of values means any of them, for multi-valued properties a condition matches if any of the sample's values matches, missing values are matched by null tests only; for present values an inequality is the negation of the equality; comparisons by order against a list or on a multi-valued property hold if any pair of values satisfies them. Conditions on unknown properties, with unsupported operators or empty lists are skipped. Each sample belongs to exactly one interval, intervals never span files or samples with different properties, and consecutive samples of equal properties form one interval.",
     ["inputs"],
     "All small sample tables over a small property alphabet (with nulls and multi values) times all filters up to the bound on operators, values and depth.",
     "Tests compare SQL strings or a handful of filters; adversarial strings and null/multi-value combinations are not covered.",
     [Q + "operators/select.py", Q + "query.py", "mixtera/core/datacollection/mixtera_data_collection.py"],
     [("SQL generation with parameters", Q + "operators/select.py"), ("window-function interval compaction", Q + "query.py")], [], ["query result table", "chunker index"])
prop("C09", "A cached query answers exactly like a fresh execution, and never stale",
     "For every history of dataset registrations, removals, property additions and query executions, executing a query with caching on yields the same chunks as executing it freshly on the current contents, for every mixture and chunk size, including queries whose cache keys collide and jobs that use the cached result concurrently. Reading the cached result never changes it.",
     ["histories", "inputs"],
     "All operation sequences up to the bound over register/remove/add-property/execute with different queries and mixtures.",
     "Tests cover hit and miss once; staleness depends on histories.",
     [Q + "query_cache.py", Q + "query_result.py", "mixtera/core/datacollection/mixtera_data_collection.py"],
     [("database version stored with each cache entry", Q + "query_cache.py"), ("to_cache/from_cache", Q + "query_result.py")], [], ["chunks of the returned result"])
prop("C10", "A crash while writing the query cache is harmless",
     "If the process dies at any point while a query result is being cached, a later execution of the same (or any other) query still succeeds and returns the correct result. A partially written entry is never used.",
     ["crash_points"],
     "Every file-system operation of the cache writer as crash point, with torn last writes.",
     "Tests never interrupt the cache writer.",
     [Q + "query_cache.py", Q + "query_result.py"],
     [("order of metadata and result writes", Q + "query_cache.py")], [], ["subsequent execution of the query"])
prop("C11", "The dataset registry is all-or-nothing and versioned",
     "For every history of registrations, removals, property additions, failures and crashes, a dataset is reported as existing if and only if all its files and samples are registered, a failed or interrupted registration leaves nothing behind that prevents registering it again, removal removes every trace and nothing of other datasets, and every change of the contents changes the database version that guards cached results. File and dataset ids stay resolvable and unique.",
     ["histories", "fault_sequences", "crash_points"],
     "All operation sequences up to the bound, with a failure or crash injected at every database/file-system step of a registration or removal.",
     "Tests run single successful operations.",
     ["mixtera/core/datacollection/mixtera_data_collection.py"],
     [("duckdb tables datasets/files/samples/version", "mixtera/core/datacollection/mixtera_data_collection.py")], [], ["check_dataset_exists, list_datasets, file access, version, query results"])
prop("C12", "Reading sample ranges returns exactly those samples in order",
     "For every supported dataset format, every list of files, and every list of per-file sample ranges (adjacent, with gaps, crossing internal block boundaries such as row groups, batches or shards), reading the ranges yields exactly the designated samples once, in file and range order, with the content that was stored. The per-file sample numbering used when registering agrees with the one used when reading.",
     ["inputs"],
     "All range lists up to the bound over files with several internal block layouts, for JSONL, Parquet and WebDataset.",
     "Tests read one or two ranges of one layout.",
     ["mixtera/core/datacollection/datasets/jsonl_dataset.py", "mixtera/core/datacollection/datasets/parquet_dataset.py", "mixtera/core/datacollection/datasets/web_dataset.py", "mixtera/utils/webdataset_utils.py"],
     [("incremental line/row-group/tar cursors", "mixtera/core/datacollection/datasets")], [], ["read_ranges_from_files, inspect_and_read_samples"])
prop("C13", "Streaming a chunk yields each of its samples exactly once in mixture proportion",
     "Iterating a chunk in the simple mode or in windows with best effort yields every sample of the chunk exactly once, tagged with the id of its domain, with positions counting up from zero, and terminates. In windowed mode every complete window has the chunk's mixture proportions (exactly, if the window can represent them, else deviating by less than the number of domains) as long as all domains still have samples; strict windows stop cleanly with the window in which a domain runs out, and best-effort windows continue with the remaining samples. Resuming at position n yields exactly the suffix after n of the full stream.",
     ["inputs", "configurations"],
     "All chunk contents up to three domains with up to the bound samples in several ranges/files, all window sizes, best-effort on/off, all resume positions.",
     "Tests use a handful of chunk layouts, and termination for every window size and proportion cannot be sampled.",
     [Q + "result_chunk.py"],
     [("round-robin and windowed iterators over per-domain iterators", Q + "result_chunk.py")], [], ["(position, domain id, sample) triples"])
prop("C14", "Parallel readers give the same stream as a single reader",
     "Streaming a chunk with any degree of parallelism yields exactly the samples of sequential streaming, each with the id of its domain, in an order that does not depend on the timing of the readers (and, for a domain that a single reader reads, in the sequential order), under every interleaving of the reader processes and the consumer and regardless of sample contents. All readers are stopped at the end of the stream, and a failing reader surfaces as an error instead of silently missing samples.",
     ["schedules", "inputs", "fault_sequences"],
     "All interleavings of up to 3 readers and the consumer at queue operations up to a preemption bound, all degrees of parallelism, a failure at every reader step.",
     "Real processes give one arbitrary schedule per run.",
     [Q + "result_chunk.py"],
     [("reader processes, bounded queues, end-of-stream marker", Q + "result_chunk.py")], [], ["streamed samples", "reader process state"])
prop("C15", "Tokenized streaming conserves the text and is schedule independent",
     "Tokenizing a domain's stream yields fixed-length token sequences that, concatenated (each overlapping its predecessor by the configured amount), reproduce the token stream of the texts in order with the configured separators, nothing dropped, duplicated or reordered other than an incomplete tail. The threaded variant produces exactly the same sequences as the synchronous one for every interleaving of producer and consumer, terminates, and propagates errors of the source.",
     ["inputs", "schedules", "fault_sequences"],
     "All short sequences of text lengths x sequence lengths x batch sizes x overlap/eos options; all interleavings of background and foreground thread at queue operations; source failure at every position.",
     "Tests run single schedules and few lengths.",
     ["mixtera/utils/tokenizing_iterator.py", Q + "result_chunk.py"],
     [("buffering tokenizing iterator, background thread with queue", "mixtera/utils/tokenizing_iterator.py")], [], ["token sequences"])
prop("C16", "Prefetching is transparent",
     "Wrapping an iterator so that its first item is fetched early yields exactly the same items in the same order, the same exceptions at the same position and the same end as the plain iterator, for every length and every timing of the background fetch relative to the consumer.",
     ["schedules", "inputs", "fault_sequences"],
     "All item sequences up to length 3 including falsy/None items and failures at each position; all interleavings of fetcher and consumer.",
     "Tests run the common schedule with well-behaved iterators.",
     ["mixtera/utils/prefetch_iterator.py"],
     [("background thread plus event", "mixtera/utils/prefetch_iterator.py")], [], ["items and exceptions"])
prop("C17", "Messages survive every fragmentation of the byte stream",
     "Integers, floats, strings, byte payloads, arrays and arbitrary objects sent over a connection are received unchanged, in order and without consuming bytes of the next message, however the byte stream is split into reads and whatever the payload size. If the peer disconnects or stalls anywhere inside a message the receiver gets an error within its time limit, never a truncated or different message; a disconnect before a message that could legitimately be None is an error as well.",
     ["fault_sequences", "inputs"],
     "All fragmentations of all short messages and message sequences at read granularity, all truncation points with a closing, stalling or slowly dripping peer.",
     "Tests use mocks that return whole messages.",
     ["mixtera/network/network_utils.py"],
     [("length-prefixed framing and exact reads", "mixtera/network/network_utils.py")], [], ["received values"])
prop("C18", "The remote client behaves exactly like the local one",
     "Every operation through the server gives the same observable result as the local client: dataset registration, listing, existence, removal, property parsers and calculation, query execution, chunk streams, checkpoint, restore and feedback, for every sequence of operations, including empty and missing values. Errors on the server reach the client as an error or failure result, never as success or silent end of data, and do not affect later requests.",
     ["histories", "inputs"],
     "All operation sequences up to the bound over the request alphabet, executed against a real in-process server and against the local client.",
     "Tests mock one side of the protocol for each request.",
     ["mixtera/network/connection/server_connection.py", "mixtera/network/server/server.py", "mixtera/core/client/server/server_stub.py", "mixtera/core/client/local/local_stub.py"],
     [("one task id per request, request/response framing in a fixed order", "mixtera/network")], [], ["client results"])
prop("C19", "Concurrent clients of one server do not interfere",
     "For every interleaving of concurrent requests of several clients (query and dataset registration, status polling, chunk requests, feedback, checkpointing), each client gets the answers it would get in some sequential order of the requests; a query becomes visible as ready only when its chunks can be requested, its final status (ready or failed) is eventually reported to every client that polls, and a failed registration does not block others.",
     ["schedules", "fault_sequences"],
     "All interleavings of up to three client requests at the server's await points, with background registration finishing or failing at any point.",
     "Tests run handlers one after the other.",
     ["mixtera/network/server/server.py"],
     [("asyncio handlers, background registration tasks and status table", "mixtera/network/server/server.py")], [], ["responses"])
prop("C20", "Mixture weights are turned into sample counts without loss",
     "For every chunk size and every weights a user can write, the per-domain sample counts derived from a static, hierarchical or inferred mixture are non-negative, sum to exactly the chunk size, deviate from the exact share by less than one sample per level of the hierarchy, do not depend on the order in which domains are listed except for ties, and never lose or invent a domain with a positive count. Invalid weights are rejected rather than producing a chunk of a different size.",
     ["inputs"],
     "All chunk sizes up to the bound times all weight vectors on a grid (and the awkward decimal fractions) for up to 4 domains and two hierarchy levels, all domain size vectors for inference.",
     "Tests check a few weight vectors; rounding failures sit at specific combinations.",
     [Q + "mixture/static_mixture.py", Q + "mixture/hierarchical_static_mixture.py", Q + "mixture/inferring_mixture.py"],
     [("largest remainder rounding", Q + "mixture")], [], ["mixture_in_rows()"])
prop("C21", "Domain keys match consistently everywhere",
     "A domain key in a mixture matches a domain in the data if and only if, for every property the mixture key names, the domain has at least one of the listed values; construction order, value order and duplicates are irrelevant. Lookups of a key in the structures that use keys (mixtures, id maps, chunk contents) agree with that relation and stay stable after pickling or inserting further keys; distinct domains of the data never share a domain id and the same domain keeps its id for the lifetime of the query result, across chunks, mixture updates, replicas and restores.",
     ["inputs", "histories"],
     "All pairs and triples of keys over a small alphabet of properties and values; all sequences of mixture updates up to the bound over a small data index.",
     "Tests check single comparisons; equality is partial-match based and hash-dependent.",
     [Q + "mixture/mixture_key.py", Q + "query_result.py"],
     [("MixtureKey equality and hash; stable key id map", Q + "mixture/mixture_key.py")], [], ["domain ids in the sample stream", "chunk contents"])
prop("C22", "Mixture schedules and feedback take effect at the right step, monotonically",
     "With a mixture schedule, each chunk requested after training step s has been reported uses the mixture of the latest schedule entry whose start step is not after s, and with a dynamic mixture each chunk uses the latest mixture the algorithm produced from all accepted feedback; late, repeated or reordered step reports never move a job back to an earlier mixture, every loss report that reaches the server is counted exactly once, and a schedule treats each entry exactly like the same mixture used on its own. Feedback that does not change the mixture never changes the chunk sequence.",
     ["histories", "inputs"],
     "All sequences up to the bound of chunk requests and feedback reports with small steps, in order, duplicated, reordered, for schedules of up to 3 entries and dynamic mixtures.",
     "Tests send one or two ordered updates.",
     [Q + "mixture/mixture_schedule.py", Q + "mixture/dynamic_mixture.py", Q + "query_result.py", "mixtera/utils/feedback.py", "mixtera/core/client/local/local_stub.py"],
     [("current step, mixture log, update of the generator through send()", Q + "query_result.py")], [], ["chunk mixtures after feedback"])
prop("C23", "Dynamic mixing algorithms keep valid weights and consistent statistics",
     "For every sequence of loss/count feedback the dynamic mixing algorithms produce, when they produce anything, a finite non-negative weight per known domain that sums to one, gives every sampled domain at least the configured minimum (before the final renormalisation), keeps each weight attached to its own domain when new domains appear, and accumulates losses and counts exactly once per report. Saving and restoring the algorithm (pickling) does not change any later output.",
     ["histories", "inputs"],
     "All feedback sequences up to the bound over 2-3 domains with small loss and count values (zero counts, growing domain sets, repeated steps), pickled at each point.",
     "Tests feed a few fixed sequences.",
     ["mixtera/core/algo/dynamic_mixing/dynamic_mixing.py", "mixtera/core/algo/ado/ado.py", "mixtera/core/algo/loss_avg/loss_avg.py", Q + "mixture/dynamic_mixture.py"],
     [("accumulation of counts/losses, simplex projection", "mixtera/core/algo")], [], ["returned mixtures"])
prop("C24", "Results survive persistence and transport unchanged",
     "A chunk index, query result, result chunk or mixture that is written to disk, pickled, sent to another process or read back denotes exactly the same datasets, files, ranges, domains, mixture and settings as the original, for all contents (ids of any size, multi-valued and unicode property values, empty indexes), and writing never modifies the original.",
     ["inputs"],
     "All indexes up to the bound in the number of domains, datasets, files, ranges, with boundary ids and property values; all chunk configurations.",
     "Tests round-trip one example.",
     ["mixtera/utils/utils.py", Q + "query_result.py", Q + "result_chunk.py", "mixtera/utils/checkpoint.py"],
     [("npy/json serialization of the chunker index, dill/pickle of results", "mixtera/utils")], [], ["deserialized objects"])
prop("C25", "Calculated properties reach exactly the right samples",
     "When a property is calculated, the user's function sees every sample of every file exactly once, in batches of at most the requested size, and the values that are handed to the storage attribute to each (dataset, file, sample) exactly the value the function computed for that sample, for every batch size, file layout, order of files and sample count; a file shorter or longer than a batch, or an empty one, is no exception. A function that fails or returns too few, too many or unusable values, and any refused request, is an error and changes nothing in the collection.",
     ["inputs", "configurations", "fault_sequences"],
     "All file layouts x contents x batch sizes up to the bound, failures of the user's function at every batch.",
     "Tests check one layout with mocks.",
     ["mixtera/core/processing/property_calculation/local_executor.py", "mixtera/core/processing/property_calculation/executor.py", "mixtera/core/datacollection/mixtera_data_collection.py"],
     [("batching executor and attribution of the results", "mixtera/core/processing/property_calculation/local_executor.py")], [], ["values handed to the storage"])
prop("C26", "Metadata parsing stores each sample's properties faithfully",
     "When a dataset is registered, each sample gets exactly the property values its record contains under the parser's schema, at its own position within its file; values of undeclared type or enumeration, missing mandatory values and wrong multiplicity are rejected rather than stored as something else, and optional missing values are stored as missing. The result is independent of the number of registration workers, chunks of files and their completion order.",
     ["inputs", "configurations", "schedules"],
     "All records over a small alphabet of valid, missing, wrong-typed and wrong-multiplicity values for all declared property kinds; all file-to-worker assignments and completion orders up to the bound.",
     "Tests use well-formed records and one worker.",
     ["mixtera/core/datacollection/index/parser/metadata_parser.py", "mixtera/core/datacollection/index/parser/parser_collection.py", "mixtera/core/datacollection/mixtera_data_collection.py"],
     [("add_metadata validation, per-file bulk insert", "mixtera/core/datacollection/index/parser/metadata_parser.py")], [], ["rows of the sample table"])
prop("C27", "The native chunk index equals its specification",
     "Building the chunk index from a table of intervals assigns each interval to exactly one domain, the one that lists precisely the interval's non-null property values, dataset and file, with nothing lost, duplicated or merged, whatever the number of threads, row order and property values; intervals of a file are in ascending order. Neither the order nor the repetition of the values of a multi-valued property distinguishes domains.",
     ["inputs", "configurations"],
     "All small interval tables over a small alphabet of property values (nulls, multi values, special characters) and all thread counts up to the bound.",
     "The native module is not even built by the stable test run.",
     [Q + "chunker/src/chunker.cpp", Q + "chunker/include/chunker.hpp"],
     [("per-thread index construction and merge", Q + "chunker/src/chunker.cpp")], [], ["returned dictionary"])
prop("C28", "Data-loader workers report and resume their positions faithfully",
     "Through the training-framework data set, each worker yields exactly the samples of its own chunks in order with the right domain ids, and the shared status used for checkpoints shows, whenever each worker has handed over a sample, not started or ended (rather than being in the middle of fetching a chunk), a chunk and position such that restoring loses and repeats no sample; cleaning up releases everything once all workers finished, whatever the order in which workers run and finish.",
     ["schedules", "configurations"],
     "All interleavings of up to 2 workers' sample steps with checkpoint reads, for all small chunk sizes.",
     "Tests run one schedule of one worker.",
     ["mixtera/torch/mixtera_torch_dataset.py", "mixtera/core/client/mixtera_client.py", "mixtera/utils/checkpoint.py"],
     [("shared memory status and completion arrays", "mixtera/torch/mixtera_torch_dataset.py")], [], ["yielded samples, worker_status"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
