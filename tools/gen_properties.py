"""Writes /verif/properties.jsonl (kept as code so that the wording stays reviewable)."""
import json, os

PY = "src/python/deepgnn/"
GE = "src/python/deepgnn/graph_engine/"
SN = GE + "snark/"
CC = "src/cc/lib/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe_at, "hook_needed": hook},
    })


prop("C01", "Text reader yields every line exactly once and in order",
     "Iterating a line-based text reader (local files or a remote store) yields, for every epoch, every non-blank line of its input exactly once and unmodified, keeping line order within a file and, without shuffling, file-name order across files. "
     "Every batch except possibly the last has exactly the requested size, and drop_last removes only an incomplete last batch. "
     "This holds for every block size, reader thread count, queue size, batch size and thread interleaving; the text sampler built on the reader returns the same lines (any order when shuffling) padded with empty strings only at the end.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of consumer, block reader and sub-block reader threads x file contents (CRLF, multi-byte, long lines, empty files, missing last newline) x block/thread/queue/batch/epoch settings",
     "Existing tests use a few fixed files, blocks much larger than the lines and one native schedule per run; they cannot reach block boundaries inside characters or lines combined with arbitrary reader/consumer interleavings.",
     [GE + "_adl_reader.py", GE + "samplers.py"],
     [("parallel sub-block read and prefix/suffix stitching", GE + "_adl_reader.py"), ("bounded block queue between reader thread and consumer", GE + "_adl_reader.py")],
     ["batches returned by the iterator"])

prop("C02", "Worker shards and byte-range splits of text input never lose or repeat lines",
     "When several workers read the same input with distinct worker indexes, every line is delivered to exactly one worker, whatever order the directory listing returns and however the workers interleave. "
     "Readers given adjacent line-aligned byte ranges of one file together deliver each line of the file exactly once, each reader only the lines of its own range, every time it is iterated. "
     "Asking for more workers than there are input files is refused with an error instead of leaving a worker idle.",
     ["schedules", "inputs", "configurations"],
     "all worker counts, file counts, range cuts and worker interleavings",
     "Tests shard one fixed directory with one process; they never compose the outputs of all workers under varying listing orders, block sizes and schedules.",
     [GE + "_adl_reader.py", GE + "samplers.py"],
     [("stride over the sorted file list", GE + "_adl_reader.py"), ("range-limited block lengths", GE + "_adl_reader.py")],
     ["batches returned by each worker's iterator"])

prop("C03", "A failed read is reported, never turned into silently missing data",
     "If opening or reading the input fails at any moment (I/O error on the local disk, error from the remote store), the consumer either still receives every line or gets an exception from the iteration. "
     "It never sees a normal end of data with lines missing, duplicated or damaged, and it never blocks forever. "
     "The reader can be closed after the failure without hanging.",
     ["fault_sequences", "schedules", "configurations"],
     "every read/open call of every reader thread may fail, at any point of any interleaving",
     "No test injects an I/O error into the reader; background-thread failures are invisible to tests that only read intact files.",
     [GE + "_adl_reader.py"],
     [("futures of the sub-block readers and the end-of-data marker", GE + "_adl_reader.py")],
     ["exception or batches seen by the consumer", "termination of the consumer"])

prop("C04", "Readers can be stopped, dropped or restarted at any moment",
     "Stopping, dropping or restarting a text reader after any number of consumed batches returns in bounded time, and once stop returns no background work of that reader is still running. "
     "Iterating again after a stop, a restart or a complete pass yields the complete data from the beginning, with nothing left over from the earlier pass.",
     ["schedules", "histories"],
     "all consume/stop/restart histories x all interleavings with background reading",
     "Tests stop readers at one or two fixed points with one native schedule; hangs and leftovers need particular interleavings between draining and a blocked producer.",
     [GE + "_adl_reader.py", GE + "samplers.py"],
     [("stop flag, queue draining and pool shutdown", GE + "_adl_reader.py")],
     ["return of stop/restart", "live background threads", "batches of the next pass"])

prop("C05", "Prefetching delivers every query result exactly once, then ends",
     "Iterating a dataset or generator with prefetch enabled returns exactly one result for every batch the sampler produced (none lost, none duplicated, each the value the query function returned for that batch), whatever the number of query threads, queue sizes and interleavings. "
     "The iteration then ends and stays ended on further calls; an empty sampler gives an empty iteration. "
     "With a single query thread results come in sampler order.",
     ["schedules", "configurations", "inputs"],
     "all interleavings of sampler, query threads and consumer x queue sizes x parallelism x sampler lengths",
     "The prefetch tests run one configuration natively (and need the native library); lost or duplicated items need rare interleavings of the end marker with late results.",
     [GE + "prefetch.py", GE + "graph_dataset.py"],
     [("end-of-data marker carrying the batch count", GE + "prefetch.py"), ("bounded executor", GE + "prefetch.py")],
     ["items returned to the consumer", "calls of the query function"])

prop("C06", "Sampler and query failures reach the consumer of a prefetched dataset",
     "If the sampler or the query function raises at any batch, the consumer of a prefetched dataset gets an exception carrying the original error text after at most the results that were already produced. "
     "It never sees a normal end of data and never blocks forever, and closing the generator afterwards returns.",
     ["fault_sequences", "schedules", "configurations"],
     "failure at any sampler step or query call x all interleavings x queue and thread settings",
     "One test injects one exception with one schedule; blocked producers and lost error markers depend on queue occupancy and timing.",
     [GE + "prefetch.py", GE + "graph_dataset.py"],
     [("error marker in the result queue", GE + "prefetch.py")],
     ["exception at the consumer", "termination"])

prop("C07", "A prefetch generator can be closed at any moment",
     "Closing or dropping a prefetch generator after any number of results (including none) returns in bounded time even when queues are full or queries are slow. "
     "After closing returns, no query or sampler step starts any more and no background thread of the generator is left.",
     ["schedules", "histories"],
     "all close points x all interleavings x queue and thread settings",
     "Tests close after a full pass; closing while producers are blocked on a full queue depends on the interleaving.",
     [GE + "prefetch.py"],
     [("stop event, draining loop and pool shutdown", GE + "prefetch.py")],
     ["return of close", "query calls after close", "live background threads"])

prop("C08", "Conversion writes every input node, edge, feature and timestamp exactly once",
     "After a conversion reports success, the binary partitions together contain every node and edge of the input exactly once with its type, weight, features (dense, sparse, binary, missing ids) and, for temporal graphs, its creation and removal times, and nothing else. "
     "Each record goes to the partition its dispatching rule names. "
     "This holds for every partition count, decoder, dispatcher, thread or process mode and interleaving.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of reader, dispatcher and partition writers x graphs x decoders x partition counts x dispatch modes",
     "Tests convert a few tiny fixed graphs with one schedule and compare file bytes; loss or duplication through queues needs many records, many partitions and unusual schedules.",
     [SN + "convert.py", SN + "dispatcher.py", SN + "converter/process.py", SN + "converter/writers.py", SN + "decoders.py", GE + "_adl_reader.py"],
     [("per-partition queues/pipes with end marker", SN + "dispatcher.py"), ("binary writers", SN + "converter/writers.py")],
     ["binary files decoded by an independent reader"])

prop("C09", "Graph metadata and sampling tables agree with the converted data",
     "After a conversion the metadata file states exactly the node, edge, per-type and feature counts, per-partition per-type total weights, partition set and watermark of the data actually written. "
     "Every partition has a sampling table for every node and edge type unless sampling tables were skipped, and each table lists exactly that partition's elements of that type with selection probabilities proportional to their weights.",
     ["schedules", "inputs", "configurations"],
     "all completion orders of partition writers x graphs whose types are missing on some partitions x partition counts",
     "Tests compare metadata of fixed graphs; counts are accumulated from results arriving in completion order, and types absent from some partitions need specific inputs.",
     [SN + "convert.py", SN + "dispatcher.py", SN + "converter/writers.py", SN + "alias.py"],
     [("result accumulation and padding in the dispatchers", SN + "dispatcher.py")],
     ["meta.json", "alias files"])

prop("C10", "Conversion output does not depend on scheduling",
     "Converting the same input with the same settings produces the same graph files (the metadata and every file of the partitions it names) with identical bytes, no matter how reader threads, dispatcher and partition workers interleave, how slow any of them is, or how often the conversion is repeated.",
     ["schedules"],
     "all interleavings and worker speeds for a fixed input and configuration",
     "A test observes one schedule; nondeterministic output appears only when two different schedules of the same input are compared.",
     [SN + "convert.py", SN + "dispatcher.py", GE + "_adl_reader.py"],
     [("round-robin or keyed dispatch before the queues", SN + "dispatcher.py"), ("partitions sorted before metadata is written", SN + "convert.py")],
     ["bytes of every output file"])

prop("C11", "An interrupted conversion never passes for a complete graph",
     "If a conversion is killed or hits a disk error or full disk at any moment, the output folder either cannot be opened as a graph (metadata missing or unreadable) or holds the complete correct graph. "
     "A conversion that reports success despite injected faults has written the complete graph. "
     "This also holds when the folder already contained an older graph, and running the conversion again afterwards into the same folder gives the same result as converting into an empty folder.",
     ["crash_points", "fault_sequences", "schedules"],
     "kill or I/O fault at every file operation and scheduling point of a conversion, followed by a retry",
     "No test interrupts a conversion; the guarantee rests on the order in which files are written and closed.",
     [SN + "convert.py", SN + "dispatcher.py", SN + "converter/process.py", SN + "converter/writers.py"],
     [("metadata is written after all partitions have been closed", SN + "convert.py")],
     ["output folder after the crash", "output folder after the retry"])

prop("C12", "Multi-worker conversion plus metadata merge equals one conversion of all input",
     "When several workers each convert their share of the input into one folder and the metadata is then merged, the partitions together contain every input record exactly once and the merged metadata describes exactly the partitions on disk: ids, counts, per-type counts, weights, feature counts, watermark and a sampling table for every type. "
     "This holds for every accepted combination of worker count, partition count and input files, and for any completion order; combinations that cannot work are refused with an error. "
     "Each partition id is written by exactly one worker.",
     ["configurations", "schedules", "inputs"],
     "worker counts x partition counts x file counts x completion orders of the workers x directory listing orders",
     "Tests merge two hand-made metadata files; uneven splits, more than ten workers and types missing at a worker are never exercised.",
     [SN + "convert.py", SN + "meta_merger.py", SN + "meta.py"],
     [("partition range per worker", SN + "convert.py"), ("metadata merger", SN + "meta_merger.py")],
     ["binary partitions", "merged meta.json"])

prop("C13", "Graph clients start after all servers, and servers outlive their clients",
     "A synchronized graph client is constructed only after every server of the job has finished starting, and if some server does not start within the configured timeout the client raises a timeout error in bounded time. "
     "A server that is asked to stop keeps serving while any registered client is still active, and stops after its timeout when a worker crashed without releasing its client. "
     "If every worker starts in time and clients of workers without a server connect before others close, all workers use their clients and finish without error.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings, delays and clock behaviour of any number of workers' servers and clients; servers that start late, crash or never start; workers that crash",
     "Tests run two workers natively with real sleeps and one timing; ordering races across processes are not controlled.",
     [GE + "backends/snark/synchronized.py", GE + "backends/snark/client.py"],
     [("lock files in the sync folder", GE + "backends/snark/synchronized.py")],
     ["construction and reset times of client and server objects"])

prop("C14", "Workers agree on automatically discovered server addresses",
     "When server addresses are not given, every worker of a job ends start-up with the same list of addresses, one per server, where entry i is the address published by the worker that starts server i. "
     "This holds for every assignment of server indexes to workers, every directory listing order and every interleaving, and discovery completes on all workers when all of them start in time.",
     ["schedules", "configurations"],
     "worker counts x server index assignments x listing orders x interleavings and delays of the workers",
     "Tests start two workers on one machine whose directory listing happens to be ordered; index mismatches and early shutdown races need particular orders.",
     [GE + "backends/snark/client.py", GE + "backends/snark/synchronized.py"],
     [("address files plus synchronized server/client pair", GE + "backends/snark/client.py")],
     ["server list of each backend", "address each server is started on"])

prop("C15", "Closing a backend releases every sync file and server, also after failures",
     "After every worker has closed its backend, in any order and also when a start-up timed out, no sync lock file, connected client or running server process of the job is left, so the same folder can be used for the next run. "
     "Closing twice is harmless, and closing an inherited copy in a forked child process removes nothing that belongs to the parent.",
     ["histories", "schedules", "fault_sequences"],
     "all orders of start, use, timeout, fork, close and repeated close over several workers x interleavings",
     "Tests close once, in one order, on success.",
     [GE + "backends/snark/synchronized.py", GE + "backends/snark/client.py"],
     [("owner process check and lock file removal", GE + "backends/snark/synchronized.py")],
     ["files in the sync folder", "server processes alive", "native clients not released"])

prop("C16", "Uploaded data is stored exactly once when the uploader closes",
     "When closing a data uploader returns, every piece of text whose write call succeeded is in the remote store exactly once, contiguous and unmodified, in files that have been finished, including empty writes which store nothing and disturb nothing. "
     "This holds for every number of upload processes and threads, queue and chunk size and interleaving, with arbitrarily slow storage. "
     "If the store fails, writing and closing still return or raise an error.",
     ["schedules", "configurations", "fault_sequences"],
     "all interleavings of writer, feeder, upload processes and threads x sizes x store delays and errors",
     "There is no test of the uploader.",
     [GE + "adl_uploader.py"],
     [("per-process queues with stop markers, joined on close", GE + "adl_uploader.py")],
     ["content of the store", "return of close"])

prop("C17", "The training barrier releases nobody before everybody has arrived",
     "With the file-based training synchronisation, no task leaves a named sync point before all tasks of the job have reached it, and once all have reached it all of them leave in bounded time. "
     "This holds for every sequence of distinct sync points, any delays, and leftovers of an earlier job in the folder, provided task 0 is created first.",
     ["schedules", "histories"],
     "all interleavings and delays of any number of tasks over several sync points, with stale files",
     "There is no test; the sleep intervals are 30 and 60 seconds.",
     ["src/python/deepgnn/tf/common/dist_sync.py"],
     [("per-task sync files", "src/python/deepgnn/tf/common/dist_sync.py")],
     ["entry and exit order of sync calls"])

prop("C18", "Sharded file samplers cover the training set exactly once per epoch",
     "When a training set stored in files is sampled by several workers (and data-parallel replicas within a worker), every example is produced exactly once per epoch over all of them together, with its own attributes, apart from padding with the back-fill value in a last batch and examples dropped with drop_last. "
     "All batches have the requested size (a CSV node list may end with a shorter one), the number of batches equals the length the sampler announces (within one batch when there are replicas). "
     "This holds with and without prefetching, under any interleaving and listing order; shuffling is not combined with replicas.",
     ["configurations", "schedules", "inputs"],
     "worker count x replica count x batch size x epochs x shuffle x drop_last x sampler kind x interleavings of the workers' prefetch threads",
     "Tests look at one worker and one configuration at a time; the union over all workers is never formed.",
     [GE + "samplers.py", GE + "graph_dataset.py", GE + "prefetch.py"],
     [("file and index striding", GE + "samplers.py")],
     ["batches of every worker"])

prop("C19", "A graph downloaded from remote storage is complete or the download fails",
     "Downloading graph data for a set of partitions from a remote file system either raises an error or leaves a local copy in which every file the converter wrote for those partitions (including sampling tables, temporal data and the features announced by the metadata) and the metadata are present with identical bytes. "
     "Partitions that live on local disk are left in place, each remote partition is taken from its own location, and releasing the download removes the local copy. "
     "Errors reported by the remote store or the local disk at any call never lead to a silently incomplete copy.",
     ["fault_sequences", "configurations", "inputs"],
     "failures at every remote call x graphs with and without features, temporal data and sampling tables x mixes of local and remote partitions",
     "The downloader tests need the native library and one healthy in-memory store.",
     [SN + "_downloader.py", SN + "meta.py"],
     [("per-partition file patterns", SN + "_downloader.py")],
     ["local folder after the download"])

prop("C20", "Distributed graph queries return what a local graph returns",
     "For graphs served by any number of servers and partitions, node types, node and edge features (dense, sparse, string), neighbor lists, neighbor counts and latest neighbors returned by a distributed client equal those of the input graph, with the documented defaults for unknown nodes, whatever order and delay the servers' replies have. "
     "The neighbors of a node that is present on several servers are the union over the servers.",
     ["schedules", "configurations", "inputs"],
     "placements of partitions on servers x queries x reply orders, delays and thread interleavings x temporal snapshots",
     "Native tests use one or two in-process servers on loopback with the arrival order the machine happens to give; the existing stable tests do not run the native engine at all.",
     [CC + "distributed/client.cc", CC + "distributed/graph_engine.cc", CC + "graph/merger.h", SN + "client.py", SN + "distributed.py"],
     [("per-shard reply callbacks merging by index", CC + "distributed/client.cc")],
     ["arrays returned by the Python client"])

prop("C21", "Sampled neighbors are real neighbors, and defaults only where there are none",
     "Every neighbor returned by weighted, uniform or without-replacement neighbor sampling through a local or distributed client is an actual neighbor of the queried node over one of the requested edge types (alive at the requested time), reported with its own weight, type and creation time. "
     "Exactly the requested number of entries is returned per node; default values appear only for nodes without matching neighbors (or when sampling without replacement runs out of neighbors), and unknown nodes get the defaults.",
     ["schedules", "configurations", "inputs"],
     "placements x sampling strategies x seeds x reply orders and delays",
     "Native tests check fixed seeds with one reply order.",
     [CC + "distributed/client.cc", CC + "graph/partition.cc", CC + "graph/graph.cc", CC + "graph/reservoir.cc", SN + "client.py"],
     [("weighted merge of per-shard samples", CC + "distributed/client.cc")],
     ["arrays returned by the Python client"])

prop("C22", "A failing graph server makes the query fail, never corrupt, hang or crash",
     "When any remote call of a query fails (server down, connection lost, error status) at any moment relative to the other servers' replies, the client call reports an error to its caller and returns. "
     "It never returns data as if the call had succeeded, never crashes or blocks forever, and later queries through the same client succeed with correct results once the servers answer again.",
     ["fault_sequences", "schedules"],
     "failure of any subset of the per-server calls at any point of any interleaving",
     "Native tests never fail one of several concurrent calls.",
     [CC + "distributed/client.cc", CC + "distributed/call_data.cc", CC + "py_graph.cc", SN + "client.py"],
     [("promise per shard call, status check in the reply callback", CC + "distributed/client.cc")],
     ["return value of the client call", "later queries", "memory checker"])

prop("C23", "Concurrent queries do not disturb each other, and servers shut down cleanly",
     "Queries issued concurrently by several threads through shared or separate clients each return the same result they would return alone, also while other clients, samplers and servers are created. "
     "Stopping a server at any moment, or a client while other clients are busy, completes in bounded time, every call in flight at a stopping server either gets its correct answer or an error, no thread stays behind, and nothing touches released memory. "
     "A server started again on the same address serves the clients that were connected before.",
     ["schedules", "histories", "fault_sequences"],
     "interleavings of client threads, completion threads, server threads and shutdown",
     "Native tests shut down idle servers and rarely query concurrently.",
     [CC + "distributed/server.cc", CC + "distributed/call_data.cc", CC + "distributed/client.cc", CC + "py_server.cc"],
     [("completion queues and per-call state machines", CC + "distributed/call_data.cc")],
     ["results of concurrent queries", "return of shutdown", "memory checker"])

prop("C24", "Node and edge sampling over servers returns the requested count of real elements",
     "Sampling nodes or edges by type through a client connected to any number of servers returns exactly the requested number of elements, each an existing node or edge of a requested type reported with that type. "
     "Types with elements only on some servers or partitions are sampled from there, without-replacement sampling returns no element twice, and server errors are reported.",
     ["schedules", "configurations", "inputs", "fault_sequences"],
     "placements of types over servers x strategies x counts x reply orders",
     "Native tests place the same types on every server.",
     [CC + "distributed/client.cc", CC + "distributed/graph_sampler.cc", CC + "graph/sampler.cc", SN + "client.py"],
     [("splitting the count over shards by weight", CC + "distributed/client.cc")],
     ["arrays returned by the Python client"])

prop("C25", "The engine serves exactly the graph that was converted",
     "A graph that was converted from text and loaded by the engine, from memory or disk storage, one partition or many, answers every deterministic query with the data of the original text. "
     "If reading a binary file fails, while loading or while answering a query from disk, the engine reports an error or stops; it never serves missing or invented data.",
     ["inputs", "configurations", "fault_sequences"],
     "graphs x decoders x partitions x storage kinds x failing or short reads at load and at queries",
     "End-to-end tests cover a few fixed graphs and healthy disks, and are not part of the stable tests.",
     [SN + "convert.py", SN + "converter/writers.py", CC + "graph/partition.cc", CC + "graph/storage.h", CC + "graph/graph.cc"],
     [("shared binary format", CC + "graph/partition.cc")],
     ["arrays returned by the Python client", "status of loading"])

prop("C26", "Every graph partition is served by exactly one server of the job",
     "In a distributed job described by the settings of any supported launcher (explicit indexes, torch, MPI, Horovod, TensorFlow), exactly one server starts per host, or per explicitly numbered worker. "
     "Every client connects to all of these servers, and together they load every partition of the graph exactly once. "
     "Starting the job does not change the settings given by the launcher.",
     ["configurations", "schedules"],
     "launchers x hosts x workers per host x partition counts x given or discovered addresses x interleavings",
     "Tests cover one or two workers with fixed indexes and need the native library, so most launchers are never run.",
     [GE + "backends/snark/client.py", SN + "distributed.py", SN + "server.py"],
     [("derivation of server index, rank and job size from the environment", GE + "backends/snark/client.py")],
     ["address and partitions of each started server", "server list of each client"])

prop("C27", "Random walks and page rank neighborhoods follow the graph wherever it is placed",
     "Every step of a random walk through a local or distributed client follows an edge of the requested types, or returns to the node before; default values appear only where there is no way on, and the same seed gives the same walk. "
     "Personalized page rank returns reachable nodes with scores within the requested tolerance of the exact ones, padded with the defaults, and both see only edges present at the requested time. "
     "This holds for any placement of partitions on servers, and a failing server makes the call fail.",
     ["schedules", "configurations", "inputs", "fault_sequences"],
     "graphs x placements x walk lengths, return and in-out parameters, page rank tolerances x reply orders and delays x failures of one of several calls",
     "Native tests walk one fixed graph in one partition with healthy servers, and compare a few recorded numbers.",
     [CC + "distributed/client.cc", CC + "graph/graph.cc", CC + "py_graph.cc", SN + "client.py"],
     [("walks and page rank built from several rounds of remote neighbor lookups", CC + "py_graph.cc")],
     ["arrays returned by the Python client"])

prop("C28", "Interrupted training continues from its last checkpoint and loses nothing",
     "A torch training job that is killed or hits disk errors any number of times, at any moment, and is started again with the same folder continues from the last checkpoint it completed, and at the end every training example has contributed to the model of every worker exactly once per epoch (with a sample limit: the first batches of every epoch). "
     "Checkpoints are completed as often as asked for, no more are kept than asked for, and the newest is never the one removed. "
     "Evaluation or inference started afterwards uses the newest checkpoint on every worker and covers every example exactly once; this holds for one worker, DDP and Horovod, with examples read in file order.",
     ["fault_sequences", "schedules", "configurations"],
     "kill points and disk errors of several attempts x workers x batches and epochs (beyond 1000) x checkpoint intervals and kept checkpoints x sample limits, evaluation during training, loader processes",
     "Tests train a few undisturbed steps in one process; no test stops a job, and none counts what each example contributed.",
     [PY + "pytorch/training/trainer.py", PY + "pytorch/training/trainer_ddp.py", PY + "pytorch/training/trainer_hvd.py", PY + "pytorch/common/utils.py", PY + "pytorch/common/dataset.py"],
     [("saving, choosing and removing checkpoints; position in the epoch", PY + "pytorch/training/trainer.py")],
     ["parameters of a model that counts contributions", "embedding files"])

prop("C29", "Neighborhoods, sub-graphs and batches built through a client match the graph",
     "Multi-hop neighbor expansions, sub-graphs, sampled out-edges with their features, skip-gram pairs of walks and batches of graph samplers, built through a local or distributed client, agree with the input graph: exact ones contain every matching element and nothing else, sampled ones the requested number of matching elements padded with the requested defaults. "
     "A local client answers from exactly the partitions it was asked to load, with answers that repeat when the random state is set again; servers started by shard number together serve the whole graph, also to a copied client. "
     "A failing server makes the call fail instead of leaving out a part of the result.",
     ["configurations", "inputs", "schedules", "fault_sequences"],
     "graphs x placements and loaded partitions x operations of several dependent rounds of queries x reply orders and delays x failures of one of several calls",
     "Tests of these helpers need the native library, load every partition of one small graph in one process, use equal window sizes and never fail a call between two rounds.",
     [GE + "multihop.py", GE + "graph_ops.py", GE + "samplers.py", SN + "local.py", SN + "distributed.py"],
     [("operations built from several rounds of graph queries", GE + "multihop.py"), ("translation of client arguments to engine calls", SN + "local.py")],
     ["arrays returned by the client interface"])

prop("C30", "Fetched files are complete or absent, whenever a job stops",
     "A file fetched from a web address or object store by the dataset download or the model file cache is complete or absent under its final name, whatever moment the job is killed or the connection or disk fails, and a later run gets the complete content. "
     "Several workers fetching into the same folder at once all get the complete content, and one is not failed by what happens to another. "
     "A failed request or error answer is reported and never stored, a complete file is not fetched again unless it changed remotely, and the recorded origin of a cached file is right.",
     ["fault_sequences", "schedules", "configurations"],
     "kill points, network and disk errors of several attempts x workers sharing folders x kinds of addresses x files replaced or missing remotely",
     "No test downloads anything: the sandboxed tests have no network, and none stops a job in the middle of a copy or runs two workers.",
     [GE + "data/data_util.py", PY + "pytorch/encoding/twinbert/deepspeed/file_utils.py"],
     [("checking for, fetching and naming a file others look for", PY + "pytorch/encoding/twinbert/deepspeed/file_utils.py")],
     ["files under the names a fetch returns", "exceptions of a fetch"])

prop("C31", "Samples follow the weights, wherever the graph is placed",
     "Over requests with different seeds, every neighbor, node, edge or next step of a walk is returned as often as its share says: by weight for weighted sampling and walks (for walks adjusted by the return and in-out parameters), equally for uniform sampling. "
     "The shares do not depend on how the partitions are placed on servers or in one process, nor on the order and delay of replies. "
     "Neighbors sampled without replacement all appear equally often.",
     ["configurations", "inputs", "schedules"],
     "graphs whose nodes have neighbors in several partitions x placements x kinds of sampling x request sizes and seeds x reply orders and delays",
     "Statistical tests of the native library use one fixed graph in one process and compare with recorded numbers; none merges replies of several servers.",
     [CC + "graph/partition.cc", CC + "graph/reservoir.cc", CC + "graph/sampler.cc", CC + "graph/merger.h", CC + "distributed/client.cc"],
     [("merging samples of several partitions and servers", CC + "graph/merger.h")],
     ["arrays returned by the Python client"])

prop("C32", "A graph streamed from remote storage is the converted graph",
     "A server or local client that streams a graph from a Hadoop file system answers as if it had the converted files on its own disk: for files of any size, partitions in any folders, reads that return fewer bytes than asked for, and several graphs or servers being loaded at the same time on one machine. "
     "A connection, listing, open or read that fails is reported or stops the loading; it never results in missing or wrong data.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "graphs up to 500 nodes x folders and addresses x servers or local clients loading together x short, slow and failing calls of the storage",
     "The tests of streaming use one small graph in a local folder and need a Hadoop installation; none delivers a file in pieces, fails a call or loads two graphs at once.",
     [CC + "graph/hdfs_wrap.cc", CC + "graph/storage.h", CC + "graph/metadata.cc", CC + "graph/locator.cc", GE + "snark/meta.py"],
     [("buffered reading of remote files", CC + "graph/storage.h")],
     ["arrays returned by the Python client", "exceptions and log messages of a load"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
