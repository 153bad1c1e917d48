"""Source of properties.jsonl. Run tools/build.py after editing."""

C = "src/cc/lib/"
G = "src/python/deepgnn/graph_engine/"
SN = G + "snark/"
CC = "src/cc/lib/"

P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **kw},
        }
    )


prop(
    "C01",
    "Conversion keeps every node, edge, weight, type and feature",
    "Converting a text graph (JSON, TSV or edge list) to binary partitions loses and invents nothing: every node is "
    "found exactly once over all partitions with its type, weight and features of every kind, and every edge once "
    "under its source with its destination, type, weight and features. All values come back bit for bit after "
    "rounding to their declared type, and the neighbor, edge and feature indices of the files agree with each other.",
    ["inputs", "configurations"],
    "All well-formed graphs (any ids, type gaps, empty, missing, sparse and binary features, parallel edges, nodes "
    "without edges), all three input formats and their options, any number of partitions and input files.",
    "convert_test compares a handful of fixed three-to-ten-node graphs; no test writes features with gaps, sparse "
    "features of every element type, or non-contiguous types and reads them back.",
    [SN + "convert.py", SN + "dispatcher.py", SN + "decoders.py", SN + "converter/process.py", SN + "converter/writers.py"],
    [
        ("offsets of neighbors, edges and features are written as running sums", "converter/writers.py NodeWriter/EdgeWriter"),
        ("features are indexed and gaps are filled with empty entries", "converter/writers.py NodeFeatureWriter/EdgeFeatureWriter"),
        ("each record goes to one partition", "dispatcher.py"),
    ],
    observe_at=["binary files of the output folder"],
)
prop(
    "C02",
    "Decoders read every field of a text record exactly as written",
    "Every decoder turns a text record into exactly the node, edges and features the record describes, for every "
    "option of the format (delimiters, escaping, defaults for missing columns, element types). Two texts describing "
    "the same record in different formats decode to the same node and edges.",
    ["inputs", "configurations"],
    "All well-formed records of the JSON, TSV and edge list formats, including escaped delimiters and every element type.",
    "The decoder tests parse a few literal lines; escaping, omitted columns, unusual delimiters and empty sections "
    "are combined nowhere.",
    [SN + "decoders.py"],
    [("per format parsers", "decoders.py JsonDecoder, TsvDecoder, EdgeListDecoder")],
    observe_at=["output of decode()"],
)
prop(
    "C03",
    "Metadata always describes the binary files next to it",
    "After a conversion the metadata states exactly the number of nodes and edges, of node and edge types and of "
    "features, the partitions and the sum of weights and number of elements per type and partition that are stored in the binary files. "
    "This also holds when several workers convert parts of the input and their metadata is merged.",
    ["inputs", "configurations"],
    "All graphs, partition counts, split of input files over 1-12 workers, samplers switched off or on.",
    "Tests look at a few fields of the metadata for one graph; merging is tested with two hand-written files.",
    [SN + "meta.py", SN + "meta_merger.py", SN + "convert.py", SN + "converter/process.py"],
    [
        ("counters sent by partition converters", "converter/process.py converter_process"),
        ("merge of metadata of workers", "meta_merger.py"),
    ],
    observe_at=["meta.json"],
)
prop(
    "C04",
    "Sampling tables reproduce the weights of nodes and edges",
    "The sampling table written for a node or edge type gives each element of that type in the partition, and nothing else, a "
    "probability proportional to its weight. Drawing from a table of generated weights never returns an element of "
    "weight zero and every probability in the table is a finite number between zero and one.",
    ["inputs"],
    "All lists of non-negative weights with a positive sum, equal, tiny, huge and zero weights, any number of types and partitions.",
    "alias_test draws from two fixed distributions and compares frequencies.",
    [SN + "alias.py", SN + "converter/writers.py"],
    [("alias method", "alias.py Vose"), ("one table per type and partition", "converter/writers.py NodeAliasWriter/EdgeAliasWriter")],
    observe_at=["*.alias files", "alias tables"],
)
prop(
    "C05",
    "Temporal conversion keeps the lifetime of every element",
    "Converting a temporal graph stores the creation and removal time of every node, edge and feature value exactly "
    "as given, with features ordered by time. Converting a graph without times never stores any.",
    ["inputs", "configurations"],
    "All temporal graphs with any combination of creation and removal times, repeated features, watermarks, input order and partitions.",
    "A few fixed temporal graphs are converted; times that are negative, equal, or missing on some elements are not combined.",
    [SN + "decoders.py", SN + "converter/writers.py", SN + "converter/process.py", SN + "convert.py"],
    [("time stamp files and interleaved feature times", "converter/writers.py")],
    observe_at=["binary files of the output folder"],
)
prop(
    "C06",
    "Malformed input is rejected instead of converted silently",
    "When a record of the input can't be understood (broken JSON, missing or non-numeric required fields, unknown feature kinds, "
    "missing columns, bad numbers, edges outliving their source), decoding and writing it fail with an error, and no conversion finishes "
    "and writes metadata as if nothing happened. This holds wherever the record is in the input, in single-process and parallel conversions.",
    ["inputs", "fault_sequences", "configurations"],
    "All single defects of a generated kind at any position of an otherwise well-formed input; thread and process based conversion.",
    "Tests only use well-formed input.",
    [SN + "decoders.py", SN + "dispatcher.py", SN + "convert.py"],
    [("exceptions of decoders reach the caller", "dispatcher.py"), ("required fields", "decoders.py")],
    observe_at=["exceptions of decode()/convert()"],
)
prop(
    "C07",
    "The result of a conversion does not depend on how it was run",
    "The set of nodes and edges with their data, and the totals in the metadata, are the same for every number of "
    "partitions, workers, threads or processes, buffer sizes and schedule of the conversion. A conversion always "
    "finishes, and each partition holds whole nodes only: a node together with all of its edges.",
    ["configurations", "schedules"],
    "All inputs of a generated size, dispatchers on threads and on processes, 1-4 partitions, any step size and buffer size.",
    "Tests use one configuration per graph and compare counts.",
    [SN + "dispatcher.py", SN + "convert.py", SN + "converter/process.py"],
    [("queues between readers and partition writers", "dispatcher.py QueueDispatcher"), ("node to partition assignment", "dispatcher.py")],
    observe_at=["binary files and meta.json"],
)
prop(
    "C08",
    "Text files are read completely, line by line, once",
    "Reading text files in blocks delivers every line exactly once, unbroken and in the order of its file, whatever the block size, "
    "the number of threads, and the position of line ends, and readers given disjoint byte ranges or file subsets deliver together every line exactly once. "
    "When reading fails the error reaches the consumer instead of a silent end of data.",
    ["inputs", "configurations", "fault_sequences"],
    "All file contents (multi-byte characters, empty files, missing final line end), block sizes, splits over workers, epochs and read failures.",
    "Tests read one fixed file with default block size.",
    [G + "_adl_reader.py"],
    [("partial lines carried to the next block", "_adl_reader.py TextFileIterator"), ("ranges begin after the first line end", "_adl_reader.py TextFileSplitIterator")],
    observe_at=["lines returned by iterators"],
)
prop(
    "C09",
    "Listed training examples are dealt out exactly once per epoch",
    "Samplers over node files, edge files, tuple files, CSV files and id ranges hand out every example exactly once per epoch "
    "over all workers and data parallel readers, in full batches. Padding appears only in the last batch of a reader, the "
    "announced number of batches is right, and iterating again gives every example again.",
    ["inputs", "configurations", "histories"],
    "All inputs, batch sizes, epochs, numbers of workers and parallel readers, shuffling and dropping of the last batch, abandoned and repeated iterations.",
    "Tests cover one or two sizes per sampler, mostly divisible by the batch size, with one worker.",
    [G + "samplers.py"],
    [("slicing by worker and parallel reader", "samplers.py _NumpyIterator, RangeNodeSampler"), ("padding of last batch", "samplers.py")],
    observe_at=["batches"],
)
prop(
    "C10",
    "Streaming and graph samplers hand out the promised batches",
    "The streaming text sampler hands out every line of its files once per epoch over all workers in batches of the requested size, "
    "shuffling only within its buffer. Samplers backed by a graph ask the graph for exactly the configured types, batch size and "
    "strategy, and produce as many batches as the configured number of samples requires.",
    ["inputs", "configurations", "histories"],
    "All file contents, buffer and batch sizes, epochs, workers; all graph sizes, sample counts and strategies.",
    "Tests use single small files and a mocked graph with one batch size.",
    [G + "samplers.py", G + "_adl_reader.py"],
    [("buffered shuffle", "samplers.py TextFileSampler"), ("batch count", "samplers.py GENodeSampler/GEEdgeSampler")],
    observe_at=["batches", "calls to the graph"],
)
prop(
    "C11",
    "Prefetching delivers each batch once and reports failures",
    "Running queries in the background delivers the result of every batch exactly once and then ends, for every timing of "
    "queries and consumer, without running further ahead than its queue allows. A failing query or sampler surfaces as an "
    "error at the consumer, and closing early always stops the background work.",
    ["schedules", "fault_sequences", "configurations"],
    "All sampler lengths, queue sizes, parallelism, per query delays, failure positions and points where the consumer stops.",
    "Tests run one successful and one failing configuration.",
    [G + "prefetch.py"],
    [("bounded queue with an end marker carrying the count", "prefetch.py Generator"), ("bounded thread pool", "prefetch.py BoundedExecutor")],
    observe_at=["items of the generator", "queries started"],
)
prop(
    "C12",
    "A dataset queries every batch of its sampler for every worker",
    "Iterating over a dataset calls the query once for every batch of its sampler with the graph of its backend and yields the results, "
    "with and without prefetching and on every pass. The workers of a training job see together every example once per epoch.",
    ["inputs", "configurations", "histories"],
    "All sampler kinds, batch sizes, epochs, numbers of workers, prefetch settings, and repeated or abandoned passes.",
    "Tests build one dataset over a fixed file.",
    [G + "graph_dataset.py", G + "samplers.py"],
    [("sampler arguments injected by name", "graph_dataset.py init_sampler"), ("iterator", "graph_dataset.py _DeepGNNDatasetIterator")],
    observe_at=["items of the dataset"],
)
prop(
    "C13",
    "Multi-hop queries follow exactly the edges of the graph",
    "Expanding nodes over several hops returns, per hop, neighbors that are connected to the nodes of the previous hop by an edge of a type "
    "requested for that hop, with that edge's weight and type, in the order of the parents, and the default node where there is none. The adjacency "
    "returned for full neighborhoods contains every edge between consecutive layers once and nothing else.",
    ["inputs", "configurations"],
    "All multigraphs, seed nodes with repetitions, numbers of hops, fan-outs and edge types per hop.",
    "Tests check one small graph with one set of types.",
    [G + "multihop.py"],
    [("nodes of a hop are seeds of the next", "multihop.py sample_fanout"), ("sparse adjacency per hop", "multihop.py get_neighbor")],
    observe_at=["returned nodes, weights, types and adjacency"],
)
prop(
    "C14",
    "Subgraphs, out-edges and skip-grams contain exactly what the graph has",
    "A subgraph contains all nodes reachable within the requested number of hops and all edges among them, once, with indices that refer to the "
    "returned nodes. Skip-grams are exactly the pairs of positions of a path within the requested left and right windows. Sampled out-edges exist in the graph.",
    ["inputs", "configurations"],
    "All multigraphs, seeds, hop counts and output options; all paths and window sizes.",
    "Tests use one triangle-like graph and symmetric windows.",
    [G + "graph_ops.py"],
    [("breadth-first expansion", "graph_ops.py sub_graph"), ("window pairs", "graph_ops.py gen_skipgrams"), ("negative and positive edges", "graph_ops.py sample_out_edges")],
    observe_at=["returned arrays"],
)
prop(
    "C15",
    "Clients wait for all servers and servers outlive their clients",
    "A client connects only after every server of the job has started, once, and reports a time-out when one is missing. A server "
    "stays up as long as any client that registered is open, stops when the last one is gone or its time-out expires, and leaves no trace behind that would confuse "
    "the next job in the same folder.",
    ["schedules", "histories", "fault_sequences"],
    "All interleavings of starting, connecting, disconnecting and stopping of several servers and clients, missing servers, lost clients and stale files.",
    "Tests run one server and one client in a fixed order.",
    [G + "backends/snark/synchronized.py"],
    [("lock files per server and client", "synchronized.py SynchronizedServer/SynchronizedClient")],
    observe_at=["creation and destruction of wrapped objects", "files in the synchronization folder"],
)
prop(
    "C16",
    "Workers of a job agree on servers, ranks and partitions",
    "For every supported way of launching a job each host runs exactly one graph server at its own address, servers and clients have distinct consecutive "
    "numbers, and all workers use the same list of servers in the same order, given or discovered. The servers together own every partition of the graph exactly once.",
    ["configurations", "schedules"],
    "All launch environments, numbers of hosts and workers, orders of worker lists, start-up delays, numbers of partitions and servers.",
    "Tests cover single-process environments with one host.",
    [G + "backends/snark/client.py", G + "snark/distributed.py", G + "snark/server.py", G + "utils.py"],
    [("server index and rank from the environment", "backends/snark/client.py _get_server_index_client_rank"), ("address discovery", "backends/snark/client.py _check_servers_option"), ("partitions per server", "snark/distributed.py Server")],
    observe_at=["arguments servers and clients are created with"],
)
prop(
    "C17",
    "Feature and type lookups return exactly what is stored",
    "Looking up dense, sparse or variable-length features or types of any nodes or edges returns for each requested one, in request order, exactly the stored "
    "bytes, cut or padded with zeros to the requested size, and zeros, nothing or the default for absent ones. The answer does not depend on how the graph "
    "is split in partitions and servers or on whether features are kept in memory or on disk.",
    ["inputs", "configurations"],
    "All graphs with features of any kind and gaps, requests with repeated, missing and foreign ids and feature ids, all partitionings, storages and numbers of servers.",
    "Tests of the engine need a native build that is not part of the test run, and use one tiny graph.",
    [G + "snark/client.py", C + "graph/partition.cc", C + "graph/graph.cc", C + "graph/storage.h", C + "distributed/client.cc", C + "distributed/graph_engine.cc"],
    [("argument marshalling and result reshaping", "snark/client.py MemoryGraph"), ("feature offsets", "partition.cc GetNodeFeature/GetEdgeFeature"), ("merge of answers of servers", "distributed/client.cc")],
    observe_at=["arrays returned by the client"],
)
prop(
    "C18",
    "Neighbor lists and counts agree with the edges of the graph",
    "The neighbors of a node over a set of edge types are exactly its stored edges of these types, with their weights and types, and counts, totals and the description of the graph known to a client agree with them. "
    "The order of requested types and nodes, partitions, storage and servers do not matter.",
    ["inputs", "configurations"],
    "All multigraphs, requested nodes and types (repeated, unordered, unknown), partitionings including nodes split over partitions, storages and numbers of servers.",
    "Tests of the engine need a native build that is not part of the test run, and use one tiny graph.",
    [G + "snark/client.py", C + "graph/partition.cc", C + "graph/graph.cc", C + "distributed/client.cc", C + "distributed/graph_engine.cc"],
    [("iteration over requested types", "partition.cc NeighborIndexIterator"), ("merge of neighbor lists of servers", "distributed/client.cc FullNeighbor"), ("callback that copies results", "snark/client.py _NeighborsCallback")],
    observe_at=["arrays returned by the client"],
)
prop(
    "C19",
    "Queries at a moment see exactly what existed at that moment",
    "A query of a temporal graph with a timestamp returns exactly the edges created not later and not yet removed, with their creation times, and for every feature the "
    "latest value that is not newer than the timestamp. Times left out of the input are those of the owner.",
    ["inputs", "configurations", "histories"],
    "All temporal graphs with lifetimes of nodes, edges and feature values, moments at and around every change, partitionings, storages and numbers of servers.",
    "Tests use one graph with a handful of times; order of lifetimes and 64-bit times are not varied.",
    [G + "snark/decoders.py", G + "snark/client.py", C + "graph/partition.cc", C + "distributed/client.cc"],
    [("visible edges", "partition.cc find_start/find_last"), ("dated values of a feature", "partition.cc deserialize_temporal_feature"), ("dated values in the input", "snark/decoders.py JsonDecoder")],
    observe_at=["arrays returned by the client"],
)
prop(
    "C20",
    "Sampled neighbors are real edges, drawn with the promised probabilities",
    "Sampling neighbors returns only edges of the node of requested types that exist at the given moment, defaults only when there are not enough of them, and no edge twice without replacement. "
    "Edges come with probability proportional to their weight, or equally likely in uniform sampling, wherever they are stored.",
    ["inputs", "configurations"],
    "All multigraphs, temporal or not, weights including zeros, requested types, sizes, defaults, seeds, partitionings, storages and numbers of servers.",
    "Tests pin outputs of one seed or average over one small graph; bias depends on where edges are stored and which of them are visible.",
    [G + "snark/client.py", C + "graph/partition.cc", C + "graph/graph.cc", C + "graph/reservoir.cc", C + "distributed/client.cc"],
    [("weighted choice", "partition.cc SampleNeighbor"), ("reservoirs", "reservoir.cc"), ("merge of samples of servers", "distributed/client.cc WeightedSampleNeighbor/UniformSampleNeighbor")],
    observe_at=["arrays returned by the client"],
)
prop(
    "C21",
    "Sampled nodes and edges exist and come with the promised probabilities",
    "Drawing nodes or edges from the whole graph returns only existing ones of requested types, never one twice without replacement, and the same ones for the same seed. "
    "Each comes with probability proportional to its weight, or equally likely in uniform sampling, wherever it is stored; types without elements are refused.",
    ["inputs", "configurations"],
    "All graphs, weights including zeros, requested types (repeated, unknown, all), sizes, seeds, kinds of sampling, partitionings (empty ones included), storages and numbers of servers.",
    "Tests pin outputs of one seed or average over one small graph; defects depend on which partition or server lacks elements of a type.",
    [G + "snark/client.py", C + "graph/sampler.cc", C + "distributed/client.cc", C + "distributed/graph_sampler.cc"],
    [("split of a request over types and partitions", "sampler.cc SamplerImpl::Sample"), ("split over servers", "distributed/client.cc SampleNodes/SampleEdges"), ("requested types and kinds", "snark/client.py NodeSampler/EdgeSampler")],
    observe_at=["arrays returned by samplers"],
)
prop(
    "C22",
    "Random walks follow existing edges with node2vec probabilities",
    "Every step of a random walk follows an edge of a requested type that exists at the given moment, and a walk ends with default nodes exactly where there is none. "
    "Edges are chosen proportionally to weight, divided by the return parameter for the previous node and by the in-out parameter for nodes that are not its neighbors.",
    ["inputs", "configurations"],
    "All directed multigraphs with self loops and dead ends, temporal or not, batches of starting nodes, lengths, parameters, seeds, partitionings, storages and numbers of servers.",
    "Tests walk over one undirected graph with equal weights, where an edge to the previous node always exists.",
    [G + "snark/client.py", C + "py_graph.cc", C + "distributed/client.cc"],
    [("transition probabilities", "py_graph.cc RandomWalk"), ("argument marshalling", "snark/client.py MemoryGraph.random_walk")],
    observe_at=["arrays returned by the client"],
)
prop(
    "C23",
    "Ranked neighbors are those with the largest personalized PageRank",
    "Selecting neighbors by personalized PageRank returns distinct reachable nodes in ascending order of ranks, and these are the largest ones. "
    "A rank never exceeds the exact value and misses it by no more than the threshold allows, at the given moment, whatever other nodes are in the batch.",
    ["inputs", "configurations"],
    "All directed multigraphs, temporal or not, batches of nodes with moments of their own, teleport probabilities, thresholds, sizes, partitionings, storages and numbers of servers.",
    "One test pins the output for one undirected graph; none uses moments.",
    [G + "snark/client.py", C + "py_graph.cc"],
    [("push of residuals", "py_graph.cc PPRSampleNeighbor"), ("cache of neighbor lists and counts by moment", "py_graph.cc lookup_neighbor_lists/lookup_neighbor_counts"), ("argument marshalling", "snark/client.py MemoryGraph.ppr_neighbors")],
    observe_at=["arrays returned by the client"],
)
prop(
    "C24",
    "Last created neighbors are the most recent visible edges",
    "Selecting the last created neighbors of a node at a moment returns the edges of requested types with the latest creation times among those visible at the moment, with their own weights, types and times. "
    "Missing ones are filled by the defaults; partitions, storage and servers do not matter.",
    ["inputs", "configurations", "histories"],
    "All temporal multigraphs, moments at and around every change, sizes, defaults, partitionings including nodes split over partitions, storages and numbers of servers.",
    "Tests query one graph of a few edges at a single moment.",
    [G + "snark/client.py", C + "graph/partition.cc", C + "graph/graph.cc", C + "graph/merger.h", C + "distributed/graph_engine.cc"],
    [("queue of latest edges", "partition.cc LastNCreatedNeighbors"), ("merge of answers of servers", "merger.h MergeLastNCreatedNeighbors"), ("argument marshalling", "snark/client.py MemoryGraph.lastn_neighbors")],
    observe_at=["arrays returned by the client"],
)
prop(
    "C25",
    "Graph clients answer every call by its own arguments",
    "A client opened over chosen partitions or servers answers each call for exactly these partitions and by all of its arguments (kind of sampling, types, sizes, defaults, moments), whatever was asked before. "
    "Draws repeat when the random generator is seeded the same way. A client of servers that was sent to another process, or a client made from the options of a job, gives the same answers.",
    ["inputs", "histories", "configurations"],
    "All graphs, temporal or not, lists of opened partitions, numbers of servers, and sequences of calls of every kind with their arguments in any order.",
    "Tests make single calls on a client over all partitions; stale samplers, ignored defaults and ignored partitions only show in sequences and subsets.",
    [G + "snark/local.py", G + "snark/distributed.py", G + "graph_ops.py", G + "graph_dataset.py", G + "backends/snark/client.py"],
    [("samplers kept between calls", "snark/local.py Client.sample_nodes/sample_edges"), ("choice of strategy and defaults", "snark/local.py Client.sample_neighbors"), ("pickling", "snark/distributed.py Client")],
    observe_at=["arrays returned by the client"],
)
prop(
    "C26",
    "Queries end with the full answer or an error when servers fail",
    "A query during which requests fail or servers are down returns exactly what it returns without failures, or raises an error, and it raises only when every attempt allowed by the retry policy met a failure. "
    "Failures never crash or block client or servers, nor change answers of later queries, also after servers come back. Waiting between attempts never exceeds the largest backoff of the policy.",
    ["fault_sequences", "histories", "schedules"],
    "All kinds of queries, graphs, numbers of servers, positions and numbers of failing requests, servers going down and coming back, retry policies and delays of answers.",
    "Tests never fail a request; partial answers and dangling callbacks need a failure of one server while others still answer.",
    [G + "snark/client.py", C + "py_graph.cc", C + "distributed/client.cc", C + "distributed/graph_sampler.cc", C + "distributed/call_data.cc"],
    [("collecting answers of servers", "distributed/client.cc WaitForFutures and callbacks"), ("errors of multi-step queries", "py_graph.cc RandomWalk/PPRSampleNeighbor/LastNCreatedNeighbor"), ("retries", "snark/client.py DistributedGraph._retryer")],
    observe_at=["arrays returned or exceptions raised by the client"],
)
prop(
    "C27",
    "Threads sharing a client get the answers of single calls",
    "Any queries asked from several threads through one client at the same time give the answers they give one after another, whatever else is being asked. "
    "The same holds while other threads create samplers; no interleaving crashes or blocks the client or its servers.",
    ["schedules", "inputs", "configurations"],
    "All kinds of queries in 2-4 threads, graphs temporal or not, storages, numbers of servers, worker threads of servers and orders of their answers.",
    "Tests ask from one thread; shared buffers, samplers created on demand and callbacks of requests only interfere under certain interleavings.",
    [G + "snark/client.py", G + "snark/_lib.py", C + "py_graph.cc", C + "graph/sampler.cc", C + "distributed/client.cc", C + "distributed/graph_sampler.cc"],
    [("descriptions of native functions", "snark/_lib.py _get_c_lib, snark/client.py samplers"), ("samplers created on demand", "graph/sampler.cc AbstractSamplerFactory.Create"), ("registered samplers", "distributed/graph_sampler.cc, distributed/client.cc CreateSampler")],
    observe_at=["arrays returned or exceptions raised by the client"],
)
prop(
    "C28",
    "Graphs in remote storage answer as graphs on a local disk",
    "A client or server given metadata and partitions in remote storage, in different storages or partly on a local disk, answers every query as one that reads the same files from a local disk, for temporal and plain graphs and any subset of partitions. "
    "Files in storage stay as they are, and nothing that was downloaded remains after closing.",
    ["inputs", "configurations"],
    "All graphs, temporal or not, with or without features, partitions of one or several files, locations of metadata and of each partition, subsets and orders of partitions, storages of the engine and numbers of servers.",
    "Tests only load graphs from local folders, the download from remote storage is never run.",
    [G + "snark/_downloader.py", G + "snark/client.py", G + "snark/server.py", G + "snark/meta.py", G + "_base.py"],
    [("choice of files to download", "snark/_downloader.py download_graph_data"), ("names of files", "snark/meta.py _get_*_path"), ("locations of partitions", "snark/client.py MemoryGraph, snark/server.py Server")],
    observe_at=["arrays returned by the client", "files left in temporary folders"],
)
prop(
    "C29",
    "Servers without features or times answer everything else",
    "Servers told to leave out features answer queries for features as if there were none and every other query, also at a moment, as servers that load everything. "
    "Servers told to leave out times answer queries without a moment as servers of the same graph without times. Sizes of the graph are reported in full.",
    ["inputs", "configurations"],
    "All graphs, temporal or not, with features of any kind, partitionings, storages and numbers of servers, and queries of every kind.",
    "The only test of these options needs a streaming library and asks for one feature of one graph.",
    [G + "snark/server.py", G + "snark/distributed.py", C + "graph/metadata.cc", C + "graph/partition.cc", C + "py_server.cc"],
    [("metadata without features or times", "graph/metadata.cc Metadata"), ("files that are not loaded", "graph/partition.cc Partition constructor"), ("queries of missing features", "graph/partition.cc GetNodeFeature/GetEdgeFeature")],
    observe_at=["arrays returned by the client"],
)
prop(
    "C30",
    "Built-in datasets hold the graph of their raw files",
    "A built-in dataset opened after it was built has exactly the nodes, labels, features and links of its raw files, links in both directions and in the types that separate training from the rest, in all its partitions. "
    "The shares of training nodes and of kept links are the requested ones, and the files listing the nodes of each split agree with the graph. Building it twice gives the same dataset.",
    ["inputs", "configurations"],
    "All raw files (papers with words and citations, proteins and posts with links, labels and features), numbers of partitions, training shares and shares of kept links.",
    "Tests of datasets need downloads or compare the sizes of one dataset in one partition.",
    [G + "data/data_util.py", G + "data/citation.py", G + "data/cora.py", G + "data/citeseer.py", G + "data/ppi.py", G + "data/reddit.py"],
    [("nodes and links of papers", "data/citation.py"), ("conversion and opening", "data/data_util.py Dataset"), ("nodes and links of proteins and posts", "data/ppi.py, data/reddit.py")],
    observe_at=["queries to the opened dataset", "files of splits"],
)
prop(
    "C31",
    "Reduced graphs are samples of the requested size with right measures",
    "A graph reduced by forest fire has exactly the requested number of nodes, consists of nodes and edges of the original graph only, leaves the original as it was, and is the same for the same seed. "
    "Densification, diameter, largest component, largest eigenvalue and clustering reported for a graph are those of their definitions, clustering within its sampling error.",
    ["inputs", "configurations"],
    "All directed graphs, connected or not, with loops, parallel edges and nodes of any names, all sizes up to the size of the graph, and all seeds.",
    "Tests pin the outcome for one connected graph and a few seeds; searches that do not end or that miss the size need graphs with separate parts.",
    [G + "snark/preprocess/sampler/forest_fire.py", G + "snark/preprocess/sampler/metric.py"],
    [("burning", "sampler/forest_fire.py ForestFire"), ("measures", "sampler/metric.py")],
    observe_at=["returned graph", "returned numbers"],
)
prop(
    "C32",
    "Uploaded results arrive complete",
    "Every text and line handed to the uploader is in exactly one file below the requested prefix once it is closed, exactly once, and nothing else is. "
    "Lines handed over together stay together and in order, no file has more pieces than allowed, and closing ends all workers.",
    ["schedules", "histories", "configurations"],
    "All histories of texts and lists of lines, numbers of processes and threads, sizes of queues, pieces and files, and delays of the store.",
    "There are no tests of the uploader; losses need particular sizes and orders of pieces and closing while workers are busy.",
    [G + "adl_uploader.py", G + "_adl_reader.py"],
    [("distribution over processes", "adl_uploader.py AdlDataWriter"), ("distribution over threads and files", "adl_uploader.py MultiThreadsAdlDataWriter")],
    observe_at=["files of the store after closing"],
)
prop(
    "C33",
    "Command lines mean what they say",
    "The converter started as a command writes the same partitions, metadata and sampler tables as a conversion in code with the options its arguments stand for, and merging of metadata as a command completes it. "
    "Arguments of a training job reach its options with the values given, flags accept usual spellings of true and false, arguments left out have their documented defaults, and lists written as text are read back as they were.",
    ["inputs", "configurations"],
    "All graphs in JSON and TSV, numbers of workers and partitions, spellings of flags, watermarks and sets of arguments.",
    "Tests call the classes directly; nothing runs the commands or passes text arguments through.",
    [G + "snark/convert.py", G + "snark/meta_merger.py", G + "utils.py", G + "backends/options.py", "src/python/deepgnn/arg_types.py"],
    [("arguments of the converter", "snark/convert.py main block"), ("arguments of jobs", "utils.py define_param_graph_engine, backends/options.py BackendOptions"), ("parsers of values", "arg_types.py")],
    observe_at=["files written by the commands", "options built from arguments"],
)
PT = "src/python/deepgnn/pytorch/"
TF = "src/python/deepgnn/tf/"
prop(
    "C34",
    "Interrupted training continues as if it had not been interrupted",
    "A training run ended at any point and started again with the same arguments continues from its newest checkpoint and applies every remaining batch of every epoch exactly once and in order, on all workers, so that the model in the end is that of a run without interruption. "
    "Checkpoints are written as often as asked, by the first worker only; when their number is limited the newest ones are kept, by epoch and step or by time as asked, and other files are left alone. "
    "Evaluation while training covers all its data and does not change the training.",
    ["crash_points", "histories", "configurations"],
    "All points of interruption (while a batch is read, right after a checkpoint is written), repeated interruptions, numbers of epochs and batches, intervals and numbers of checkpoints, limits of samples, orders of checkpoints, trainers and workers.",
    "The tests of trainers need torch, run one epoch of one batch without interruption and do not restart.",
    [PT + "training/trainer.py", PT + "training/trainer_ddp.py", PT + "training/trainer_hvd.py", PT + "training/trainer_fp16.py", PT + "common/utils.py", PT + "training/args.py"],
    [("steps, epochs and checkpoints", "training/trainer.py Trainer"), ("order and removal of checkpoints", "common/utils.py get_sorted_checkpoints, rotate_checkpoints"), ("state of other workers", "training/trainer_ddp.py, training/trainer_hvd.py")],
    observe_at=["batches the model is trained with", "checkpoint files", "model after training"],
)
prop(
    "C35",
    "Inference and evaluation cover all data once",
    "Inference of a list of nodes by any number of workers, each reading with any number of processes, writes the embedding of every node exactly once, and no more steps run than a limit of samples allows. "
    "Evaluation returns the metric over all predictions, or its mean over steps when asked per step, averaged over workers. "
    "Accuracy, F1 score, area under the curve and reciprocal rank follow their definitions.",
    ["inputs", "configurations"],
    "All lists of nodes in files or ranges or sampled by the graph, batch sizes, workers, reading processes, prefetching, limits, predictions and labels.",
    "The tests need torch and check shapes or one value for one batch in one process.",
    [PT + "common/dataset.py", PT + "common/metrics.py", PT + "modeling/base_model.py", PT + "training/factory.py", PT + "training/trainer.py", PT + "training/trainer_ddp.py"],
    [("reading in processes", "common/dataset.py TorchDeepGNNDataset"), ("writing of embeddings", "modeling/base_model.py output_embedding"), ("evaluation", "training/trainer.py _evaluate"), ("metrics", "common/metrics.py"), ("start of jobs", "training/factory.py run_dist")],
    observe_at=["files of embeddings", "returned metric"],
)
prop(
    "C36",
    "An encoder's result for a node depends on its own neighbourhood only",
    "Encoding a batch gives every node the result it has when encoded alone: convolution over sampled neighbors is the stated combination of its own features and the mean of its neighbors' features, one and two layers deep and with any number of neighbors per layer. "
    "The order of its neighbors does not matter where they are averaged or ranked. "
    "Attention over a dense and a sparse matrix agree, ignore nodes without a link, follow a permutation of the nodes, and averaged heads are the mean of concatenated ones.",
    ["inputs", "configurations"],
    "All graphs with features, batches (with repeated nodes and of a single node), numbers of layers, neighbors and dimensions, kinds of residual, adjacency matrices and numbers of heads.",
    "The tests need torch and pin the output of one batch for one seed.",
    [PT + "encoding/gnn_encoder_sage.py", PT + "encoding/gnn_encoder_lgcl.py", PT + "encoding/gnn_encoder_hetgnn.py", PT + "encoding/gnn_encoder_lightgcn.py", PT + "nn/gat_conv.py", PT + "common/aggregators.py"],
    [("queries and layers", "encoding/gnn_encoder_sage.py SageEncoder"), ("largest neighbors", "encoding/gnn_encoder_lgcl.py"), ("groups of neighbors", "encoding/gnn_encoder_hetgnn.py"), ("attention", "nn/gat_conv.py AttnHead, GATConv")],
    observe_at=["returned embeddings"],
)
prop(
    "C37",
    "Texts of nodes become their own tokens and embeddings",
    "The numbers of a text are those of the letter groups of its lower-case words in the vocabulary (zero when missing or beyond the allowed words and letters), the mask marks its words, and words are separated by spaces with other signs dropped. "
    "Texts in arrays of any shape and nesting, padded with zeros, cut at their width or tokenized before, keep their place, and other data of the context stays as it is. "
    "The embedding of a text is the weighted mean of the vectors of its own words, whatever else is in the batch and whichever encoder type it is encoded with; an encoder started with weights of a file uses them, also those of another model under its names.",
    ["inputs", "configurations"],
    "All vocabularies, texts, shapes and nestings of contexts, limits of words and letters, dimensions, encoder types and poolers.",
    "The tests need torch and files from the network, and compare one sentence.",
    [PT + "encoding/feature_encoder.py", PT + "encoding/twinbert/tokenization.py", PT + "encoding/twinbert/embedding.py", PT + "encoding/twinbert/pooler.py", PT + "encoding/twinbert/encoder.py"],
    [("letter groups", "encoding/twinbert/tokenization.py TriLetterTokenizer"), ("contexts", "encoding/feature_encoder.py TwinBERTFeatureEncoder"), ("encoder types", "encoding/feature_encoder.py MultiTypeFeatureEncoder"), ("mean over words", "encoding/twinbert/pooler.py")],
    observe_at=["transformed context", "returned embeddings"],
)
prop(
    "C38",
    "Learning rates follow the requested schedule",
    "During warmup the rate grows linearly from zero to the initial one; then it stays, falls linearly to zero, follows a cosine (once or with restarts) or falls as a polynomial to a final rate, and stays there after the last step. "
    "Every group of parameters is scaled alike, and the rate never leaves the range from zero to the initial rate. "
    "A training limited to a number of samples uses the linear schedule over all its steps and epochs with the given part of warmup; without a limit the rate is constant.",
    ["inputs", "configurations"],
    "All kinds of schedules, numbers of warmup and training steps (none, equal, fractional), parameters, groups, first steps; all limits, batch sizes, epochs and trainers.",
    "No test looks at learning rates.",
    [PT + "common/optimization.py", PT + "training/trainer.py"],
    [("schedules", "common/optimization.py"), ("steps of a training", "training/trainer.py _create_lr_scheduler, _train_one_step")],
    observe_at=["rates of the optimizer"],
)
prop(
    "C39",
    "Loss, predictions and labels of a model belong to the nodes of the batch",
    "For batches of any size, down to one node, a supervised model returns the mean cross entropy of its scores, the best class and the label of each node in order, and its metric over several batches is that of all nodes. "
    "Embeddings are written as one line per node, its id first, from which both can be read back. "
    "Positive nodes are neighbors of the given nodes over the given edges, negative ones drawn from the given types by weight.",
    ["inputs"],
    "All numbers of nodes, classes and batches, scores, labels, ids and embeddings, contexts with and without the dimension of the loader.",
    "No test runs these models; the batch of one node only appears at the end of an epoch.",
    [PT + "modeling/base_model.py", PT + "common/metrics.py"],
    [("loss and predictions", "modeling/base_model.py BaseSupervisedModel"), ("lines of embeddings", "modeling/base_model.py output_embedding"), ("examples", "modeling/base_model.py BaseUnsupervisedModel")],
    observe_at=["returned loss, predictions and labels", "written lines"],
)
prop(
    "C40",
    "TensorFlow layers compute each node from itself and its own links",
    "Normalized links follow the symmetric definition with the weights of links, and convolutions give the same result for sparse and dense links, for nodes in another order and for a node when only nodes it has no link to change. "
    "Aggregation of sampled neighbors combines every node with its own samples only, as if it was the only node of the batch, and attention gives weighted means of the nodes linked. "
    "Masked loss and accuracy are the means over the nodes of the mask.",
    ["inputs", "configurations"],
    "All graphs with weights and loops, features, dimensions, heads, layers, numbers of samples, kinds of aggregators with and without bias and concatenation, masks.",
    "The tests need TensorFlow and use symmetric graphs with one number of samples; sparse and dense links are never compared on weighted or directed graphs.",
    [TF + "nn/gcn_conv.py", TF + "nn/gat_conv.py", TF + "nn/sage_conv.py", TF + "nn/metrics.py", TF + "encoders/att_encoder.py", TF + "layers/attention_header.py"],
    [("normalization and convolution", "nn/gcn_conv.py"), ("attention", "nn/gat_conv.py, layers/attention_header.py"), ("aggregation of samples", "nn/sage_conv.py aggregate")],
    observe_at=["returned embeddings, loss and accuracy"],
)
prop(
    "C41",
    "TensorFlow workers get every node once and wait for each other",
    "A dataset over files of nodes hands out every node of the files of a worker once per round, with its own features, also without a graph. "
    "Embeddings written as lines can be loaded back by id, up to six digits after the point, leaving out padding. "
    "No worker passes a meeting point before all workers have reached it, also in a folder used by an earlier run, and all pass it then.",
    ["inputs", "schedules", "histories"],
    "All nodes, batch sizes, workers, rounds and files; tags, late workers and leftovers of earlier runs.",
    "Tests use one worker, whole batches and a fresh folder.",
    [TF + "common/dataset.py", TF + "common/utils.py", TF + "common/dist_sync.py", "src/python/deepgnn/graph_engine/graph_dataset.py"],
    [("dataset", "common/dataset.py create_tf_dataset"), ("embeddings", "common/utils.py node_embedding_to_string, load_embeddings"), ("meeting points", "common/dist_sync.py")],
    observe_at=["batches", "loaded embeddings", "order of workers at tags"],
)
