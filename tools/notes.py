"""Technique and assurance notes per property for MANIFEST.json."""
RT = "property-based testing (Hypothesis): "
LIM = " Explores generated cases up to the stated sizes, no proof of absence."
ENG = (
    "The C++ engine is compiled from the tree with stand-ins for grpc, glog and mimalloc: servers and clients exchange serialized messages inside one process. "
    "Graphs of up to ~8 nodes in 1-4 partitions." + LIM
)
TECH = {
    "C01": (RT + "round trip through an independent binary reader", "Generated graphs of up to ~12 nodes converted and read back by a reader written from the file format." + LIM),
    "C02": (RT + "reference model of each text format", "Records are written from a model and must decode to it." + LIM),
    "C03": (RT + "metadata recomputed from the binary files and the model", "Single conversions and merges of 1-12 workers which share the highest type." + LIM),
    "C04": (RT + "exact probabilities computed from table contents", "Probability mass of each element is computed exactly from the table, not sampled." + LIM),
    "C05": (RT + "round trip of times through an independent reader", "Generated temporal graphs." + LIM),
    "C06": (RT + "single generated defect in well-formed input must raise", "Defects of generated kinds at generated positions." + LIM),
    "C07": (RT + "differential between configurations and against the model", "Threads and processes; schedules are those the OS produces plus generated step and buffer sizes." + LIM),
    "C08": (RT + "lines of the model, fault injection in file reads", "In-memory file system with generated block sizes and read failures." + LIM),
    "C09": (RT + "exactly-once accounting over all readers", "Inputs up to a few dozen rows." + LIM),
    "C10": (RT + "exactly-once accounting, recording stand-in for the graph", "Inputs up to a few hundred lines." + LIM),
    "C11": (RT + "exactly-once accounting under generated delays and faults", "Schedules driven by generated delays; a stalled consumer is detected by absence of progress of all threads, not by a deadline." + LIM),
    "C12": (RT + "exactly-once accounting over workers and passes", "Recording stand-in for the graph." + LIM),
    "C13": (RT + "model graph as oracle", "Multigraphs of up to 10 nodes, up to 3 hops; the graph interface is a model." + LIM),
    "C14": (RT + "brute-force model as oracle", "Multigraphs of up to 10 nodes, paths of up to 8 nodes; the graph interface is a model." + LIM),
    "C15": (RT + "generated histories with invariants", "Real processes and files, up to 3 servers and 4 clients; polling interval shortened." + LIM),
    "C16": (RT + "consistency over all workers of generated clusters", "Engine objects replaced by recorders; discovery runs with one process per worker." + LIM),
    "C17": (RT + "model graph as oracle for the engine built from the sources", ENG),
    "C18": (RT + "model graph as oracle for the engine built from the sources", ENG),
    "C19": (RT + "definition of visibility at a moment as oracle, engine built from the sources", ENG),
    "C20": (RT + "membership against the model graph; averages over thousands of samples against exact expectations", ENG + " Frequencies are compared with a limit of six standard errors."),
    "C21": (RT + "membership against the model graph; averages over thousands of draws against exact expectations", ENG + " Frequencies are compared with a limit of six standard errors."),
    "C22": (RT + "edges of the model graph; enumeration of all short walks with exact probabilities", ENG + " Frequencies are compared with a limit of six standard errors."),
    "C23": (RT + "exact ranks from a linear system, error bound of the algorithm", ENG),
    "C24": (RT + "definition over the model graph as oracle", ENG),
    "C25": (RT + "generated histories of calls against the model graph", ENG),
    "C26": (RT + "generated failures; the answer without failures as oracle", ENG + " Failures are injected where requests are sent; waits of the retry policy are recorded instead of done."),
    "C27": (RT + "generated queries in generated threads; the answer of the same call alone as oracle", ENG + " Schedules are those the OS produces, 8 rounds per case started by a barrier, with generated delays of answers."),
    "C28": (RT + "differential between remote stores and a local folder", ENG + " Remote stores are stand-ins registered with the file system library; real cloud clients and streaming are not exercised."),
    "C29": (RT + "differential against servers of the same graph without what is left out", ENG),
    "C30": (RT + "raw files as the model of the dataset", ENG + " Raw files of 2-12 elements; downloads are not exercised."),
    "C31": (RT + "invariants of samples, definitions of measures", "Directed graphs of up to 70 nodes; endless searches are recognised by the number of random draws." + LIM),
    "C32": (RT + "exactly-once accounting over the files of a stand-in store", "Real processes and threads; schedules are those the OS produces plus generated delays; the cloud service is replaced by a folder." + LIM),
    "C33": (RT + "differential between commands and code, round trip of values", "Graphs of up to 5 nodes per worker, 1-3 workers one after another." + LIM),
    "C34": (RT + "generated interruptions; the run without interruption as oracle", "torch is replaced by a stand-in whose model is a number depending on all batches in order; up to 9 batches, 5 epochs and 4 interruptions, some runs of a thousand epochs." + LIM),
    "C35": (RT + "exactly-once accounting over files of embeddings, definitions of metrics", "torch is replaced by a stand-in; readers are real processes, workers run one after another." + LIM),
    "C36": (RT + "definitions per node, each node alone as oracle of the batch", "torch is replaced by a stand-in computing with numpy; up to 8 nodes, 3 layers, 4 neighbors per layer; gradients are not checked." + LIM),
    "C37": (RT + "definition of letter groups, each text alone as oracle of the batch", "torch and the language model are replaced by stand-ins; up to 8 texts, 5 words." + LIM),
    "C38": (RT + "definitions of the schedules", "torch is replaced by a stand-in; up to 36 steps per schedule, 45 per training." + LIM),
    "C39": (RT + "definition of the loss, round trip of lines", "torch is replaced by a stand-in; up to 6 nodes, 5 classes, 4 batches." + LIM),
    "C40": (RT + "definitions, sparse against dense links, each node alone as oracle of the batch", "TensorFlow is replaced by a stand-in computing with numpy; up to 6 nodes, 3 layers, 3 samples per layer; dropout and gradients are not checked." + LIM),
    "C41": (RT + "exactly-once accounting, round trip of lines, meeting of threads", "TensorFlow is replaced by a stand-in; up to 8 nodes, 4 workers; schedules are those the OS produces plus late workers." + LIM),
}
NA = {}
NOTES = "Every check is a Python program under checks/ using lib/vp.py; hypothesis comes from /opt/veriftools. tools/build.py regenerates this file and properties.jsonl."
