import subprocess
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h|%s","9c2fb0e..HEAD"],capture_output=True,text=True).stdout.strip().splitlines()
m={
"accept the number of partitions":("C30","the command of the cora dataset failed when given a number of partitions"),
"load every partition of citation":("C30","citation datasets built in several partitions were opened without most of them"),
"estimate clustering of any graph":("C31","estimating the clustering of a graph whose nodes are not 0..n-1 failed or took other nodes"),
"reduce graphs to the requested number":("C31","reduced graphs had one node more than requested or the search never ended"),
"upload texts after an empty one":("C32","after an empty text a worker ended and later texts were lost"),
"read False as false":("C33","the converter command took False for true and skipped sampler tables"),
"keep weights of partitions separate":("C03","merged metadata added the weights of all partitions of a worker together"),
"merge metadata files in the order":("C03","with ten or more workers the merged metadata numbered partitions in the alphabetical order of files, weights ended up at the wrong partition"),
"let QueueDispatcher finish":("C07","a conversion on threads never returned"),
"split text files into lines":("C08","lines with characters such as U+2028 or \\x0b were split into several"),
"report errors of text file readers":("C08","a failed read ended the data silently"),
"keep input queues of QueueDispatcher":("C07","records written to a queue were lost when the producer closed it before workers had read them"),
"don't replace ids of the last batch":("C09","the last batch of a range lost ids to padding"),
"give workers disjoint parts":("C09","range samplers with data parallel readers handed out ids several times and missed others"),
"respect drop_last in FileEdgeSampler":("C09","drop_last was ignored for edges with features"),
"make CSVNodeSampler iterable":("C09","only the first epoch returned data"),
"don't return a batch of padding from TextFileSampler":("C10","a sampler without data returned one batch of padding"),
"don't block on a finished prefetch":("C11","calling next() again on a finished generator of an empty sampler never returned"),
"raise query errors placed after":("C11","an error of one of the last queries was returned as a result"),
"use the right window size":("C14","skip-grams with different left and right windows used the wrong one"),
"read number of partitions from json":("C16","starting a backend without an explicit number of servers failed to read the metadata"),
"order discovered servers":("C16","workers used different orders of discovered servers, a server was started at the address of another one"),
"don't reorder worker hosts":("C16","creating a backend sorted the list of worker hosts in place, ranks and addresses changed"),
"allow to close a client that failed":("C15","closing a client that had not connected raised an error and left servers waiting"),
"create client before server when discovering":("C16","a slow worker failed to start because others had already removed their addresses"),
"do not read missing offsets":("C17","looking up variable-length features of edges read past an empty table"),
"keep partition lists intact":("C17","a server that loaded a node from several partitions corrupted its partition lists"),
"find edges of every requested type":("C18","edges were missed when a node had no edges of a smaller requested type"),
"allow empty features at the end":("C17","an empty feature at the end of a file failed to be read from disk"),
"read features into memory in builds":("C17","features in memory were never read in builds without assertions"),
"count and sample edges visible":("C19","degrees at a moment counted removed edges and missed visible ones, times were cut to 32 bits"),
"do not take values of the next feature":("C19","a missing feature queried at a moment returned the value of the following feature"),
"use creation time of a node or an edge":("C19","a feature value without creation time failed the conversion instead of starting with its owner"),
"support dated values of binary":("C19","dated binary and sparse features from the documentation failed the conversion"),
"do not write past the output when sampling without":("C20","sampling without replacement at a moment wrote past its output when more edges were visible than requested"),
"sample without replacement from the right edges":("C20","sampling without replacement at a moment returned edges that did not exist yet or any more"),
"remember the number of merged neighbors":("C20","samples without replacement merged from three servers were biased and read past a buffer"),
"pick every subset of neighbors":("C20","samples without replacement merged from servers never contained some subsets"),
"keep zero removal times":("C05","nodes and edges removed at time 0 were stored as never removed"),
"sample nodes and edges when last servers have no elements":("C21","sampling from a graph whose last servers have no elements of requested types crashed or drew missing elements"),
"do not ask servers for more elements than they have":("C21","sampling without replacement from several servers returned elements twice or left entries unfilled"),
"do not draw more elements of a type or partition than requested":("C21","sampling without replacement wrote past the end of the result"),
"make steps of random walks only along existing edges":("C22","random walks returned to the previous node without an edge to it, with the weight of another edge, and never took a self loop as the first step"),
"look up neighbor counts at the right times":("C23","ranks at moments read and wrote past buffers and used degrees of other moments"),
"allow to pickle distributed clients":("C25","a client of servers could not be sent to another process"),
"load requested partitions in local client":("C25","a local client ignored the requested partitions"),
"keep edge samplers of different strategies apart":("C25","edges were drawn by the strategy of an earlier call"),
"use default edge type when sampling neighbors by weight":("C25","neighbors sampled by weight ignored the default edge type"),
"report failures of servers when selecting":("C26","a failed request for last created neighbors terminated the process"),
"wait for all servers before reporting":("C26","after a failed request answers of other servers were written into freed memory"),
"limit delays between attempts":("C26","waits between attempts were limited by the number of attempts instead of the largest backoff"),
"report failures of servers during random walks":("C26","random walks ended early without an error when a request failed"),
"report failures of servers when ranking neighbors":("C26","ranks were computed from partial answers when a request failed, without an error and retries"),
"reject requests to samplers unknown":("C26","a request to a sampler from before a restart crashed the server"),
"order checkpoints by modification time":("C34","the trainer ignored the option to order checkpoints by time, so that it continued from another run's checkpoint"),
"order checkpoints by epoch and step":("C34","checkpoints were ordered as text: from epoch 1000 on the newest one was deleted or not continued from"),
"evaluate all data during training":("C34","evaluation at the last step of a limited epoch stopped after one batch"),
"F1 score of a single sample":("C35","F1 score of one sample raised an error"),
"different numbers of neighbors per layer":("C36","two layers with different numbers of neighbors mixed features of nodes or failed"),
"keep dimensions of size one in lgcl":("C36","a batch of one node, or one dimension, lost dimensions and failed"),
"features of the same hop in residual":("C36","neighbors got the features of the batch added instead of their own, or failed"),
"extract tokens of neighbors":("C37","numbers of tokens made before were split along the wrong dimension for neighbors, which failed"),
"encode texts cut inside":("C37","a text cut inside of a character by the feature dimension raised an error"),
"report output dimension of multi type":("C37","encoders of several types reported dimension 0 without downscaling"),
"return term tensors of texts in nested":("C37","vectors of terms were missing for texts in nested contexts"),
"end polynomial decay":("C38","polynomial decay divided by zero when all steps are warmup"),
"compute loss of a batch with a single":("C39","a batch of one node, or one class, raised an error"),
"keep weights of edges when normalizing":("C40","normalizing sparse links left out their weights"),
"create bias of sage aggregators":("C40","aggregators with a bias raised an error"),
"iterate datasets of files without":("C41","a dataset without a graph raised an error"),
"keep order of variable-length features":("C17","variable-length features of a node stored in several partitions were returned in another order than asked"),
"use own timestamps of variable-length":("C19","variable-length features of a server were ranked by times of other nodes"),
"drop all coordinates of a sparse feature":("C19","a sparse feature replaced by a newer value of another partition kept some of its coordinates"),
"pick the latest values of sparse features":("C19","sparse features stored on several servers were not the latest ones"),
"look for dense features missing in one":("C17","features of a node were zeros when a partition with other features of the node came first"),
"load partitions consisting of several files":("C17","a partition of several files was loaded with overlapping or misplaced offsets"),
"read samplers of edges from the folder":("C21","edges of partitions in folders of their own could not be sampled"),
"let threads create samplers":("C27","creating a sampler crashed queries of other threads"),
"skip edges removed at the requested time":("C24","last created neighbors contained edges removed at the requested moment"),
"accept TSV neighbors without":("C02","a TSV record with a neighbor that has no type could not be decoded"),
"draw the same elements from the same seed":("C21","uniform samplers drew other elements from the same seed whenever the graph was loaded again"),
"download timestamps":("C28","loading a temporal graph from remote storage ended the process"),
"load partitions from different locations":("C28","partitions in remote storage next to local metadata, or in several storages, could not be loaded"),
}
out=[]
for l in log:
    h,s=l.split("|",1)
    if not s.startswith("fix:"): continue
    for k,(p,w) in m.items():
        if k in s: out.append(f"fixed: property={p} {h} {w}"); break
    else: print("??",l)
old=[]
import os
f="/verif/known_findings.jsonl"
if os.path.exists(f): old=[x for x in open(f).read().splitlines() if x.startswith("{")]
open(f,"w").write("\n".join(old+out)+"\n")
