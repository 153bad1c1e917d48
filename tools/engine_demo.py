"""Build the engine from the current folder, make graphs and open them (part of demonstrations of planted bugs)."""
import atexit
import itertools
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import build_native

_tmp = tempfile.TemporaryDirectory()
atexit.register(_tmp.cleanup)
os.environ["SNARK_LIB_PATH"] = build_native.build(os.getcwd(), os.path.join(_tmp.name, "build"))
from deepgnn.graph_engine.snark import client, server
from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
from deepgnn.graph_engine.snark.decoders import JsonDecoder

_n = itertools.count()


def node(id, edges=(), type=0, weight=1.0, **kw):
    """edges: (dst, type, weight) or (dst, type, weight, options)"""
    return {
        "node_id": id, "node_type": type, "node_weight": weight, **kw,
        "edge": [{"src_id": id, "dst_id": e[0], "edge_type": e[1], "weight": e[2], **(e[3] if len(e) > 3 else {})} for e in edges],
    }


def graph(nodes, partitions=1, watermark=None):
    """Convert nodes, return the folder with binary files."""
    d = os.path.join(_tmp.name, f"g{next(_n)}")
    os.makedirs(d)
    src = os.path.join(d, "graph.json")
    with open(src, "w") as f:
        f.write("".join(json.dumps(n) + "\n" for n in nodes))
    out = os.path.join(d, "bin")
    os.makedirs(out)
    MultiWorkersConverter(graph_path=src, partition_count=partitions, output_dir=out, decoder=JsonDecoder(), watermark=watermark, thread_count=1).convert()
    return out


def local(folder, partitions=1):
    return client.MemoryGraph(folder, list(range(partitions)))


def remote(folder, partitions=2, **kw):
    """A client of one server per partition."""
    hosts = [f"localhost:{10000 + next(_n)}" for _ in range(partitions)]
    servers = [server.Server(folder, [(folder, p)], h) for p, h in enumerate(hosts)]
    return client.DistributedGraph(hosts, **kw), servers
