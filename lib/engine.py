"""The graph engine behind the Python clients: building it, laying graphs out in partitions, opening them.

The native library is compiled from the working tree with stand-ins for gRPC, glog and mimalloc
(see native/).  Servers and clients of a case live in this process; messages are serialised.
"""
import contextlib
import itertools
import json
import os
import struct
import sys

import vp
from vp import REPO, VERIF, st, sut

sys.path.insert(0, os.path.join(VERIF, "native"))
import build_native  # noqa: E402

import numpy as np  # noqa: E402
import graphio as gio  # noqa: E402

# a check may ask for a build of its own
LIB = build_native.build(REPO, flags=os.environ.get("VP_NATIVE_FLAGS", "").split())
os.environ["SNARK_LIB_PATH"] = LIB
os.environ.setdefault("VP_NATIVE_LOG", "/dev/null")

from deepgnn.graph_engine.snark import client as sclient  # noqa: E402
from deepgnn.graph_engine.snark import server as sserver  # noqa: E402

STORAGE = {"memory": sclient.PartitionStorageType.memory, "disk": sclient.PartitionStorageType.disk}
_ports = itertools.count(20000)


# ---------------------------------------------------------------- generated graphs
SPEC_DT = ["uint8", "int16", "int32", "uint64", "int64", "float16", "float32", "float64"]


@st.composite
def specs(draw, hi=4, kinds=("dense", "bin", "sparse")):
    """What kind of value every feature number holds."""
    out = []
    for _ in range(draw(st.integers(0, hi))):
        k = draw(st.sampled_from(list(kinds)))
        s = {"k": k}
        if k != "bin":
            s["dt"] = draw(st.sampled_from(SPEC_DT))
        if k == "sparse":
            s["dim"] = draw(st.integers(0, 3))
        out.append(s)
    return out


@st.composite
def value_of(draw, spec):
    if spec["k"] == "bin":
        return draw(gio.binary(lo=1))
    if spec["k"] == "dense":
        return draw(gio.dense((spec["dt"],)))
    n = draw(st.integers(1, 3))
    coord = st.one_of(st.integers(0, 9), st.integers(0, 2**62))
    if spec["dim"] == 0:
        c = draw(st.lists(coord, min_size=n, max_size=n))
    else:
        c = draw(st.lists(st.lists(coord, min_size=spec["dim"], max_size=spec["dim"]), min_size=n, max_size=n))
    return {"k": "sparse", "dt": spec["dt"], "c": c, "v": draw(gio.values(spec["dt"], n, n))}


@st.composite
def features_of(draw, specs_):
    fs = [draw(value_of(s)) if draw(st.integers(0, 3)) else None for s in specs_]
    while fs and fs[-1] is None:
        fs.pop()
    return fs


small_weights = st.integers(1, 16).map(lambda x: x / 4)


@st.composite
def graphs(
    draw,
    node_specs=(),
    edge_specs=(),
    max_nodes=7,
    max_edges=6,
    min_nodes=1,
    node_types=3,
    edge_types=3,
    weight=small_weights,
    multi=False,
    big_ids=True,
    dangling=True,
):
    idst = st.one_of(st.integers(0, 30), st.integers(0, 30), st.integers(0, 2**63 - 1)) if big_ids else st.integers(0, 30)
    ids = draw(st.lists(idst, min_size=min_nodes, max_size=max_nodes, unique=True))
    nodes = []
    for i in ids:
        edges, seen = [], set()
        for _ in range(draw(st.integers(0, max_edges))):
            dst = draw(st.one_of(st.sampled_from(ids), st.sampled_from(ids), idst) if dangling else st.sampled_from(ids))
            tp = draw(st.integers(0, edge_types - 1))
            if not multi and (dst, tp) in seen:
                continue
            seen.add((dst, tp))
            edges.append({"dst": dst, "type": tp, "weight": draw(weight), "features": draw(features_of(edge_specs))})
        nodes.append(
            {
                "id": i,
                "type": draw(st.integers(0, node_types - 1)),
                "weight": draw(weight),
                "features": draw(features_of(node_specs)),
                "edges": edges,
            }
        )
    if draw(st.integers(0, 5)) == 0:
        # a node with many neighbors over one type of edges
        n = draw(st.sampled_from(nodes))
        tp = draw(st.integers(0, edge_types - 1))
        n["edges"] = [e for e in n["edges"] if e["type"] != tp]
        pool = st.integers(0, 60) if dangling else st.sampled_from(ids)
        for dst in draw(st.lists(pool, min_size=min(17, len(ids)) if not dangling else 17, max_size=24, unique=True)):
            n["edges"].append({"dst": dst, "type": tp, "weight": draw(weight), "features": draw(features_of(edge_specs))})
    return {"nodes": nodes}


# a list of nodes or edges asked for over and over, additional edges of the busiest node
wides = st.sampled_from([1, 1, 1, 1, 1, 1, 40, 200])
crowds = st.sampled_from([0] * 12 + [70, 300, 1100])


def crowd(case):
    """Graph and layout with many more edges, like its others, for the busiest node."""
    g, lay, k = case["graph"], case["layout"], case.get("crowd", 0)
    i = max(range(len(g["nodes"])), key=lambda i: len(g["nodes"][i]["edges"]))
    old = g["nodes"][i]["edges"]
    if not k or not old:
        return g, lay
    have = {(e["dst"], e["type"]) for e in old}
    at = [j for j in range(k) if (2000 + j * 7919 % 5003, old[j % len(old)]["type"]) not in have]
    nodes, lay = list(g["nodes"]), dict(lay)
    nodes[i] = dict(nodes[i], edges=old + [dict(old[j % len(old)], dst=2000 + j * 7919 % 5003) for j in at])
    if "edges" in lay:
        lay["edges"] = list(lay["edges"])
        lay["edges"][i] = lay["edges"][i] + [lay["edges"][i][j % len(old)] for j in at]
    return {"nodes": nodes}, lay


def scaled(case):
    """The case with a larger graph and longer queries."""
    g, lay = crowd(case)
    w = case.get("wide", 1)
    if w * case.get("crowd", 0) > 10**4:
        w = 1

    def longer(q):
        return {k: v * w if k in ("nodes", "moments", "edges") and v else v for k, v in q.items()}

    out = longer(dict(case, graph=g, layout=lay))
    if "queries" in out:
        out["queries"] = [longer(q) for q in out["queries"]]
    return out


@st.composite
def near(draw, edges):
    """One part of a stored edge changed."""
    src, dst, tp = draw(st.sampled_from(edges))
    part = draw(st.integers(0, 4))
    if part == 0:
        return draw(st.sampled_from(edges))[0], dst, tp
    if part == 1:
        return src, dst, draw(st.integers(0, 3))
    return src, max(0, dst + draw(st.sampled_from([-2, -1, 1]))), tp


@st.composite
def layouts(draw, graph, max_parts=4, allow_convert=True, values=False):
    """Where nodes and edges are stored; "convert" leaves that to the converter.  With values, features
    of a node can be stored apart from each other, and dated ones apart from their older values."""
    parts = draw(st.integers(1, max_parts))
    how = draw(st.sampled_from(["convert", "whole", "split"] if allow_convert else ["whole", "split"]))
    lay = {"how": how, "parts": parts}
    if how != "convert":
        p = st.integers(0, parts - 1)
        lay["nodes"] = [draw(p) for _ in graph["nodes"]]
        if how == "split":
            lay["edges"] = [[draw(p) for _ in n["edges"]] for n in graph["nodes"]]
            if values and draw(st.booleans()):
                lay["values"] = [
                    [f and [draw(p) for _ in (f["v"] if f["k"] == "dated" else [0])] for f in n["features"]] for n in graph["nodes"]
                ]
        # a partition can consist of several files, partitions can be in folders of their own
        if draw(st.integers(0, 3)) == 0:
            lay["files"] = draw(st.integers(2, 3))
        if draw(st.integers(0, 3)) == 0:
            lay["apart"] = True
    return lay


@st.composite
def backends(draw, parts, kinds=("memory", "disk", "remote")):
    k = draw(st.sampled_from(list(kinds)))
    b = {"kind": k}
    if k == "remote":
        b["shards"] = draw(st.integers(1, min(3, parts)))
        b["storage"] = draw(st.sampled_from(["memory", "disk"]))
        b["threads"] = draw(st.integers(1, 2))
    return b


# ----------------------------------------------------------------- writing a layout
def _values_in(features, places, p):
    """Features of a node, or their dated values, that are kept in partition p."""
    out = []
    for f, at in zip(features, places):
        if f is not None and f["k"] == "dated":
            vs = [v for v, q in zip(f["v"], at) if q == p]
            f = dict(f, v=vs) if vs else None
        elif f is not None and at[0] != p:
            f = None
        out.append(f)
    while out and out[-1] is None:
        out.pop()
    return out


def _rows(graph, lay):
    """Rows of every partition: a node row, or an edge-only row (type -1) for edges stored elsewhere."""
    parts = [[] for _ in range(lay["parts"])]
    for i, n in enumerate(graph["nodes"]):
        home = lay["nodes"][i]
        by = {home: []}
        for j, e in enumerate(n["edges"]):
            p = lay["edges"][i][j] if "edges" in lay else home
            by.setdefault(p, []).append(e)
        values = lay["values"][i] if "values" in lay else None
        for p in sorted({q for f in values or () for q in f or ()}):
            by.setdefault(p, [])
        for p, es in by.items():
            parts[p].append(
                {
                    "id": n["id"],
                    "type": n["type"] if p == home else -1,
                    "weight": n["weight"],
                    "features": _values_in(n["features"], values, p) if values is not None else n["features"] if p == home else [],
                    "edges": es,
                }
            )
    return parts


def _order(e):
    rm = e.get("removed_at", -1)
    return (e["type"], e.get("created_at", 0), float("inf") if rm == -1 else rm, e["dst"])


def vose(weights):
    """Rows (i, alias, probability of i) of an alias table."""
    n = len(weights)
    total = float(sum(weights))
    if n == 0:
        return []
    if total == 0:
        weights, total = [1.0] * n, n
    p = [w * n / total for w in weights]
    small = [i for i, x in enumerate(p) if x < 1]
    large = [i for i, x in enumerate(p) if x >= 1]
    out = [None] * n
    while small and large:
        s, g = small.pop(), large.pop()
        out[s] = (s, g, p[s])
        p[g] -= 1 - p[s]
        (small if p[g] < 1 else large).append(g)
    for i in small + large:
        out[i] = (i, i, 1.0)
    return out


def _row_files(rows, p, suffix, watermark):
    """Files with a part of rows of a partition."""
    nm, ni, nfi, nfd = b"", b"", b"", b""
    nbi, ei, efi, efd, ts = b"", b"", b"", b"", struct.pack("=q", watermark)
    ecount = 0
    for i, r in enumerate(rows):
        nm += struct.pack("=QQi", r["id"], i, r["type"])
        ni += struct.pack("=Q", len(nfi) // 8)
        for f in r["features"]:
            nfi += struct.pack("=Q", len(nfd))
            nfd += gio.feature_bytes(f)
        nbi += struct.pack("=Q", ecount)
        for e in sorted(r["edges"], key=_order):
            ei += struct.pack("=qQif", e["dst"], len(efi) // 8, e["type"], e["weight"])
            for f in e["features"]:
                efi += struct.pack("=Q", len(efd))
                efd += gio.feature_bytes(f)
            ts += struct.pack("=qq", e.get("created_at", 0), e.get("removed_at", -1))
            ecount += 1
    ni += struct.pack("=Q", len(nfi) // 8)
    nfi += struct.pack("=Q", len(nfd))
    nbi += struct.pack("=Q", ecount)
    ei += struct.pack("=qQif", -1, len(efi) // 8, -1, -1.0)
    efi += struct.pack("=Q", len(efd))
    files = {
        f"node_{p}_{suffix}.map": nm,
        f"node_{p}_{suffix}.index": ni,
        f"node_features_{p}_{suffix}.index": nfi,
        f"node_features_{p}_{suffix}.data": nfd,
        f"neighbors_{p}_{suffix}.index": nbi,
        f"edge_{p}_{suffix}.index": ei,
        f"edge_features_{p}_{suffix}.index": efi,
        f"edge_features_{p}_{suffix}.data": efd,
    }
    if watermark >= 0:
        files[f"edge_{p}_{suffix}.timestamp"] = ts
    return files


def write_layout(graph, lay, folder, watermark=-1):
    """Write the documented binary form directly."""
    os.makedirs(folder, exist_ok=True)
    parts = _rows(graph, lay)
    nt = 1 + max([0] + [n["type"] for n in graph["nodes"]])
    et = 1 + max([0] + [e["type"] for n in graph["nodes"] for e in n["edges"]])
    nfc = max([0] + [len(n["features"]) for n in graph["nodes"]])
    efc = max([0] + [len(e["features"]) for n in graph["nodes"] for e in n["edges"]])
    meta = {
        "binary_data_version": "v2",
        "node_count": len(graph["nodes"]),
        "edge_count": sum(len(n["edges"]) for n in graph["nodes"]),
        "node_type_count": nt,
        "edge_type_count": et,
        "node_feature_count": nfc,
        "edge_feature_count": efc,
        "watermark": watermark,
        "partitions": {},
        "node_count_per_type": [sum(n["type"] == t for n in graph["nodes"]) for t in range(nt)],
        "edge_count_per_type": [sum(e["type"] == t for n in graph["nodes"] for e in n["edges"]) for t in range(et)],
    }
    for p, rows in enumerate(parts):
        home = os.path.join(folder, f"p{p}") if lay.get("apart") else folder
        os.makedirs(home, exist_ok=True)
        k = lay.get("files", 1)
        files = {}
        for i in range(k):
            files.update(_row_files(rows[i::k], p, i, watermark))
        nodes = [r for r in rows if r["type"] >= 0]
        edges = [(r["id"], e) for r in rows for e in r["edges"]]
        for t in range(nt):
            el = [r for r in nodes if r["type"] == t]
            files[f"node_{t}_{p}.alias"] = b"".join(
                struct.pack("=qqf", el[a]["id"], el[b]["id"], q) for a, b, q in vose([r["weight"] for r in el])
            )
        for t in range(et):
            el = [x for x in edges if x[1]["type"] == t]
            files[f"edge_{t}_{p}.alias"] = b"".join(
                struct.pack("=qqqqf", el[a][0], el[a][1]["dst"], el[b][0], el[b][1]["dst"], q)
                for a, b, q in vose([x[1]["weight"] for x in el])
            )
        for name, b in files.items():
            with open(os.path.join(home, name), "wb") as f:
                f.write(b)
        meta["partitions"][str(p)] = {
            "node_weight": [float(sum(r["weight"] for r in nodes if r["type"] == t)) for t in range(nt)],
            "edge_weight": [float(sum(e["weight"] for _, e in edges if e["type"] == t)) for t in range(et)],
        }
    with open(os.path.join(folder, "meta.json"), "w") as f:
        json.dump(meta, f)
    return folder


def store(graph, lay, folder, watermark=-1):
    """Write the graph below folder, return the path of its binary form."""
    out = os.path.join(folder, "bin")
    if lay["how"] != "convert":
        return write_layout(graph, lay, out, watermark)
    import conv

    src = os.path.join(folder, "src")
    conv.write_files(graph, "json", src, 1)
    conv.convert(
        os.path.join(src, "graph_00.txt"),
        out,
        conv.decoder_for("json", temporal=watermark >= 0),
        partitions=lay["parts"],
        watermark=None if watermark < 0 else watermark,
    )
    return out


# -------------------------------------------------------------------------- opening
def places(folder, parts):
    """Partitions with folders they are in."""
    own = [os.path.join(folder, f"p{p}") for p in parts]
    return [(x if os.path.isdir(x) else folder, p) for x, p in zip(own, parts)]


def opened(folder, parts, backend, grpc_options=None, **server_kw):
    """A client over partitions `parts` of the folder."""
    parts = list(range(parts)) if isinstance(parts, int) else list(parts)
    return opened_at(folder, places(folder, parts), backend, grpc_options, **server_kw)


@contextlib.contextmanager
def opened_at(meta, parts, backend, grpc_options=None, **server_kw):
    """A client over partitions, numbers or pairs of folder and number."""
    if backend["kind"] in STORAGE:
        with sut("loading the graph"):
            g = sclient.MemoryGraph(meta, parts, STORAGE[backend["kind"]])
        try:
            yield g
        finally:
            g.reset()
        return
    servers, hosts = [], []
    g = None
    try:
        k = backend["shards"]
        for i in range(k):
            host = f"localhost:{next(_ports)}"
            with sut("starting a server"):
                servers.append(sserver.Server(meta, parts[i::k], host, storage_type=STORAGE[backend["storage"]], **server_kw))
            hosts.append(host)
        with sut("connecting to servers"):
            g = sclient.DistributedGraph(hosts, num_threads=backend["threads"], grpc_options=grpc_options)
        yield g
    finally:
        if g is not None:
            g.reset()
        for s in servers:
            s.reset()


# ---------------------------------------------------------------------------- model
class Model:
    """What the graph says, by id."""

    def __init__(self, graph):
        self.nodes = {n["id"]: n for n in graph["nodes"]}
        self.edges = {}
        for n in graph["nodes"]:
            for e in n["edges"]:
                self.edges[(n["id"], e["dst"], e["type"])] = e

    def node_feature(self, nid, fid):
        n = self.nodes.get(nid)
        fs = n["features"] if n else []
        return fs[fid] if fid < len(fs) else None

    def edge_feature(self, key, fid):
        e = self.edges.get(tuple(key))
        fs = e["features"] if e else []
        return fs[fid] if fid < len(fs) else None

    def out(self, nid, types, ts=None):
        n = self.nodes.get(nid)
        types = set(types)
        res = []
        for e in n["edges"] if n else []:
            if e["type"] not in types:
                continue
            if ts is not None and not visible(e, ts):
                continue
            res.append(e)
        return res


def visible(e, ts):
    rm = e.get("removed_at", -1)
    return e.get("created_at", 0) <= ts and (rm == -1 or rm > ts)


def fit(b, size):
    return b[:size] + b"\0" * (size - len(b))
