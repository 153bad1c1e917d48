"""C03: graph metadata states exactly what the binary files contain."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require

vp.silence_logging()
import conv
import graphio as gio

c = Check(
    "C03",
    "a case is a generated graph converted with 1-12 workers and 1-13 partitions, worker metadata merged in the "
    "documented way; every number of the metadata (totals, per-type counts, type and feature counts, weight of each "
    "partition per type, watermark) is compared with the decoded binary files and with the generated graph. "
    "Non-trivial: more than one partition, or an edge; distinct by graph and layout.",
    ["when metadata of several workers is merged, every worker saw the same highest type and feature ids (documented)"],
)


@st.composite
def cases(draw, multi):
    fmt = draw(st.sampled_from(["json", "tsv", "edgelist"]))
    if multi:
        workers = draw(st.sampled_from([2, 3, 4, 12]))
        per = draw(st.integers(1, 3)) if workers < 12 else 1
    else:
        workers, per = 1, draw(st.integers(1, 4))
    g = draw(conv.graphs_for(fmt, max_nodes=6, max_edges=4, hi_features=2))
    return {
        "fmt": fmt,
        "graph": g,
        "workers": workers,
        "partitions": workers * per,
        "watermark": draw(st.sampled_from([None, None, 0, 17, 2**40])),
        "rot": draw(st.integers(0, 3)),
    }


def equalise(case):
    """Give every partition of every worker an anchor node with the top type and feature ids."""
    g, w, p = case["graph"], case["workers"], case["partitions"]
    if w == 1:
        return [g["nodes"]]
    per = p // w
    nodes = g["nodes"]
    nt = max(n["type"] for n in nodes)
    et = max([e["type"] for n in nodes for e in n["edges"]] + [0])
    nf = max(len(n["features"]) for n in nodes)
    ef = max([len(e["features"]) for n in nodes for e in n["edges"]] + [0])
    one = {"k": "dense", "dt": "int32", "v": [1]}
    used = {n["id"] for n in nodes}
    nxt = 100
    files = []
    for i in range(w):
        chunk = []
        # edge lists put one line per partition in turn: 2 lines per anchor node
        for _ in range(2 * per if case["fmt"] == "edgelist" else per):
            while nxt in used:
                nxt += 1
            used.add(nxt)
            chunk.append(
                {
                    "id": nxt, "type": nt, "weight": 0.25 * (i + 1), "features": [one] * nf,
                    "edges": [{"dst": nxt, "type": et, "weight": 0.5 + i, "features": [one] * ef}],
                }
            )
        files.append(chunk + nodes[i::w])
    return files


def body(case, d):
    w, p = case["workers"], case["partitions"]
    files = equalise(case)
    src, out = os.path.join(d, "in"), os.path.join(d, "out")
    os.makedirs(src)
    for i, chunk in enumerate(files):
        with open(os.path.join(src, f"part_{i:03d}.txt"), "w", encoding="utf-8") as f:
            for n in chunk:
                for line in conv.lines_for(case["fmt"], n):
                    f.write(line + "\n")
    order = [(i + case["rot"]) % w for i in range(w)]
    conv.convert(src, out, conv.decoder_for(case["fmt"]), p, w, order=order, watermark=case["watermark"])
    with sut("reading metadata"):
        m = conv.read_meta(out)
        from deepgnn.graph_engine.snark.meta import Meta

        api = Meta(out)
    g = {"nodes": [n for f in files for n in f]}
    nodes, edges = conv.check_meta(m, g, conv.read_parts(out, p), case["watermark"])
    nt = max(n["type"] for n in nodes) + 1
    et = max([e["type"] for e in edges] + [-1]) + 1
    with sut("reading metadata"):
        _ = (api.node_count, api.edge_count, api.node_type_count, api.edge_type_count, api.partition_count)
        _ = (list(api.node_count_per_type), list(api.edge_count_per_type))
    equal(
        (api.node_count, api.edge_count, api.node_type_count, api.edge_type_count, api.partition_count),
        (len(nodes), len(edges), nt, et, p),
        "metadata seen by clients",
    )
    equal(list(api.node_count_per_type), list(m["node_count_per_type"]), "nodes per type seen by clients")
    equal(list(api.edge_count_per_type), list(m["edge_count_per_type"]), "edges per type seen by clients")
    totals = getattr(api, "_node_weights", None)
    if totals is not None:
        equal([float(x) for x in totals], [sum(n["weight"] for n in nodes if n["type"] == t) for t in range(nt)], "total node weight")
    if p > 1 or edges:
        c.note(case)


c.campaign("single", cases(False), body, 150, 2500)
c.campaign("merged", cases(True), body, 130, 2000)

if __name__ == "__main__":
    c.main()
