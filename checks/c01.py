"""C01: converting a graph to the binary form keeps every node, edge, weight, type and feature."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st

vp.silence_logging()
import conv
import graphio as gio

c = Check(
    "C01",
    "a case is a generated graph (up to 8 nodes, heterogeneous types, dense/sparse/binary features of every "
    "dtype, u63 ids) written as JSON lines, TSV or edge list over 1-4 files and converted with 1-4 workers, "
    "1-5 partitions, 1-4 reader threads; the binary files are decoded by an independent reader and compared "
    "with the generated graph. Non-trivial: at least one edge and one stored feature; distinct by graph and layout.",
    ["local filesystem; the workers of a distributed conversion run one after another"],
)


@st.composite
def cases(draw, fmt):
    workers = draw(st.sampled_from([1, 1, 2, 3]))
    g = draw(conv.graphs_for(fmt, max_nodes=8, max_edges=5, min_nodes=1 if workers == 1 else 2))
    return {
        "fmt": fmt,
        "graph": g,
        "workers": workers,
        "partitions": draw(st.integers(1, 5)),
        "files": draw(st.integers(workers, 4)),
        "threads": draw(st.integers(1, 4)),
        "trailing": draw(st.booleans()),
        "record_per_step": draw(st.sampled_from([1, 2, 512])),
    }


def body(case, d):
    g, w = case["graph"], case["workers"]
    # an empty input file is allowed, but every worker needs at least one file
    src = os.path.join(d, "in")
    conv.write_files(g, case["fmt"], src, case["files"], trailing=case["trailing"])
    out = os.path.join(d, "out")
    parts_n = max(case["partitions"], w)
    # the number of partitions must be spread evenly for every worker to own one
    per = -(-parts_n // w)
    parts_n = per * (w - 1) + max(1, min(per, parts_n - per * (w - 1)))
    conv.convert(
        src, out, conv.decoder_for(case["fmt"]), parts_n, w,
        merge=False, threads=case["threads"], record_per_step=case["record_per_step"],
    )
    parts = conv.read_parts(out, parts_n)
    nodes = gio.actual_nodes(parts)
    want = gio.expected_nodes(g)
    gio.diff_list(sorted(nodes), sorted(want), "node ids")
    for k in want:
        vp.equal(nodes[k][0], want[k][0], f"type of node {k}")
        vp.equal(nodes[k][1], want[k][1], f"features of node {k}")
    gio.diff_list(gio.actual_edges(parts), gio.expected_edges(g), "edges")
    if any(n["edges"] for n in g["nodes"]) and any(
        any(f for f in n["features"]) or any(f for e in n["edges"] for f in e["features"]) for n in g["nodes"]
    ):
        c.note(case)


c.campaign("json", cases("json"), body, 220, 3000)
c.campaign("tsv", cases("tsv"), body, 160, 2000)
c.campaign("edgelist", cases("edgelist"), body, 220, 3000)

if __name__ == "__main__":
    c.main()
