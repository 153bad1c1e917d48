"""C18: neighbor lists and degrees through the engine's clients are those of the graph."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import engine as en

c = Check(
    "C18",
    "a case is a generated graph (repeated edges allowed), a placement of its nodes and edges in 1-4 partitions, a "
    "backend (memory, disk, 1-3 servers), a list of existing, repeated and unknown nodes and sets of edge types in any "
    "order, with repeats and unknown types; neighbor lists, weights, types, degrees and graph totals are compared with "
    "the generated graph. Non-trivial: some requested node has a neighbor over a requested type.",
    native=True,
)


@st.composite
def cases(draw):
    g = draw(en.graphs(max_nodes=8, max_edges=8, edge_types=4, multi=True))
    lay = draw(en.layouts(g))
    ids = [n["id"] for n in g["nodes"]]
    anyid = st.one_of(st.sampled_from(ids), st.sampled_from(ids), st.sampled_from(ids), st.integers(0, 40))
    types = st.lists(st.integers(0, 5), min_size=1, max_size=5)
    return {
        "graph": g,
        "layout": lay,
        "backend": draw(en.backends(lay["parts"])),
        "queries": draw(
            st.lists(
                st.fixed_dictionaries({"nodes": st.lists(anyid, min_size=1, max_size=8), "types": types, "one": st.booleans()}),
                min_size=1,
                max_size=3,
            )
        ),
        "totals": draw(st.lists(st.integers(-1, 6), min_size=1, max_size=4)),
        "wide": draw(en.wides),
        "crowd": draw(en.crowds),
    }


def body(case, tmp):
    g, lay = en.crowd(case)
    m = en.Model(g)
    folder = en.store(g, lay, tmp)
    hit = False
    with en.opened(folder, lay["parts"], case["backend"]) as cl:
        for q in case["queries"]:
            if case["wide"] * case["crowd"] < 10**4:
                q = dict(q, nodes=q["nodes"] * case["wide"])
            nodes = np.array(q["nodes"], dtype=np.int64)
            types = q["types"][0] if q["one"] else q["types"]
            tset = [types] if q["one"] else types
            with sut("neighbors"):
                ids, ws, ts, cnt = cl.neighbors(nodes, types)
            with sut("neighbor counts"):
                deg = cl.neighbor_counts(nodes, types)
            want = [m.out(n, tset) for n in q["nodes"]]
            counts = [len(x) for x in want]
            hit = hit or any(counts)
            equal([int(x) for x in deg], counts, f"degrees of {vp.short(q['nodes'])} over {tset}")
            equal([int(x) for x in cnt], counts, f"neighbor counts of {vp.short(q['nodes'])} over {tset}")
            equal((len(ids), len(ws), len(ts)), (sum(counts),) * 3, "lengths of neighbor lists")
            pos = 0
            for n, es in zip(q["nodes"], want):
                got = [(int(ids[i]), int(ts[i]), float(ws[i])) for i in range(pos, pos + len(es))]
                pos += len(es)
                equal(sorted(got), sorted((e["dst"], e["type"], e["weight"]) for e in es), f"neighbors of {n} over {tset}")
        t = case["totals"]
        with sut("totals"):
            got = (cl.get_node_type_count(t), cl.get_edge_type_count(t), cl.meta.node_count, cl.meta.edge_count)
        edges = [e for n in g["nodes"] for e in n["edges"]]
        equal(
            got,
            (sum(n["type"] in t for n in g["nodes"]), sum(e["type"] in t for e in edges), len(g["nodes"]), len(edges)),
            f"totals of types {t}",
        )
        want = public(en.sclient.Meta(folder))
        equal(public(cl.meta), want, "description of the graph known to the client")
    if hit:
        c.note(case)


def public(meta):
    return {k: v for k, v in vars(meta).items() if not k.startswith("_")}


c.campaign("lists", cases(), body, 500, 8000)

if __name__ == "__main__":
    c.main()
