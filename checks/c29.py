"""C29: servers that leave out features or times still answer everything else."""
import logging
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, sut

vp.silence_logging()
import asks
import engine as en
import temporal as tp

c = Check(
    "C29",
    "a case is a generated graph, temporal or not, in 1-4 partitions and 1-3 servers told to leave out features, times or both. "
    "Queries of every kind must be answered: features as absent ones, everything else as by servers that load everything when "
    "times are kept, and as by servers of the same graph without times otherwise. Non-trivial: something left out is in the "
    "graph and a query returns something of the graph.",
    assumptions=("moments are not asked of servers without times, dated features are not read from them",),
    native=True,
)
sys.unraisablehook = lambda *a: None
logging.disable(logging.CRITICAL)
FEATURES = ("feat", "sparse", "string")


@st.composite
def cases(draw):
    scale = draw(tp.scales) if draw(st.booleans()) else 0
    skip = draw(st.sampled_from(["features", "times", "both"] if scale else ["features", "features", "times", "both"]))
    ns, es = draw(en.specs(3)), draw(en.specs(3))
    g = draw(tp.graphs(ns, es, False, scale)) if scale else draw(en.graphs(ns, es, max_nodes=6))
    lay = draw(en.layouts(g, allow_convert=False))
    keep = scale if skip == "features" else 0
    ops = [o for o in asks.kinds(keep) if skip == "features" or o != "lastn"]
    if scale and skip == "times":
        ops = [o for o in ops if o not in FEATURES]
    return {
        "scale": scale, "skip": skip, "graph": g, "specs": [ns, es], "layout": lay,
        "backend": draw(en.backends(lay["parts"], ("remote",))),
        "queries": [draw(asks.queries(g, keep, ns, es, ops)) for _ in range(draw(st.integers(1, 6)))],
    }


def answers(cl, g, queries, case):
    with sut("making samplers"):
        samplers = asks.make_samplers(cl, g)
    out = []
    for q in queries:
        with sut(f"query {vp.short(q)}"):
            out.append(asks.ask(cl, samplers, q, case))
    for s in samplers.values():
        s.reset()
    return out


def bare(g):
    """The graph without features."""
    return {"nodes": [dict(n, features=[], edges=[dict(e, features=[]) for e in n["edges"]]) for n in g["nodes"]]}


def timeless(g):
    out = []
    for n in g["nodes"]:
        n = {k: v for k, v in n.items() if k not in ("ca", "ra")}
        n["edges"] = [{k: v for k, v in e.items() if k not in ("ca", "ra")} for e in n["edges"]]
        out.append(n)
    return {"nodes": out}


def body(case, tmp):
    g, lay, b = case["graph"], case["layout"], case["backend"]
    folder = tp.store(g, lay, tmp, tp.mark(case)) if case["scale"] else en.store(g, lay, tmp)
    queries = [q for q in case["queries"] if q["op"] != "draw" or asks.drawable(q, g)]
    features, times = case["skip"] in ("features", "both"), case["skip"] in ("times", "both")
    with en.opened(folder, lay["parts"], b, skip_feature_loading=features, skip_temporal_loading=times) as cl:
        got = answers(cl, g, queries, case)
        equal(cl.meta.node_count, len(g["nodes"]), "number of nodes")
        equal(cl.meta.edge_count, sum(len(n["edges"]) for n in g["nodes"]), "number of edges")
    # the same graph without what is left out
    ref = bare(g) if features else g
    other = os.path.join(tmp, "ref")
    os.makedirs(other)
    if case["scale"] and not times:
        folder = tp.store(ref, lay, other, tp.mark(case))
        model = en.Model(tp.effective(ref))
    else:
        ref = timeless(ref) if case["scale"] else ref
        folder = en.store(ref, lay, other)
        model = en.Model(ref)
    with en.opened(folder, lay["parts"], b) as cl:
        want = answers(cl, g, queries, case)
    for q, a, w in zip(queries, got, want):
        what = f"{vp.short(q)} without {case['skip']}"
        if q["op"] in ("weighted", "uniform"):
            asks.sampled(q, a, model, what)
        elif q["op"] == "ppr":
            # ranks are approximate and depend on the order of edges
            if not (case["scale"] and times):
                asks.ranked(a, w, what)
        elif q["op"] == "list" and case["scale"] and times:
            # edges stay in the order they are stored in
            at = 0
            for i, k in enumerate(w[3]):
                equal(a[3][i], k, f"{what}: number of neighbors of {q['nodes'][i]}")
                rows = [sorted(zip(x[0][at:at + k], x[1][at:at + k], x[2][at:at + k])) for x in (a, w)]
                equal(rows[0], rows[1], f"{what}: neighbors of {q['nodes'][i]}")
                at += k
        elif q["op"] == "walk" and case["scale"] and times:
            steps(q, a, model, what)
        elif q["op"] == "draw":
            asks.drawn(q, a, g, what)
        else:
            equal(a, w, what)
    has = any(n["features"] or any(e["features"] for e in n["edges"]) for n in g["nodes"])
    if (features and has or times and case["scale"]) and any(a not in ([], [[]]) for a in got):
        c.note(case)


def steps(q, a, model, what):
    for n, row in zip(q["nodes"], a):
        equal(row[0], n, f"{what}: start of a walk")
        for x, y in zip(row, row[1:]):
            near = {e["dst"] for e in model.out(x, q["types"]) if e["weight"]} if x != -1 else set()
            vp.require(y in near if near else y == -1, f"{what}: step from {x} to {y}, neighbors {sorted(near)}")


c.campaign("left_out", cases(), body, 400, 6000)

if __name__ == "__main__":
    c.main()
