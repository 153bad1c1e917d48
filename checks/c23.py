"""C23: neighbors by personalized PageRank are the nodes with the largest approximate ranks."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import engine as en
import temporal as tp

c = Check(
    "C23",
    "a case is a generated directed multigraph with self loops and dead ends, temporal or not, a placement in 1-4 "
    "partitions, a backend (memory, disk, 1-3 servers) and ranks for a batch of nodes (unknown and repeated ones, "
    "moments of their own) over generated edge types with teleport 0.1-0.85 and threshold 1e-1-1e-4. The oracle is the "
    "exact personalized PageRank (solution of a linear system over visible edges): a reported rank may not exceed it and "
    "may miss at most threshold x sum over nodes of degree x their own rank of the node (the guarantee of the "
    "algorithm). Results are ascending, distinct, padded by defaults, a smaller request gives the largest ranks of a "
    "larger one and ranks don't depend on the other nodes of a batch. Non-trivial: a node has two or more ranked nodes.",
    native=True,
)


@st.composite
def some_graph(draw):
    if draw(st.booleans()):
        scale = draw(tp.scales)
        g = draw(tp.graphs([], [], True, scale))
        lay = draw(en.layouts(g, allow_convert=False))
        if draw(st.booleans()):
            lay = {"how": "convert", "parts": lay["parts"]}
    else:
        scale = 0
        g = draw(en.graphs(max_nodes=8, max_edges=5, multi=True))
        lay = draw(en.layouts(g))
    ids = [n["id"] for n in g["nodes"]]
    if draw(st.booleans()):
        for n in g["nodes"]:
            for e in n["edges"]:
                if e["dst"] not in ids:
                    e["dst"] = draw(st.sampled_from(ids))
    return scale, g, lay


@st.composite
def cases(draw):
    scale, g, lay = draw(some_graph())
    ids = [n["id"] for n in g["nodes"]]
    busy = [n["id"] for n in sorted(g["nodes"], key=lambda n: -len(n["edges"]))[:2]]
    anyid = st.one_of(st.sampled_from(busy), st.sampled_from(busy), st.sampled_from(ids), st.integers(0, 40))
    queries = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(1, 6))
        queries.append(
            {
                "nodes": draw(st.lists(anyid, min_size=k, max_size=k)),
                "moments": draw(st.lists(tp.moments(scale), min_size=k, max_size=k)) if scale and draw(st.integers(0, 4)) else None,
                "types": draw(st.one_of(st.just([2, 0, 1]), st.integers(0, 2), st.lists(st.integers(0, 4), min_size=1, max_size=4))),
                "count": draw(st.integers(1, 6)),
                "alpha": draw(st.sampled_from([0.1, 0.25, 0.5, 0.85])),
                "eps": draw(st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4])),
                "node": draw(st.sampled_from([-1, -7, 0])),
                "weight": draw(st.sampled_from([0.0, -1.0, 2.5])),
            }
        )
    return {
        "scale": scale, "graph": g, "layout": lay, "backend": draw(en.backends(lay["parts"])), "queries": queries,
        "wide": draw(st.sampled_from([1] * 9 + [30])),
    }


def stored(case, tmp):
    if case["scale"]:
        return en.Model(tp.effective(case["graph"])), tp.store(case["graph"], case["layout"], tmp, tp.mark(case))
    return en.Model(case["graph"]), en.store(case["graph"], case["layout"], tmp)


def exact(m, node, types, moment, alpha):
    """Nodes, their degrees and ranks: row i are ranks of all nodes personalized to the node i."""
    nodes, todo, out = [node], [node], {}
    while todo:
        n = todo.pop()
        out[n] = [e["dst"] for e in m.out(n, types, moment)]
        for x in out[n]:
            if x not in nodes:
                nodes.append(x)
                todo.append(x)
    pos = {n: i for i, n in enumerate(nodes)}
    a = np.zeros((len(nodes), len(nodes)))
    for n, xs in out.items():
        for x in xs:
            a[pos[n], pos[x]] += 1 / len(xs)
    ranks = alpha * np.linalg.inv(np.eye(len(nodes)) - (1 - alpha) * a)
    return nodes, np.array([len(out[n]) for n in nodes]), ranks


def body(case, tmp):
    short, case = case, en.scaled(case)
    m, folder = stored(case, tmp)
    hit = False
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        for q in case["queries"]:
            types = [q["types"]] if isinstance(q["types"], int) else q["types"]

            def call(nodes, moments, count):
                with sut("neighbors by rank"):
                    ids, ws = cl.ppr_neighbors(
                        np.array(nodes, dtype=np.int64), q["types"], count, q["alpha"], q["eps"], q["node"], q["weight"],
                        None if moments is None else np.array(moments, dtype=np.int64),
                    )
                equal((ids.shape, ws.shape), ((len(nodes), count),) * 2, "shape of neighbors by rank")
                return ids.tolist(), ws.tolist()

            moms = q["moments"]
            models = [exact(m, n, types, None if moms is None else moms[i], q["alpha"]) for i, n in enumerate(q["nodes"])]
            full = max(len(x[0]) for x in models) + 2
            ids, ws = call(q["nodes"], moms, full)
            few = call(q["nodes"], moms, q["count"])
            for i, n in enumerate(q["nodes"]):
                nodes, degrees, ranks = models[i]
                what = f"ranks for {n}" + ("" if moms is None else f" at {moms[i]}") + f" over {types}, teleport {q['alpha']}, threshold {q['eps']}"
                found = {}
                end = False
                for x, w in zip(ids[i], ws[i]):
                    if (x, w) == (q["node"], q["weight"]) and (end or x not in nodes or not 0 < w <= 1 or x in found or len(found) == len(nodes)):
                        end = True
                        continue
                    require(not end, lambda: f"{what}: {list(zip(ids[i], ws[i]))}, found nodes follow default ones")
                    require(x in nodes, lambda: f"{what}: {x} isn't reachable")
                    require(x not in found, lambda: f"{what}: {x} came twice")
                    found[x] = w
                got = list(found.values())
                require(got == sorted(got), lambda: f"{what}: {got} aren't ascending")
                for j, x in enumerate(nodes):
                    r = ranks[0, j]
                    slack = q["eps"] * float(degrees @ ranks[:, j])
                    w = found.get(x, 0.0)
                    require(w <= r * (1 + 1e-3) + 1e-5, lambda: f"{what}: rank of {x} is {w}, exact one is {r}")
                    require(w >= r - slack * (1 + 1e-3) - 1e-4, lambda: f"{what}: rank of {x} is {w}, exact one is {r}, tolerance {slack}")
                hit = hit or len(found) > 1
                k = q["count"]
                best = sorted(got)[-k:]
                equal(few[1][i], best + [q["weight"]] * (k - len(best)), f"{k} largest of {what}")
                for x, w in list(zip(few[0][i], few[1][i]))[: len(best)]:
                    require(found.get(x) == w, lambda: f"{what}: {x} has rank {w} among {k} largest, {found.get(x)} among all")
                equal(few[0][i][len(best):], [q["node"]] * (k - len(best)), f"padding of {what}")
                one = call([n], None if moms is None else [moms[i]], full)
                equal(dict(zip(one[0][0], one[1][0])), dict(zip(ids[i], ws[i])), f"{what}, alone and in a batch")
    if hit:
        c.note(short)


c.campaign("ranks", cases(), body, 500, 8000)

if __name__ == "__main__":
    c.main()
