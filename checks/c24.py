"""C24: last created neighbors are the most recent visible edges."""
import collections
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import engine as en
import temporal as tp

c = Check(
    "C24",
    "a case is a generated temporal multigraph (creation and removal times given or inherited), a placement in 1-4 "
    "partitions, a backend (memory, disk, 1-3 servers) and requests of 1-8 last created neighbors of a batch of nodes "
    "(unknown and repeated ones) at moments at, just before and just after generated times. Returned edges with their "
    "weights, types and creation times must be visible at the moment and be the latest ones (any choice among equally "
    "old), the rest is filled by defaults. Non-trivial: a node has more visible edges than requested.",
    native=True,
)


@st.composite
def cases(draw):
    scale = draw(tp.scales)
    g = draw(tp.graphs([], [], True, scale))
    lay = draw(en.layouts(g, allow_convert=False))
    if draw(st.booleans()):
        lay = {"how": "convert", "parts": lay["parts"]}
    ids = [n["id"] for n in g["nodes"]]
    busy = [n["id"] for n in sorted(g["nodes"], key=lambda n: -len(n["edges"]))[:2]]
    anyid = st.one_of(st.sampled_from(busy), st.sampled_from(busy), st.sampled_from(ids), st.integers(0, 40))
    queries = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(1, 6))
        queries.append(
            {
                "nodes": draw(st.lists(anyid, min_size=k, max_size=k)),
                "moments": draw(st.lists(tp.moments(scale), min_size=k, max_size=k)),
                "types": draw(st.one_of(st.just([2, 0, 1]), st.integers(0, 2), st.lists(st.integers(0, 4), min_size=1, max_size=4))),
                "count": draw(st.sampled_from([1, 1, 2, 2, 3, 4, 6, 8])),
                "node": draw(st.sampled_from([-1, -7, 0, 10**12])),
                "weight": draw(st.sampled_from([0.0, -1.0, 2.5])),
                "type": draw(st.sampled_from([-1, 0, 9])),
                "time": draw(st.sampled_from([-1, -5, 0, 10**12])),
            }
        )
    return {
        "scale": scale, "graph": g, "layout": lay, "backend": draw(en.backends(lay["parts"])), "queries": queries,
        "wide": draw(en.wides), "crowd": draw(en.crowds),
    }


def body(case, tmp):
    short, case = case, en.scaled(case)
    m = en.Model(tp.effective(case["graph"]))
    folder = tp.store(case["graph"], case["layout"], tmp, tp.mark(case))
    hit = False
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        for q in case["queries"]:
            nodes = np.array(q["nodes"], dtype=np.int64)
            mom = np.array(q["moments"], dtype=np.int64)
            types = [q["types"]] if isinstance(q["types"], int) else q["types"]
            k = q["count"]
            for timed in (True, False):
                with sut("last created neighbors"):
                    res = cl.lastn_neighbors(nodes, q["types"], mom, k, q["node"], q["weight"], q["type"], q["time"], timed)
                equal(len(res), 3 + timed, "number of arrays of last created neighbors")
                for a in res:
                    equal(a.shape, (len(nodes), k), "shape of last created neighbors")
                default = (q["node"], q["weight"], q["type"], q["time"])[: 3 + timed]
                for i, n in enumerate(q["nodes"]):
                    es = sorted(m.out(n, types, q["moments"][i]), key=lambda e: -e["created_at"])
                    got = list(zip(*(a[i].tolist() for a in res)))
                    what = f"last {k} neighbors of {n} at {q['moments'][i]} over {types}: got {got}"

                    def entry(e):
                        return (e["dst"], e["weight"], e["type"], e["created_at"])[: 3 + timed]

                    size = min(k, len(es))
                    equal(got[size:], [default] * (k - size), f"padding of {what}")
                    if not size:
                        continue
                    hit = hit or len(es) > k
                    limit = es[size - 1]["created_at"]
                    must = collections.Counter(entry(e) for e in es if e["created_at"] > limit)
                    may = must + collections.Counter(entry(e) for e in es if e["created_at"] == limit)
                    have = collections.Counter(got[:size])
                    require(not must - have, lambda: f"{what}, missing {list(must - have)}")
                    require(not have - may, lambda: f"{what}, not among the last ones {list(have - may)}")
    if hit:
        c.note(short)


c.campaign("last", cases(), body, 600, 10000)

if __name__ == "__main__":
    c.main()
