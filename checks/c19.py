"""C19: queries of a temporal graph at a moment see exactly what existed at that moment."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import engine as en
import graphio as gio
import temporal as tp

c = Check(
    "C19",
    "a case is a generated temporal graph (nodes and edges with creation and removal times, given or inherited, repeated "
    "edges; dense, text and sparse features with 1-4 dated values), a placement in 1-4 partitions, a backend (memory, "
    "disk, 1-3 servers) and query moments at, just before and just after every generated time; neighbor lists, degrees, "
    "creation times and feature values are compared with the definition: created not later, not removed yet, latest "
    "value not newer. Non-trivial: some edge is visible at the moment of a query and some is not, or a dated feature "
    "has an older value.",
    native=True,
)


@st.composite
def cases(draw, multi):
    conv = draw(st.booleans())
    kinds = ("dense", "bin", "sparse")
    ns = [] if multi else draw(en.specs(3, kinds))
    es = [] if multi else draw(en.specs(3, kinds))
    scale = draw(tp.scales)
    g = draw(tp.graphs(ns, es, multi, scale))
    lay = draw(en.layouts(g, allow_convert=False, values=True))
    if conv:
        lay = {"how": "convert", "parts": lay["parts"]}
    ids = [n["id"] for n in g["nodes"]]
    anyid = st.one_of(st.sampled_from(ids), st.sampled_from(ids), st.sampled_from(ids), st.integers(0, 40))
    edges = [(n["id"], e["dst"], e["type"]) for n in g["nodes"] for e in n["edges"]]
    other = st.tuples(anyid, anyid, st.integers(0, 3))
    anyedge = st.one_of(st.sampled_from(edges), st.sampled_from(edges), st.sampled_from(edges), en.near(edges), other) if edges else other
    moment = tp.moments(scale)
    k = draw(st.integers(1, 6))
    return {
        "node_specs": ns, "edge_specs": es, "graph": g, "layout": lay, "scale": scale,
        "backend": draw(en.backends(lay["parts"])),
        "wide": draw(en.wides), "crowd": draw(en.crowds),
        "nodes": draw(st.lists(anyid, min_size=k, max_size=k)),
        "moments": draw(st.lists(moment, min_size=k, max_size=k)),
        "types": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)),
        "edges": [list(x) for x in draw(st.lists(anyedge, min_size=k, max_size=k))],
        "node_req": draw(requests(ns)),
        "edge_req": draw(requests(es)),
    }


@st.composite
def requests(draw, specs):
    fixed = [i for i, s in enumerate(specs) if s["k"] != "sparse"]
    beyond = [len(specs)]
    dense = draw(st.lists(st.tuples(st.sampled_from(fixed * 3 + beyond), st.integers(1, 12)), min_size=1, max_size=3))
    sp = [i for i, s in enumerate(specs) if s["k"] == "sparse"]
    return {
        "dense": [list(x) for x in dense],
        "text": draw(st.lists(st.sampled_from(fixed * 3 + beyond), min_size=1, max_size=3)),
        "sparse": draw(st.lists(st.sampled_from(sp * 3 + beyond), min_size=1, max_size=2)),
    }


def features_body(case, tmp):
    short, case = case, en.scaled(case)
    g = case["graph"]
    eff = tp.effective(g)
    m = en.Model(g)
    folder = tp.store(g, case["layout"], tmp, tp.mark(case))
    seen = [False]
    removed = {n["id"]: -1 if n["ra"] is None else n["ra"] for n in g["nodes"]}
    removed.update({(n["id"], e["dst"], e["type"]): e["removed_at"] for n in eff["nodes"] for e in n["edges"]})

    def alive(keys):
        """Moments of queries, moved to the last moment of the owner when it's gone by then."""
        out = []
        for k, t in zip(keys, case["moments"]):
            r = removed.get(tuple(k) if isinstance(k, list) else k, -1)
            out.append(t if r == -1 or r > t else max(r - 1, 0))
        return out

    def lookups(what, keys, moments, get, req, dense, text, sparse):
        def val(i, f):
            full = get(keys[i], f)
            v = gio.value_at(full, moments[i])
            if full is not None and len(full["v"]) > 1 and v is not None:
                seen[0] = True
            return v

        feats = req["dense"]
        with sut(f"{what} features at {moments}"):
            got = dense(np.array(feats, dtype=np.int32), np.uint8)
        for i, k in enumerate(keys):
            want = b"".join(en.fit(gio.feature_bytes(val(i, f)), s) for f, s in feats)
            require(got[i].tobytes() == want, lambda: f"{what} {k} at {moments[i]}, features {feats}: got {got[i].tobytes()!r}, expected {want!r}")
        feats = req["text"]
        with sut(f"variable-length {what} features at {moments}"):
            vals, dims = text(np.array(feats, dtype=np.int32), np.uint8)
        blobs = [[gio.feature_bytes(val(i, f)) for f in feats] for i in range(len(keys))]
        equal(dims.tolist(), [[len(x) for x in r] for r in blobs], f"lengths of {what} features {feats} of {keys} at {moments}")
        want = b"".join(x for r in blobs for x in r)
        require(vals.tobytes() == want, lambda: f"{what} features {feats} of {keys} at {moments}: got {vals.tobytes()!r}, expected {want!r}")
        feats = req["sparse"]
        with sut(f"sparse {what} features at {moments}"):
            ind, vals, dims = sparse(np.array(feats, dtype=np.int32), np.uint8)
        for j, f in enumerate(feats):
            rows, raw, dim = [], b"", 0
            for i in range(len(keys)):
                v = val(i, f)
                if v is None:
                    continue
                flat = not isinstance(v["c"][0], list)
                dim = 1 if flat else len(v["c"][0])
                rows += [(i, x) if flat else (i, *x) for x in v["c"]]
                raw += np.array(v["v"], dtype=v["dt"]).tobytes()
            got = [tuple(int(x) for x in r) for r in ind[j].reshape(-1, dim + 1)] if ind[j].size else []
            equal(got, rows, f"coordinates of sparse {what} feature {f} of {keys} at {moments}")
            require(vals[j].tobytes() == raw, lambda: f"values of sparse {what} feature {f} of {keys} at {moments}: got {vals[j].tobytes()!r}, expected {raw!r}")

    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        nodes = np.array(case["nodes"], dtype=np.int64)
        moments = alive(case["nodes"])
        mom = np.array(moments, dtype=np.int64)
        lookups(
            "node", case["nodes"], moments, m.node_feature, case["node_req"],
            lambda f, d: cl.node_features(nodes, f, d, mom),
            lambda f, d: cl.node_string_features(nodes, f, d, mom),
            lambda f, d: cl.node_sparse_features(nodes, f, d, mom),
        )
        ee = np.array(case["edges"], dtype=np.int64)
        s, d, t = ee[:, 0].copy(), ee[:, 1].copy(), ee[:, 2].astype(np.int32)
        moments = alive(case["edges"])
        mom = np.array(moments, dtype=np.int64)
        lookups(
            "edge", case["edges"], moments, m.edge_feature, case["edge_req"],
            lambda f, x: cl.edge_features(s, d, t, f, x, mom),
            lambda f, x: cl.edge_string_features(s, d, t, f, x, mom),
            lambda f, x: cl.edge_sparse_features(s, d, t, f, x, mom),
        )
    if seen[0]:
        c.note(short)


def neighbors_body(case, tmp):
    short, case = case, en.scaled(case)
    g = tp.effective(case["graph"])
    m = en.Model(g)
    folder = tp.store(case["graph"], case["layout"], tmp, tp.mark(case))
    mom = np.array(case["moments"], dtype=np.int64)
    types = case["types"]
    nodes = np.array(case["nodes"], dtype=np.int64)
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        want = [m.out(n, types, t) for n, t in zip(case["nodes"], case["moments"])]
        counts = [len(x) for x in want]
        what = f"{case['nodes']} at {case['moments']} over {types}"
        with sut("neighbor counts"):
            equal([int(x) for x in cl.neighbor_counts(nodes, types, mom)], counts, f"degrees of {what}")
        with sut("neighbors"):
            ids, ws, ts, cnt, created = cl.neighbors(nodes, types, mom, return_edge_created_ts=True)
        equal([int(x) for x in cnt], counts, f"neighbor counts of {what}")
        equal((len(ids), len(ws), len(ts), len(created)), (sum(counts),) * 4, f"lengths of neighbor lists of {what}")
        pos = 0
        for n, t, es in zip(case["nodes"], case["moments"], want):
            got = [(int(ids[i]), int(ts[i]), float(ws[i]), int(created[i])) for i in range(pos, pos + len(es))]
            pos += len(es)
            equal(sorted(got), sorted((e["dst"], e["type"], e["weight"], e["created_at"]) for e in es), f"neighbors of {n} at {t} over {types}")
        with sut("neighbors"):
            ids2, ws2, ts2, cnt2 = cl.neighbors(nodes, types, mom)
        equal((ids2.tolist(), ws2.tolist(), ts2.tolist(), cnt2.tolist()), (ids.tolist(), ws.tolist(), ts.tolist(), cnt.tolist()), "neighbors with and without creation times")
        with sut("neighbors of all times"):
            ids, ws, ts, cnt = cl.neighbors(nodes, types)
        equal([int(x) for x in cnt], [len(m.out(n, types)) for n in case["nodes"]], f"counts of {case['nodes']} over all times")
        if any(counts) and counts != [int(x) for x in cnt]:
            c.note(short)


c.campaign("neighbors", cases(True), neighbors_body, 400, 8000)
c.campaign("features", cases(False), features_body, 350, 8000)

if __name__ == "__main__":
    c.main()
