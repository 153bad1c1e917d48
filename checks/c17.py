"""C17: feature and type lookups through the engine's clients return what the graph holds."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import engine as en
import graphio as gio

c = Check(
    "C17",
    "a case is a generated graph with dense, text and sparse features of nodes and edges, a placement of its nodes and "
    "edges in 1-4 partitions (made by the converter, whole nodes, or edges apart from their node), a backend (memory, "
    "disk, or 1-3 servers) and lists of existing, repeated and unknown nodes and edges with feature numbers and sizes; "
    "every dense, sparse, variable-length and type lookup is compared with the generated graph. Non-trivial: a "
    "requested feature has stored bytes.",
    native=True,
)


@st.composite
def cases(draw):
    ns = draw(en.specs())
    es = draw(en.specs())
    g = draw(en.graphs(ns, es))
    lay = draw(en.layouts(g, values=True))
    b = draw(en.backends(lay["parts"]))
    ids = [n["id"] for n in g["nodes"]]
    anyid = st.one_of(st.sampled_from(ids), st.sampled_from(ids), st.sampled_from(ids), st.integers(0, 40))
    edges = [(n["id"], e["dst"], e["type"]) for n in g["nodes"] for e in n["edges"]]
    # an unknown edge often shares two of three parts with a stored one
    other = st.tuples(anyid, anyid, st.integers(0, 3))
    anyedge = st.one_of(st.sampled_from(edges), st.sampled_from(edges), en.near(edges), other) if edges else other
    return {
        "node_specs": ns,
        "edge_specs": es,
        "graph": g,
        "layout": lay,
        "backend": b,
        "nodes": draw(st.lists(anyid, min_size=1, max_size=8)),
        "edges": [list(x) for x in draw(st.lists(anyedge, min_size=1, max_size=8))],
        "node_req": draw(requests(ns)),
        "edge_req": draw(requests(es)),
        "default_type": draw(st.integers(-5, 7)),
        "wide": draw(en.wides),
        "crowd": draw(en.crowds),
    }


@st.composite
def requests(draw, specs):
    """Dense, sparse and variable-length requests."""
    fixed = [i for i, s in enumerate(specs) if s["k"] != "sparse"]
    beyond = [len(specs), len(specs) + 3]
    dts = [specs[i]["dt"] for i in fixed if specs[i]["k"] == "dense"] + ["uint8"]
    dt = draw(st.sampled_from(dts))
    dense = draw(st.lists(st.tuples(st.sampled_from(fixed * 3 + beyond), st.integers(1, 6)), min_size=1, max_size=4))
    out = {"dense": [dt, [list(x) for x in dense]]}
    sp = [i for i, s in enumerate(specs) if s["k"] == "sparse"]
    sdt = draw(st.sampled_from([specs[i]["dt"] for i in sp])) if sp else "float32"
    same = [i for i in sp if specs[i]["dt"] == sdt]
    out["sparse"] = [sdt, draw(st.lists(st.sampled_from(same * 3 + beyond), min_size=1, max_size=3))]
    tdt = draw(st.sampled_from(dts))
    if tdt == "uint8":
        out["text"] = [tdt, draw(st.lists(st.sampled_from(fixed * 3 + beyond), min_size=1, max_size=3))]
    else:
        same = [i for i in fixed if specs[i].get("dt") == tdt]
        out["text"] = [tdt, draw(st.lists(st.sampled_from(same * 3 + beyond), min_size=1, max_size=3))]
    return out


def check_lookups(what, keys, get, req, dense, sparse, text):
    stored = False
    dt, feats = req["dense"]
    item = np.dtype(dt).itemsize
    with sut(f"{what} features"):
        got = dense(np.array(feats, dtype=np.int32), np.dtype(dt))
    width = sum(s for _, s in feats)
    equal(tuple(got.shape), (len(keys), width), f"shape of {what} features")
    require(got.dtype == np.dtype(dt), f"{what} features have type {got.dtype}, not {dt}")
    for i, k in enumerate(keys):
        want = b"".join(en.fit(gio.feature_bytes(get(k, f)), s * item) for f, s in feats)
        stored = stored or any(want)
        require(got[i].tobytes() == want, lambda: f"{what} {k}, features {feats} as {dt}: got {got[i].tobytes()!r}, expected {want!r}")

    dt, feats = req["sparse"]
    with sut(f"sparse {what} features"):
        ind, val, dims = sparse(np.array(feats, dtype=np.int32), np.dtype(dt))
    equal((len(ind), len(val), len(dims)), (len(feats),) * 3, f"lists of sparse {what} features")
    for j, f in enumerate(feats):
        want, dim = [], 0
        for i, k in enumerate(keys):
            v = get(k, f)
            if v is None:
                continue
            stored = True
            flat = not isinstance(v["c"][0], list)
            dim = 1 if flat else len(v["c"][0])
            for cc, x in zip(v["c"], np.array(v["v"], dtype=dt)):
                want.append(((i,) + ((cc,) if flat else tuple(cc)), x.tobytes()))
        equal(int(dims[j]), dim, f"dimension of sparse {what} feature {f}")
        rows = [tuple(int(x) for x in r) for r in ind[j].reshape(-1, dim + 1)] if dim else []
        if not dim:
            equal((ind[j].size, val[j].size), (0, 0), f"sizes of absent sparse {what} feature {f}")
        equal(len(rows), val[j].size, f"values of sparse {what} feature {f}")
        got = list(zip(rows, [x.tobytes() for x in val[j]]))
        equal(sorted(got), sorted(want), f"sparse {what} feature {f} of {vp.short(keys)}")
        equal([r[0] for r in rows], sorted(r[0] for r in rows), f"order of sparse {what} feature {f}")

    dt, feats = req["text"]
    item = np.dtype(dt).itemsize
    with sut(f"variable-length {what} features"):
        val, dims = text(np.array(feats, dtype=np.int32), np.dtype(dt))
    equal(tuple(dims.shape), (len(keys), len(feats)), f"shape of {what} feature lengths")
    blobs = [[gio.feature_bytes(get(k, f)) for f in feats] for k in keys]
    stored = stored or any(any(r) for r in blobs)
    equal(dims.tolist(), [[len(x) // item for x in r] for r in blobs], f"lengths of {what} features {feats} of {vp.short(keys)}")
    want = b"".join(x for r in blobs for x in r)
    require(val.tobytes() == want, lambda: f"variable-length {what} features {feats} of {vp.short(keys)}: got {val.tobytes()!r}, expected {want!r}")
    return stored


def body(case, tmp):
    g, lay = en.crowd(case)
    m = en.Model(g)
    folder = en.store(g, lay, tmp)
    with en.opened(folder, lay["parts"], case["backend"]) as cl:
        nodes = case["nodes"] * case["wide"]
        nn = np.array(nodes, dtype=np.int64)
        a = check_lookups(
            "node", nodes, m.node_feature, case["node_req"],
            lambda f, d: cl.node_features(nn, f, d),
            lambda f, d: cl.node_sparse_features(nn, f, d),
            lambda f, d: cl.node_string_features(nn, f, d),
        )
        edges = case["edges"] * case["wide"]
        if g is not case["graph"]:
            n = max(g["nodes"], key=lambda n: len(n["edges"]))
            edges = edges + [[n["id"], e["dst"], e["type"]] for e in n["edges"][:: 1 + len(n["edges"]) // 9]]
        ee = np.array(edges, dtype=np.int64)
        s, d, t = ee[:, 0].copy(), ee[:, 1].copy(), ee[:, 2].astype(np.int32)
        b = check_lookups(
            "edge", edges, m.edge_feature, case["edge_req"],
            lambda f, x: cl.edge_features(s, d, t, f, x),
            lambda f, x: cl.edge_sparse_features(s, d, t, f, x),
            lambda f, x: cl.edge_string_features(s, d, t, f, x),
        )
        with sut("node types"):
            got = cl.node_types(nn, case["default_type"])
        want = [m.nodes[n]["type"] if n in m.nodes else case["default_type"] for n in nodes]
        equal(got.tolist(), want, f"types of nodes {vp.short(nodes)}")
        if a or b:
            c.note(case)


c.campaign("lookups", cases(), body, 400, 6000)

if __name__ == "__main__":
    c.main()
