"""Generated temporal graphs: lifetimes of nodes and edges, dated features, and how they are stored."""
import os

from vp import st
import engine as en
import graphio as gio

scales = st.sampled_from([1, 1, 10, 2**33])


def moments(scale):
    """Moments at, just before and just after generated times."""
    return st.tuples(st.integers(0, 13), st.integers(-1, 1)).map(lambda x: max(0, x[0] * scale + (x[1] if scale > 1 else 0)))


HUB = [3] * 8 + [0, 6, 9, 24]


@st.composite
def graphs(draw, node_specs, edge_specs, multi, scale):
    ids = draw(st.lists(st.integers(0, 30), min_size=1, max_size=6, unique=True))
    tm = st.integers(0, 12)

    def feats(specs):
        out = [draw(gio.dated(en.value_of(s), st.integers(0, 12).map(lambda t: t * scale))) if draw(st.integers(0, 3)) else None for s in specs]
        while out and out[-1] is None:
            out.pop()
        return out

    nodes = []
    for i in ids:
        nc = draw(st.sampled_from([None, None, 0, 2, 5]))
        nr = draw(st.sampled_from([None, None, -1, 9, 12]))
        lo, hi = nc or 0, -1 if nr is None else nr
        edges, seen = [], set()
        count = draw(st.sampled_from(HUB)) if i == ids[0] else draw(st.integers(0, 9))
        for j in range(count):
            dst, tp = draw(st.one_of(st.sampled_from(ids), st.integers(0, 40))), draw(st.integers(0, 2))
            if count > 16:
                dst, tp = (j * 7 + ids[0]) % 41, 1
            if not multi and (dst, tp) in seen:
                continue
            seen.add((dst, tp))
            top = 12 if hi == -1 else hi
            ca = draw(st.one_of(st.none(), st.integers(lo, top)))
            ra = draw(st.one_of(st.none(), st.integers(lo if ca is None else ca, top), st.just(-1) if hi == -1 else st.just(hi)))
            edges.append({"dst": dst, "type": tp, "weight": draw(en.small_weights), "features": feats(edge_specs), "ca": ca, "ra": ra})
        nodes.append(
            {"id": i, "type": draw(st.integers(0, 2)), "weight": draw(en.small_weights), "features": feats(node_specs),
             "edges": edges, "ca": nc, "ra": nr}
        )
    for x in nodes + [e for n in nodes for e in n["edges"]]:
        for k in ("ca", "ra"):
            if x[k] not in (None, -1):
                x[k] *= scale
    for n in nodes:
        for f in n["features"]:
            gio.imply(f, n["ca"] or 0, draw(st.booleans()))
        for e in n["edges"]:
            for f in e["features"]:
                gio.imply(f, (n["ca"] or 0) if e["ca"] is None else e["ca"], draw(st.booleans()))
    return {"nodes": nodes}


def effective(graph):
    """Times as stored: defaults filled in, features encoded."""
    out = []
    for n in graph["nodes"]:
        nc, nr = n["ca"] or 0, -1 if n["ra"] is None else n["ra"]
        es = []
        for e in n["edges"]:
            es.append(dict(e, created_at=nc if e["ca"] is None else e["ca"], removed_at=nr if e["ra"] is None else e["ra"]))
        out.append(dict(n, edges=es))
    return {"nodes": out}


def mark(case):
    """Latest moment of the graph, zero counts as one."""
    return 0 if len(case["graph"]["nodes"]) % 3 == 0 else 20 * case["scale"]


def store(graph, lay, tmp, watermark):
    enc = effective(graph)
    if lay["how"] == "convert":
        nodes = []
        for n in graph["nodes"]:
            es = [dict(e, created_at=e["ca"], removed_at=e["ra"]) for e in n["edges"]]
            nodes.append(dict(n, created_at=n["ca"], removed_at=n["ra"], edges=es))
        return en.store({"nodes": nodes}, lay, tmp, watermark)
    return en.write_layout(enc, lay, os.path.join(tmp, "bin"), watermark)
