"""C05: conversion of temporal graphs keeps lifetimes and time-dependent feature values."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require

vp.silence_logging()
import conv
import graphio as gio

c = Check(
    "C05",
    "a case is a generated temporal graph (nodes and edges with optional creation / removal times, repeated edges with "
    "disjoint lifetimes, dense features with 1-5 dated values) in JSON or edge-list form, a watermark and 1-4 "
    "partitions; stored lifetimes and the stored dated values of every feature are decoded and compared with the "
    "documented defaults. Non-trivial: an edge with an explicit time or a feature with several values.",
)

TIMES = st.one_of(st.integers(1, 20), st.integers(1, 2**40))


def temporal_feature():
    inner = st.one_of(
        st.sampled_from(gio.DTYPES).map(lambda dt: gio.values(dt, 1, 4).map(lambda v: {"k": "dense", "dt": dt, "v": v})),
        st.just(gio.binary(lo=1)),
        st.sampled_from(gio.DTYPES).map(lambda dt: gio.sparse((dt,))),
    )
    return inner.flatmap(lambda i: gio.dated(i, st.one_of(st.integers(0, 30), st.integers(0, 2**40))))


@st.composite
def lifetimes(draw, lo=0, hi=-1):
    """Optional created/removed inside [lo, hi)."""
    span = (hi - lo) if hi != -1 else 100
    ca = lo + draw(st.integers(0, max(0, span - 1))) if draw(st.booleans()) else None
    base = lo if ca is None else ca
    ra = None
    if draw(st.booleans()):
        if hi == -1:
            ra = base + draw(st.integers(0, 1000)) if draw(st.booleans()) else -1
        else:
            ra = draw(st.integers(base, hi)) if base <= hi else None
    return ca, ra


@st.composite
def cases(draw, fmt):
    kinds = (gio.dense(), gio.binary(lo=1), gio.sparse())
    if fmt == "json":
        kinds += (temporal_feature(), temporal_feature())
    else:
        kinds = conv.ELK
    g = draw(gio.graphs(kinds, max_nodes=5, max_edges=5, hi_features=3, multi=True))
    opt = None
    if fmt == "edgelist":
        opt = {"temporal": True}
        if draw(st.sampled_from([False, False, True])):
            opt["created_at"] = draw(st.integers(0, 9))
        if draw(st.sampled_from([False, False, True])):
            opt["removed_at"] = draw(st.sampled_from([-1, 50]))
    for n in g["nodes"]:
        n["created_at"], n["removed_at"] = draw(lifetimes())
        lo = n["created_at"] or 0
        hi = n["removed_at"] if n["removed_at"] is not None else -1
        if fmt == "edgelist":
            n["created_at"] = lo
            n["removed_at"] = hi
        for e in n["edges"]:
            e["created_at"], e["removed_at"] = draw(lifetimes(lo, hi))
            if fmt == "edgelist":
                # columns must be present: no inheritance in this form
                e["created_at"] = lo if e["created_at"] is None else e["created_at"]
                e["removed_at"] = hi if e["removed_at"] is None else e["removed_at"]
                for k in ("created_at", "removed_at"):
                    if k in opt:
                        e[k] = opt[k]
        if fmt == "json":
            for f in n["features"]:
                gio.imply(f, lo, draw(st.booleans()))
            for e in n["edges"]:
                for f in e["features"]:
                    gio.imply(f, lo if e["created_at"] is None else e["created_at"], draw(st.booleans()))
    return {
        "fmt": fmt, "graph": g, "opt": opt,
        "partitions": draw(st.integers(1, 4)),
        "watermark": draw(st.sampled_from([0, 1, 13, 2**40])),
        "threads": draw(st.integers(1, 3)),
    }


def ts_of(n, e):
    nc = n.get("created_at") or 0
    nr = n.get("removed_at")
    nr = -1 if nr is None else nr
    ca = e.get("created_at")
    ra = e.get("removed_at")
    return (nc if ca is None else ca, nr if ra is None else ra)


def body(case, d):
    g = case["graph"]
    src, out = os.path.join(d, "in"), os.path.join(d, "out")
    conv.write_files(g, case["fmt"], src, 1, opt=case["opt"])
    conv.convert(
        src, out, conv.decoder_for(case["fmt"], case["opt"], temporal=True), case["partitions"],
        watermark=case["watermark"], threads=case["threads"],
    )
    equal(conv.read_meta(out)["watermark"], case["watermark"], "watermark in metadata")
    parts = conv.read_parts(out, case["partitions"])
    for p in parts:
        require(p.temporal, "no lifetimes stored for a temporal graph")
        equal(p.watermark, case["watermark"], "watermark in the partition")
    nodes, want = gio.actual_nodes(parts), gio.expected_nodes(g)
    gio.diff_list(sorted(nodes), sorted(want), "node ids")
    for k in want:
        equal(nodes[k][1], want[k][1], f"features of node {k}")
    gio.diff_list(gio.actual_edges(parts, ts=True), gio.expected_edges(g, ts_of), "edges with lifetimes")
    if any(
        e.get("created_at") is not None or e.get("removed_at") is not None or any(f and f["k"] == "dated" and len(f["v"]) > 1 for f in e["features"])
        for n in g["nodes"] for e in n["edges"]
    ) or any(f and f["k"] == "dated" and len(f["v"]) > 1 for n in g["nodes"] for f in n["features"]):
        c.note(case)


def plain_body(case, d):
    """Without a watermark the same input is stored without lifetimes, nothing else changes."""
    g = case["graph"]
    src, out = os.path.join(d, "in"), os.path.join(d, "out")
    conv.write_files(g, case["fmt"], src, 1, opt=case["opt"])
    conv.convert(src, out, conv.decoder_for(case["fmt"], case["opt"], temporal=True), case["partitions"])
    equal(conv.read_meta(out)["watermark"], -1, "watermark in metadata")
    parts = conv.read_parts(out, case["partitions"])
    require(not any(p.temporal for p in parts), "lifetimes stored for a non-temporal graph")
    gio.diff_list(gio.actual_edges(parts), gio.expected_edges(g), "edges")
    c.note(("plain", case))


c.campaign("json", cases("json"), body, 250, 4000)
c.campaign("edgelist", cases("edgelist"), body, 150, 2000)
c.campaign("plain", cases("json"), plain_body, 60, 600)

if __name__ == "__main__":
    c.main()
