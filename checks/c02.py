"""C02: JSON lines, TSV and edge lists (with any decoder options) describe the same graph the same way."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal

vp.silence_logging()
import conv
import graphio as gio
import numpy as np

c = Check(
    "C02",
    "a case is one generated node with its edges and features, rendered in one text form with generated options "
    "(JSON: key order, dtype synonyms, empty and null feature maps; edge list: delimiters, escape, defaulted "
    "columns, defaulted feature dtypes/lengths; TSV: missing trailing columns, gaps), decoded directly and compared "
    "record by record with the generated values. Non-trivial: at least one feature or edge; distinct by text.",
)


def norm_feature(f):
    if f is None:
        return None
    if isinstance(f, tuple):
        co, v = f
        if len(v) == 0:
            return None
        return ("sparse", str(v.dtype), np.asarray(co).tolist(), np.asarray(v).tolist(), str(np.asarray(co).dtype))
    if isinstance(f, np.ndarray):
        return ("dense", str(f.dtype), f.tolist()) if f.size else None
    return ("bin", str(f)) if f else None


def strip(fs):
    fs = list(fs)
    while fs and fs[-1] is None:
        fs.pop()
    return fs


def norm_records(recs):
    out = []
    for src, dst, tp, w, ca, ra, fs in recs:
        out.append((int(src), int(dst), int(tp), float(w), strip(map(norm_feature, fs))))
    return out


def want_feature(f):
    if f is None:
        return None
    if f["k"] == "bin":
        return ("bin", f["v"]) if f["v"] else None
    if f["k"] == "dense":
        return ("dense", f["dt"], np.array(f["v"], dtype=f["dt"]).tolist())
    return ("sparse", f["dt"], f["c"], np.array(f["v"], dtype=f["dt"]).tolist(), "int64")


def want_records(n):
    node = (n["id"], -1, n["type"], float(n["weight"]), strip(map(want_feature, n["features"])))
    edges = [
        (n["id"], e["dst"], e["type"], float(e["weight"]), strip(map(want_feature, e["features"])))
        for e in n["edges"]
    ]
    return node, edges


def check_node(text, got, n):
    node, edges = want_records(n)
    vp.require(len(got) >= 1, "nothing was decoded")
    equal(got[0], node, "decoded node record")
    tps = [g[2] for g in got[1:]]
    vp.require(tps == sorted(tps), f"decoded edges are not grouped by type: {tps}")
    gio.diff_list(sorted(map(repr, got[1:])), sorted(map(repr, edges)), "decoded edges")
    if edges or node[4]:
        c.note(text)


SYN = {"float64": "double", "float32": "float"}


@st.composite
def json_cases(draw):
    g = draw(conv.graphs_for("json", max_nodes=1, max_edges=5))
    return {
        "node": g["nodes"][0],
        "syn": draw(st.booleans()),
        "rev": draw(st.booleans()),
        "empties": draw(st.sampled_from([None, "empty", "null"])),
        "indent": draw(st.booleans()),
        "ascii": draw(st.booleans()),
    }


def json_body(case, d):
    n = case["node"]
    rec = gio.json_record(n)

    def tweak(r):
        if case["syn"]:
            r = {
                next((k.replace(a + "_", b + "_") for a, b in SYN.items() if k.endswith(a + "_feature")), k): v
                for k, v in r.items()
            }
        if case["empties"]:
            for k in ("uint64_feature", "float_feature", "binary_feature", "int8_feature", "sparse_int8_feature"):
                r.setdefault(k, {} if case["empties"] == "empty" else None)
        if case["rev"]:
            r = dict(reversed(list(r.items())))
        return r

    rec["edge"] = [tweak(e) for e in rec["edge"]]
    rec = tweak(rec)
    line = json.dumps(rec, ensure_ascii=case["ascii"], separators=(" , ", " : ") if case["indent"] else None)
    with sut("decoding"):
        got = norm_records(conv.decoder_for("json").decode(line))
    check_node(line, got, n)


@st.composite
def tsv_cases(draw):
    g = draw(conv.graphs_for("tsv", max_nodes=1, max_edges=5))
    n, short = g["nodes"][0], draw(st.booleans())
    if short:
        for x in [n] + n["edges"]:
            x["weight"] = draw(st.sampled_from([x["weight"], 0.0]))
    return {"node": n, "drop": draw(st.booleans()), "short": short}


def tsv_body(case, d):
    line = gio.tsv_line(case["node"], case["short"])
    if case["drop"]:
        line = line.rstrip("\t")
    with sut("decoding"):
        got = norm_records(conv.decoder_for("tsv").decode(line))
    check_node(line, got, case["node"])


@st.composite
def el_cases(draw):
    delim, ld, esc = draw(
        st.sampled_from([(",", "/", "\\"), ("\t", "/", "\\"), (";", ":", "\\"), ("|", ",", "^"), (" ", "/", "\\"), (",", ";", "!"), ("::", "/", "\\")])
    )
    text = "abcXYZ019_.é中" + "".join(x for x in ",;|/" if x not in (ld, esc))
    kinds = (gio.dense(), gio.binary(alphabet=text, lo=1), gio.sparse())
    g = draw(gio.graphs(kinds, max_nodes=1, max_edges=4))
    n = g["nodes"][0]
    opt = {"delimiter": delim, "length_delimiter": ld, "escape": esc}
    if draw(st.booleans()):
        opt["node_type"] = n["type"]
    if draw(st.booleans()):
        opt["node_weight"] = n["weight"]
    if draw(st.booleans()):
        opt["edge_type"] = draw(st.integers(0, 3))
        for e in n["edges"]:
            e["type"] = opt["edge_type"]
    if draw(st.booleans()):
        opt["edge_weight"] = draw(gio.weights)
        for e in n["edges"]:
            e["weight"] = opt["edge_weight"]
    # defaults for leading features: dtype and / or length, with gaps left to the line
    for side, owner in (("node", n["features"]), ("edge", None)):
        if not draw(st.booleans()):
            continue
        if side == "edge":
            proto = draw(st.lists(st.one_of(*kinds), min_size=1, max_size=2))
            for e in n["edges"]:
                e["features"] = [draw(like(p)) for p in proto]
            owner = proto
        k = draw(st.integers(0, len(owner)))
        types, lens = [], []
        for f in owner[:k]:
            if f is None:
                types.append("int32")
                lens.append([0])
                continue
            t = "binary" if f["k"] == "bin" else f["dt"]
            if f["k"] == "sparse":
                ln = [len(f["v"]), 0 if not isinstance(f["c"][0], list) else len(f["c"][0])]
            else:
                ln = [1 if f["k"] == "bin" else len(f["v"])]
            both = draw(st.integers(0, 3))
            types.append(t if both in (0, 1) else None)
            lens.append(ln if both in (0, 2) else None)
        opt[f"{side}_feature_types"] = types
        opt[f"{side}_feature_lens"] = lens
    return {"node": n, "opt": opt}


@st.composite
def like(draw, p):
    if p["k"] == "bin":
        return {"k": "bin", "v": draw(gio.strings("abcXYZ09_,|", 1, 6))}
    n = len(p["v"])
    v = draw(gio.values(p["dt"], n, n))
    if p["k"] == "dense":
        return dict(p, v=v)
    return dict(p, v=v)


def el_body(case, d):
    n, opt = case["node"], case["opt"]
    lines = gio.el_lines(n, opt)
    dec = conv.decoder_for("edgelist", opt)
    got = []
    with sut("decoding"):
        for line in lines:
            got += norm_records(dec.decode(line))
    check_node("\n".join(lines), got, n)


c.campaign("json", json_cases(), json_body, 1500, 20000)
c.campaign("tsv", tsv_cases(), tsv_body, 1500, 20000)
c.campaign("edgelist", el_cases(), el_body, 2000, 30000)

if __name__ == "__main__":
    c.main()
