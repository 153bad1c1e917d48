"""C06: input that contradicts itself is refused instead of being stored as something else."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, require

vp.silence_logging()
import conv
import graphio as gio

c = Check(
    "C06",
    "a case is a valid generated graph plus one injected defect (edge created before / removed after its node, "
    "edges of a node not in type order in an edge list, coordinates and values of a sparse feature disagreeing in "
    "number, too few values or columns, truncated or non-JSON line, missing required field, "
    "missing node id) at a generated position; writing it with the single-process converter must raise, and the same "
    "graph without the defect must convert. Non-trivial: the valid graph converts and the defect is placed.",
    ["errors surface in single-process (debug) conversion; parallel ones are documented to stall and must not finish"],
)
KINDS = (gio.dense(), gio.binary(lo=1), gio.sparse())
DEFECTS = [
    "early_edge", "late_edge", "sparse_mismatch", "truncate", "not_json", "missing_field", "bad_feature_type",
]
EL_DEFECTS = ["type_order", "short_dense", "non_number", "short_line", "bad_dtype"]
TSV_DEFECTS = ["no_id", "non_number", "bad_weight", "neighbor_no_id"]


@st.composite
def cases(draw, fmt):
    ks = {"json": KINDS, "edgelist": conv.ELK, "tsv": conv.TSVK}[fmt]
    g = draw(gio.graphs(ks, max_nodes=4, max_edges=3, hi_features=2))
    return {
        "fmt": fmt,
        "graph": g,
        "defect": draw(st.sampled_from({"json": DEFECTS, "edgelist": EL_DEFECTS, "tsv": TSV_DEFECTS}[fmt])),
        "pos": draw(st.integers(0, 50)),
        "aux": draw(st.integers(0, 50)),
        "edge": draw(st.booleans()),
    }


def inject_json(case):
    nodes = case["graph"]["nodes"]
    recs = [gio.json_record(n) for n in nodes]
    i = case["pos"] % len(recs)
    r = recs[i]
    kind, aux = case["defect"], case["aux"]
    if not r["edge"] and (case["edge"] or kind in ("early_edge", "late_edge")):
        r["edge"].append({"src_id": r["node_id"], "dst_id": 3, "edge_type": 0, "weight": 1.0})
    e = r["edge"][aux % len(r["edge"])] if r["edge"] else None
    target = e if case["edge"] and e is not None else r
    if kind == "early_edge":
        r["created_at"] = 10 + aux
        for x in r["edge"]:
            x["created_at"] = 10 + aux
        e["created_at"] = 9 + aux - (case["pos"] % 9)
    elif kind == "late_edge":
        r["removed_at"] = 10 + aux
        for x in r["edge"]:
            x["removed_at"] = 10 + aux
        e["removed_at"] = 11 + aux + case["pos"]
    elif kind == "sparse_mismatch":
        n = 2 + aux % 3
        k = (n + 1) if case["pos"] % 2 else n - 1
        co = [[1, 2]] * k if aux % 2 else list(range(k))
        target.setdefault("sparse_int32_feature", {})["5"] = {"coordinates": co, "values": [7] * n}
    elif kind == "missing_field":
        keys = ["src_id", "dst_id", "edge_type", "weight"] if target is e else ["node_id", "node_type", "node_weight"]
        del target[keys[aux % len(keys)]]
    elif kind == "bad_feature_type":
        target["complex_feature"] = {"0": [1, 2]}
    lines = [json.dumps(x) for x in recs]
    if kind == "truncate":
        lines[i] = lines[i][: 1 + aux * (len(lines[i]) - 2) // 50]
    elif kind == "not_json":
        lines[i] = ["hello", "1,2,3", "{]", "[1"][aux % 4]
    return lines


def inject_el(case):
    nodes = [dict(n, edges=list(n["edges"])) for n in case["graph"]["nodes"]]
    i = case["pos"] % len(nodes)
    n = nodes[i]
    kind, aux = case["defect"], case["aux"]
    if kind == "type_order":
        hi = 1 + aux % 3
        n["edges"] = sorted(n["edges"], key=lambda e: e["type"]) + [
            {"dst": 5, "type": hi + max([e["type"] for e in n["edges"]] + [0]), "weight": 1.0, "features": []},
        ]
        lines = [x for m in nodes[:i] for x in gio.el_lines(m)]
        lines += gio.el_lines(n) + [gio.el_edge_line(n, {"dst": 6, "type": n["edges"][-1]["type"] - 1, "weight": 1.0, "features": []})]
        return lines + [x for m in nodes[i + 1 :] for x in gio.el_lines(m)]
    lines = [gio.el_lines(m) for m in nodes]
    mine = lines[i]
    j = aux % len(mine)
    if kind == "short_dense":
        mine[j] += ",int32,3,1,2"
    elif kind == "non_number":
        mine[j] += ",float32,2,1.5,abc"
    elif kind == "short_line":
        mine[j] = ",".join(mine[j].split(",")[: 1 + aux % 3])
    elif kind == "bad_dtype":
        mine[j] += ",int33,1,4"
    return [x for m in lines for x in m]


def inject_tsv(case):
    lines = [gio.tsv_line(n) for n in case["graph"]["nodes"]]
    i = case["pos"] % len(lines)
    cols = lines[i].split("\t")
    kind = case["defect"]
    if kind == "no_id":
        cols[0] = ""
        if not any(cols[1:]):
            cols[1] = "1"
    elif kind == "non_number":
        cols[0] = "abc"
    elif kind == "bad_weight":
        cols[2] = "x1"
    else:
        cols[4] = (cols[4] + "|" if cols[4] else "") + ",0,1.0,"
    lines[i] = "\t".join(cols)
    return lines


def run(lines, fmt, d, name):
    from deepgnn.graph_engine.snark.converter.writers import BinaryWriter

    out = os.path.join(d, name)
    os.makedirs(out)
    w = BinaryWriter(out, 0, watermark=0)
    dec = conv.decoder_for(fmt)
    for line in lines:
        w.add(dec.decode(line))
    w.close()


def body(case, d):
    fmt = case["fmt"]
    good = [x for n in case["graph"]["nodes"] for x in conv.lines_for(fmt, n)]
    with sut("writing a valid graph"):
        run(good, fmt, d, "good")
    bad = {"json": inject_json, "edgelist": inject_el, "tsv": inject_tsv}[fmt](case)
    try:
        run(bad, fmt, d, "bad")
    except Exception:
        c.note(case)
        return
    raise vp.Violation(f"input with defect '{case['defect']}' was accepted: {vp.short(bad)}")


c.campaign("json", cases("json"), body, 600, 8000)
c.campaign("edgelist", cases("edgelist"), body, 300, 4000)
c.campaign("tsv", cases("tsv"), body, 200, 2000)


@st.composite
def conv_cases(draw):
    case = draw(cases("json"))
    return case


def conv_body(case, d):
    """Same through the converter in its debug mode."""
    import contextlib
    import io

    from deepgnn.graph_engine.snark.convert import MultiWorkersConverter

    bad = inject_json(case)
    p = os.path.join(d, "in.json")
    with open(p, "w") as f:
        f.write("\n".join(bad) + "\n")
    out = os.path.join(d, "out")
    os.makedirs(out)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            MultiWorkersConverter(
                graph_path=p, output_dir=out, decoder=conv.decoder_for("json"), debug=True, watermark=0, thread_count=1
            ).convert()
        except Exception:
            require(not os.path.exists(os.path.join(out, "meta.json")), "metadata written for refused input")
            c.note(("conv", case))
            return
    raise vp.Violation(f"converter accepted input with defect '{case['defect']}'")


c.campaign("converter", conv_cases(), conv_body, 80, 800)



@st.composite
def par_cases(draw):
    fmt = draw(st.sampled_from(["json", "edgelist", "tsv"]))
    case = draw(cases(fmt))
    case["partitions"] = draw(st.integers(1, 3))
    return case


def par_body(case, d):
    """Parallel conversions are documented to stall on errors; they must not finish as if nothing happened."""
    import threading

    from deepgnn.graph_engine.snark.convert import MultiWorkersConverter

    fmt = case["fmt"]
    bad = {"json": inject_json, "edgelist": inject_el, "tsv": inject_tsv}[fmt](case)
    if fmt == "edgelist" and (case["defect"] == "type_order" and case["partitions"] > 1):
        return  # neighboring lines go to different partitions, order is fine in each of them
    p = os.path.join(d, "in.txt")
    with open(p, "w") as f:
        f.write("\n".join(bad) + "\n")
    out = os.path.join(d, "out")
    os.makedirs(out)
    box = {}
    del vp._thread_errors[:]

    def go():
        try:
            MultiWorkersConverter(
                graph_path=p, output_dir=out, decoder=conv.decoder_for(fmt), partition_count=case["partitions"], watermark=0, thread_count=1
            ).convert()
            box["ok"] = True
        except Exception as e:
            box["err"] = e

    t = threading.Thread(target=go, daemon=True)
    t.start()
    idle, cpu = 0, vp._cpu()
    while t.is_alive() and not vp._thread_errors and idle < 200:
        t.join(0.02)
        now = vp._cpu()
        idle, cpu = (idle + 1 if now - cpu < 0.005 else 0), now
    t.join(0.02)
    require("ok" not in box, f"parallel conversion accepted input with defect '{case['defect']}': {vp.short(bad)}")
    require(not os.path.exists(os.path.join(out, "meta.json")), "metadata written for refused input")
    c.note(("par", case))


c.campaign("parallel", par_cases(), par_body, 60, 300)

if __name__ == "__main__":
    c.main()
