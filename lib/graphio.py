"""Generated graphs, their text forms, and an independent reader of the binary form.

A graph is plain data:
  {"nodes": [{"id","type","weight","features":[..], "edges":[{"dst","type","weight","features":[..]}]}]}
A feature is None, {"k":"dense","dt":<numpy name>,"v":[..]}, {"k":"bin","v":str} or
{"k":"sparse","dt":..,"c":[..] or [[..]..],"v":[..]}.
Floats are dyadic, so that every textual and binary form of them is exact.
"""
import json
import os
import struct

from vp import st, Violation, require, equal, short

import numpy as np

INTS = {
    "int8": (-(2**7), 2**7 - 1),
    "uint8": (0, 2**8 - 1),
    "int16": (-(2**15), 2**15 - 1),
    "uint16": (0, 2**16 - 1),
    "int32": (-(2**31), 2**31 - 1),
    "uint32": (0, 2**32 - 1),
    "int64": (-(2**63), 2**63 - 1),
    "uint64": (0, 2**64 - 1),
}
FLOATS = {"float16": 64, "float32": 4096, "float64": 2**40}
DTYPES = list(INTS) + list(FLOATS)


def dyadic(limit, denom=8):
    return st.integers(-limit, limit).map(lambda x: x / denom)


def values(dt, lo=1, hi=5):
    if dt in INTS:
        a, b = INTS[dt]
        el = st.one_of(st.integers(max(a, -3), min(b, 3)), st.integers(a, b))
    else:
        el = dyadic(FLOATS[dt])
    return st.lists(el, min_size=lo, max_size=hi)


SAFE = "abcXYZ019 _-.é中🙂"


def strings(alphabet=SAFE, lo=0, hi=8):
    # no leading / trailing blanks: text formats may not preserve those
    return st.text(alphabet=alphabet, min_size=lo, max_size=hi).map(lambda s: s.strip())


@st.composite
def dense(draw, dtypes=tuple(DTYPES), lo=1, hi=5):
    dt = draw(st.sampled_from(list(dtypes)))
    return {"k": "dense", "dt": dt, "v": draw(values(dt, lo, hi))}


@st.composite
def binary(draw, alphabet=SAFE, lo=0, hi=8):
    return {"k": "bin", "v": draw(strings(alphabet, lo, hi))}


@st.composite
def sparse(draw, dtypes=tuple(DTYPES)):
    dt = draw(st.sampled_from(list(dtypes)))
    n = draw(st.integers(1, 4))
    v = draw(values(dt, n, n))
    dim = draw(st.integers(0, 3))
    coord = st.integers(0, 2**62)
    if dim == 0:
        c = draw(st.lists(coord, min_size=n, max_size=n))
    else:
        c = draw(st.lists(st.lists(coord, min_size=dim, max_size=dim), min_size=n, max_size=n))
    return {"k": "sparse", "dt": dt, "c": c, "v": v}


@st.composite
def feature_list(draw, kinds, hi=4):
    fs = draw(st.lists(st.one_of(st.none(), *kinds), max_size=hi))
    if hi > 1:
        # feature numbers with two digits are rare in small lists
        gap = draw(st.sampled_from([0] * 11 + [9]))
        if gap:
            fs += [None] * gap + [draw(st.one_of(*kinds))]
    while fs and fs[-1] is None:
        fs.pop()
    return fs


def node_ids():
    return st.one_of(st.integers(0, 30), st.integers(0, 30), st.integers(0, 2**63 - 1))


weights = st.one_of(st.integers(1, 64), st.integers(1, 64), st.integers(0, 64)).map(lambda x: x / 8)


@st.composite
def graphs(
    draw,
    kinds,
    max_nodes=7,
    max_edges=5,
    node_types=3,
    edge_types=3,
    min_nodes=1,
    multi=False,
    weight=weights,
    hi_features=4,
    edge_features=True,
):
    ids = draw(st.lists(node_ids(), min_size=min_nodes, max_size=max_nodes, unique=True))
    # type numbers with two digits
    wide = draw(st.sampled_from([[], [], [9, 10, 11]]))
    node_type = st.sampled_from(list(range(node_types)) + wide)
    edge_type = st.sampled_from(list(range(edge_types)) + wide)
    nodes = []
    for i in ids:
        edges = []
        n = draw(st.integers(0, max_edges))
        seen = set()
        for _ in range(n):
            dst = draw(st.one_of(st.sampled_from(ids), node_ids()))
            tp = draw(edge_type)
            if not multi and (dst, tp) in seen:
                continue
            seen.add((dst, tp))
            edges.append(
                {
                    "dst": dst,
                    "type": tp,
                    "weight": draw(weight),
                    "features": draw(feature_list(kinds, hi_features)) if edge_features else [],
                }
            )
        nodes.append(
            {
                "id": i,
                "type": draw(node_type),
                "weight": draw(weight),
                "features": draw(feature_list(kinds, hi_features)),
                "edges": edges,
            }
        )
    return {"nodes": nodes}


# ------------------------------------------------------------------- text forms
def _json_features(fs):
    out = {}
    for i, f in enumerate(fs):
        if f is None:
            continue
        if f["k"] == "bin":
            out.setdefault("binary_feature", {})[str(i)] = f["v"]
        elif f["k"] == "dense":
            out.setdefault(f"{f['dt']}_feature", {})[str(i)] = f["v"]
        elif f["k"] == "dated":
            key, items = None, []
            for it in f["v"]:
                x = it["f"]
                if x["k"] == "bin":
                    key, rec = "binary_feature", {"values": [x["v"]]}
                elif x["k"] == "dense":
                    key, rec = f"{x['dt']}_feature", {"values": x["v"]}
                else:
                    key, rec = f"sparse_{x['dt']}_feature", {"coordinates": x["c"], "values": x["v"]}
                if not it.get("implicit"):
                    rec["created_at"] = it["created_at"]
                if it.get("removed_at") is not None:
                    rec["removed_at"] = it["removed_at"]
                items.append(rec)
            out.setdefault(key, {})[str(i)] = items
        else:
            out.setdefault(f"sparse_{f['dt']}_feature", {})[str(i)] = {
                "coordinates": f["c"],
                "values": f["v"],
            }
    return out


def json_record(n):
    rec = {"node_id": n["id"], "node_type": n["type"], "node_weight": n["weight"]}
    for k in ("created_at", "removed_at"):
        if k in n and n[k] is not None:
            rec[k] = n[k]
    rec.update(_json_features(n["features"]))
    rec["edge"] = []
    for e in n["edges"]:
        er = {"src_id": n["id"], "dst_id": e["dst"], "edge_type": e["type"], "weight": e["weight"]}
        for k in ("created_at", "removed_at"):
            if k in e and e[k] is not None:
                er[k] = e[k]
        er.update(_json_features(e["features"]))
        rec["edge"].append(er)
    return rec


def json_line(n):
    return json.dumps(json_record(n))


TSV_KEYS = {
    "int8": "i8", "int16": "i16", "int32": "i32", "int64": "i64",
    "uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64",
    "float16": "f16", "float32": "f", "float64": "d",
}


def _tsv_features(fs):
    parts = []
    for f in fs:
        if f is None:
            parts.append("")
        elif f["k"] == "bin":
            parts.append("b:" + f["v"])
        else:
            parts.append(TSV_KEYS[f["dt"]] + ":" + " ".join(repr(x) for x in f["v"]))
    return ";".join(parts)


def tsv_line(n, short=False):
    """One TSV line; a short one leaves out types and weights equal to 0 and columns at the end of neighbors."""

    def cols(i, x):
        t, w = str(x["type"]), repr(x["weight"])
        if short:
            t, w = t if x["type"] else "", w if x["weight"] else ""
        return [str(i), t, w, _tsv_features(x["features"])]

    nb = [",".join(cols(e["dst"], e)) for e in n["edges"]]
    if short:
        nb = [x.rstrip(",") for x in nb]
    return "\t".join(cols(n["id"], n) + ["|".join(nb)])


def _el_features(fs, opt, side):
    d = opt.get("delimiter", ",")
    ld = opt.get("length_delimiter", "/")
    esc = opt.get("escape", "\\")
    types = opt.get(f"{side}_feature_types")
    lens = opt.get(f"{side}_feature_lens")
    cols = []
    for i, f in enumerate(fs):
        have_t = types is not None and i < len(types) and types[i] is not None
        have_l = lens is not None and i < len(lens) and lens[i] is not None
        if f is None:
            if not have_t:
                cols.append("int32")
            if not have_l:
                cols.append("0")
            continue
        if f["k"] == "bin":
            if not have_t:
                cols.append("binary")
            if not have_l:
                cols.append("1")
            cols.append(f["v"].replace(d, esc + d))
        elif f["k"] == "dense":
            if not have_t:
                cols.append(f["dt"])
            if not have_l:
                cols.append(str(len(f["v"])))
            cols.extend(repr(x) for x in f["v"])
        else:
            flat = not isinstance(f["c"][0], list)
            dim = 0 if flat else len(f["c"][0])
            if not have_t:
                cols.append(f["dt"])
            if not have_l:
                cols.append(f"{len(f['v'])}{ld}{dim}")
            cs = f["c"] if flat else [x for row in f["c"] for x in row]
            cols.extend(str(x) for x in cs)
            cols.extend(repr(x) for x in f["v"])
    return cols


def el_node_line(n, opt=None):
    opt = opt or {}
    cols = [str(n["id"]), "-1"]
    if opt.get("node_type") is None:
        cols.append(str(n["type"]))
    if opt.get("node_weight") is None:
        cols.append(repr(n["weight"]))
    cols += _el_time(n, opt)
    return opt.get("delimiter", ",").join(cols + _el_features(n["features"], opt, "node"))


def el_edge_line(n, e, opt=None):
    opt = opt or {}
    cols = [str(n["id"])]
    if opt.get("edge_type") is None:
        cols.append(str(e["type"]))
    cols.append(str(e["dst"]))
    if opt.get("edge_weight") is None:
        cols.append(repr(e["weight"]))
    cols += _el_time(e, opt)
    return opt.get("delimiter", ",").join(cols + _el_features(e["features"], opt, "edge"))


def _el_time(x, opt):
    if not opt.get("temporal"):
        return []
    cols = []
    if opt.get("created_at") is None:
        cols.append(str(x["created_at"]))
    if opt.get("removed_at") is None:
        cols.append(str(x["removed_at"]))
    return cols


def el_lines(n, opt=None):
    return [el_node_line(n, opt)] + [
        el_edge_line(n, e, opt) for e in sorted(n["edges"], key=lambda e: e["type"])
    ]


# ------------------------------------------------------------------- expected bytes
def feature_bytes(f):
    if f is None:
        return b""
    if f["k"] == "bin":
        return f["v"].encode("utf-8")
    if f["k"] == "dense":
        return np.array(f["v"], dtype=f["dt"]).tobytes()
    if f["k"] == "dated":
        return dated_bytes(f)
    flat = not isinstance(f["c"][0], list)
    dim = 1 if flat else len(f["c"][0])
    cs = f["c"] if flat else [x for row in f["c"] for x in row]
    return (
        struct.pack("=II", len(cs), dim)
        + np.array(cs, dtype=np.int64).tobytes()
        + np.array(f["v"], dtype=f["dt"]).tobytes()
    )


def intervals(f):
    """Values of a dated feature with the moments they start at."""
    return [(it["created_at"], it["f"]) for it in sorted(f["v"], key=lambda x: x["created_at"])]


def value_at(f, ts):
    """Value of a dated feature at a moment: the latest one that is not newer."""
    best = None
    for start, v in intervals(f) if f else ():
        if start <= ts:
            best = v
    return best


def dated_bytes(f):
    items = intervals(f)
    n = len(items)
    blobs = [feature_bytes(v) for _, v in items]
    offs = []
    pos = 4 + 8 * (2 * n + 1)
    for b in blobs:
        offs.append(pos)
        pos += len(b)
    return (
        struct.pack("=i", n)
        + b"".join(struct.pack("=q", t) for t, _ in items)
        + b"".join(struct.pack("=q", o) for o in offs)
        + struct.pack("=q", pos)
        + b"".join(blobs)
        + b"\0" * 8
    )


@st.composite
def dated(draw, inner, times):
    """1-4 values with creation times drawn from `times`; a removal time, when given, is the
    creation of the next value or far after every query (what holds in between is not specified)."""
    ts = sorted(draw(st.lists(times, min_size=1, max_size=4, unique=True)))
    items = []
    for i, t in enumerate(ts):
        it = {"created_at": t, "f": draw(inner)}
        if draw(st.sampled_from([False, False, True])):
            it["removed_at"] = ts[i + 1] if i + 1 < len(ts) else t + 2**42
        items.append(it)
    return {"k": "dated", "v": list(draw(st.permutations(items)))}


def imply(f, created_at, flag):
    """Let the first value start with its owner, without saying so in the input."""
    if f and f["k"] == "dated" and flag:
        first = min(f["v"], key=lambda x: x["created_at"])
        rest = [x["created_at"] for x in f["v"] if x is not first]
        if first.get("removed_at", created_at + 1) > created_at and (not rest or created_at < min(rest)):
            first["created_at"] = created_at
            first["implicit"] = True


def f32(x):
    return struct.unpack("=f", struct.pack("=f", x))[0]


def strip_feats(bs):
    bs = list(bs)
    while bs and bs[-1] == b"":
        bs.pop()
    return tuple(bs)


# ------------------------------------------------------------------- binary reader
class Partition:
    pass


def _u64s(path):
    with open(path, "rb") as f:
        b = f.read()
    require(len(b) % 8 == 0, f"{os.path.basename(path)} has {len(b)} bytes, not a multiple of 8")
    return list(struct.unpack(f"={len(b)//8}Q", b))


def read_partition(folder, p):
    """Decode one partition from its documented layout, checking internal consistency."""
    def path(name):
        fp = os.path.join(folder, name)
        require(os.path.exists(fp), f"missing file {name}")
        return fp

    out = Partition()
    with open(path(f"node_{p}_0.map"), "rb") as f:
        b = f.read()
    require(len(b) % 20 == 0, "node map is not a whole number of records")
    rows = [struct.unpack("=QQi", b[i : i + 20]) for i in range(0, len(b), 20)]
    equal([r[1] for r in rows], list(range(len(rows))), "node map row numbers")
    ni = _u64s(path(f"node_{p}_0.index"))
    nfi = _u64s(path(f"node_features_{p}_0.index"))
    with open(path(f"node_features_{p}_0.data"), "rb") as f:
        nfd = f.read()
    nbi = _u64s(path(f"neighbors_{p}_0.index"))
    with open(path(f"edge_{p}_0.index"), "rb") as f:
        eb = f.read()
    require(len(eb) % 24 == 0, "edge index is not a whole number of records")
    erows = [struct.unpack("=QQif", eb[i : i + 24]) for i in range(0, len(eb), 24)]
    efi = _u64s(path(f"edge_features_{p}_0.index"))
    with open(path(f"edge_features_{p}_0.data"), "rb") as f:
        efd = f.read()
    equal(len(ni), len(rows) + 1, "node index length")
    equal(len(nbi), len(rows) + 1, "neighbor index length")
    require(len(erows) >= 1, "edge index misses the closing record")
    equal(nbi[-1], len(erows) - 1, "last neighbor offset vs edge count")
    for name, idx, data in (("node", nfi, nfd), ("edge", efi, efd)):
        require(len(idx) >= 1 and idx[-1] == len(data), f"{name} feature index does not end at the data size")
        require(all(a <= b for a, b in zip(idx, idx[1:])), f"{name} feature index decreases")
    equal(ni[-1], len(nfi) - 1, "last node index vs feature index")
    equal(erows[-1][1], len(efi) - 1, "closing edge record vs edge feature index")
    ts = None
    tp = os.path.join(folder, f"edge_{p}_0.timestamp")
    if os.path.exists(tp):
        with open(tp, "rb") as f:
            tb = f.read()
        equal(len(tb), 8 + 16 * (len(erows) - 1), "timestamp file size")
        out.watermark = struct.unpack("=q", tb[:8])[0]
        ts = [struct.unpack("=qq", tb[8 + 16 * i : 24 + 16 * i]) for i in range(len(erows) - 1)]
    out.temporal = ts is not None
    out.nodes = []
    for r, (nid, _, ntype) in enumerate(rows):
        require(ni[r] <= ni[r + 1] and nbi[r] <= nbi[r + 1], "index decreases")
        feats = tuple(nfd[nfi[i] : nfi[i + 1]] for i in range(ni[r], ni[r + 1]))
        edges = []
        for e in range(nbi[r], nbi[r + 1]):
            dst, fo, tp_, w = erows[e]
            fe = erows[e + 1][1]
            edges.append(
                {
                    "dst": dst,
                    "type": tp_,
                    "weight": w,
                    "features": tuple(efd[efi[i] : efi[i + 1]] for i in range(fo, fe)),
                    "ts": ts[e] if ts is not None else None,
                }
            )
        tps = [e["type"] for e in edges]
        require(tps == sorted(tps), f"edges of node {nid} are not grouped by type: {tps}")
        out.nodes.append({"id": nid, "type": ntype, "features": feats, "edges": edges})
    return out


def read_alias(folder, element, tp, p):
    fmt = "=qqf" if element == "node" else "=qqqqf"
    size = struct.calcsize(fmt)
    path = os.path.join(folder, f"{element}_{tp}_{p}.alias")
    require(os.path.exists(path), f"missing alias file {os.path.basename(path)}")
    with open(path, "rb") as f:
        b = f.read()
    require(len(b) % size == 0, "alias file is not a whole number of records")
    return [struct.unpack(fmt, b[i : i + size]) for i in range(0, len(b), size)]


# ------------------------------------------------------------------- comparison
def expected_nodes(graph):
    return {
        n["id"]: (n["type"], strip_feats(feature_bytes(f) for f in n["features"]))
        for n in graph["nodes"]
    }


def expected_edges(graph, with_ts=None):
    out = []
    for n in graph["nodes"]:
        for e in n["edges"]:
            rec = (n["id"], e["dst"], e["type"], f32(e["weight"]), strip_feats(feature_bytes(f) for f in e["features"]))
            if with_ts:
                rec += (with_ts(n, e),)
            out.append(rec)
    return sorted(out)


def actual_nodes(parts):
    out = {}
    for p in parts:
        for n in p.nodes:
            if n["type"] == -1:
                require(not any(n["features"]), f"edge-only row of node {n['id']} has features")
                continue
            require(n["id"] not in out, f"node {n['id']} stored twice")
            out[n["id"]] = (n["type"], strip_feats(n["features"]))
    return out


def actual_edges(parts, ts=False):
    out = []
    for p in parts:
        for n in p.nodes:
            for e in n["edges"]:
                rec = (n["id"], e["dst"], e["type"], e["weight"], strip_feats(e["features"]))
                if ts:
                    rec += (e["ts"],)
                out.append(rec)
    return sorted(out)


def diff_list(got, want, what):
    if got == want:
        return
    from collections import Counter

    g, w = Counter(got), Counter(want)
    extra, missing = list((g - w).elements()), list((w - g).elements())
    if extra or missing:
        raise Violation(f"{what}: missing {short(missing)}; unexpected {short(extra)}")
    raise Violation(f"{what}: order differs: {short(got)} vs {short(want)}")
