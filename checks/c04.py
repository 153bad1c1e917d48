"""C04: sampling tables written next to the graph draw every element in proportion to its weight."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require

vp.silence_logging()
import conv
import graphio as gio
import numpy as np

c = Check(
    "C04",
    "tables: a generated weight list (1-200 elements; equal, skewed up to 1:2^20, zeros among positive ones) given to "
    "the table builder; the exact probability of every element follows from the table and is compared with its share "
    "of the weight (relative 1e-3 of 1/n). files: the alias files of a converted multi-type, multi-partition graph, "
    "same comparison per type and partition. draws: counts of 4000 draws against a 7-sigma band. "
    "Non-trivial: at least two elements with different weights; distinct by input.",
    ["weights of one type are not all zero"],
)


def exact(prob, alias, n):
    p = [0.0] * n
    for i in range(n):
        pr = float(prob[i])
        require(0.0 <= pr <= 1.0 + 1e-6, f"threshold {pr} outside [0, 1]")
        p[i] += pr / n
        if pr < 1.0:
            require(0 <= int(alias[i]) < n, f"alias {int(alias[i])} outside of the table of {n}")
            p[int(alias[i])] += (1 - pr) / n
    return p


@st.composite
def weight_lists(draw):
    kind = draw(st.sampled_from(["small", "skewed", "zeros", "equal", "long"]))
    if kind == "small":
        w = draw(st.lists(st.integers(1, 40).map(lambda x: x / 4), min_size=1, max_size=12))
    elif kind == "skewed":
        w = draw(st.lists(st.integers(0, 20).map(lambda x: float(2**x)), min_size=1, max_size=30))
    elif kind == "zeros":
        w = draw(st.lists(st.integers(0, 3).map(float), min_size=1, max_size=20))
        if sum(w) == 0:
            w[draw(st.integers(0, len(w) - 1))] = 1.0
    elif kind == "equal":
        w = [draw(st.sampled_from([0.1, 1.0, 3.0, 7.0]))] * draw(st.integers(1, 60))
    else:
        n = draw(st.integers(50, 200))
        r = random.Random(draw(st.integers(0, 10**6)))
        w = [r.choice([0.0, 0.5, 1.0, 2.0, 100.0]) for _ in range(n)]
        w[0] = 1.0
    return {"w": w}


def check_share(p, w, what):
    n = len(w)
    tot = sum(w)
    for i in range(n):
        want = w[i] / tot
        require(
            abs(p[i] - want) <= 2e-3 / n + 1e-4 * want,
            lambda: f"{what}: element {i} of {n} drawn with probability {p[i]}, weight share {want}; weights {vp.short(w)}",
        )


def table_body(case, d):
    from deepgnn.graph_engine.snark.alias import Vose

    w = case["w"]
    with sut("building the table"):
        els = [1000 + i for i in range(len(w))]
        v = Vose(els, np.array(w, dtype=np.float32))
    equal(len(v.prob), len(w), "table size")
    check_share(exact(v.prob, v.alias, len(w)), [float(x) for x in w], "table")
    if len(set(w)) > 1:
        c.note(("t", w))


def draw_body(case, d):
    from deepgnn.graph_engine.snark.alias import Vose

    w = case["w"]
    els = [1000 + i for i in range(len(w))]
    v = Vose(els, np.array(w, dtype=np.float32))
    n = 4000
    cnt = {e: 0 for e in els}
    with sut("drawing"):
        for _ in range(n):
            e = v.sample()
            require(e in cnt, f"drew {e}, which is not an element")
            cnt[e] += 1
    tot = sum(w)
    for e, x in zip(els, w):
        p = x / tot
        require(x > 0 or cnt[e] == 0, f"element with zero weight drawn {cnt[e]} times")
        sd = (n * p * (1 - p)) ** 0.5
        require(abs(cnt[e] - n * p) <= 7 * sd + 10, f"element of share {p} drawn {cnt[e]} of {n} times")
    if len(set(w)) > 1:
        c.note(("d", w))


@st.composite
def file_cases(draw):
    g = draw(gio.graphs((gio.dense(),), max_nodes=12, max_edges=6, hi_features=1, multi=True))
    return {
        "graph": g,
        "partitions": draw(st.integers(1, 4)),
        "fmt": draw(st.sampled_from(["json", "edgelist", "tsv"])),
        "skip_node": draw(st.sampled_from([False, False, False, True])),
        "skip_edge": draw(st.sampled_from([False, False, False, True])),
    }


def shares(rows, k):
    """rows of (element, other, threshold) -> probability per element."""
    p = {}
    n = len(rows)
    for el, other, pr in rows:
        require(0.0 <= pr <= 1.0 + 1e-6, f"threshold {pr} outside [0, 1]")
        p[el] = p.get(el, 0.0) + min(pr, 1.0) / n
        if pr < 1.0:
            p[other] = p.get(other, 0.0) + (1 - pr) / n
    return p


def file_body(case, d):
    g, parts_n = case["graph"], case["partitions"]
    src, out = os.path.join(d, "in"), os.path.join(d, "out")
    conv.write_files(g, case["fmt"], src, 1)
    conv.convert(
        src, out, conv.decoder_for(case["fmt"]), parts_n,
        skip_node_sampler=case["skip_node"], skip_edge_sampler=case["skip_edge"],
    )
    nw = {n["id"]: n["weight"] for n in g["nodes"]}
    nt = max(n["type"] for n in g["nodes"]) + 1
    et = max([e["type"] for n in g["nodes"] for e in n["edges"]] + [-1]) + 1
    parts = conv.read_parts(out, parts_n)
    for p, part in enumerate(parts):
        for element, types, skip in (("node", nt, case["skip_node"]), ("edge", et, case["skip_edge"])):
            for t in range(types):
                fp = os.path.join(out, f"{element}_{t}_{p}.alias")
                if skip:
                    require(not os.path.exists(fp), "sampling table written although it was to be skipped")
                    continue
                rows = gio.read_alias(out, element, t, p)
                want = {}
                count = 0
                for n in part.nodes:
                    if element == "node":
                        if n["type"] == t:
                            want[n["id"]] = want.get(n["id"], 0) + nw[n["id"]]
                            count += 1
                    else:
                        for e in n["edges"]:
                            if e["type"] == t:
                                k = (n["id"], e["dst"])
                                want[k] = want.get(k, 0) + e["weight"]
                                count += 1
                if element == "node":
                    rows = [(a, b, pr) for a, b, pr in rows]
                else:
                    rows = [((a, b), (x, y), pr) for a, b, x, y, pr in rows]
                equal(len(rows), count, f"rows of the {element} table, type {t}, partition {p}")
                got = shares(rows, count)
                tot = sum(want.values())
                require(set(got) <= set(want), lambda: f"{element} table contains unknown elements {set(got) - set(want)}")
                for k, x in want.items() if tot else ():
                    require(
                        abs(got.get(k, 0) - x / tot) <= 2e-3 / count + 1e-4,
                        f"{element} {k} type {t} partition {p}: probability {got.get(k)} for a weight share of {x / tot}",
                    )
                if len(set(want.values())) > 1:
                    c.note(("f", case))


c.campaign("tables", weight_lists(), table_body, 3000, 40000)
c.campaign("draws", weight_lists(), draw_body, 150, 1000)
c.campaign("files", file_cases(), file_body, 120, 1500)

if __name__ == "__main__":
    c.main()
