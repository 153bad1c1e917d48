"""C07: how conversion work is spread over partitions, workers, threads and processes does not change the graph."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require, run_blocking

vp.silence_logging()
import conv
import graphio as gio

from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
from deepgnn.graph_engine.snark.dispatcher import PipeDispatcher, QueueDispatcher
from deepgnn.graph_engine.snark.decoders import JsonDecoder

c = Check(
    "C07",
    "a case is a graph of up to 150 nodes (structure drawn from a generated seed) converted in two generated layouts: "
    "partitions 1-6, workers 1-4, order of workers, reader threads, lines per step, pipe / queue dispatcher on threads "
    "or processes, custom partition function, single-process mode, decoder object or class; node set, edge multiset, "
    "features and totals must be the same, each worker may only write its own partitions, and a partition function "
    "decides where each record goes. Non-trivial: layouts differ and the graph has edges.",
)


def build(seed, n):
    r = random.Random(seed)
    # some types are rare: not every partition sees them
    rare = r.choice([0.03, 0.1, 0.5])
    node_types, edge_types = r.randint(1, 4), r.randint(1, 4)

    def pick(top):
        return r.randrange(top) if r.random() < rare else 0

    nodes = []
    for i in range(n):
        nodes.append(
            {
                "id": i * 3 + 1,
                "type": pick(node_types),
                "weight": r.randrange(1, 9) / 4,
                "features": [{"k": "dense", "dt": "float32", "v": [i, r.randrange(100) / 4]}, None, {"k": "bin", "v": f"n{i}"}][: r.choice([1, 3])],
                "edges": [
                    {"dst": r.randrange(n) * 3 + 1, "type": pick(edge_types), "weight": r.randrange(1, 9) / 4,
                     "features": [{"k": "dense", "dt": "int16", "v": [i, k]}] if r.random() < 0.5 else []}
                    for k in range(r.choice([0, 1, 2, 5]))
                ],
            }
        )
    return {"nodes": nodes}


@st.composite
def layouts(draw, procs):
    mode = draw(st.sampled_from(["plain", "plain", "pipe", "queue", "debug", "class"]))
    workers = draw(st.integers(1, 4)) if mode in ("plain", "class") else 1
    return {
        "mode": mode,
        "workers": workers,
        "parts": workers * draw(st.integers(1, 3)) if mode != "debug" else 1,
        "threads": draw(st.integers(1, 4)),
        "step": draw(st.sampled_from([1, 7, 512])),
        "rot": draw(st.integers(0, 3)),
        "procs": procs,
        "mod": draw(st.integers(1, 9)),
    }


@st.composite
def cases(draw, procs=False):
    return {
        "seed": draw(st.integers(0, 10**6)),
        "n": draw(st.integers(4, 150)),
        "a": draw(layouts(procs)),
        "b": draw(layouts(procs)),
    }


class Mod:
    def __init__(self, mod, parts):
        self.mod, self.parts, self.k = mod, parts, -1

    def __call__(self, line):
        # every partition is used at least once, later lines go by content
        self.k += 1
        if self.k < self.parts:
            return self.k
        return (len(line) * self.mod) % self.parts


def run(g, lay, d, tag):
    src, out = os.path.join(d, "in" + tag), os.path.join(d, "out" + tag)
    conv.write_files(g, "json", src, max(4, lay["workers"]))
    os.makedirs(out)
    parts, w = lay["parts"], lay["workers"]
    kw = dict(record_per_step=lay["step"], buffer_size=1, thread_count=lay["threads"])
    want_place = None

    def go():
        if lay["mode"] in ("plain", "class"):
            seen = set()
            for i in range(w):
                wi = (i + lay["rot"]) % w
                dec = JsonDecoder if lay["mode"] == "class" else JsonDecoder()
                before = set(os.listdir(out))
                MultiWorkersConverter(
                    graph_path=src, output_dir=out, decoder=dec, partition_count=parts, worker_index=wi, worker_count=w, **kw
                ).convert()
                new = set(os.listdir(out)) - before
                own = {int(x[: -len(".map")].split("_")[1]) for x in new if x.endswith(".map")}
                per = parts // w
                equal(own, set(range(wi * per, (wi + 1) * per)), f"partitions written by worker {wi} of {w}")
                seen |= own
            equal(seen, set(range(parts)), "partitions written")
            return
        if lay["mode"] == "debug":
            import contextlib
            import io

            with contextlib.redirect_stdout(io.StringIO()):
                MultiWorkersConverter(graph_path=src, output_dir=out, decoder=JsonDecoder(), debug=True, **kw).convert()
            return
        if lay["mode"] == "pipe":
            disp = PipeDispatcher(out, parts, JsonDecoder(), use_threads=not lay["procs"])
        else:
            disp = QueueDispatcher(out, parts, Mod(lay["mod"], parts), JsonDecoder(), use_threads=not lay["procs"])
        MultiWorkersConverter(graph_path=src, output_dir=out, decoder=JsonDecoder(), partition_count=parts, dispatcher=disp, **kw).convert()

    with sut("conversion"):
        run_blocking(go, "conversion")
    ps = conv.read_parts(out, parts)
    if lay["mode"] == "queue":
        m = Mod(lay["mod"], parts)
        place = {n["id"]: m(gio.json_line(n)) for n in g["nodes"]}
        got = {n["id"]: i for i, p in enumerate(ps) for n in p.nodes}
        equal(got, place, "partition chosen by the partition function")
    if w == 1:
        m = conv.read_meta(out)
        conv.check_meta(m, g, ps)
        for kind in ("node", "edge"):
            want = {f"{kind}_{t}_{p}.alias" for t in range(m[f"{kind}_type_count"]) for p in range(parts)}
            equal({f for f in os.listdir(out) if f.startswith(kind) and f.endswith(".alias")}, want, f"{kind} sampler files")
    return gio.actual_nodes(ps), gio.actual_edges(ps)


def body(case, d):
    g = build(case["seed"], max(case["n"], 10))
    na, ea = run(g, case["a"], d, "a")
    nb, eb = run(g, case["b"], d, "b")
    want = gio.expected_nodes(g)
    for tag, nn in (("first", na), ("second", nb)):
        gio.diff_list(sorted(nn.items()), sorted(want.items()), f"nodes of the {tag} layout")
    gio.diff_list(ea, eb, "edges of the first layout against the second")
    gio.diff_list(ea, gio.expected_edges(g), "edges")
    if case["a"] != case["b"] and ea:
        c.note(case)


c.campaign("threads", cases(), body, 220, 1500)
c.campaign("processes", cases(True), body, 40, 200)

if __name__ == "__main__":
    c.main()
