"""C25: clients used by models answer every call by its own arguments, over the partitions they were given."""
import argparse
import collections
import logging
import os
import pickle
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import engine as en
import graphio as gio
import temporal as tp
from deepgnn.graph_engine import SamplingStrategy, BackendOptions, create_backend
from deepgnn.graph_engine.utils import define_param_graph_engine
from deepgnn.graph_engine.snark import local, distributed

c = Check(
    "C25",
    "a case is a generated graph, temporal or not, in 1-4 partitions, a client (local over a generated list of partitions, "
    "or of 1-3 servers, possibly pickled; made directly or from options of a job) and a history of 1-8 calls: draws of nodes and edges of every strategy, neighbors "
    "of every strategy, walks, neighbor lists, degrees, types, features and counts, with types as a number or an array. Each "
    "answer must follow from its own arguments and the part of the graph that was opened, whatever was asked before; "
    "draws repeat after the generator of Python is seeded again. Non-trivial: the history repeats a kind of call with "
    "other arguments, or only some of partitions are opened.",
    assumptions=("neighbors drawn by several servers depend on the order of their answers: only repeated for one server",),
    native=True,
)
sys.unraisablehook = lambda *a: None
logging.disable(logging.CRITICAL)
STRATEGY = {
    "weighted": SamplingStrategy.Weighted,
    "uniform": SamplingStrategy.Random,
    "distinct": SamplingStrategy.RandomWithoutReplacement,
}


@st.composite
def calls(draw, g, scale, ns, es):
    ids = [n["id"] for n in g["nodes"]]
    busy = [n["id"] for n in sorted(g["nodes"], key=lambda n: -len(n["edges"]))[:2]]
    anyid = st.one_of(st.sampled_from(busy), st.sampled_from(ids), st.sampled_from(ids), st.integers(0, 40))
    types = st.one_of(st.integers(0, 2), st.just([0, 1, 2]), st.lists(st.integers(0, 3), min_size=1, max_size=4))
    k = draw(st.integers(1, 5))
    op = draw(st.sampled_from(["draw", "draw", "draw", "sample", "sample", "walk", "neighbors", "degree", "type", "features", "count"]))
    out = {"op": op, "seed": draw(st.integers(0, 2**32))}
    if op in ("draw", "count"):
        out["what"] = draw(st.sampled_from(["node", "edge"]))
        out["types"] = draw(types)
    if op == "draw":
        out.update(kind=draw(st.sampled_from(sorted(STRATEGY))), size=draw(st.integers(1, 12)))
    if op in ("sample", "walk", "neighbors", "degree", "type"):
        out["nodes"] = draw(st.lists(anyid, min_size=k, max_size=k))
    if op in ("sample", "walk", "neighbors", "degree"):
        out["types"] = draw(types)
        out["moments"] = draw(st.lists(tp.moments(scale), min_size=k, max_size=k)) if scale and draw(st.integers(0, 3)) else None
        out["created"] = draw(st.booleans())
    if op == "sample":
        out.update(
            kind=draw(st.sampled_from(["byweight", "byweight", "random", "random", "randomwithoutreplacement", "ppr-go", "ppr-go", "unknown"] + ["lastn"] * (out["moments"] is not None))),
            count=draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 10])), node=draw(st.sampled_from([-1, -9])), weight=draw(st.sampled_from([0.0, 7.5])),
            type=draw(st.sampled_from([-1, 8])),
        )
    if op == "walk":
        out["len"] = draw(st.integers(0, 4))
        out["node"] = draw(st.sampled_from([-1, -9]))
    if op == "features":
        out["what"] = draw(st.sampled_from(["node", "edge"]))
        specs = ns if out["what"] == "node" else es
        out["features"] = [
            [f, draw(st.integers(1, 5))] for f in draw(st.lists(st.integers(0, len(specs)), min_size=1, max_size=3))
        ]
        edges = [[n["id"], e["dst"], e["type"]] for n in g["nodes"] for e in n["edges"]]
        one = anyid if out["what"] == "node" else st.one_of(st.sampled_from(edges), st.tuples(anyid, anyid, st.integers(0, 3)).map(list)) if edges else st.tuples(anyid, anyid, st.integers(0, 3)).map(list)
        out["keys"] = draw(st.lists(one, min_size=1, max_size=4))
        if scale:
            out["moments"] = [draw(tp.moments(scale)) for _ in out["keys"]]
    return out


@st.composite
def cases(draw):
    scale = draw(tp.scales) if draw(st.booleans()) else 0
    ns, es = draw(en.specs(3, ("dense", "bin"))), draw(en.specs(3, ("dense", "bin")))
    if scale:
        if draw(st.booleans()):
            ns, es = [], []
        g = draw(tp.graphs(ns, es, not es, scale))
    else:
        g = draw(en.graphs(ns, es, multi=not es, max_nodes=6))
    if draw(st.integers(0, 2)) == 0:
        for x in g["nodes"] + [e for n in g["nodes"] for e in n["edges"]]:
            x["weight"] *= draw(st.integers(0, 1))
    lay = draw(en.layouts(g, allow_convert=False))
    lay.pop("apart", None)
    if draw(st.booleans()):
        b = {"kind": "local", "storage": draw(st.sampled_from(["memory", "disk"]))}
        b["partitions"] = draw(st.permutations(range(lay["parts"])))[: draw(st.integers(1, lay["parts"]))]
    else:
        b = {"kind": "remote", "shards": draw(st.integers(1, min(3, lay["parts"]))), "storage": draw(st.sampled_from(["memory", "disk"]))}
        b["pickle"] = draw(st.booleans())
    # made directly, or by a backend from options of a job
    b["options"] = draw(st.integers(0, 2)) == 0
    history = [draw(calls(g, scale, ns, es)) for _ in range(draw(st.integers(1, 8)))]
    return {"scale": scale, "graph": g, "layout": lay, "client": b, "calls": history}


def opened_part(case):
    """The graph as seen by a client of some partitions."""
    g = tp.effective(case["graph"]) if case["scale"] else case["graph"]
    lay = case["layout"]
    keep = set(case["client"].get("partitions", range(lay["parts"])))
    nodes, edges = [], []
    for i, n in enumerate(g["nodes"]):
        es = [e for j, e in enumerate(n["edges"]) if (lay["edges"][i][j] if "edges" in lay else lay["nodes"][i]) in keep]
        home = lay["nodes"][i] in keep
        if home:
            nodes.append(dict(n, edges=es))
        elif es:
            # only edges of the node are there
            nodes.append(dict(n, edges=es, type=-1, features=[]))
    return {"nodes": nodes}


def job(folder, b, hosts):
    """Options of a training job that uses the graph."""
    argv = ["--data_dir", folder, "--graph_type", "local" if b["kind"] == "local" else "remote"]
    if hosts:
        argv += ["--servers"] + hosts + ["--skip_ge_start", "true"]
    p = argparse.ArgumentParser()
    define_param_graph_engine(p)
    args = p.parse_args(argv)
    args.storage_type = en.STORAGE[b["storage"]]
    if b["kind"] == "local":
        args.partitions = list(b["partitions"])
    return BackendOptions(args)


class opened:
    def __init__(self, folder, b):
        self.folder, self.b, self.servers, self.clients = folder, b, [], []
        self.backends = []

    def from_options(self, hosts):
        with sut("creating a backend"):
            self.backends.append(create_backend(job(self.folder, self.b, hosts)))
            self.clients.append(self.backends[0].graph)
            require(self.backends[0].graph is self.clients[0], "a backend opened its graph twice")

    def __enter__(self):
        b = self.b
        if b["kind"] == "local" and b["options"]:
            self.from_options([])
        elif b["kind"] == "local":
            with sut("loading the graph"):
                self.clients.append(local.Client(self.folder, list(b["partitions"]), en.STORAGE[b["storage"]]))
        else:
            hosts = []
            for i in range(b["shards"]):
                hosts.append(f"localhost:{next(en._ports)}")
                with sut("starting a server"):
                    self.servers.append(distributed.Server(hosts[-1], self.folder, i, b["shards"], storage_type=en.STORAGE[b["storage"]]))
            if b["options"]:
                self.from_options(hosts)
            else:
                with sut("connecting to servers"):
                    self.clients.append(distributed.Client(hosts))
            if b["pickle"]:
                with sut("pickling a client"):
                    self.clients.append(pickle.loads(pickle.dumps(self.clients[0])))
        return self.clients[-1]

    def __exit__(self, *a):
        for x in self.backends:
            x.close()
        for x in self.clients[len(self.backends) if self.b["kind"] == "remote" else 0:] + self.servers:
            x.reset()


def as_types(t):
    return t if isinstance(t, int) else np.array(t, dtype=np.int32)


def listed(t):
    return [t] if isinstance(t, int) else t


def draw_call(cl, m, d, name):
    nodes = d["what"] == "node"
    if nodes:
        pop = [((n["id"], n["type"]), n["weight"]) for n in m.nodes.values() if n["type"] in listed(d["types"])]
    else:
        pop = [((n["id"], e["dst"], e["type"]), e["weight"]) for n in m.nodes.values() for e in n["edges"] if e["type"] in listed(d["types"])]
    if d["kind"] == "weighted":
        pop = [x for x in pop if x[1] > 0]
    have = {x for x, _ in pop}
    if not have:
        return
    k = min(d["size"], len(have)) if d["kind"] == "distinct" else d["size"]

    def call():
        random.seed(d["seed"])
        with sut(name):
            return (cl.sample_nodes if nodes else cl.sample_edges)(k, as_types(d["types"]), STRATEGY[d["kind"]])

    res = call()
    if nodes:
        if isinstance(d["types"], int):
            got = [(x, d["types"]) for x in res.tolist()]
        else:
            equal(len(res), 2, f"arrays of {name}")
            got = list(zip(res[0].tolist(), res[1].tolist()))
    else:
        equal(res.shape, (k, 3), f"shape of {name}")
        got = [tuple(x) for x in res.tolist()]
    equal(len(got), k, f"size of {name}")
    require(all(x in have for x in got), lambda: f"{name}: drew {got} from {sorted(have)}")
    if d["kind"] == "distinct":
        # parallel edges may come as often as they are stored
        more = collections.Counter(got) - collections.Counter(x for x, _ in pop)
        require(not more, lambda: f"{name}: drew {got}, {list(more)} more often than stored")
    again = call()
    equal([np.asarray(x).tolist() for x in again], [np.asarray(x).tolist() for x in res], f"{name} after the same seed")


def sample_call(cl, m, d, name, fixed):
    nodes = np.array(d["nodes"], dtype=np.int64)
    mom = None if d["moments"] is None else np.array(d["moments"], dtype=np.int64)
    k = d["count"]
    timed = d["created"] and mom is not None

    def call():
        random.seed(d["seed"])
        with sut(name):
            # documented defaults are left out
            kw = vp.lean(
                {"count": (k, 10), "strategy": (d["kind"], "byweight"), "default_node": (d["node"], -1), "default_weight": (d["weight"], 0.0),
                 "default_edge_type": (d["type"], -1), "timestamps": (mom, None), "return_edge_created_ts": (timed, False)}
            )
            return cl.sample_neighbors(nodes, as_types(d["types"]), **kw)

    if d["kind"] == "unknown":
        try:
            cl.sample_neighbors(nodes, as_types(d["types"]), k, d["kind"], timestamps=mom)
        except Exception:
            return
        require(False, f"{name}: strategy was accepted")
    res = call()
    if d["kind"] == "ppr-go":
        equal((res[0].shape, res[1].shape), ((len(nodes), k),) * 2, f"shape of {name}")
        for i, n in enumerate(d["nodes"]):
            # the node itself is always ranked
            require(n in res[0][i].tolist() or k < 8, lambda: f"{name}: {n} isn't among {res[0][i].tolist()}")
            reach, todo = {n}, [n]
            while todo:
                for e in m.out(todo.pop(), listed(d["types"]), None if mom is None else d["moments"][i]):
                    if e["dst"] not in reach:
                        reach.add(e["dst"])
                        todo.append(e["dst"])
            for x, w in zip(res[0][i].tolist(), res[1][i].tolist()):
                require(x in reach or (x, w) == (d["node"], d["weight"]), lambda: f"{name}: {x} isn't reachable from {n}")
        return
    if d["kind"] != "lastn":
        equal(len(res), 4, f"arrays of {name}")
        if not timed:
            equal(set(res[3].ravel().tolist()), {-1}, f"moments of {name} that weren't asked for")
    timed = timed and len(res) > 3
    names = ["dst", "type"] + (["created_at"] if timed else [])
    cols = [res[0], res[2]] + ([res[3]] if timed else [])
    for a in cols:
        equal(a.shape, (len(nodes), k), f"shape of {name}")
    for i, n in enumerate(d["nodes"]):
        es = m.out(n, listed(d["types"]), None if mom is None else d["moments"][i])
        if d["kind"] == "byweight" and not any(e["weight"] for e in es):
            es = []
        have = collections.Counter(tuple(e[x] for x in names) for e in es)
        got = [tuple(a[i][j].item() for a in cols) for j in range(k)]
        default = (d["node"], d["type"], -1)[: len(names)]
        what = f"{name}: neighbors of {n} {got}, edges {sorted(have)}, default {default}"
        if d["kind"] in ("randomwithoutreplacement", "lastn"):
            size = min(k, len(es))
            equal(got[size:], [default] * (k - size), what)
            require(not collections.Counter(got[:size]) - have, what)
        elif es:
            require(all(x in have for x in got), what)
        else:
            equal(got, [default] * k, what)
        if d["kind"] in ("byweight", "lastn"):
            ws = {(e["dst"], e["type"]): set() for e in es}
            for e in es:
                ws[(e["dst"], e["type"])].add(e["weight"])
            for j in range(k):
                if got[j] == default and got[j][:2] not in ws:
                    equal(res[1][i][j].item(), d["weight"], f"{what}, default weight")
                else:
                    w = res[1][i][j].item()
                    require(any(abs(w - x) < 1e-3 for x in ws[got[j][:2]]), f"{what}, weight {w} of place {j}")
    if fixed:
        equal([a.tolist() for a in (res[0], res[2])], [a.tolist() for a in (lambda r: (r[0], r[2]))(call())], f"{name} after the same seed")


def other_call(cl, m, d, name):
    types = as_types(d["types"]) if "types" in d else None
    mom = None if d.get("moments") is None else np.array(d["moments"], dtype=np.int64)
    nodes = np.array(d["nodes"], dtype=np.int64) if "nodes" in d else None

    def out(i):
        return m.out(d["nodes"][i], listed(d["types"]), None if mom is None else d["moments"][i])

    if d["op"] == "walk":
        def call():
            random.seed(d["seed"])
            with sut(name):
                return cl.random_walk(nodes, as_types(listed(d["types"])), d["len"], 1.0, 1.0, d["node"], mom)

        res = call()
        equal(res.shape, (len(nodes), d["len"] + 1), f"shape of {name}")
        for i, n in enumerate(d["nodes"]):
            walk = res[i].tolist()
            equal(walk[0], n, f"start of {name}")
            for a, b in zip(walk, walk[1:]):
                nbs = {e["dst"] for e in m.out(a, listed(d["types"]), None if mom is None else d["moments"][i])} or {d["node"]}
                require(b in nbs, lambda: f"{name}: walk {walk}, {b} isn't among {sorted(nbs)}")
        equal(call().tolist(), res.tolist(), f"{name} after the same seed")
    elif d["op"] == "neighbors":
        timed = d["created"] and mom is not None
        with sut(name):
            res = cl.neighbors(nodes, types, mom, timed)
        want = [out(i) for i in range(len(nodes))]
        equal(res[3].tolist(), [len(x) for x in want], f"counts of {name}")
        pos = 0
        for es in want:
            part = slice(pos, pos + len(es))
            pos += len(es)
            got = list(zip(res[0][part].tolist(), res[1][part].tolist(), res[2][part].tolist(), *([res[4][part].tolist()] if timed else [])))
            equal(sorted(got), sorted((e["dst"], e["weight"], e["type"], *([e["created_at"]] if timed else [])) for e in es), name)
    elif d["op"] == "degree":
        with sut(name):
            got = cl.neighbor_count(nodes, types, mom)
        equal(got.tolist(), [len(out(i)) for i in range(len(nodes))], name)
    elif d["op"] == "type":
        with sut(name):
            got = cl.node_types(nodes)
        equal(got.tolist(), [m.nodes[n]["type"] if n in m.nodes else -1 for n in d["nodes"]], name)
    elif d["op"] == "features":
        feats = np.array(d["features"], dtype=np.int32)
        keys = np.array(d["keys"], dtype=np.int64)
        node = d["what"] == "node"
        read = m.node_feature if node else m.edge_feature
        get = read
        if mom is not None:
            # values of removed nodes and edges are open: ask for the last moment they had
            for i, k in enumerate(d["keys"]):
                x = m.nodes.get(k) if node else m.edges.get(tuple(k))
                gone = -1 if x is None else x["removed_at"] if not node else -1 if x["ra"] is None else x["ra"]
                if gone != -1 and mom[i] >= gone:
                    mom[i] = max(gone - 1, 0)
        with sut(name):
            got = (cl.node_features if node else cl.edge_features)(keys, feats, np.uint8, **({} if mom is None else {"timestamps": mom}))
        for i, k in enumerate(d["keys"]):
            if mom is not None:
                get = lambda k, f: gio.value_at(read(k, f), int(mom[i]))
            want = b"".join(en.fit(gio.feature_bytes(get(k, f)), s) for f, s in d["features"])
            require(got[i].tobytes() == want, lambda: f"{name}: {k} has {got[i].tobytes()!r}, expected {want!r}")


def body(case, tmp):
    g = case["graph"]
    if case["scale"]:
        folder = tp.store(g, case["layout"], tmp, tp.mark(case))
    else:
        folder = en.store(g, case["layout"], tmp)
    m = en.Model(opened_part(case))
    with opened(folder, case["client"]) as cl:
        for i, d in enumerate(case["calls"]):
            name = f"call {i}, {d}"
            if d["op"] == "draw":
                draw_call(cl, m, d, name)
            elif d["op"] == "sample":
                sample_call(cl, m, d, name, case["client"].get("shards", 1) == 1)
            elif d["op"] == "count":
                want = sum(
                    len([1 for x in ([n] if d["what"] == "node" else n["edges"]) if x["type"] in listed(d["types"])]) for n in g["nodes"]
                )
                with sut(name):
                    got = (cl.node_count if d["what"] == "node" else cl.edge_count)(as_types(sorted(set(listed(d["types"])))))
                equal(int(got), want, name)
            else:
                other_call(cl, m, d, name)
    ops = [(d["op"], d.get("what")) for d in case["calls"]]
    if len(set(ops)) < len(ops) or len(case["client"].get("partitions", range(9))) < case["layout"]["parts"]:
        c.note(case)


c.campaign("calls", cases(), body, 700, 10000)

if __name__ == "__main__":
    c.main()
