"""C28: a graph in remote storage answers as the same graph on a local disk."""
import hashlib
import logging
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import fsspec
from fsspec.spec import AbstractFileSystem

import asks
import engine as en
import temporal as tp

c = Check(
    "C28",
    "a case is a generated graph, temporal or not, with or without features, in 1-4 (at times 12) partitions of one or several "
    "files, a subset of partitions to load in any order, and where the metadata and each partition are: on the local disk or in one of two "
    "remote stores (stand-ins behind the storage interface the package uses). A client in memory or on disk, or 1-3 servers, "
    "must load them and give the same answers to generated queries of every kind as a client of the same partitions on a local "
    "disk; the stores must stay as they were and nothing downloaded may be left after closing. Non-trivial: a partition is in a remote store and a query returns something of the graph.",
    assumptions=("stores are read through the generic interface, streaming with libhdfs is not available",),
    native=True,
)
sys.unraisablehook = lambda *a: None
logging.disable(logging.CRITICAL)


class Store(AbstractFileSystem):
    """Remote storage: keys instead of folders, kept below a scratch folder."""

    root = None

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        return path.split("://", 1)[-1].strip("/")

    def _real(self, path):
        return os.path.join(self.root, self._strip_protocol(path))

    def _entry(self, path):
        real = self._real(path)
        if not os.path.exists(real):
            raise FileNotFoundError(path)
        d = os.path.isdir(real)
        return {"name": self._strip_protocol(path), "size": 0 if d else os.path.getsize(real), "type": "directory" if d else "file"}

    def info(self, path, **kw):
        return self._entry(path)

    def ls(self, path, detail=True, **kw):
        e = self._entry(path)
        out = [e]
        if e["type"] == "directory":
            out = [self._entry(f"{e['name']}/{x}") for x in sorted(os.listdir(self._real(path)))]
        return out if detail else [x["name"] for x in out]

    def _open(self, path, mode="rb", **kw):
        require("r" in mode, f"writing to {path}")
        if not os.path.isfile(self._real(path)):
            raise FileNotFoundError(path)
        return open(self._real(path), mode)

    def rm_file(self, path):
        require(False, f"removing {path}")


class Near(Store):
    protocol = "vpnear"


class Far(Store):
    protocol = "vpfar"


for k in (Near, Far):
    fsspec.register_implementation(k.protocol, k, clobber=True)


@st.composite
def cases(draw):
    scale = draw(tp.scales) if draw(st.booleans()) else 0
    if scale:
        ns, es = [], []
        g = draw(tp.graphs([], [], True, scale))
    else:
        ns, es = draw(en.specs(3)), draw(en.specs(3))
        g = draw(en.graphs(ns, es, max_nodes=6))
    lay = draw(en.layouts(g, draw(st.sampled_from([1, 2, 4, 4, 12]))))
    load = draw(st.permutations(range(lay["parts"])))[: draw(st.integers(1, lay["parts"]))]
    if draw(st.booleans()):
        load = list(range(lay["parts"]))
    spots = st.sampled_from(["vpnear", "vpfar", "local"]) if draw(st.integers(0, 2)) == 0 else st.just("vpnear")
    return {
        "scale": scale, "graph": g, "specs": [ns, es], "layout": lay, "load": list(load), "backend": draw(en.backends(len(load))),
        "meta": draw(spots), "parts": [draw(spots) for _ in load],
        "numbers": draw(st.booleans()), "queries": [draw(asks.queries(g, scale, ns, es)) for _ in range(draw(st.integers(1, 5)))],
    }


def digest(folder):
    out = {}
    for top, _, files in os.walk(folder):
        for f in files:
            with open(os.path.join(top, f), "rb") as x:
                out[os.path.join(top, f)] = hashlib.md5(x.read()).hexdigest()
    return out


def answers(cl, case):
    g = case["graph"]
    with sut("making samplers"):
        samplers = asks.make_samplers(cl, g)
    out = []
    for q in case["queries"]:
        if q["op"] == "draw" and (not asks.drawable(q, g) or len(case["load"]) < case["layout"]["parts"]):
            out.append(None)
            continue
        with sut(f"query {vp.short(q)}"):
            out.append(asks.ask(cl, samplers, q, case))
    for s in samplers.values():
        s.reset()
    return out


def body(case, tmp):
    g, load = case["graph"], case["load"]
    Store.root = os.path.join(tmp, "stores")
    folder = tp.store(g, case["layout"], tmp, tp.mark(case)) if case["scale"] else en.store(g, case["layout"], tmp)
    keep = os.path.join(Store.root, "bucket")
    os.makedirs(Store.root)
    shutil.copytree(folder, keep)
    before = digest(Store.root)
    b = case["backend"]
    want = None
    with en.opened(folder, load, b) as cl:
        want = answers(cl, case)
    if any(x != "local" for x in [case["meta"]] + case["parts"]):
        # what is in a store must not be found next to the metadata
        shutil.rmtree(folder)

    def at(spot, path):
        return path if spot == "local" else spot + "://" + os.path.relpath(path, Store.root)

    meta = at(case["meta"], keep)
    parts = [(at(s, f), p) for s, (f, p) in zip(case["parts"], en.places(keep, load))]
    if case["numbers"]:
        parts = [p if f == meta else (f, p) for f, p in parts]
    down = os.path.join(tmp, "down")
    os.makedirs(down)
    old, tempfile.tempdir = tempfile.tempdir, down
    try:
        with en.opened_at(meta, parts, b) as cl:
            got = answers(cl, case)
        left = os.listdir(down)
    finally:
        tempfile.tempdir = old
    for q, a, w in zip(case["queries"], got, want):
        what = f"{vp.short(q)} of a graph at {meta}, partitions {parts}"
        if q["op"] == "ppr":
            asks.ranked(a, w, what)
        elif q["op"] not in ("weighted", "uniform") or b.get("shards", 1) == 1:
            equal(a, w, what)
    equal(left, [], "files left behind after closing")
    equal(digest(Store.root), before, "files in the store")
    if any(x != "local" for x in case["parts"]) and any(a not in (None, [], [[]]) for a in got):
        c.note(case)


c.campaign("stores", cases(), body, 400, 6000)

if __name__ == "__main__":
    c.main()
