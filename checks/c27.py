"""C27: several threads ask one client at once."""
import ctypes
import logging
import os
import sys
import threading

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, sut

vp.silence_logging()
os.environ["VP_NATIVE_FLAGS"] = "-fsanitize-coverage=trace-pc"  # pauses at branches, see native/shim
import asks
import engine as en
import temporal as tp

c = Check(
    "C27",
    "a case is a generated graph, temporal or not, in 1-4 partitions, a backend (memory, disk, 1-3 servers answering with "
    "generated delays) and 2-4 threads with 1-3 queries of any kind for up to 1200 nodes or edges each, including making a sampler and drawing from it. All "
    "threads ask the same client at once, 8 times over; every answer must equal the one given when nothing else was asked. "
    "Non-trivial: two threads ask different queries that return something of the graph.",
    assumptions=("the schedule of threads is left to the system, varied by delays and repetition",),
    native=True,
)
sys.unraisablehook = lambda *a: None
logging.disable(logging.CRITICAL)
lib = ctypes.CDLL(en.LIB)
lib.vp_pause.argtypes = [ctypes.c_int, ctypes.c_int]
lib.vp_grpc_delay.argtypes = [ctypes.c_uint64, ctypes.c_int]
ROUNDS = 8


@st.composite
def cases(draw, crowd=False):
    scale = draw(tp.scales) if draw(st.booleans()) else 0
    if scale:
        ns, es = [], []
        g = draw(tp.graphs([], [], True, scale))
    else:
        ns, es = draw(en.specs(3)), draw(en.specs(3))
        g = draw(en.graphs(ns, es, max_nodes=6))
    lay = draw(en.layouts(g, allow_convert=False))

    # threads asking for the same things meet in the same code
    ops = [draw(st.sampled_from(asks.kinds(scale)))] if crowd or draw(st.integers(0, 3)) else None

    def query():
        q = draw(asks.queries(g, scale, ns, es, ops))
        if q["op"] == "draw":
            q["make"] = crowd or draw(st.booleans())
        q["wide"] = draw(st.sampled_from([1, 1, 30, 300]))
        return q

    backend = draw(en.backends(lay["parts"], *([("remote",)] if crowd else [])))
    if crowd:
        backend["threads"] = draw(st.integers(2, 4))
    return {
        "scale": scale, "graph": g, "specs": [ns, es], "layout": lay, "backend": backend,
        "delay": [draw(st.integers(0, 2**32)), draw(st.sampled_from([0, 0, 50, 300]))],
        "pause": draw(st.sampled_from([5, 30, 300] if crowd else [0, 30, 300, 3000])),
        "threads": [[query() for _ in range(draw(st.integers(1, 3)))] for _ in range(draw(st.integers(2, 4)))],
    }


def widen(q):
    """The same query for its nodes or edges over and over: calls overlap for longer."""
    q = dict(q)
    n = q.pop("wide", 1)
    if q["op"] == "ppr":
        n = min(n, 30)
    for k in ("nodes", "keys", "moments"):
        if q.get(k):
            q[k] = q[k] * n
    if q["op"] == "draw" and asks.KINDS[q["kind"]] != "withoutreplacement":
        q["size"] *= n
    return q


def answer(cl, samplers, q, case):
    if not q.get("make"):
        return asks.ask(cl, samplers, q, case)
    own = (en.sclient.NodeSampler if q["what"] == "node" else en.sclient.EdgeSampler)(cl, [0, 1, 2], asks.KINDS[q["kind"]])
    try:
        return asks.ask(cl, {(q["what"], q["kind"]): own}, q, case)
    finally:
        own.reset()


def body(case, tmp):
    g = case["graph"]
    folder = tp.store(g, case["layout"], tmp, tp.mark(case)) if case["scale"] else en.store(g, case["layout"], tmp)
    model = en.Model(tp.effective(g) if case["scale"] else g)
    queries = [[widen(q) for q in qs if q["op"] != "draw" or asks.drawable(q, g)] for qs in case["threads"]]
    shards = case["backend"].get("shards", 1)
    lib.vp_grpc_delay(0, 0)
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        with sut("making samplers"):
            samplers = asks.make_samplers(cl, g)
        try:
            with sut("queries one by one"):
                want = [[answer(cl, samplers, q, case) for q in qs] for qs in queries]
            lib.vp_grpc_delay(*case["delay"])
            start = threading.Barrier(len(queries))
            got = [[] for _ in queries]

            def work(t):
                try:
                    for _ in range(ROUNDS):
                        start.wait()
                        if t == 0:
                            lib.vp_pause(case["pause"], 40)
                        for q in queries[t]:
                            got[t].append(answer(cl, samplers, q, case))
                except BaseException as e:
                    got[t].append(e)
                    start.abort()

            threads = [threading.Thread(target=work, args=(t,)) for t in range(len(queries))]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            lib.vp_pause(0, 0)
            lib.vp_grpc_delay(0, 0)
            for s in samplers.values():
                s.reset()
    for t, qs in enumerate(queries):
        for i, a in enumerate(got[t]):
            if isinstance(a, threading.BrokenBarrierError):
                continue
            q = qs[i % len(qs)]
            what = f"thread {t}, query {i % len(qs)}: {vp.short(q)}"
            with sut(what):
                if isinstance(a, BaseException):
                    raise a
            if q["op"] in ("weighted", "uniform") and shards > 1:
                asks.sampled(q, a, model, what)
            elif q["op"] == "ppr":
                asks.ranked(a, want[t][i % len(qs)], what)
            else:
                equal(a, want[t][i % len(qs)], what)
    if any(any(x not in ([], [[]]) for x in w) and q != queries[0] for w, q in zip(want[1:], queries[1:])):
        c.note(case)


c.campaign("threads", cases(), body, 600, 12000)
c.campaign("replies", cases(True), body, 250, 5000)

if __name__ == "__main__":
    c.main()
