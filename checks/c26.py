"""C26: queries while servers fail, are down or come back."""
import ctypes
import json
import logging
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import asks
import engine as en
import temporal as tp

c = Check(
    "C26",
    "a case is a generated graph, temporal or not, in 1-4 partitions, 1-3 servers answering with generated delays, a retry "
    "policy (1-4 attempts, generated backoff; waiting is recorded instead of done) and a history of 1-7 steps: a query of any "
    "kind during which a generated number of requests fails after a generated number of good ones, or a server going down or "
    "coming back. A query ends with the answer given without failures, or with an error when every allowed attempt met a "
    "failure; no wait is longer than the largest backoff. Non-trivial: a request failed during the history.",
    native=True,
)
sys.unraisablehook = lambda *a: None
logging.disable(logging.CRITICAL)
lib = ctypes.CDLL(en.LIB)
lib.vp_grpc_faults_done.restype = ctypes.c_uint64
lib.vp_grpc_delay.argtypes = [ctypes.c_uint64, ctypes.c_int]


@st.composite
def cases(draw):
    scale = draw(tp.scales) if draw(st.booleans()) else 0
    if scale:
        ns, es = [], []
        g = draw(tp.graphs([], [], True, scale))
    else:
        ns, es = draw(en.specs(3)), draw(en.specs(3))
        g = draw(en.graphs(ns, es, max_nodes=6))
    lay = draw(en.layouts(g, allow_convert=False))
    shards = draw(st.integers(1, min(3, lay["parts"])))
    steps, down = [], set()
    for _ in range(draw(st.integers(1, 7))):
        if down and draw(st.integers(0, 2)) == 0:
            s = draw(st.sampled_from(sorted(down)))
            down.discard(s)
            steps.append({"op": "up", "server": s})
        elif draw(st.integers(0, 9)) == 0:
            s = draw(st.integers(0, shards - 1))
            if s not in down:
                down.add(s)
                steps.append({"op": "down", "server": s})
        q = draw(asks.queries(g, scale, ns, es))
        q["faults"] = draw(st.sampled_from([0, 1, 1, 1, 2, 3, 5, 20]))
        q["skip"] = draw(st.integers(0, 4))
        steps.append(q)
    first = draw(st.integers(0, 3))
    return {
        "scale": scale, "graph": g, "specs": [ns, es], "layout": lay, "shards": shards,
        "storage": draw(st.sampled_from(["memory", "disk"])), "threads": draw(st.integers(1, 3)),
        "attempts": draw(st.integers(1, 4)), "backoff": [first, draw(st.integers(first, 9)), draw(st.integers(1, 4))],
        "delay": [draw(st.integers(0, 2**32)), draw(st.sampled_from([0, 0, 200, 2000]))], "steps": steps,
    }


class Cluster:
    def __init__(self, folder, case):
        self.folder, self.case, self.client = folder, case, None
        self.hosts = [f"localhost:{next(en._ports)}" for _ in range(case["shards"])]
        self.servers = [None] * case["shards"]
        self.samplers = {}

    def up(self, i):
        parts = list(range(self.case["layout"]["parts"]))[i :: self.case["shards"]]
        with sut("starting a server"):
            self.servers[i] = en.sserver.Server(
                self.folder, en.places(self.folder, parts), self.hosts[i], storage_type=en.STORAGE[self.case["storage"]]
            )

    def down(self, i):
        with sut("stopping a server"):
            self.servers[i].reset()
        self.servers[i] = None

    def connect(self):
        case = self.case
        policy = {"maxAttempts": case["attempts"], "initialBackoff": f"{case['backoff'][0]}s", "maxBackoff": f"{case['backoff'][1]}s",
                  "backoffMultiplier": case["backoff"][2], "retryableStatusCodes": ["UNAVAILABLE"]}
        opts = [("grpc.service_config", json.dumps({"methodConfig": [{"name": [{}], "retryPolicy": policy}]}))]
        with sut("connecting to servers"):
            self.client = en.sclient.DistributedGraph(self.hosts, num_threads=case["threads"], grpc_options=opts)

    def prepare(self):
        """Samplers belong to running servers: they are made again after a server came back."""
        if any(s is None for s in self.servers):
            return
        self.release()
        with sut("making samplers"):
            self.samplers = asks.make_samplers(self.client, self.case["graph"])

    def release(self):
        for s in self.samplers.values():
            s.reset()
        self.samplers = {}

    def __enter__(self):
        try:
            for i in range(self.case["shards"]):
                self.up(i)
            self.connect()
            self.prepare()
        except BaseException:
            self.__exit__()
            raise
        return self

    def __exit__(self, *a):
        self.release()
        if self.client is not None:
            self.client.reset()
        for s in self.servers:
            if s is not None:
                s.reset()


def body(case, tmp):
    g = case["graph"]
    folder = tp.store(g, case["layout"], tmp, tp.mark(case)) if case["scale"] else en.store(g, case["layout"], tmp)
    model = en.Model(tp.effective(g) if case["scale"] else g)
    waits, failed, restarted = [], 0, False
    real = time.sleep
    lib.vp_grpc_faults(b"", 0, 0)
    lib.vp_grpc_delay(0, 0)
    time.sleep = waits.append
    try:
        with Cluster(folder, case) as cl:
            skip = set()
            want = {}
            for i, q in enumerate(case["steps"]):
                if q["op"] in ("up", "down"):
                    continue
                if q["op"] == "draw" and not asks.drawable(q, g):
                    skip.add(i)
                    continue
                with sut(f"step {i} without failures, {q}"):
                    want[i] = asks.ask(cl.client, cl.samplers, q, case)
            lib.vp_grpc_delay(*case["delay"])
            for i, q in enumerate(case["steps"]):
                name = f"step {i}, {q}"
                if q["op"] == "down":
                    cl.down(q["server"])
                    continue
                if q["op"] == "up":
                    restarted = True
                    cl.up(q["server"])
                    cl.prepare()
                    continue
                if i in skip:
                    continue
                down = any(s is None for s in cl.servers)
                del waits[:]
                lib.vp_grpc_faults(b"", q["skip"], q["faults"])
                try:
                    got = asks.ask(cl.client, cl.samplers, q, case)
                    error = None
                except Exception as e:
                    error = e
                done = lib.vp_grpc_faults_done()
                lib.vp_grpc_faults(b"", 0, 0)
                failed += done + down
                require(
                    error is None or down or done >= case["attempts"],
                    lambda: f"{name}: {error!r} after {done} failed requests, {case['attempts']} attempts are allowed",
                )
                require(len(waits) < case["attempts"], lambda: f"{name}: {len(waits)} waits for {case['attempts']} attempts")
                require(
                    all(w <= case["backoff"][1] for w in waits), lambda: f"{name}: waits {waits}, largest backoff {case['backoff'][1]}"
                )
                if error is not None:
                    continue
                if q["op"] in ("weighted", "uniform") and case["shards"] > 1:
                    asks.sampled(q, got, model, name)
                elif q["op"] == "draw" and restarted:
                    asks.drawn(q, got, g, name)
                elif q["op"] == "ppr":
                    asks.ranked(got, want[i], f"answer of {name}, {done} failed requests{' and a server down' * down}")
                else:
                    equal(got, want[i], f"answer of {name}, {done} failed requests{' and a server down' * down}")
    finally:
        time.sleep = real
        lib.vp_grpc_faults(b"", 0, 0)
        lib.vp_grpc_delay(0, 0)
    if failed:
        c.note(case)


c.campaign("failures", cases(), body, 500, 8000)

if __name__ == "__main__":
    c.main()
