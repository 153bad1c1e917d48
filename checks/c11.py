"""C11: background prefetching delivers every batch once, reports failures and stays within its bounds."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require, run_blocking

vp.silence_logging()
import contextlib
import io
import threading
import time
from collections import Counter

from deepgnn.graph_engine.prefetch import Generator

c = Check(
    "C11",
    "a case is a sampler of 0-60 batches, a queue size 1-10, 1-8 parallel queries, a generated delay per query and per "
    "consumed item, and optionally: a query failing at a generated position, a sampler failing at a generated "
    "position, or a consumer leaving early. Checked: results are a permutation of query(batch) (in order with one "
    "query thread), iteration ends and stays ended, a failure reaches the consumer, no result before it is invented "
    "or repeated, running plus waiting results never exceed queue size + parallelism (plus the few in transit), nothing runs after the end. "
    "Non-trivial: at least three batches, or a failure hit.",
)


class Boom(Exception):
    pass


class Sampler:
    def __init__(self, n, fail_at):
        self.n, self.fail_at, self.drawn = n, fail_at, 0

    def __iter__(self):
        return self.gen()

    def gen(self):
        for i in range(self.n):
            if i == self.fail_at:
                raise Boom("sampler failed")
            self.drawn += 1
            yield i


@st.composite
def cases(draw, kind):
    n = draw(st.integers(0, 60)) if kind != "leave" else draw(st.integers(1, 200))
    return {
        "kind": kind,
        "n": n if kind == "ok" else max(1, n),
        "queue": draw(st.integers(1, 10)),
        "par": draw(st.integers(1, 8)),
        "qd": draw(st.lists(st.integers(0, 2), min_size=1, max_size=6)),
        "cd": draw(st.lists(st.integers(0, 2), min_size=1, max_size=4)),
        "at": draw(st.integers(0, 59)),
        "extra": draw(st.integers(0, 2)),
    }


def body(case, d):
    kind, n = case["kind"], case["n"]
    at = case["at"] % n if n else 0
    lock = threading.Lock()
    st_ = {"started": 0, "consumed": 0, "worst": 0, "closing": False, "done": False, "late": 0}

    def query(graph, x):
        with lock:
            st_["started"] += 1
            if not st_["closing"]:
                st_["worst"] = max(st_["worst"], st_["started"] - st_["consumed"])
            if st_["done"]:
                st_["late"] += 1
        dl = case["qd"][x % len(case["qd"])]
        if dl:
            time.sleep(dl / 1000)
        if kind == "query_fail" and x == at:
            raise Boom("query failed")
        return (graph, x, x * x)

    s = Sampler(n, at if kind == "sampler_fail" else -1)

    def go():
        g = Generator("G", s, query, prefetch_size=case["queue"], max_parallel=case["par"])
        got, err, ends = [], None, 0
        try:
            k = 0
            while True:
                if kind == "leave" and k > at:
                    break
                item = next(g)
                with lock:
                    st_["consumed"] += 1
                got.append(item)
                dl = case["cd"][k % len(case["cd"])]
                if dl:
                    time.sleep(dl / 1000)
                k += 1
        except StopIteration:
            ends = 1
            for _ in range(case["extra"]):
                try:
                    next(g)
                    ends = -1
                except StopIteration:
                    ends += 1
        except Exception as e:
            err = e
            st_["closing"] = True
        st_["closing"] = True
        if kind == "leave":
            # a consumer that is slower than everything else: let readers run as far as they want
            stable, last = 0, -1
            while stable < 3:
                time.sleep(0.002)
                stable, last = (stable + 1, last) if s.drawn == last else (0, s.drawn)
            st_["drawn"] = s.drawn
        g.join()
        st_["done"] = True
        return got, err, ends

    with contextlib.redirect_stdout(io.StringIO()):
        with sut("prefetching"):
            got, err, ends = run_blocking(go, "prefetching", thread_death_is_error=False)
    valid = Counter(("G", i, i * i) for i in range(n))
    extra = Counter(got) - valid
    require(not extra, lambda: f"results invented or repeated: {vp.short(dict(extra))}")
    if case["par"] == 1:
        equal([x[1] for x in got], sorted(x[1] for x in got), "order of results with one query thread")
    require(
        st_["worst"] <= case["queue"] + case["par"] + 3,
        f"{st_['worst']} results running or waiting, queue {case['queue']}, {case['par']} query threads",
    )
    if kind == "ok":
        require(err is None, lambda: f"failed with {err}")
        equal(len(got), n, "number of results")
        equal(ends, 1 + case["extra"], "end of iteration")
    elif kind == "leave":
        require(err is None, lambda: f"failed with {err}")
        equal(len(got), min(n, at + 1), "number of results")
        ahead = st_["drawn"] - len(got)
        limit = case["queue"] + max(20, case["par"]) + 5
        require(ahead <= limit, f"the sampler ran {ahead} batches ahead of its consumer, queue {case['queue']}")
    else:
        require(err is not None, f"the failure never reached the consumer, it got {len(got)} of {n} results")
        require("failed" in str(err), f"the reported error hides its cause: {vp.short(str(err))}")
        if kind == "query_fail":
            require(("G", at, at * at) not in got, "a failed query delivered a result")
            # every result before it in submission order is allowed to be lost, none may be wrong
    time.sleep(0)
    equal(st_["late"], 0, "queries started after the generator was closed")
    if n >= 3 or kind != "ok":
        c.note(case)


c.campaign("ok", cases("ok"), body, 120, 2000)
c.campaign("query_failure", cases("query_fail"), body, 100, 1500)
c.campaign("sampler_failure", cases("sampler_fail"), body, 80, 1000)
c.campaign("leave_early", cases("leave"), body, 80, 1000)

if __name__ == "__main__":
    c.main()
