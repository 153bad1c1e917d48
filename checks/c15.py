"""C15: clients connect only to started servers and servers outlive their clients."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require, run_blocking

vp.silence_logging()
import threading
import time
import types

from deepgnn.graph_engine.backends.snark import synchronized as sy

c = Check(
    "C15",
    "a case is 1-3 servers, 1-4 clients and a generated interleaving of: start server, create client, connect client (1-3 concurrent threads), "
    "disconnect client, stop server (also before clients disconnect), with generated start-up delays of servers; or a start where a server is missing; or a folder with stale sync files. "
    "Invariants over the history: no client object exists before every server object, one client object per client, no server stops while a client is open, everything "
    "stops once clients are gone, nothing is left in the folder, missing servers raise a time-out which releases the servers. Non-trivial: at least two servers or two clients.",
    ["polling interval of the protocol is shortened from 1 s to 2 ms by replacing the sleep of the module"],
)
_real = time.sleep
if hasattr(sy, "time"):
    sy.time = types.SimpleNamespace(**{k: getattr(time, k) for k in dir(time) if not k.startswith("__")})
    sy.time.sleep = lambda s: _real(min(s, 0.002))


class FakeServer:
    """Runs in the server process: shows when it is ready and when it goes away."""

    def __init__(self, folder, index, delay):
        if delay < 0:
            os.close(2)  # no traceback of the process
            raise RuntimeError("this server can't start")
        _real(delay / 1000)
        with open(os.path.join(folder, f"tmp_{index}"), "w") as f:
            f.write(str(os.getpid()))
        os.rename(os.path.join(folder, f"tmp_{index}"), os.path.join(folder, f"ready_{index}"))

    def reset(self):
        pass


def alive(folder, index):
    """Is the process that made the server still running."""
    with open(os.path.join(folder, f"ready_{index}")) as f:
        pid = int(f.read())
    if pid == os.getpid():
        return None
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


class FakeClient:
    made = 0

    def __init__(self, folder, n, box):
        box["seen"].append(sorted(x for x in os.listdir(folder) if x.startswith("ready_")))
        _real(0.001)
        box["made"] += 1
        self.box = box

    def reset(self):
        self.box["reset"] += 1


@st.composite
def cases(draw):
    ns, nc = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    early = [["s", i] for i in range(ns)] + [["c", j] for j in range(nc)] + [["g", j] for j in range(nc)]
    order = draw(st.permutations(early))
    # a client must be created before it connects
    fixed, made = [], set()
    for op, i in order:
        if op == "g" and i not in made:
            fixed.append(["c", i])
            made.add(i)
        if op == "c":
            if i in made:
                continue
            made.add(i)
        fixed.append([op, i])
    late = draw(st.permutations([["x", j] for j in range(nc)] + [["S", i] for i in range(ns)]))
    return {
        "ns": ns,
        "nc": nc,
        "ops": fixed + list(late),
        "threads": draw(st.integers(1, 3)),
        "delays": [draw(st.sampled_from([0, 0, 5, 20])) for _ in range(ns)],
        "gap": draw(st.sampled_from([0, 0, 3])),
    }


def body(case, d):
    sync, ready = os.path.join(d, "sync"), os.path.join(d, "ready")
    os.makedirs(sync)
    os.makedirs(ready)
    servers, clients, boxes, getters, stoppers, results = {}, {}, {}, {}, {}, {}
    open_clients = set()
    broken = []
    names = [f"ready_{i}" for i in range(case["ns"])]

    def get(j):
        try:
            results.setdefault(j, []).append(clients[j].client)
        except Exception as e:
            results.setdefault(j, []).append(e)

    def stop(i):
        with sut("stopping a server"):
            servers[i].reset()
        if open_clients:
            broken.append(f"server {i} stopped while clients {sorted(open_clients)} are open")

    def go():
        for op, i in case["ops"]:
            if op == "s":
                servers[i] = sy.SynchronizedServer(sync, i, 600, FakeServer, ready, i, case["delays"][i])
            elif op == "c":
                boxes[i] = {"seen": [], "made": 0, "reset": 0}
                clients[i] = sy.SynchronizedClient(sync, i, case["ns"], 600, FakeClient, ready, case["ns"], boxes[i])
                open_clients.add(i)
            elif op == "g":
                getters[i] = [threading.Thread(target=get, args=(i,), daemon=True) for _ in range(case["threads"])]
                for t in getters[i]:
                    t.start()
            elif op == "x":
                for t in getters[i]:
                    t.join()
                for k in range(case["ns"]):
                    if alive(ready, k) is False:
                        broken.append(f"process of server {k} ended while client {i} is open")
                open_clients.discard(i)
                clients[i].reset()
            else:
                # wait until the server is up: stopping before that is not a use of the protocol
                while not os.path.exists(os.path.join(sync, f"snark_{i}.server")):
                    _real(0.001)
                stoppers[i] = threading.Thread(target=stop, args=(i,), daemon=True)
                stoppers[i].start()
            if case["gap"]:
                _real(case["gap"] / 1000)
        for t in stoppers.values():
            t.join()
        for i in servers:  # processes end by themselves
            while alive(ready, i):
                _real(0.002)

    with sut("protocol"):
        run_blocking(go, "starting and stopping clients and servers")
    require(not broken, lambda: broken[0])
    for j in range(case["nc"]):
        equal(boxes[j]["made"], 1, f"client objects made for client {j}")
        equal(boxes[j]["seen"], [names], f"servers running when client {j} connected")
        equal(boxes[j]["reset"], 1, f"disconnects of client {j}")
        require(len(results[j]) == case["threads"] and all(isinstance(x, FakeClient) for x in results[j]), f"client {j}: {results[j]}")
        require(len({id(x) for x in results[j]}) == 1, f"threads of client {j} got different objects")
    equal(os.listdir(sync), [], "files left in the sync folder")
    if case["ns"] > 1 or case["nc"] > 1:
        c.note(case)


@st.composite
def missing_cases(draw):
    ns = draw(st.integers(1, 3))
    return {
        "ns": ns,
        "missing": draw(st.integers(0, ns - 1)),
        "nc": draw(st.integers(1, 2)),
        "again": draw(st.booleans()),
        "extra": draw(st.booleans()),
        "fails": draw(st.booleans()),
    }


def missing_body(case, d):
    """A server that never starts: clients time out and let other servers go."""
    sync, ready = os.path.join(d, "sync"), os.path.join(d, "ready")
    os.makedirs(sync)
    os.makedirs(ready)
    up = [i for i in range(case["ns"]) if i != case["missing"]]

    def go():
        ids = list(up)
        servers = [sy.SynchronizedServer(sync, i, 600, FakeServer, ready, i, 0) for i in up]
        if case["fails"]:
            failed = sy.SynchronizedServer(sync, case["missing"], 600, FakeServer, ready, case["missing"], -1)
        if case["extra"]:
            # a server with another index does not replace the missing one
            ids.append(case["ns"] + 3)
            servers.append(sy.SynchronizedServer(sync, case["ns"] + 3, 600, FakeServer, ready, case["ns"] + 3, 0))
        clients = []
        for j in range(case["nc"]):
            box = {"seen": [], "made": 0, "reset": 0}
            clients.append((sy.SynchronizedClient(sync, j, case["ns"], 0.1, FakeClient, ready, case["ns"], box), box))
        for i in ids:
            while not os.path.exists(os.path.join(sync, f"snark_{i}.server")):
                _real(0.001)
        for cl, box in clients:
            try:
                cl.client
                raise vp.Violation("connected although a server is missing")
            except TimeoutError:
                pass
            equal(box["made"], 0, "client objects made although a server is missing")
            if case["again"]:
                with sut("closing a client that failed to connect"):
                    cl.reset()
        equal([x for x in os.listdir(sync) if x.endswith("client")], [], "sync files of clients that gave up")
        for s in servers:
            s.reset()
        if case["fails"]:
            failed.reset()
        equal(os.listdir(sync), [], "files left in the sync folder")

    with sut("protocol"):
        run_blocking(go, "time-out of a client")
    c.note(("missing", case))


@st.composite
def stale_cases(draw):
    return {"stale": draw(st.integers(0, 3)), "rank": draw(st.integers(0, 3)), "ext": draw(st.sampled_from(["client", "server"]))}


def stale_body(case, d):
    """Left-overs of an earlier run with the same index are refused, others don't matter."""
    open(os.path.join(d, f"snark_{case['stale']}.{case['ext']}"), "w").close()
    box = {"seen": [], "made": 0, "reset": 0}
    clash = case["stale"] == case["rank"] and case["ext"] == "client"
    try:
        sy.SynchronizedClient(d, case["rank"], 1, 1, FakeClient, d, 1, box)
        require(not clash, "started in a folder with its own sync file")
    except AssertionError:
        require(clash, "refused although its sync file was not there")
    require(os.path.exists(os.path.join(d, f"snark_{case['rank']}.client")), "no sync file of the client")
    c.note(("stale", case))


@st.composite
def lost_cases(draw):
    return {"ns": draw(st.integers(1, 2)), "nc": draw(st.integers(1, 2)), "connected": draw(st.booleans())}


def lost_body(case, d):
    """A client that disappears without disconnecting must not keep servers forever."""
    sync, ready = os.path.join(d, "sync"), os.path.join(d, "ready")
    os.makedirs(sync)
    os.makedirs(ready)

    def go():
        servers = [sy.SynchronizedServer(sync, i, 0.05, FakeServer, ready, i, 0) for i in range(case["ns"])]
        boxes = [{"seen": [], "made": 0, "reset": 0} for _ in range(case["nc"])]
        clients = [sy.SynchronizedClient(sync, j, case["ns"], 600, FakeClient, ready, case["ns"], boxes[j]) for j in range(case["nc"])]
        for i in range(case["ns"]):
            while not os.path.exists(os.path.join(sync, f"snark_{i}.server")):
                _real(0.001)
        if case["connected"]:
            for cl in clients:
                cl.client
        for s in servers:
            s.reset()
        equal(sorted(x for x in os.listdir(sync) if x.endswith("server")), [], "sync files of stopped servers")
        for i in range(case["ns"]):
            while alive(ready, i):
                _real(0.002)

    with sut("protocol"):
        run_blocking(go, "stopping servers of lost clients")
    c.note(("lost", case))


c.campaign("lost_client", lost_cases(), lost_body, 8, 8)
c.campaign("histories", cases(), body, 150, 800)
c.campaign("missing_server", missing_cases(), missing_body, 25, 200)
c.campaign("stale", stale_cases(), stale_body, 40, 100)

if __name__ == "__main__":
    c.main()
