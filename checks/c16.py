"""C16: every worker of a training job agrees on servers, ranks and partitions."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require, run_blocking

vp.silence_logging()
import argparse
import json
import logging
import multiprocessing as mp
import runpy
import signal
import subprocess
import time
import types

from deepgnn.graph_engine.backends.snark import client as bc
from deepgnn.graph_engine.backends.snark import synchronized as sy
from deepgnn.graph_engine.backends.options import BackendOptions
from deepgnn.graph_engine.snark import distributed as dist
from deepgnn.graph_engine.snark import server as srv
from deepgnn.graph_engine.snark.client import PartitionStorageType
from deepgnn.graph_engine.utils import define_param_graph_engine

c = Check(
    "C16",
    "ranks: a cluster of 1-4 hosts with 1-4 workers each, launched through DDP, MPI, Horovod, TensorFlow hosts, TF_CONFIG or explicit "
    "arguments; every worker creates a backend (servers and clients replaced by recorders): exactly one server per host with "
    "indices 0..n-1 bound to its own address, distinct ranks, clients connect to all servers in the same order. discovery: the same with real sync files and one process per "
    "worker, generated start-up delays, addresses not given. partitions: servers own every partition exactly once. "
    "Non-trivial: at least two workers or two servers and partitions.",
    ["uniform number of workers per host for DDP, MPI and Horovod (documented)", "polling interval shortened as in C15"],
)
_sleep = time.sleep
if hasattr(sy, "time"):
    sy.time = types.SimpleNamespace(**{k: getattr(time, k) for k in dir(time) if not k.startswith("__")})
    sy.time.sleep = lambda s: _sleep(min(s, 0.002))
ENV = [
    "LOCAL_RANK", "WORLD_SIZE", "LOCAL_WORLD_SIZE", "RANK", "OMPI_COMM_WORLD_LOCAL_RANK", "OMPI_COMM_WORLD_LOCAL_SIZE", "OMPI_COMM_WORLD_RANK",
    "OMPI_COMM_WORLD_SIZE", "HOROVOD_LOCAL_RANK", "HOROVOD_LOCAL_SIZE", "HOROVOD_RANK", "HOROVOD_SIZE", "TF_CONFIG",
]
NAMES = {
    "ddp": ("LOCAL_RANK", "LOCAL_WORLD_SIZE", "RANK", "WORLD_SIZE"),
    "mpi": ("OMPI_COMM_WORLD_LOCAL_RANK", "OMPI_COMM_WORLD_LOCAL_SIZE", "OMPI_COMM_WORLD_RANK", "OMPI_COMM_WORLD_SIZE"),
    "horovod": ("HOROVOD_LOCAL_RANK", "HOROVOD_LOCAL_SIZE", "HOROVOD_RANK", "HOROVOD_SIZE"),
}


def options(argv, **kw):
    p = argparse.ArgumentParser()
    define_param_graph_engine(p)
    ns = p.parse_args(argv)
    for k, v in kw.items():
        setattr(ns, k, v)
    return BackendOptions(ns)


def launch(case, rank):
    """Environment and options of one worker."""
    for k in ENV:
        os.environ.pop(k, None)
    H, L, kind = case["hosts"], case["local"], case["kind"]
    argv = ["--data_dir", case.get("data", "/data"), "--graph_type", "remote"]
    if case.get("servers"):
        argv += ["--servers"] + case["servers"]
    kw = {"model_dir": case.get("model", "/model")}
    if kind in NAMES:
        vals = (rank % L, L, rank, H * L)
        for k, v in zip(NAMES[kind], vals):
            os.environ[k] = str(v)
        host = rank // L
    elif kind == "tf_args":
        kw.update(task_index=rank, worker_hosts=list(case["workers"]))
        host = case["workers"][rank].rsplit(":", 1)[0]
    elif kind == "tf_config":
        os.environ["TF_CONFIG"] = json.dumps({"cluster": {"worker": case["workers"]}, "task": {"type": "worker", "index": rank}})
        host = case["workers"][rank].rsplit(":", 1)[0]
    else:
        host = rank // L
        argv += ["--server_idx", str(host if rank % L == 0 else -1), "--client_rank", str(rank)]
        if not case.get("servers"):
            argv += ["--num_ge", str(H * L)]
    return options(argv, **kw), host


@st.composite
def cluster(draw, kinds, maxh=4, maxl=4):
    H, L = draw(st.integers(1, maxh)), draw(st.integers(1, maxl))
    kind = draw(st.sampled_from(kinds))
    case = {"hosts": H, "local": L, "kind": kind}
    if kind.startswith("tf"):
        names = draw(st.permutations(["alpha", "beta", "alpha.x", "10.0.0.2", "10.0.0.10"]))[:H]
        case["workers"] = draw(st.permutations([f"{h}:{2000 + 7 * i}" for h in names for i in range(L)]))
    return case


class Rec:
    """Stands for both synchronized wrappers."""

    def __init__(self, log, name):
        self.log, self.name = log, name

    def __call__(self, *a, **k):
        self.log.append((self.name, a, k))
        return self

    def reset(self):
        pass

    client = None


KINDS = ["ddp", "mpi", "horovod", "tf_args", "tf_config", "explicit"]


@st.composite
def rank_cases(draw):
    case = draw(cluster(KINDS))
    case["servers"] = [f"srv{i}:{4000 + i}" for i in draw(st.permutations(range(case["hosts"])))]
    case["twice"] = draw(st.booleans())
    case["sync_dir"] = draw(st.booleans())
    return case


def rank_body(case, d):
    case = dict(case, data="/some/data", model=os.path.join(d, "model"))
    saved = bc.SynchronizedServer, bc.SynchronizedClient, dict(os.environ)
    log = []
    bc.SynchronizedServer, bc.SynchronizedClient = Rec(log, "s"), Rec(log, "c")
    H, N = case["hosts"], case["hosts"] * case["local"]
    by_host, ranks, idxs, sync = {}, [], [], set()
    try:
        for rank in range(N):
            opt, host = launch(case, rank)
            if case["sync_dir"]:
                opt.sync_dir = os.path.join(d, "sy")
            for _ in range(2 if case["twice"] else 1):  # a backend may be created again with the same options
                log.clear()
                with sut("creating a backend"):
                    bc.SnarkDistributedBackend(opt)
            ss = [x for x in log if x[0] == "s"]
            cs = [x for x in log if x[0] == "c"]
            equal(len(cs), 1, "clients of a worker")
            require(len(ss) <= 1, "a worker started several servers")
            _, a, k = cs[0]
            sync.add(a[0])
            ranks.append(a[1])
            equal(a[2], H, "servers a client waits for")
            equal(list(a[5]), case["servers"], "servers a client connects to")
            for _, a, k in ss:
                idx = a[1]
                idxs.append(idx)
                sync.add(a[0])
                equal(a[4], case["servers"][idx], f"address of server {idx}")
                equal((a[5], a[6], a[7]), ("/some/data", idx, H), "data, index and number of servers")
                by_host.setdefault(host, []).append(idx)
    finally:
        bc.SynchronizedServer, bc.SynchronizedClient = saved[:2]
        os.environ.clear()
        os.environ.update(saved[2])
    equal(sorted(ranks), list(range(N)), "ranks of clients")
    equal(sorted(idxs), list(range(H)), "indices of servers")
    require(all(len(v) == 1 for v in by_host.values()) and len(by_host) == H, f"servers per host: {by_host}")
    equal(len(sync), 1, "folders used to synchronize workers")
    if case["sync_dir"]:
        equal(sync, {os.path.join(d, "sy")}, "folder used to synchronize workers")
    if N > 1:
        c.note(("rank", case["hosts"], case["local"], case["kind"], case.get("workers"), case["servers"], case["twice"]))


@st.composite
def disc_cases(draw):
    case = draw(cluster(["ddp", "mpi", "horovod", "tf_args", "tf_config"], 3, 2))
    n = case["hosts"] * case["local"]
    case["start"] = [draw(st.sampled_from([0, 0, 10, 40])) for _ in range(n)]
    case["slow"] = [draw(st.sampled_from([0, 0, 0, 30])) for _ in range(n)]
    case["parts"] = draw(st.integers(1, 6))
    return case


class FakeEngine:
    def __init__(self, *a, **k):
        self.args = a

    def reset(self):
        pass


def worker(case, rank, out, everyone):
    os.setsid()  # allows to stop everything a worker started
    try:
        opt, host = launch(case, rank)
        opt.ge_start_timeout = 20
        hosts = sorted({w.rsplit(":", 1)[0] for w in case["workers"]}) if "workers" in case else list(range(case["hosts"]))
        addr = f"127.0.0.{hosts.index(host) + 1}"
        if hasattr(bc, "_get_host"):
            bc._get_host = lambda: addr
        made = []

        class Slow(sy.SynchronizedServer):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                _sleep(case["slow"][rank] / 1000)
                made.append((a[1], a[4:8]))

        bc.SynchronizedServer = Slow
        bc.Server = FakeEngine
        bc.DistributedClient = FakeEngine
        _sleep(case["start"][rank] / 1000)
        b = bc.SnarkDistributedBackend(opt)
        servers = list(b.graph.args[0])
        everyone.wait()  # training outlives the start of every worker
        b.close()
        started = made[1:] if len(made) > 1 else []
        out.put((rank, addr, servers, [(i, str(a[0])) for i, a in started], None))
    except BaseException as e:  # noqa: B902
        everyone.abort()
        out.put((rank, None, None, None, f"{type(e).__name__}: {e}"))


def disc_body(case, d):
    data = os.path.join(d, "data")
    os.makedirs(data)
    with open(os.path.join(data, "meta.json"), "w") as f:
        json.dump({"partitions": {str(i): {} for i in range(case["parts"])}}, f)
    case = dict(case, data=data, model=os.path.join(d, "model"))
    n = case["hosts"] * case["local"]
    ctx = mp.get_context("fork")
    out = ctx.Queue()
    everyone = ctx.Barrier(n)
    ps = [ctx.Process(target=worker, args=(case, r, out, everyone)) for r in range(n)]

    def go():
        for p in ps:
            p.start()
        res = []
        while len(res) < n:
            res.append(out.get())
            if res[-1][4]:
                return res
        for p in ps:
            p.join()
        return res

    try:
        with sut("discovery of servers"):
            res = run_blocking(go, "discovery of servers")
    finally:
        for p in ps:
            if p.pid and p.is_alive():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    p.kill()
    errs = [r for r in res if r[4] and "BrokenBarrier" not in r[4]]
    require(not errs, lambda: f"worker {errs[0][0]}: {errs[0][4]}")
    first = res[0][2]
    equal(len(first), case["hosts"], "number of discovered servers")
    started = {}
    for rank, addr, servers, mine, _ in res:
        equal(servers, first, f"servers seen by worker {rank}")
        for i, a in mine:
            require(i not in started, f"server {i} started twice")
            started[i] = a
            equal(a, first[i], f"address of server {i}")
            equal(a.rsplit(":", 1)[0], addr, f"host of server {i}, started by worker {rank}")
    equal(sorted(started), list(range(case["hosts"])), "started servers")
    left = [f for _, _, fs in os.walk(case["model"]) for f in fs if f.endswith((".client", ".server"))]
    equal(left, [], "sync files left after closing")
    if n > 1:
        c.note(("disc", {k: v for k, v in case.items() if k not in ("data", "model")}))


@st.composite
def part_cases(draw):
    return {
        "parts": draw(st.integers(1, 17)),
        "shards": draw(st.integers(1, 6)),
        "storage": draw(st.sampled_from(["memory", "disk"])),
        "cli": draw(st.booleans()),
        "skip": draw(st.booleans()),
    }


def part_body(case, d):
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"partitions": {str(i): {} for i in range(case["parts"])}}, f)
    got = []
    saved = srv.Server, subprocess.check_call, sys.argv
    stop = []

    class Rec2:
        def __init__(self, *a, **k):
            import inspect

            b = inspect.signature(saved[0].__init__).bind(self, *a, **k)
            b.apply_defaults()
            got.append(b.arguments)

        def reset(self):
            stop.append(1)

    logging.getLogger().handlers or logging.getLogger().addHandler(logging.NullHandler())
    srv.Server = Rec2
    subprocess.check_call = lambda *a, **k: 0
    try:
        with sut("starting servers"):
            for i in range(case["shards"]):
                if case["cli"]:
                    sys.argv = [
                        "server", "--port", str(5000 + i), "--server_group", f"{i},{case['shards']},{case['parts']}", "--data_dir", d,
                        "--storage_type", case["storage"],
                    ] + (["--skip_feature_loading"] if case["skip"] else [])
                    runpy.run_path(saved_path, run_name="__main__")
                else:
                    s = dist.Server(f"h{i}:{5000 + i}", d, i, case["shards"], storage_type=PartitionStorageType[case["storage"]], skip_feature_loading=case["skip"])
                    s.reset()
    finally:
        srv.Server, subprocess.check_call, sys.argv = saved
    equal(len(got), case["shards"], "servers")
    equal(len(stop), case["shards"], "stopped servers")
    owned = []
    for i, g in enumerate(got):
        g["partitions"] = list(g["partitions"])
        for p in g["partitions"]:
            path, idx = (d, p) if isinstance(p, int) else p
            equal(path, d, "path of a partition")
            owned.append(idx)
        equal(g["meta_path"], d, "path of metadata")
        require(str(g["hostname"]).endswith(f":{5000 + i}"), f"address {g['hostname']}")
        require(g["storage_type"] == PartitionStorageType[case["storage"]], f"storage {g['storage_type']}")
        equal(bool(g["skip_feature_loading"]), case["skip"], "skip features")
        sizes = abs(len(g["partitions"]) - case["parts"] / case["shards"])
        require(sizes < 1, f"server {i} owns {len(g['partitions'])} of {case['parts']} partitions with {case['shards']} servers")
    equal(sorted(owned), list(range(case["parts"])), "partitions owned by all servers")
    if case["parts"] > 1 and case["shards"] > 1:
        c.note(("part", case))


saved_path = srv.__file__
c.campaign("ranks", rank_cases(), rank_body, 1000, 5000)
c.campaign("partitions", part_cases(), part_body, 200, 1000)
c.campaign("discovery", disc_cases(), disc_body, 60, 300)

if __name__ == "__main__":
    c.main()
