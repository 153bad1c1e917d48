"""C34: training that is interrupted continues from the newest checkpoint."""
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import faketorch as torch

torch.install()
with sut("importing the trainers"):
    from deepgnn.pytorch.common import utils
    from deepgnn.pytorch.modeling.base_model import BaseModel
    from deepgnn.pytorch.training.factory import get_args, get_trainer

c = Check(
    "C34",
    "a case of 'resume' is the number of batches and epochs of a training, its options (checkpoints by steps and by epochs, how many are kept, "
    "limit of samples, order by time, evaluation while training, trainer and number of workers) and a list of crashes, each while a batch is read or "
    "right after a checkpoint is written. The training runs on a stand-in for torch whose model is a number that depends on all batches applied and "
    "their order. After each crash the next run must start from the last checkpoint written, checkpoints must appear where the options say and only the newest "
    "stay; in the end the model must be the one of a training without crashes. 'long' does so around the thousandth epoch. A case of 'rotate' is a "
    "directory of checkpoints with epochs and steps of any size. Non-trivial: a run found a checkpoint, or a checkpoint had to be removed.",
    assumptions=(
        "torch is replaced by a stand-in; files are written completely or not at all",
        "learning rate and state of the optimizer are not part of a checkpoint",
        "the last step of a limited epoch and which epochs of every so many are saved are not specified",
    ),
)
MOD = 2**61 - 1
os.environ.update(MASTER_ADDR="localhost", MASTER_PORT="1", RANK="0", WORLD_SIZE="1")


class Crash(BaseException):
    pass


def advance(w, batch):
    return (w * 1000003 + batch + 1) % MOD


class Model(BaseModel):
    """`state` is the value all applied batches give, and their number."""

    def __init__(self, gpu, extra):
        super().__init__(np.float32, 0, 1, None)
        self.metric = None
        self.state = np.zeros(2, np.int64).view(torch.Parameter)
        self.grad, self.gpu, self.seen, self.evaluated, self.start = None, gpu, [], [], None
        if extra:
            self.init_parameters = {"a": 1}

    def forward(self, data):
        x = data["inputs"]
        equal(bool(x.on_gpu), self.gpu, "data is on the gpu")
        equal(bool(data["more"][0].on_gpu), self.gpu, "nested data is on the gpu")
        batch = int(x[0])
        if batch < 0:
            require(not self.training, "evaluation while the model is in training mode")
            self.evaluated.append(batch)
        else:
            require(self.training, "training while the model is in evaluation mode")
            if self.start is None:
                self.start = [int(v) for v in self.state]
            self.seen.append(batch)
        loss = torch.tensor(0.5)

        def backward():
            self.grad = batch

        loss.on_backward = backward
        return loss, torch.tensor([1.0]), torch.tensor([1.0])


class Optimizer(torch.Optimizer):
    def __init__(self, model):
        super().__init__(model.parameters(), lr=0.1)
        self.model = model

    def zero_grad(self, *a, **k):
        self.model.grad = None

    def step(self, *a, **k):
        m = self.model
        if m.grad is not None:
            m.state[0] = advance(int(m.state[0]), m.grad)
            m.state[1] += 1


class Batches:
    def __init__(self, numbers, crash=None, before=None):
        self.numbers, self.crash, self.given, self.before = numbers, crash, 0, before

    def __iter__(self):
        for b in self.numbers:
            if self.given == self.crash:
                raise Crash()
            if self.before:
                self.before()
            self.given += 1
            yield {"inputs": torch.tensor([b]), "more": [torch.tensor([b, b])]}


def ckpts(d):
    return {x for x in os.listdir(d) if x.startswith("gnnmodel-")}


@st.composite
def options(draw, n, epochs):
    world = draw(st.sampled_from([1, 1, 1, 2, 3]))
    batch = draw(st.integers(1, 3))
    top = draw(st.one_of(st.just(0), st.just(0), st.integers(1, max(1, n + 2))))
    slack = draw(st.integers(0, world * batch - 1)) if top else 0
    mtime = draw(st.booleans())
    return {
        "by_steps": draw(st.integers(0, n + 2)),
        "by_epochs": draw(st.sampled_from([1, 1, 1, 2, 3])),
        "kept": draw(st.integers(0, 4)),
        "batch_size": batch,
        "max_steps": top,
        "max_samples": top * world * batch + slack,
        "world": world,
        "trainer": draw(st.sampled_from(["base", "ddp", "hvd"] if world == 1 else ["ddp", "hvd"])),
        "gpu": draw(st.booleans()) if world == 1 else False,
        "mtime": mtime,
        "leftovers": draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)).map(list), max_size=3, unique_by=tuple)) if mtime else [],
        "log": draw(st.integers(0, 3)),
        "eval": draw(st.integers(0, 3)),
        "eval_by": draw(st.integers(0, 3)),
        "per_step": draw(st.booleans()),
        "clip": draw(st.booleans()),
        "extra": draw(st.booleans()),
    }


@st.composite
def resume_cases(draw, long=False):
    n = draw(st.integers(1, 3) if long else st.integers(0, 9))
    epochs = draw(st.integers(998, 1004)) if long else draw(st.integers(1, 5))
    o = draw(options(n, epochs))
    if long:
        o.update(log=0, eval_by=0, kept=draw(st.integers(1, 4)), by_epochs=1, by_steps=draw(st.integers(0, 3)), world=1, trainer="base", leftovers=[], mtime=False)
        o["max_samples"], o["max_steps"] = 0, 0
        crashes = [["batch", n * (epochs - k)] for k in draw(st.lists(st.integers(0, 5), max_size=1))]
        crashes += draw(st.lists(st.tuples(st.sampled_from(["batch", "save"]), st.integers(0, 4)).map(list), max_size=2))
    else:
        crash = st.tuples(st.sampled_from(["batch", "batch", "save"]), st.integers(0, max(1, n * epochs))).map(list)
        crashes = draw(st.lists(crash, max_size=4))
    return {"n": n, "epochs": epochs, "options": o, "crashes": crashes}


def command(case, where, model_dir):
    o = case["options"]
    out = ["--model_dir", model_dir, "--save_path", where, "--metric_dir", where + "-metrics", "--num_epochs", str(case["epochs"])]
    out += ["--trainer", o["trainer"], "--batch_size", str(o["batch_size"]), "--max_samples", str(o["max_samples"])]
    out += ["--save_ckpt_by_steps", str(o["by_steps"]), "--save_ckpt_by_epochs", str(o["by_epochs"]), "--max_saved_ckpts", str(o["kept"])]
    out += ["--log_by_steps", str(o["log"]), "--eval_during_train_by_steps", str(o["eval_by"])]
    flags = {"mtime": "--sort_ckpt_by_mtime", "gpu": "--gpu", "per_step": "--use_per_step_metrics", "clip": "--clip_grad"}
    return out + [f for k, f in flags.items() if o[k]] + ["--fp16", "no"]


def run(case, where, model_dir, crash, rank=0, vector=None, on_batch=None):
    """One process of the training; its model, whether it was ended and what it saved."""
    o = case["options"]
    f = torch.FILES
    saves = []
    model = Model(o["gpu"], o["extra"])
    out = {"model": model, "crashed": False, "saves": saves, "vector": None}

    def after_save(path):
        saves.append([path, int(model.state[0]), int(model.state[1])])
        if crash and crash[0] == "save" and len(saves) > crash[1]:
            raise Crash()

    def broadcast(x, src):
        if rank == 0:
            out["vector"] = np.array(x)
        else:
            x[...] = vector

    f.after_save, f.saved, f.loaded = after_save, [], []
    torch.WORLD.rank, torch.WORLD.size, torch.WORLD.broadcast = rank, o["world"], broadcast
    data = Batches(list(range(case["n"])), crash[1] if crash and crash[0] == "batch" else None, on_batch)
    evals = Batches([-1 - i for i in range(o["eval"])])
    with sut("training"):
        args = get_args(None, command(case, where, model_dir))
        trainer = get_trainer(args)
        try:
            trainer.run(model, data, Optimizer(model), evals if o["eval"] else None)
        except Crash:
            out["crashed"] = True
    f.after_save = None
    return out


def written(order):
    """Names of checkpoints from the oldest to the newest, with those of this run."""
    names = dict.fromkeys(order)
    for p in torch.FILES.saved:
        b = os.path.basename(p)
        names.pop(b, None)
        names[b] = None
    return list(names)


def expected(case):
    o = case["options"]
    per = case["n"] if not o["max_steps"] else min(case["n"], o["max_steps"])
    return per, list(range(per)) * case["epochs"]


def resume(case, base):
    o = case["options"]
    per, seq = expected(case)
    values = [0]
    for b in seq:
        values.append(advance(values[-1], b))
    where = os.path.join(base, "ckpt")
    empty = os.path.join(base, "empty")
    os.mkdir(where)
    os.mkdir(empty)
    others = ["embedding-0.tsv", "model-001-000000.pt", "notes-gnnmodel-001.txt"]
    for name in others:
        with open(os.path.join(where, name), "w") as fh:
            fh.write(name)
    torch.FILES.clock = 1_600_000_000 + 990
    old = []
    for e, s in o["leftovers"]:
        path = os.path.join(where, f"gnnmodel-{e:03}-{s:06}.pt")
        torch.FILES.after_save = None
        torch.save({"state_dict": {"state": np.array([5, 5])}, "epoch": e, "step": s}, path)
        old.append(os.path.basename(path))
    order = list(old)  # names in the order they were last written
    last = None
    crashes = [x for x in case["crashes"]] + [None, None]
    first, notable = True, False
    for i, crash in enumerate(crashes):
        model_dir = empty if first and old else where
        snapshot = None
        if o["world"] > 1:
            snapshot = os.path.join(base, f"rank1-{i}")
            shutil.copytree(where, snapshot)

        def on_batch():
            if o["kept"] and torch.FILES.saved and (len(torch.FILES.saved) < 40 or len(torch.FILES.saved) % 100 == 0):
                equal(sorted(ckpts(where)), sorted(written(order)[-o["kept"] :]), "checkpoints kept while training")

        r = run(case, where, model_dir, crash, on_batch=on_batch)
        m = r["model"]
        start = 0 if last is None else last[2]
        want_start = [0 if last is None else last[1], start]
        equal([len(torch.FILES.loaded) > 0], [last is not None], "a checkpoint was loaded")
        if m.start is not None:
            equal(m.start, want_start, f"state from which run {i} continued (value, batches applied)")
        equal(m.seen, seq[start : start + len(m.seen)], f"batches of run {i}, after {start} batches")
        notable = notable or last is not None
        for path, value, count in r["saves"]:
            equal(value, values[count], "value written to a checkpoint")
        counts = {s[2] for s in r["saves"]}
        if o["by_steps"] and not (crash and crash[0] == "save"):
            want = [k for k in range(start + 1, int(m.state[1]) + 1) if per and ((k - 1) % per + 1) % o["by_steps"] == 0 and (not o["max_steps"] or (k - 1) % per + 1 < o["max_steps"])]
            require(set(want) <= counts, f"no checkpoint after batches {sorted(set(want) - counts)[:5]}")
        if per and not (crash and crash[0] == "save"):
            ends = [k for k in range(start, int(m.state[1]) + 1) if k % per == 0 and (k in counts or k == start)]
            lo = ends[0] if ends else start
            for k in ends[1:] + [int(m.state[1])]:
                require(k - lo <= per * o["by_epochs"], f"no checkpoint for {k - lo} batches, {o['by_epochs']} epochs of {per} asked")
                lo = k
        equal({os.path.dirname(p) for p in torch.FILES.saved} - {where}, set(), "other directories with checkpoints")
        order = written(order)
        if o["kept"] and r["saves"] and not (r["crashed"] and crash[0] == "save"):
            notable = notable or len(order) > o["kept"]
            order = order[-o["kept"]:]
            equal(sorted(ckpts(where)), sorted(order), "checkpoints kept")
        else:
            require(set(order[-max(o["kept"], 1):]) <= ckpts(where), "the newest checkpoints are there")
            if not o["kept"]:
                equal(sorted(ckpts(where)), sorted(order), "checkpoints when all are kept")
            order = [x for x in order if x in ckpts(where)]
        for name in others:
            with open(os.path.join(where, name)) as fh:
                equal(fh.read(), name, "another file of the directory")
        if snapshot:
            if m.start is not None and r["vector"] is not None:
                before = sorted(os.listdir(snapshot))
                q = run(case, snapshot, empty if model_dir == empty else snapshot, None, rank=1, vector=r["vector"])
                equal(q["saves"], [], "checkpoints written by another worker")
                equal(sorted(os.listdir(snapshot)), before, "files after another worker")
                equal(q["model"].start, want_start, "state from which another worker continued")
                equal(q["model"].seen, seq[start:], "batches of another worker")
            shutil.rmtree(snapshot)
        if not r["crashed"]:
            equal([int(x) for x in m.state], [values[-1], len(seq)], "the model after training")
            if o["eval"] and o["eval_by"]:
                times = sum(1 for k in range(start, len(seq)) if (k % per + 1) % o["eval_by"] == 0)
                equal(m.evaluated, [-1 - j for j in range(o["eval"])] * times, "batches of evaluation while training")
        if r["saves"]:
            last = r["saves"][-1]
        first = last is None
    if notable:
        c.note(case)


@st.composite
def rotate_cases(draw):
    big = st.one_of(st.integers(0, 12), st.integers(0, 1100), st.sampled_from([999, 1000, 1001]))
    step = st.one_of(st.integers(0, 12), st.integers(0, 2 * 10**6), st.sampled_from([999999, 1000000, 1000001]))
    return {
        "files": draw(st.lists(st.tuples(big, step).map(list), max_size=9, unique_by=tuple)),
        "kept": draw(st.integers(0, 6)),
        "mtime": draw(st.booleans()),
        "dir": draw(st.sampled_from(["a", "gnnmodel-7", "run-2-gnnmodel"])),
        "order": draw(st.integers(0, 10**6)),
    }


def rotate(case, base):
    where = os.path.join(base, case["dir"])
    os.mkdir(where)
    files = [f"gnnmodel-{e:03}-{s:06}.pt" for e, s in case["files"]]
    times = list(range(len(files)))
    rnd = random.Random(case["order"])
    rnd.shuffle(times)
    for i in sorted(range(len(files)), key=lambda i: rnd.random()):
        path = os.path.join(where, files[i])
        open(path, "w").close()
        os.utime(path, (1_600_000_000 + times[i],) * 2)
    key = {f: (times[i] if case["mtime"] else tuple(case["files"][i])) for i, f in enumerate(files)}
    want = [os.path.join(where, f) for f in sorted(files, key=key.get)]
    with sut("sorting checkpoints"):
        got = utils.get_sorted_checkpoints(where, sort_ckpt_by_mtime=case["mtime"])
    equal(got, want, "checkpoints from the oldest to the newest")
    with sut("removing old checkpoints"):
        utils.rotate_checkpoints(where, case["kept"], sort_ckpt_by_mtime=case["mtime"])
    left = want[-case["kept"]:] if case["kept"] else want
    equal(sorted(os.listdir(where)), sorted(os.path.basename(x) for x in left), "checkpoints kept")
    if len(left) < len(want):
        c.note(case)


c.campaign("resume", resume_cases(), resume, 1500, 30000)
c.campaign("long", resume_cases(long=True), resume, 25, 200)
c.campaign("rotate", rotate_cases(), rotate, 600, 10000)
c.main()
