"""C38: learning rates follow the schedule that was asked for."""
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import faketorch as torch

torch.install()
with sut("importing the trainers"):
    from deepgnn.pytorch.common import optimization
    from deepgnn.pytorch.modeling.base_model import BaseModel
    from deepgnn.pytorch.training.factory import get_args, get_trainer

c = Check(
    "C38",
    "a case of 'schedule' is a kind of schedule (constant, with warmup, linear, cosine, cosine with restarts, polynomial), numbers of steps of warmup and training (none, equal, fractions), "
    "its parameters, learning rates of one to three groups and the step to start from; the rate of each group at every step, also after the last, must be its definition. A case of 'train' runs a "
    "trainer on a stand-in for torch and records the rate of every step of the optimizer. Non-trivial: rates before and after the end of the warmup differ.",
    assumptions=("torch is replaced by a stand-in whose scheduler multiplies the initial rate by the value of a step", "a continued training starts its schedule anew"),
)
os.environ.update(MASTER_ADDR="localhost", MASTER_PORT="1", RANK="0", WORLD_SIZE="1")
KINDS = ["constant", "warmup", "linear", "cosine", "restarts", "polynomial"]


@st.composite
def schedule_cases(draw):
    kind = draw(st.sampled_from(KINDS))
    total = draw(st.integers(0 if kind != "polynomial" else 1, 30))
    warm = draw(st.one_of(st.integers(0, total), st.just(total), st.just(0), st.floats(0, total, width=16)))
    rate = draw(st.sampled_from([1e-3, 0.1, 1.0, 5.0]))
    return {
        "kind": kind, "total": total, "warm": warm, "cycles": draw(st.sampled_from([0.5, 0.5, 1, 1.5, 2])) if kind == "cosine" else draw(st.integers(1, 4)),
        "power": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 3])), "end": rate * draw(st.sampled_from([0, 1e-4, 0.25, 0.9])), "rate": rate, "groups": draw(st.lists(st.sampled_from([0.01, 0.5, 2.0]), max_size=2)),
        "last": draw(st.one_of(st.just(-1), st.just(-1), st.integers(0, 12))), "default": draw(st.booleans()), "beyond": draw(st.integers(1, 6)),
    }


def factor(case, step):
    kind, total, warm = case["kind"], case["total"], case["warm"]
    if kind == "constant":
        return 1.0
    if step < warm:
        return step / max(1, warm)
    if kind == "warmup":
        return 1.0
    if step >= total:  # training is over
        if kind == "polynomial":
            return None if step == total == warm else (1e-7 if case["default"] else case["end"]) / case["rate"]
        if kind == "linear" or step > total and kind == "restarts":
            return 0.0
        if step == total == warm or total - warm < 1:
            return None  # the only step after the warmup is also the end: only bounded
        if kind == "restarts":
            return 0.0
    done = (step - warm) / max(1, total - warm)
    if kind == "linear":
        return max(0.0, (total - step) / max(1, total - warm))
    if kind == "cosine":
        cycles = 0.5 if case["default"] else case["cycles"]
        return max(0.0, (1 + math.cos(2 * math.pi * cycles * done)) / 2)
    if kind == "restarts":
        part = (1 if case["default"] else case["cycles"]) * done
        part -= math.floor(part)
        return None if min(part, 1 - part) < 1e-9 and done > 0 else max(0.0, (1 + math.cos(math.pi * part)) / 2)
    end, power = (1e-7, 1.0) if case["default"] else (case["end"], case["power"])
    return ((case["rate"] - end) * (1 - (step - warm) / (total - warm)) ** power + end) / case["rate"]


def make(case, optimizer):
    kind, o = case["kind"], optimization
    k = {"last_epoch": case["last"]}
    if kind == "constant":
        return o.get_constant_schedule(optimizer, **k)
    if kind == "warmup":
        return o.get_constant_schedule_with_warmup(optimizer, case["warm"], **k)
    if not case["default"]:
        k.update({"cosine": {"num_cycles": case["cycles"]}, "restarts": {"num_cycles": case["cycles"]}, "polynomial": {"lr_end": case["end"], "power": case["power"]}}.get(kind, {}))
    f = {
        "linear": o.get_linear_schedule_with_warmup, "cosine": o.get_cosine_schedule_with_warmup,
        "restarts": o.get_cosine_with_hard_restarts_schedule_with_warmup, "polynomial": o.get_polynomial_decay_schedule_with_warmup,
    }[kind]
    return f(optimizer, case["warm"], case["total"], **k)


def schedule(case, d):
    optimizer = torch.Optimizer([], lr=case["rate"])
    optimizer.param_groups += [{"params": [], "lr": x} for x in case["groups"]]
    base = [g["lr"] for g in optimizer.param_groups]
    with sut("making a schedule"):
        s = make(case, optimizer)
    seen = set()
    for step in range(case["last"] + 1, case["total"] + case["beyond"]):
        got = [g["lr"] for g in optimizer.param_groups]
        f = factor(case, step)
        for b, x in zip(base, got):
            require(-1e-12 <= x <= b * (1 + 1e-9), f"rate {x} of step {step} outside of 0 to {b}")
            if f is not None:
                require(abs(x - b * f) <= 1e-9 * b + 1e-12, f"rate of step {step}: got {x}, expected {b * f}")
        equal(list(s.get_last_lr()), got, "last rate")
        seen.add((step < case["warm"], got[0]))
        with sut("a step of a schedule"):
            s.step()
    if {x for x, _ in seen} == {True, False} and len(seen) > 2:
        c.note(case)


class Model(BaseModel):
    def __init__(self):
        super().__init__(np.float32, 0, 1, None)
        self.metric = None
        self.state = np.zeros(1, np.float32).view(torch.Parameter)

    def forward(self, data):
        loss = torch.tensor(0.5)
        loss.on_backward = lambda: None
        return loss, torch.tensor([1.0]), torch.tensor([1.0])


class Optimizer(torch.Optimizer):
    rates = None

    def step(self, *a, **k):
        self.rates.append(self.param_groups[0]["lr"])


@st.composite
def train_cases(draw):
    world, batch = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    n, limit = draw(st.integers(1, 8)), draw(st.integers(0, 9))
    return {
        "world": world, "batch_size": batch, "n": n, "limit": limit, "slack": draw(st.integers(0, world * batch - 1)) if limit else 0, "epochs": draw(st.integers(1, 5)),
        "warm": draw(st.one_of(st.none(), st.sampled_from([0.0, 0.1, 0.25, 0.5, 1.0]))), "rate": draw(st.sampled_from([0.01, 1.0])),
        "trainer": draw(st.sampled_from(["ddp", "hvd"] if world > 1 else ["base", "ddp", "hvd"])), "rank": draw(st.integers(0, world - 1)), "clip": draw(st.booleans()), "gpu": draw(st.booleans()) and world == 1,
    }


def train(case, d):
    torch.WORLD.rank, torch.WORLD.size, torch.WORLD.broadcast = case["rank"], case["world"], None
    torch.FILES.after_save = None
    model = Model()
    optimizer = Optimizer(model.parameters(), lr=case["rate"])
    optimizer.rates = []
    samples = case["limit"] * case["world"] * case["batch_size"] + case["slack"]
    command = ["--model_dir", d, "--save_path", d, "--metric_dir", os.path.join(d, "metrics"), "--num_epochs", str(case["epochs"]), "--trainer", case["trainer"]]
    command += ["--batch_size", str(case["batch_size"]), "--max_samples", str(samples), "--learning_rate", str(case["rate"]), "--fp16", "no"]
    command += ["--warmup", str(case["warm"])] if case["warm"] is not None else []
    command += [x for x in ("clip", "gpu") if case[x] for x in ["--clip_grad" if x == "clip" else "--gpu"]]
    data = [{"inputs": torch.tensor([i])} for i in range(case["n"])]
    with sut("training"):
        get_trainer(get_args(None, command)).run(model, [dict(x) for x in data], optimizer, None)
    per_epoch = min(case["n"], case["limit"]) if case["limit"] else case["n"]
    equal(len(optimizer.rates), per_epoch * case["epochs"], "number of steps of the optimizer")
    total = case["limit"] * case["epochs"]
    warm = (0.0002 if case["warm"] is None else case["warm"]) * total
    for i, x in enumerate(optimizer.rates):
        f = factor({"kind": "linear", "total": total, "warm": warm}, i) if case["limit"] else 1.0
        require(abs(x - f * case["rate"]) <= 1e-9, f"rate of step {i} of {total}: got {x}, expected {f * case['rate']}")
    if case["limit"] and len(optimizer.rates) > 2:
        c.note(case)


c.campaign("schedule", schedule_cases(), schedule, 3000, 60000)
c.campaign("train", train_cases(), train, 500, 8000)
c.main()
