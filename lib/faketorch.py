"""A small stand-in for torch, which is not installed: arrays, modules, optimizers, loaders and files, enough to drive
the trainers, models and metrics of the repository. What they do with numbers is left to numpy."""
import collections
import contextlib
import importlib.abc
import importlib.machinery
import os
import pickle
import sys
import types

import numpy as np


class NotInStandIn(BaseException):
    """The code asks for a part of torch that is not here: an error of the check, not of the code."""


class MissingMethod(AttributeError):
    """A method of tensors that is not here."""


def _axis(dim, keepdim, k):
    """Arguments of numpy for those of torch (or of numpy, which calls methods by its own names)."""
    dim = k.pop("axis", dim)
    return {"axis": tuple(dim) if isinstance(dim, list) else dim, "keepdims": k.pop("keepdims", keepdim)}


def _reduce(name):
    def f(self, dim=None, keepdim=False, **k):
        a = _axis(dim, keepdim, k)
        out = getattr(np.asarray(self), name)(**a)
        return np.asarray(out).view(Tensor)

    return f


def _extreme(name):
    def f(self, dim=None, keepdim=False, **k):
        if isinstance(dim, np.ndarray):
            return {"max": np.maximum, "min": np.minimum}[name](self, dim)
        a = _axis(dim, keepdim, k)
        values = np.asarray(getattr(np.asarray(self), name)(**a)).view(Tensor)
        if dim is None:
            return values
        return TopK(values, np.asarray(getattr(np.asarray(self), "arg" + name)(**a)).view(Tensor))

    return f


def _element(f):
    return lambda self, *a, **k: np.asarray(f(np.asarray(self), *[np.asarray(x) for x in a], **k)).view(Tensor)


class Tensor(np.ndarray):
    device = "cpu"
    is_sparse = False
    requires_grad = False
    on_backward = None

    def __array_finalize__(self, obj):
        self.on_gpu = getattr(obj, "on_gpu", False)

    # torch's names
    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    def dim(self):
        return self.ndim

    def numel(self):
        return int(np.prod(self.shape))

    nelement = numel

    @property
    def data(self):
        return self.view(Tensor)

    def numpy(self):
        return np.asarray(self)

    def detach(self):
        return self.view(Tensor)

    def cpu(self):
        out = self.view(Tensor)
        out.on_gpu = False
        return out

    def cuda(self, *a, **k):
        out = self.view(Tensor)
        out.on_gpu = True
        return out

    def to(self, what=None, *a, **k):
        return self if what is None or isinstance(what, str) else self.type(what)

    def clone(self):
        return self.copy()

    def float(self):
        return self.astype(np.float32)

    def double(self):
        return self.astype(np.float64)

    def long(self):
        return self.astype(np.int64)

    def int(self):
        return self.astype(np.int32)

    def bool(self):
        return self.astype(np.bool_)

    def type(self, dtype):
        return self.astype(dtype)

    def squeeze(self, dim=None):
        if dim is None:
            return np.ndarray.squeeze(self)
        return np.ndarray.squeeze(self, dim) if self.shape[dim] == 1 else self

    def unsqueeze(self, dim):
        return np.expand_dims(self, dim)

    def argmax(self, dim=None, keepdim=False):
        return tensor(np.argmax(np.asarray(self), axis=dim, keepdims=keepdim))

    def __getitem__(self, key):
        out = np.ndarray.__getitem__(self, key)
        return out if isinstance(out, np.ndarray) else np.asarray(out).view(Tensor)

    def __getattr__(self, name):
        raise (AttributeError if name.startswith("_") else MissingMethod)(f"'Tensor' object has no attribute '{name}'")

    sum, mean, prod, any, all = [_reduce(n) for n in ("sum", "mean", "prod", "any", "all")]
    max, min = _extreme("max"), _extreme("min")
    exp, log, sqrt, abs, tanh, sign = [_element(f) for f in (np.exp, np.log, np.sqrt, np.abs, np.tanh, np.sign)]
    add, sub, mul, div, pow, neg, reciprocal = [_element(f) for f in (np.add, np.subtract, np.multiply, np.divide, np.power, np.negative, np.reciprocal)]
    matmul, mm, bmm, eq, ne, gt, ge, lt, le = [
        _element(f) for f in (np.matmul, np.matmul, np.matmul, np.equal, np.not_equal, np.greater, np.greater_equal, np.less, np.less_equal)
    ]

    def sigmoid(self):
        return (1 / (1 + np.exp(-np.asarray(self)))).view(Tensor)

    def relu(self):
        return relu(self)

    def clamp(self, min=None, max=None):
        return np.clip(np.asarray(self), min, max).view(Tensor)

    def half(self):
        return self.astype(np.float16)

    def type_as(self, other):
        return self.astype(other.dtype)

    def expand_as(self, other):
        return self.expand(*other.shape)

    def view_as(self, other):
        return np.ndarray.reshape(self, other.shape)

    reshape_as = view_as

    def split(self, size, dim=0):
        n = self.shape[dim]
        ends = np.cumsum(size)[:-1] if isinstance(size, (list, tuple)) else range(size, n, size)
        return tuple(x.view(Tensor) for x in np.split(np.asarray(self), list(ends), axis=dim))

    def index_select(self, dim, index):
        return np.take(np.asarray(self), np.asarray(index), axis=dim).view(Tensor)

    def gather(self, dim, index):
        return np.take_along_axis(np.asarray(self), np.asarray(index), dim).view(Tensor)

    def topk(self, *a, **k):
        return topk(self, *a, **k)

    def repeat_interleave(self, times, dim=None):
        return np.repeat(np.asarray(self), times, axis=dim).view(Tensor)

    def requires_grad_(self, *a):
        return self

    def copy_(self, other):
        self[...] = other
        return self

    def fill_(self, value):
        self[...] = value
        return self

    def zero_(self):
        return self.fill_(0)

    def view(self, *a, **k):
        if k or not a or isinstance(a[0], (type, np.dtype)):  # numpy's meaning of the name
            return np.ndarray.view(self, *a, **k)
        return np.ndarray.reshape(self, *a)

    def transpose(self, *dims):
        return np.swapaxes(self, *dims) if len(dims) == 2 else np.ndarray.transpose(self, *dims)

    def t(self):
        return np.swapaxes(self, 0, 1)

    def expand(self, *shape):
        return np.broadcast_to(self, shape, subok=True)

    def contiguous(self):
        return self

    def reshape(self, *shape):
        return np.ndarray.reshape(self, *shape)

    def flatten(self, start=0, end=-1):
        end %= max(1, self.ndim)
        return np.ndarray.reshape(self, self.shape[:start] + (-1,) + self.shape[end + 1 :])

    def repeat(self, *times, **k):
        if k:  # numpy's
            return np.repeat(np.asarray(self), *times, **k).view(Tensor)
        times = times[0] if isinstance(times[0], (tuple, list)) else times
        return np.tile(np.asarray(self), times).view(Tensor)

    def masked_fill(self, mask, value):
        return np.where(np.asarray(mask), value, np.asarray(self)).astype(self.dtype).view(Tensor)

    def softmax(self, dim):
        return softmax(self, dim)

    def permute(self, *dims):
        return np.ndarray.transpose(self, *dims)

    def backward(self, *a, **k):
        if self.on_backward is not None:
            self.on_backward()

    def __format__(self, spec):
        return format(self.item(), spec) if self.ndim == 0 else str(self)


def tensor(x, dtype=None, device=None, **k):
    a = np.array(x, dtype=dtype)
    if dtype is None and isinstance(x, float):
        a = a.astype(np.float32)
    return a.view(Tensor)


def _wrap(f):
    def g(*a, **k):
        k = {{"dim": "axis", "keepdim": "keepdims"}.get(n, n): v for n, v in k.items()}
        return np.asarray(f(*[np.asarray(x) if isinstance(x, Tensor) else x for x in a], **k)).view(Tensor)

    return g


TopK = collections.namedtuple("TopK", "values indices")


def topk(x, k, dim=-1, largest=True, sorted=True):
    a = np.asarray(x)
    order = np.argsort(-a if largest else a, axis=dim, kind="stable")
    order = np.take(order, range(k), axis=dim)
    return TopK(np.take_along_axis(a, order, dim).view(Tensor), order.astype(np.int64).view(Tensor))


def sort(x, dim=-1, descending=False, stable=False):
    return topk(x, np.asarray(x).shape[dim], dim, largest=descending)


def argsort(x, dim=-1, descending=False, stable=False):
    return sort(x, dim, descending)[1]


class Parameter(Tensor):
    requires_grad = True


class Module:
    def __init__(self, *a, **k):
        self.training = True

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def cuda(self, *a, **k):
        return self

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    def named_parameters(self):
        for name, v in sorted(vars(self).items()):
            if isinstance(v, Parameter):
                yield name, v
            elif isinstance(v, Module):
                for inner, p in v.named_parameters():
                    yield f"{name}.{inner}", p

    def parameters(self):
        return [v for _, v in self.named_parameters()]

    def state_dict(self):
        return {name: v for name, v in self.named_parameters()}

    def load_state_dict(self, state, strict=True):
        own = {name for name, _ in self.named_parameters()}
        if strict and own != set(state):
            raise RuntimeError(f"missing or unexpected keys {sorted(own ^ set(state))}")
        for name, v in self.named_parameters():
            v[...] = state[name]

    def zero_grad(self):
        pass

    def add_module(self, name, module):
        setattr(self, name, module)

    register_module = add_module


def fill(*shape):
    """Weights, different for every layer that is made."""
    return np.random.default_rng(_layers()).normal(size=shape).astype(np.float32).view(Parameter)


def _layers():
    _layers.n += 1
    return _layers.n


_layers.n = 0


class Linear(Module):
    def __init__(self, inputs, outputs, bias=True, **k):
        super().__init__()
        self.weight, self.bias = fill(outputs, inputs), fill(outputs) if bias else None

    def forward(self, x):
        out = np.matmul(np.asarray(x), np.asarray(self.weight).T)
        return (out if self.bias is None else out + np.asarray(self.bias)).view(Tensor)


class Conv1d(Module):
    def __init__(self, inputs, outputs, kernel_size, **k):
        super().__init__()
        self.weight, self.bias, self.k = fill(outputs, inputs, kernel_size), fill(outputs), kernel_size

    def forward(self, x):
        a = np.lib.stride_tricks.sliding_window_view(np.asarray(x), self.k, axis=2)
        return (np.einsum("nilk,oik->nol", a, np.asarray(self.weight)) + np.asarray(self.bias)[:, None]).view(Tensor)


class Dropout(Module):
    def __init__(self, p=0.5, **k):
        super().__init__()
        self.p = p

    def forward(self, x):
        if self.p and self.training:
            raise NotInStandIn("dropout in training")
        return x


def relu(x, *a, **k):
    return np.maximum(np.asarray(x), 0).view(Tensor)


def leaky_relu(x, negative_slope=0.01, *a, **k):
    return np.where(np.asarray(x) > 0, np.asarray(x), np.asarray(x) * negative_slope).view(Tensor)


def elu(x, alpha=1.0, *a, **k):
    return np.where(np.asarray(x) > 0, np.asarray(x), alpha * np.expm1(np.minimum(np.asarray(x), 0))).view(Tensor)


def softmax(x, dim=-1, **k):
    e = np.exp(np.asarray(x) - np.max(np.asarray(x), axis=dim, keepdims=True))
    return (e / e.sum(axis=dim, keepdims=True)).view(Tensor)


class Embedding(Module):
    def __init__(self, count, width, padding_idx=None, **k):
        super().__init__()
        self.weight, self.num_embeddings, self.embedding_dim = fill(count, width), count, width
        if padding_idx is not None:
            self.weight[padding_idx] = 0

    def forward(self, x):
        at = np.asarray(x)
        if at.size and (at.min() < 0 or at.max() >= len(self.weight)):
            raise IndexError("index out of range in self")
        return np.asarray(self.weight)[at].view(Tensor)


class ModuleList(Module):
    def __init__(self, items=()):
        super().__init__()
        self.items = list(items)

    def named_parameters(self):
        for i, v in enumerate(self.items):
            for inner, p in v.named_parameters():
                yield f"{i}.{inner}", p

    def append(self, item):
        self.items.append(item)
        return self

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        return self.items[i]


def log_softmax(x, dim=-1, **k):
    a = np.asarray(x) - np.max(np.asarray(x), axis=dim, keepdims=True)
    return (a - np.log(np.exp(a).sum(axis=dim, keepdims=True))).view(Tensor)


def cross_entropy(scores, target, **k):
    """Over scores of shape (nodes, classes) and one class per node, as torch demands."""
    s, t = np.asarray(scores), np.asarray(target)
    if k:
        raise NotInStandIn("options of cross_entropy")
    if s.ndim != 2 or t.shape != s.shape[:1]:
        raise ValueError(f"Expected input batch_size ({s.shape}) to match target batch_size ({t.shape}).")
    return np.asarray(-np.asarray(log_softmax(s, 1))[np.arange(len(t)), t.astype(np.int64)].mean()).view(Tensor)


class CrossEntropyLoss(Module):
    def forward(self, scores, target):
        return cross_entropy(scores, target)


class LeakyReLU(Module):
    def __init__(self, negative_slope=0.01, *a):
        super().__init__()
        self.slope = negative_slope

    def forward(self, x):
        return leaky_relu(x, self.slope)


class Sparse:
    """A matrix of values at (row, column)."""

    is_sparse = True

    def __init__(self, indices, values, shape=None, **k):
        self.i, self.v = np.asarray(indices), np.asarray(values).reshape(-1)
        self.shape = tuple(shape)

    def _indices(self):
        return self.i.view(Tensor)

    indices = _indices

    def _values(self):
        return self.v.view(Tensor)

    values = _values

    def coalesce(self):
        return self


def sparse_softmax(x, dim):
    out = np.zeros_like(x.v)
    at = x.i[1 - dim]
    for r in set(at.tolist()):
        out[at == r] = softmax(x.v[at == r])
    return Sparse(x.i, out, x.shape)


def sparse_mm(x, y):
    out = np.zeros((x.shape[0], y.shape[1]), np.asarray(y).dtype)
    np.add.at(out, x.i[0], x.v[:, None] * np.asarray(y)[x.i[1]])
    return out.view(Tensor)


class Optimizer:
    def __init__(self, params=(), lr=0.1):
        self.params, self.defaults = list(params), {"lr": lr}
        self.param_groups = [{"params": self.params, "lr": lr}]

    def zero_grad(self, *a, **k):
        pass

    def step(self, *a, **k):
        pass


class LambdaLR:
    def __init__(self, optimizer, lr_lambda, last_epoch=-1, verbose=False):
        self.optimizer, self.lr_lambda, self.last_epoch = optimizer, lr_lambda, last_epoch
        self.base = [g["lr"] for g in optimizer.param_groups]
        self.step()

    def step(self, *a):
        self.last_epoch += 1
        self.last = [b * self.lr_lambda(self.last_epoch) for b in self.base]
        for g, lr in zip(self.optimizer.param_groups, self.last):
            g["lr"] = lr

    def get_last_lr(self):
        return self.last


class SummaryWriter:
    def __init__(self, log_dir=None, **k):
        self.log_dir = log_dir

    def add_scalar(self, *a, **k):
        pass

    def flush(self):
        pass

    close = flush


FILES = types.SimpleNamespace(saved=[], loaded=[], after_save=None, clock=None)


def save(obj, f, **k):
    """Writes all of the file, then calls FILES.after_save, which may end the run as a crash would."""
    with open(f, "wb") as h:
        pickle.dump(obj, h)
    if FILES.clock is not None:
        FILES.clock += 1
        os.utime(f, (FILES.clock, FILES.clock))
    FILES.saved.append(str(f))
    if FILES.after_save is not None:
        FILES.after_save(str(f))


def load(f, map_location=None, **k):
    FILES.loaded.append(str(f))
    with open(f, "rb") as h:
        return pickle.load(h)


# loading of data


class IterableDataset:
    pass


class _Info(types.SimpleNamespace):
    pass


_worker = None


def get_worker_info():
    return _worker


def collate(x):
    """What torch's default_collate does to a list of one item."""
    if isinstance(x, dict):
        return {k: collate(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [collate(v) for v in x]
    return tensor(np.asarray(x)[None])


def _in_worker(dataset, i, n):
    """Items of one worker, read in a process of its own as torch does."""
    global _worker
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            _worker = _Info(id=i, num_workers=n, dataset=dataset, seed=i)
            try:
                out = ("ok", [item for item in dataset])
            except Exception as e:
                out = ("error", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    kind, value = pickle.loads(data)
    if kind == "error":
        raise RuntimeError("in a worker of the loader: " + value)
    return value


class DataLoader:
    def __init__(self, dataset, batch_size=1, shuffle=None, num_workers=0, prefetch_factor=None, collate_fn=None, **k):
        if batch_size != 1 or collate_fn is not None:
            raise NotInStandIn("DataLoader with batches")
        self.dataset, self.num_workers = dataset, num_workers

    def __iter__(self):
        if self.num_workers == 0:
            for item in self.dataset:
                yield collate(item)
            return
        parts = [_in_worker(self.dataset, i, self.num_workers) for i in range(self.num_workers)]
        at = 0
        while any(len(p) > at for p in parts):
            for p in parts:
                if len(p) > at:
                    yield collate(p[at])
            at += 1


# processes of a distributed job

WORLD = types.SimpleNamespace(rank=0, size=1, broadcast=None, reduce=None)


def _broadcast(x, src=0, *a, **k):
    if WORLD.broadcast is not None:
        WORLD.broadcast(x, src)


def _all_reduce(x, op=None, *a, **k):
    if WORLD.reduce is not None:
        WORLD.reduce(x, op)


def parameters_to_vector(params):
    return np.concatenate([np.asarray(p).reshape(-1) for p in params]).view(Tensor)


def vector_to_parameters(vec, params):
    at = 0
    for p in params:
        n = p.numel()
        p[...] = np.asarray(vec)[at : at + n].reshape(p.shape)
        at += n


class DistributedDataParallel(Module):
    def __init__(self, module, **k):
        super().__init__()
        self.module = module

    def forward(self, *a, **k):
        return self.module(*a, **k)

    def train(self, mode=True):
        self.training = mode
        self.module.train(mode)
        return self

    def parameters(self):
        return self.module.parameters()

    def named_parameters(self):
        return [("module." + n, p) for n, p in self.module.named_parameters()]


def _hvd_broadcast(params, root_rank=0):
    for _, p in sorted(params.items()):
        _broadcast(p, root_rank)


def _hvd_allreduce(x, *a, **k):
    out = np.array(x).view(Tensor)
    _all_reduce(out, "sum")
    return out / WORLD.size


# texts


class BertTokenizer:
    """Numbers of the words of a vocabulary, one word per line, the first for words that are not in it."""

    def __init__(self, vocab_file, **k):
        with open(vocab_file, encoding="utf-8") as f:
            self.vocab = {w.rstrip("\n"): i for i, w in enumerate(f)}

    def tokenize(self, text):
        return text.lower().split()

    def convert_tokens_to_ids(self, tokens):
        return [self.vocab.get(w, 0) for w in tokens]

    def encode(self, text, add_special_tokens=True, **k):
        if k:
            raise NotInStandIn("options of BertTokenizer.encode")
        ids = self.convert_tokens_to_ids(self.tokenize(text))
        return [101] + ids + [102] if add_special_tokens else ids


class BertModel(Module):
    """Embeddings of the terms only: a term's vector depends on the term and its position."""

    def __init__(self, config, *a):
        super().__init__()
        self.embeddings = Embedding(config["vocab_size"], config["hidden_size"])

    def init_bert_weights(self, module):
        pass

    def forward(self, input_ids, attention_mask=None):
        return (self.embeddings(input_ids), None)


class BertConfig:
    @staticmethod
    def from_dict(config):
        return config


@contextlib.contextmanager
def no_grad():
    yield


KNOWN = {
    "torch": dict(
        Tensor=Tensor, tensor=tensor, as_tensor=tensor, from_numpy=tensor, topk=topk, sort=sort, argsort=argsort, save=save, load=load,
        no_grad=no_grad, inference_mode=no_grad, cat=_wrap(np.concatenate), concat=_wrap(np.concatenate), stack=_wrap(np.stack),
        unsqueeze=lambda x, dim: np.expand_dims(x, dim), squeeze=lambda x, dim=None: x.squeeze(dim), mean=_wrap(np.mean), sum=_wrap(np.sum),
        reciprocal=_wrap(np.reciprocal), matmul=_wrap(np.matmul), transpose=_wrap(np.swapaxes), int64=np.int64, long=np.int64, int32=np.int32,
        float32=np.float32, float=np.float32, float64=np.float64, manual_seed=lambda *a: None, is_tensor=lambda x: isinstance(x, Tensor),
        ones=lambda *s, **k: np.ones(s if not s or isinstance(s[0], int) else s[0], np.float32).view(Tensor), zeros=lambda *s, **k: np.zeros(s if not s or isinstance(s[0], int) else s[0], np.float32).view(Tensor),
        reshape=lambda x, shape: np.ndarray.reshape(x, shape), empty=lambda *s, **k: np.zeros(s, np.float32).view(Tensor), sparse_coo_tensor=Sparse, softmax=softmax, relu=relu,
        argmax=lambda x, dim=None, keepdim=False: x.argmax(dim, keepdim), abs=_wrap(np.abs), neg=_wrap(np.negative),
        arange=lambda *a, dtype=None, device=None: np.arange(*a, dtype=dtype).view(Tensor), tanh=_wrap(np.tanh), exp=_wrap(np.exp), log=_wrap(np.log), sqrt=_wrap(np.sqrt),
        sigmoid=lambda x: (1 / (1 + np.exp(-np.asarray(x)))).view(Tensor), where=_wrap(np.where), clamp=_wrap(np.clip), pow=_wrap(np.power), add=_wrap(np.add), mul=_wrap(np.multiply),
        LongTensor=lambda x: tensor(x, np.int64), FloatTensor=lambda x: tensor(x, np.float32), log_softmax=log_softmax, flatten=lambda x, *a: x.flatten(*a), bool=np.bool_,
        einsum=_wrap(np.einsum), full=lambda size, value, **k: np.full(size, value).view(Tensor), eye=lambda *a, **k: np.eye(*a, dtype=np.float32).view(Tensor), outer=_wrap(np.outer),
        cumsum=_wrap(np.cumsum), maximum=_wrap(np.maximum), minimum=_wrap(np.minimum), div=_wrap(np.divide), dot=_wrap(np.dot), logical_and=_wrap(np.logical_and), logical_not=_wrap(np.logical_not),
        uint8=np.uint8, int8=np.int8, zeros_like=_wrap(np.zeros_like), ones_like=_wrap(np.ones_like), eq=_wrap(np.equal), allclose=lambda a, b, **k: np.allclose(np.asarray(a), np.asarray(b), **k),
    ),
    "torch.nn": dict(
        Module=Module, Parameter=lambda x, *a, **k: np.asarray(x).view(Parameter), CrossEntropyLoss=CrossEntropyLoss, Embedding=Embedding, ModuleList=ModuleList, Linear=Linear, Conv1d=Conv1d, Dropout=Dropout, LeakyReLU=LeakyReLU
    ),
    "torch.nn.init": dict(xavier_uniform_=lambda x, *a, **k: x.__setitem__(Ellipsis, fill(*x.shape))),
    "torch.nn.functional": dict(relu=relu, leaky_relu=leaky_relu, elu=elu, softmax=softmax, log_softmax=log_softmax, cross_entropy=cross_entropy, tanh=_wrap(np.tanh)),
    "torch.sparse": dict(softmax=sparse_softmax, mm=sparse_mm),
    "torch.nn.utils": dict(
        clip_grad_norm_=lambda *a, **k: None, parameters_to_vector=parameters_to_vector, vector_to_parameters=vector_to_parameters
    ),
    "torch.nn.parallel": dict(DistributedDataParallel=DistributedDataParallel),
    "torch.optim": dict(Optimizer=Optimizer),
    "torch.optim.lr_scheduler": dict(LambdaLR=LambdaLR),
    "torch.utils.tensorboard": dict(SummaryWriter=SummaryWriter),
    "torch.utils.data": dict(IterableDataset=IterableDataset, DataLoader=DataLoader, get_worker_info=get_worker_info),
    "torch.autograd": dict(Variable=lambda x, *a, **k: x),
    "torch.cuda": dict(
        is_available=lambda: False, set_device=lambda *a: None, manual_seed_all=lambda *a: None, memory_allocated=lambda: 0,
        max_memory_allocated=lambda: 0, memory_reserved=lambda: 0, max_memory_reserved=lambda: 0,
    ),
    "torch.distributed": dict(
        init_process_group=lambda *a, **k: None, destroy_process_group=lambda *a, **k: None, get_rank=lambda: WORLD.rank,
        get_world_size=lambda: WORLD.size, broadcast=_broadcast, all_reduce=_all_reduce, ReduceOp=types.SimpleNamespace(SUM="sum"),
    ),
    "transformers.models.bert.tokenization_bert": dict(BertTokenizer=BertTokenizer),
    "transformers.models.bert.modeling_bert": dict(BertModel=BertModel, BertConfig=BertConfig),
    "transformers": dict(BertTokenizer=BertTokenizer, BertModel=BertModel, BertConfig=BertConfig),
    "horovod.torch": dict(
        init=lambda *a: None, rank=lambda: WORLD.rank, local_rank=lambda: 0, size=lambda: WORLD.size, join=lambda *a: 0, Average="average",
        broadcast_parameters=_hvd_broadcast, broadcast_optimizer_state=lambda *a, **k: None, allreduce=_hvd_allreduce,
        DistributedOptimizer=lambda optimizer, **k: optimizer, Compression=types.SimpleNamespace(fp16="fp16", none="none"),
    ),
}


for _name in (
    "sum mean prod any all max min exp log sqrt abs tanh sign add sub mul div pow neg reciprocal matmul mm bmm eq ne gt ge lt le sigmoid relu clamp split index_select "
    "gather repeat_interleave squeeze unsqueeze flatten reshape softmax transpose permute masked_fill numel"
).split():
    KNOWN["torch"].setdefault(_name, (lambda n: lambda x, *a, **k: getattr(x, n)(*a, **k))(_name))


class _Module(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = f"{self.__name__}.{name}"
        if full in KNOWN or any(k.startswith(full + ".") for k in KNOWN):
            return importlib.import_module(full)

        def refuse(*a, **k):
            raise NotInStandIn(full)

        out = type(name, (Module,), {"__init__": refuse, "__module__": self.__name__})
        setattr(self, name, out)
        return out


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("torch", "transformers", "horovod"):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return _Module(spec.name)

    def exec_module(self, module):
        vars(module).update(KNOWN.get(module.__name__, {}))
        if "." in module.__name__:
            head, tail = module.__name__.rsplit(".", 1)
            setattr(sys.modules[head], tail, module)


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
