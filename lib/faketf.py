"""A small stand-in for TensorFlow, which is not installed: eager functions over numpy arrays, layers of keras with random weights
(also where zeros are asked for, so that each weight matters) and datasets. Parts that are not here end a check with an error."""
import contextlib
import importlib.abc
import importlib.machinery
import sys
import types

import numpy as np

import faketorch
from faketorch import NotInStandIn, elu, leaky_relu, log_softmax, relu, softmax


def fill(*shape):
    return 0.4 * bare(faketorch.fill(*shape))


class SparseTensor:
    def __init__(self, indices, values, dense_shape):
        self.indices, self.values = np.asarray(indices).reshape(-1, 2), np.asarray(values).reshape(-1)
        self.dense_shape = np.asarray(dense_shape)
        self.shape = tuple(int(x) for x in self.dense_shape)


class TensorShape(tuple):
    def __new__(cls, dims):
        return tuple.__new__(cls, dims)


def bare(x):
    return np.asarray(x)


def number(f):
    """A function of numpy with the names of arguments of TensorFlow."""
    names = {"keepdims": "keepdims", "input_tensor": None, "axis": "axis"}

    def g(*a, **k):
        a = list(a)
        for key in ("input_tensor", "input", "x", "values"):
            if key in k:
                a.insert(0, k.pop(key))
        k.pop("name", None)
        if set(k) - set(names):
            raise NotInStandIn(f"{f.__name__} with {sorted(k)}")
        return np.asarray(f(*[bare(x) if isinstance(x, np.ndarray) else x for x in a], **k))

    return g


class Layer:
    def __init__(self, name=None, **k):
        self._ready = False

    def build(self, shape):
        pass

    def add_weight(self, name=None, shape=(), initializer=None, dtype=None, trainable=True, **k):
        return bare(fill(*shape))

    def __call__(self, inputs, *a, **k):
        if not self._ready:
            self.build(getattr(inputs, "shape", None))
            self._ready = True
        return self.call(inputs, *a, **k)


class Dense(Layer):
    def __init__(self, units, activation=None, use_bias=True, name=None, **k):
        super().__init__()
        self.units, self.activation, self.use_bias = units, activation, use_bias

    def build(self, shape):
        self.kernel, self.bias = bare(fill(shape[-1], self.units)), bare(fill(self.units))

    def call(self, x):
        out = np.matmul(bare(x), self.kernel) + (self.bias if self.use_bias else 0)
        return bare(self.activation(out)) if self.activation else out


class Conv1D(Dense):
    def __init__(self, filters, kernel_size, **k):
        if kernel_size != 1:
            raise NotInStandIn("convolution over several positions")
        super().__init__(filters, **k)


class LSTMCell:
    def __init__(self, units):
        self.units = units


class RNN(Layer):
    """Each output depends on all inputs up to it and their order."""

    def __init__(self, cell, return_sequences=False, **k):
        super().__init__()
        if not return_sequences:
            raise NotInStandIn("last output only")
        self.units = cell.units

    def build(self, shape):
        self.kernel = bare(fill(shape[-1], self.units))

    def call(self, x):
        out, h = [], 0
        for t in range(x.shape[1]):
            h = np.tanh(np.matmul(bare(x)[:, t], self.kernel) + 0.5 * h)
            out.append(h)
        return Shaped(np.stack(out, axis=1))


def Shaped(a):
    out = np.asarray(a).view(_Shaped)
    return out


class _Shaped(np.ndarray):
    def get_shape(self):
        return self.shape


def dropout(x, rate=0.0, **k):
    if rate:
        raise NotInStandIn("dropout")
    return x


def matmul(a, b, transpose_a=False, transpose_b=False, a_is_sparse=False, b_is_sparse=False, name=None):
    a, b = bare(a), bare(b)
    return np.matmul(np.swapaxes(a, -1, -2) if transpose_a else a, np.swapaxes(b, -1, -2) if transpose_b else b)


def bias_add(x, bias, **k):
    if bare(bias).shape != (bare(x).shape[-1],):
        raise ValueError("shape of the bias")
    return bare(x) + bare(bias)


def lookup(params, ids, **k):
    at = bare(ids)
    if at.size and (at.min() < 0 or at.max() >= len(params)):
        raise ValueError("index out of range")
    return bare(params)[at]


def gather(params, indices, axis=0, **k):
    return np.take(bare(params), bare(indices), axis=axis)


def scatter_nd(indices, updates, shape):
    out = np.zeros([int(x) for x in shape], bare(updates).dtype)
    np.add.at(out, tuple(bare(indices).T), bare(updates))
    return out


def sparse_softmax(x):
    out = np.zeros_like(x.values)
    for r in set(x.indices[:, 0].tolist()):
        at = x.indices[:, 0] == r
        out[at] = bare(softmax(x.values[at]))
    return SparseTensor(x.indices, out, x.dense_shape)


def sparse_dense_matmul(x, y, **k):
    out = np.zeros((x.shape[0], bare(y).shape[1]), bare(y).dtype)
    np.add.at(out, x.indices[:, 0], x.values[:, None] * bare(y)[x.indices[:, 1]])
    return out


def to_dense(x):
    out = np.zeros(x.shape, x.values.dtype)
    np.add.at(out, tuple(x.indices.T), x.values)
    return out


def cut(x, begin, size):
    return bare(x)[tuple(slice(b, None if s == -1 else b + s) for b, s in zip(begin, size))]


def power(x, y):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.power(bare(x), y)


def cross_entropy(labels=None, logits=None, **k):
    return -(bare(labels) * bare(log_softmax(bare(logits), -1))).sum(axis=-1)


class Dataset:
    def __init__(self, make, kinds, shapes):
        self.make, self.kinds, self.shapes = make, kinds, shapes

    @staticmethod
    def from_generator(make, kinds, output_shapes=None, **k):
        return Dataset(make, kinds, output_shapes)

    def prefetch(self, n):
        return self

    def __iter__(self):
        for item in self.make():
            if len(item) != len(self.kinds):
                raise ValueError("number of arrays of an item")
            for x, kind, shape in zip(item, self.kinds, self.shapes):
                x = np.asarray(x)
                if len(shape) != x.ndim or any(s is not None and s != n for s, n in zip(shape, x.shape)):
                    raise ValueError(f"item of shape {x.shape}, expected {tuple(shape)}")
                if x.dtype != kind:
                    raise TypeError(f"item of type {x.dtype}, expected {kind}")
            yield tuple(np.asarray(x) for x in item)


def flatten(x):
    if isinstance(x, dict):
        return [v for k in sorted(x) for v in flatten(x[k])]
    return [v for y in x for v in flatten(y)] if isinstance(x, (list, tuple)) else [x]


def map_structure(f, x):
    if isinstance(x, dict):
        return {k: map_structure(f, v) for k, v in x.items()}
    return type(x)(map_structure(f, v) for v in x) if isinstance(x, (list, tuple)) else f(x)


@contextlib.contextmanager
def scope(*a, **k):
    yield


_act = lambda f: lambda x, *a, **k: bare(f(bare(x), *a, **k))  # noqa: E731
KNOWN = {
    "tensorflow": dict(
        SparseTensor=SparseTensor, TensorShape=TensorShape, Tensor=np.ndarray, convert_to_tensor=np.asarray, constant=lambda x, dtype=None, **k: np.asarray(x, dtype), reduce_mean=number(np.mean),
        reduce_sum=number(np.sum), reduce_max=number(np.max), reduce_min=number(np.min), concat=lambda values, axis, name=None: np.concatenate([bare(x) for x in values], axis=axis),
        stack=lambda values, axis=0: np.stack([bare(x) for x in values], axis=axis), add_n=lambda inputs: sum(bare(x) for x in inputs), add=lambda a, b: bare(a) + bare(b), sign=np.sign, abs=np.abs,
        maximum=np.maximum, minimum=np.minimum, cast=lambda x, dtype: bare(x).astype(dtype), shape=lambda x: np.array(bare(x).shape), range=np.arange, reshape=lambda tensor, shape: np.reshape(bare(tensor), [int(x) for x in shape]),
        gather=gather, matmul=matmul, transpose=lambda a, perm=None: np.transpose(bare(a), perm), scatter_nd=scatter_nd, where=number(np.where), zeros_like=number(np.zeros_like), ones_like=number(np.ones_like),
        float32=np.dtype("float32"), float64=np.dtype("float64"), int32=np.dtype("int32"), int64=np.dtype("int64"), equal=lambda a, b: bare(a) == bare(b), argmax=lambda input, axis=0, **k: np.argmax(bare(input), axis=axis),
        stop_gradient=lambda x: x, slice=cut, expand_dims=number(np.expand_dims), squeeze=number(np.squeeze), tanh=np.tanh, exp=np.exp, sqrt=np.sqrt, multiply=lambda a, b: bare(a) * bare(b), divide=lambda a, b: bare(a) / bare(b),
        tile=number(np.tile), boolean_mask=lambda x, mask: bare(x)[bare(mask)], pow=power, tensordot=lambda a, b, axes, **k: np.tensordot(bare(a), bare(b), axes), name_scope=scope, split=number(np.split), bool=np.dtype("bool"),
    ),
    "tensorflow.nn": dict(
        relu=_act(relu), elu=_act(elu), leaky_relu=lambda x, alpha=0.2, **k: bare(leaky_relu(bare(x), alpha)), softmax=lambda x, axis=-1, **k: bare(softmax(bare(x), axis)), dropout=dropout, bias_add=bias_add, embedding_lookup=lookup,
        softmax_cross_entropy_with_logits=cross_entropy, tanh=np.tanh,
    ),
    "tensorflow.math": dict(pow=power, is_inf=np.isinf, sqrt=np.sqrt, rsqrt=lambda x: power(x, -0.5), divide_no_nan=lambda a, b: np.divide(bare(a), bare(b), out=np.zeros(np.broadcast(a, b).shape, np.float32), where=bare(b) != 0), multiply=np.multiply),
    "tensorflow.linalg": dict(diag=np.diag, matmul=matmul),
    "tensorflow.sparse": dict(SparseTensor=SparseTensor, softmax=sparse_softmax, sparse_dense_matmul=sparse_dense_matmul, to_dense=to_dense),
    "tensorflow.dtypes": dict(DType=np.dtype),
    "tensorflow.keras.layers": dict(Layer=Layer, Dense=Dense, Conv1D=Conv1D, LSTMCell=LSTMCell, RNN=RNN),
    "tensorflow.data": dict(Dataset=Dataset),
    "tensorflow.compat.v1": dict(variable_scope=scope, zeros_initializer=lambda *a: None, get_variable=lambda name, shape=(), initializer=None, **k: bare(fill(*shape))),
    "tensorflow.compat.v1.logging": dict(info=lambda *a, **k: None),
    "tensorflow.python.util.nest": dict(flatten=flatten, map_structure=map_structure),
}

KNOWN["tensorflow"].update(
    unstack=lambda value, axis=0, **k: [np.take(bare(value), i, axis=axis) for i in range(bare(value).shape[axis])], einsum=lambda spec, *a, **k: np.einsum(spec, *[bare(x) for x in a]), identity=lambda x, **k: bare(x),
    subtract=lambda a, b: bare(a) - bare(b), negative=lambda x: -bare(x), square=lambda x: bare(x) ** 2, rank=lambda x: bare(x).ndim, size=lambda x: bare(x).size, not_equal=lambda a, b: bare(a) != bare(b),
    logical_not=lambda x: ~bare(x), zeros=lambda shape, dtype=np.float32: np.zeros([int(x) for x in shape], dtype), ones=lambda shape, dtype=np.float32: np.ones([int(x) for x in shape], dtype), eye=lambda n, dtype=np.float32: np.eye(n, dtype=dtype),
    reduce_all=number(np.all), reduce_any=number(np.any), reduce_prod=number(np.prod), gather_nd=lambda params, indices: bare(params)[tuple(np.moveaxis(bare(indices), -1, 0))],
)
KNOWN["tensorflow.math"].update({k: v for k, v in KNOWN["tensorflow"].items() if callable(v) and not isinstance(v, type) and k not in KNOWN["tensorflow.math"]})
KNOWN["tensorflow.sparse"].update(reduce_sum=lambda x, axis=None, **k: to_dense(x).sum(axis=axis), reorder=lambda x: x, from_dense=lambda x: SparseTensor(np.argwhere(bare(x)), bare(x)[np.nonzero(bare(x))], bare(x).shape))


class _Module(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = f"{self.__name__}.{name}"
        if full in KNOWN or any(k.startswith(full + ".") for k in KNOWN) or name in ("estimator", "distribute", "train", "errors"):
            return importlib.import_module(full)

        def refuse(*a, **k):
            raise NotInStandIn(full)

        out = type(name, (), {"__init__": refuse, "__module__": self.__name__})
        setattr(self, name, out)
        return out


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("tensorflow", "horovod"):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return _Module(spec.name)

    def exec_module(self, module):
        vars(module).update(KNOWN.get(module.__name__, {}))
        if "." in module.__name__:
            head, tail = module.__name__.rsplit(".", 1)
            setattr(sys.modules[head], tail, module)


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
