"""A small stand-in for PyTorch (not installed here), enough for the trainer, loggers, schedulers
and accuracy metrics of hyperion.torch.  Arrays are numpy; save and load go through open(), so the
simulated disk sees every system call; a truncated file fails to load, as with the real one."""
import io
import pickle

import numpy as np


class Size(tuple):
    pass


class Tensor(object):
    def __init__(self, data, back=None):
        self.data = np.asarray(data)
        self._back = back
        self.grad = None

    # ---- what the trainer and the metrics use
    @property
    def shape(self):
        return Size(self.data.shape)

    def size(self, d=None):
        return Size(self.data.shape) if d is None else self.data.shape[d]

    def dim(self):
        return self.data.ndim

    def numel(self):
        return self.data.size

    def __len__(self):
        return len(self.data)

    def to(self, *a, **k):
        return self

    cpu = cuda = contiguous = to

    def detach(self):
        return Tensor(self.data)

    def numpy(self):
        return self.data

    def item(self):
        if self.data.size != 1:
            raise ValueError('only one element tensors can be converted to Python scalars')
        return self.data.reshape(-1)[0].item()

    def float(self):
        return Tensor(self.data.astype('float32'))

    def mean(self):
        return Tensor(self.data.mean())

    def sum(self):
        return Tensor(self.data.sum())

    def eq(self, o):
        return Tensor(self.data == _raw(o))

    def unsqueeze(self, d):
        return Tensor(np.expand_dims(self.data, d))

    def backward(self):
        if self._back is None:
            raise RuntimeError('element 0 of tensors does not require grad')
        self._back(np.ones_like(self.data, dtype=float))

    def clone(self):
        return Tensor(self.data.copy())

    def __getitem__(self, i):
        return Tensor(self.data[i])

    def __gt__(self, o):
        return Tensor(self.data > _raw(o))

    def __lt__(self, o):
        return Tensor(self.data < _raw(o))

    def __mul__(self, o):
        return Tensor(self.data * _raw(o))

    __rmul__ = __mul__

    def __imul__(self, o):
        self.data = self.data * _raw(o)
        return self

    def __truediv__(self, o):
        return Tensor(self.data / _raw(o))

    def __add__(self, o):
        return Tensor(self.data + _raw(o))

    __radd__ = __add__

    def __sub__(self, o):
        return Tensor(self.data - _raw(o))

    def __float__(self):
        return float(self.item())


def _raw(x):
    return x.data if isinstance(x, Tensor) else x


def tensor(x, **k):
    return Tensor(np.array(x))


def max(x, dim=None):
    if dim is None:
        return Tensor(x.data.max())
    return Tensor(x.data.max(axis=dim)), Tensor(x.data.argmax(axis=dim))


class device(object):
    def __init__(self, name):
        self.type = name


class cuda(object):
    @staticmethod
    def is_available():
        return False


_grad = [True]


class no_grad(object):
    def __enter__(self):
        self.prev = _grad[0]
        _grad[0] = False

    def __exit__(self, *a):
        _grad[0] = self.prev


def is_grad_enabled():
    return _grad[0]


END = b'the end of the archive'


def save(obj, f, *a, **k):
    b = io.BytesIO()
    pickle.dump(obj, b, 2)
    b = b.getvalue() + END
    if hasattr(f, 'write'):
        f.write(b)
        return
    with open(f, 'wb') as h:
        n = len(b) // 4 + 1
        for i in range(0, len(b), n):        # header, tensors, directory: several writes
            h.write(b[i:i + n])


def load(f, *a, **k):
    if hasattr(f, 'read'):
        b = f.read()
    else:
        with open(f, 'rb') as h:
            b = h.read()
    if not b.endswith(END):
        raise RuntimeError('PytorchStreamReader failed reading zip archive: failed finding '
                           'central directory')
    return pickle.loads(b[:-len(END)])


float32 = np.dtype('float32')
float64 = np.dtype('float64')

from . import nn, optim      # noqa: E402
