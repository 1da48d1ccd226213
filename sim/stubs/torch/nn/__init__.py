from collections import OrderedDict

import numpy as np


class Parameter(object):
    def __init__(self, data):
        self.data = np.array(data, dtype=float)
        self.grad = None


class Module(object):
    def __init__(self):
        self.__dict__['_parameters'] = OrderedDict()
        self.__dict__['_buffers'] = OrderedDict()
        self.__dict__['_modules'] = OrderedDict()
        self.__dict__['training'] = True

    def __setattr__(self, k, v):
        if isinstance(v, Parameter):
            self._parameters[k] = v
        elif isinstance(v, Module):
            self._modules[k] = v
        elif k in self.__dict__.get('_buffers', ()):
            self._buffers[k] = v
        else:
            self.__dict__[k] = v

    def __getattr__(self, k):
        for d in ('_parameters', '_buffers', '_modules'):
            q = self.__dict__.get(d)
            if q is not None and k in q:
                return q[k]
        raise AttributeError(k)

    def register_buffer(self, k, v):
        self._buffers[k] = v

    def parameters(self):
        for p in self._parameters.values():
            yield p
        for m in self._modules.values():
            for p in m.parameters():
                yield p

    def train(self, mode=True):
        self.__dict__['training'] = mode
        for m in self._modules.values():
            m.train(mode)
        return self

    def eval(self):
        return self.train(False)

    def to(self, *a, **k):
        return self

    def state_dict(self, prefix=''):
        d = OrderedDict()
        for k, p in self._parameters.items():
            d[prefix + k] = p.data
        for k, b in self._buffers.items():
            d[prefix + k] = b
        for k, m in self._modules.items():
            d.update(m.state_dict(prefix + k + '.'))
        return d

    def load_state_dict(self, sd, strict=True, prefix='', top=True):
        seen = set()
        for k, p in self._parameters.items():
            p.data = np.array(sd[prefix + k])
            seen.add(prefix + k)
        for k in self._buffers:
            self._buffers[k] = np.array(sd[prefix + k])
            seen.add(prefix + k)
        for k, m in self._modules.items():
            seen |= m.load_state_dict(sd, strict, prefix + k + '.', False)
        if top and strict and set(sd) != seen:
            raise RuntimeError('Error(s) in loading state_dict: %s' % sorted(set(sd) ^ seen))
        return seen

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def forward(self, *a, **k):
        raise NotImplementedError


class _Absent(Module):
    """Layers that the stand-in does not compute."""

    def __init__(self, *a, **k):
        raise NotImplementedError('not in the stand-in')


def __getattr__(name):
    if name[:1].isupper():
        return _Absent
    raise AttributeError(name)
