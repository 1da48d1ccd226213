"""Optimisers over numpy parameters with the state layout of torch.optim."""
import copy

import numpy as np

from .nn import Parameter


class Optimizer(object):
    def __init__(self, params, defaults):
        self.defaults = defaults
        self.state = {}
        self.param_groups = []
        params = list(params)
        if params and not isinstance(params[0], dict):
            params = [{'params': params}]
        for g in params:
            g = dict(g)
            g['params'] = list(g['params'])
            for k, v in defaults.items():
                g.setdefault(k, v)
            self.param_groups.append(g)
        self.on_step = None

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k != 'on_step'}

    def _index(self):
        return {id(p): i for i, p in enumerate(p for g in self.param_groups for p in g['params'])}

    def state_dict(self):
        ix = self._index()
        return {'state': {ix[k]: v for k, v in self.state.items()},
                'param_groups': [dict({k: v for k, v in g.items() if k != 'params'},
                                      params=[ix[id(p)] for p in g['params']])
                                 for g in self.param_groups]}

    def load_state_dict(self, sd):
        sd = copy.deepcopy(sd)
        if len(sd['param_groups']) != len(self.param_groups):
            raise ValueError('loaded state dict has a different number of parameter groups')
        ps = [p for g in self.param_groups for p in g['params']]
        for g, h in zip(self.param_groups, sd['param_groups']):
            keep = g['params']
            g.clear()
            g.update(h)
            g['params'] = keep
        self.state = {id(ps[k]): v for k, v in sd['state'].items()}

    def zero_grad(self):
        for g in self.param_groups:
            for p in g['params']:
                p.grad = None

    def step(self):
        if self.on_step is not None:
            self.on_step([g['lr'] for g in self.param_groups])
        for g in self.param_groups:
            for p in g['params']:
                if p.grad is not None:
                    self.update(g, p, p.grad, self.state.setdefault(id(p), {}))


class SGD(Optimizer):
    def __init__(self, params, lr, momentum=0, dampening=0, weight_decay=0, nesterov=False):
        Optimizer.__init__(self, params, dict(lr=lr, momentum=momentum, dampening=dampening,
                                              weight_decay=weight_decay, nesterov=nesterov))

    def update(self, g, p, d, s):
        if g['weight_decay']:
            d = d + g['weight_decay'] * p.data
        if g['momentum']:
            b = s.get('momentum_buffer')
            b = d.copy() if b is None else g['momentum'] * b + (1 - g['dampening']) * d
            s['momentum_buffer'] = b
            d = d + g['momentum'] * b if g['nesterov'] else b
        p.data = p.data - g['lr'] * d


class Adam(Optimizer):
    def __init__(self, params, lr, betas=(0.9, 0.999), eps=1e-8, weight_decay=0, amsgrad=False):
        Optimizer.__init__(self, params, dict(lr=lr, betas=betas, eps=eps,
                                              weight_decay=weight_decay, amsgrad=amsgrad))

    def update(self, g, p, d, s):
        if not s:
            s.update(step=0, exp_avg=np.zeros_like(p.data), exp_avg_sq=np.zeros_like(p.data))
        if g['weight_decay']:
            d = d + g['weight_decay'] * p.data
        s['step'] += 1
        b1, b2 = g['betas']
        s['exp_avg'] = b1 * s['exp_avg'] + (1 - b1) * d
        s['exp_avg_sq'] = b2 * s['exp_avg_sq'] + (1 - b2) * d * d
        m = s['exp_avg'] / (1 - b1 ** s['step'])
        v = s['exp_avg_sq'] / (1 - b2 ** s['step'])
        p.data = p.data - g['lr'] * m / (np.sqrt(v) + g['eps'])


def _absent(*a, **k):
    raise NotImplementedError('not in the stand-in')


Adadelta = Adagrad = SparseAdam = Adamax = ASGD = LBFGS = RMSprop = Rprop = _absent
