"""Stand-ins for torch and horovod: tensors over numpy, modules, optimizers, checkpoint files, data loading and
collective operations between simulated processes.

Names that are not provided can be imported and subclassed, but using them raises Unsupported: the run then gives
no answer instead of a wrong one.
"""
import copy
import hashlib
import importlib.abc
import importlib.machinery
import os
import pickle
import sys
import threading
import types

import numpy as np

from . import core

PREFIXES = ("torch", "horovod", "transformers", "boto3", "botocore", "requests", "tensorboard")


class Unsupported(Exception):
    pass


def unsupported(name):
    sim = core.SIM
    if sim is not None:
        sim.__dict__.setdefault("unsupported", []).append(name)
    raise Unsupported(name)


class _Meta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return dummy(cls.__qualname__ + "." + name)


def dummy(name):
    """A class for a name this stand-in does not provide."""
    def call(self, *a, **k):
        return unsupported(name)

    def missing(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        return unsupported(name + "." + attr)
    return _Meta(name, (), {"__init__": lambda self, *a, **k: None, "__call__": call, "__getattr__": missing})


class FakeModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = dummy(self.__name__ + "." + name)
        setattr(self, name, v)
        return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] in PREFIXES:
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
        return None

    def create_module(self, spec):
        m = FakeModule(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        pass


# ------------------------------------------------------------------ tensors
class Tensor:
    def __init__(self, value=0.0, dtype=None):
        if isinstance(value, Tensor):
            value = value.a
        self.a = np.array(value, dtype=dtype) if not isinstance(value, np.ndarray) else value
        self.grad = None
        self.requires_grad = False
        self.backward_fns = []

    data = property(lambda s: s)
    shape = property(lambda s: s.a.shape)
    dtype = property(lambda s: s.a.dtype)
    device = property(lambda s: "cpu")
    is_cuda = False

    def item(self):
        return self.a.item()

    def numpy(self):
        return self.a

    def detach(self):
        return Tensor(self.a)

    def clone(self):
        return Tensor(self.a.copy())

    def cpu(self, *a, **k):
        return self

    def to(self, *a, **k):
        return self

    def contiguous(self):
        return self

    def float(self):
        return Tensor(self.a.astype(np.float64))

    def squeeze(self, d=None):
        return Tensor(self.a.squeeze() if d is None else self.a.squeeze(d))

    def unsqueeze(self, d):
        return Tensor(np.expand_dims(self.a, d))

    def view(self, *s):
        return Tensor(self.a.reshape(*s))

    reshape = view

    def flatten(self):
        return Tensor(self.a.reshape(-1))

    def type(self, t=None):
        return self if t is not None else "torch.Tensor"

    def size(self, d=None):
        return self.a.shape if d is None else self.a.shape[d]

    def dim(self):
        return self.a.ndim

    def nelement(self):
        return self.a.size

    numel = nelement

    def copy_(self, o, *a, **k):
        self.a[...] = o.a if isinstance(o, Tensor) else o
        return self

    def mean(self, *a):
        return Tensor(self.a.mean(*a))

    def sum(self, *a):
        return Tensor(self.a.sum(*a))

    def tolist(self):
        return self.a.tolist()

    def backward(self):
        for f in self.backward_fns:
            f()

    def __getitem__(self, k):
        return Tensor(np.asarray(self.a[k]))

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return (Tensor(np.asarray(x)) for x in self.a)

    def __float__(self):
        return float(self.a)

    def __int__(self):
        return int(self.a)

    def __bool__(self):
        return bool(self.a)

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)

    def __format__(self, spec):
        return format(self.a.item() if self.a.size == 1 else str(self.a), spec if self.a.size == 1 else "")

    def __repr__(self):
        return "tensor(%r)" % (self.a,)

    def __getstate__(self):
        return self.a

    def __setstate__(self, a):
        self.__init__(a)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return unsupported("Tensor." + name)


def _op(name):
    def f(self, o):
        return Tensor(getattr(self.a, name)(o.a if isinstance(o, Tensor) else o))
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "eq", "ne", "lt", "le", "gt", "ge"):
    setattr(Tensor, "__%s__" % _n, _op("__%s__" % _n))
Tensor.__hash__ = object.__hash__


class Parameter(Tensor):
    def __init__(self, value, requires_grad=True):
        Tensor.__init__(self, value)
        self.requires_grad = requires_grad


class Module:
    def __init__(self, *a, **k):
        self.training = True

    def _items(self, prefix=""):
        for k, v in self.__dict__.items():
            if isinstance(v, Parameter):
                yield prefix + k, v
            elif isinstance(v, Module):
                yield from v._items(prefix + k + ".")

    def named_parameters(self, *a, **k):
        return self._items()

    def parameters(self, *a, **k):
        return (v for _, v in self._items())

    def state_dict(self, *a, **k):
        return dict(self._items())

    def load_state_dict(self, state, strict=True):
        own = self.state_dict()
        if set(own) != set(state):
            raise RuntimeError("Error(s) in loading state_dict: %s, expected %s" % (sorted(state), sorted(own)))
        for k, v in state.items():
            own[k].copy_(v)

    def train(self, mode=True):
        self.training = mode
        for v in self.__dict__.values():
            if isinstance(v, Module):
                v.train(mode)
        return self

    def eval(self):
        return self.train(False)

    def cuda(self, *a):
        return self

    def to(self, *a, **k):
        return self

    def zero_grad(self, *a, **k):
        for p in self.parameters():
            p.grad = None

    def forward(self, *a, **k):
        raise NotImplementedError

    def __call__(self, *a, **k):
        return self.forward(*a, **k)


# ------------------------------------------------------------------ optimizers
class Optimizer:
    def __init__(self, params=(), defaults=None):
        self.params = list(params)
        self.param_groups = [dict(defaults or {}, params=self.params, lr=(defaults or {}).get("lr", 1.0), initial_lr=1.0)]
        self.state = {}

    def zero_grad(self, *a, **k):
        for p in self.params:
            p.grad = None

    def step(self, *a, **k):
        raise NotImplementedError

    def state_dict(self):
        return {"state": copy.deepcopy(self.state)}

    def load_state_dict(self, d):
        self.state = copy.deepcopy(d["state"])


class LambdaLR:
    def __init__(self, optimizer, lr_lambda, last_epoch=-1, verbose=False):
        self.optimizer, self.f, self.last_epoch = optimizer, lr_lambda, last_epoch + 1

    def step(self, *a):
        self.last_epoch += 1

    def get_last_lr(self):
        return [self.f(self.last_epoch)]

    def state_dict(self):
        return {"last_epoch": self.last_epoch}

    def load_state_dict(self, d):
        self.last_epoch = d["last_epoch"]


class SummaryWriter:
    def __init__(self, *a, **k):
        pass

    def add_scalar(self, *a, **k):
        pass

    add_scalars = add_text = add_histogram = add_scalar

    def flush(self):
        pass

    close = flush


# ------------------------------------------------------------------ files
MAGIC = b"SIMPT\0"


def save(obj, f, *a, **k):
    """Writes in several pieces; a file that was not written to its end cannot be loaded."""
    sim = core.SIM
    body = pickle.dumps(obj, protocol=4)
    data = MAGIC + len(body).to_bytes(8, "little") + hashlib.sha256(body).digest() + body
    hook = sim.__dict__.get("on_save") if sim is not None else None
    if isinstance(f, (str, os.PathLike)):
        with open(f, "wb") as w:
            _put(w, data)
    else:
        _put(f, data)
    if hook:
        hook(obj)


def _put(w, data):
    n = max(1, len(data) // 5)
    for i in range(0, len(data), n):
        w.write(data[i:i + n])


def load(f, map_location=None, *a, **k):
    if isinstance(f, (str, os.PathLike)):
        with open(f, "rb") as r:
            data = r.read()
    else:
        data = f.read()
    body = data[46:]
    if data[:6] != MAGIC or len(body) != int.from_bytes(data[6:14], "little") or hashlib.sha256(body).digest() != data[14:46]:
        raise RuntimeError("PytorchStreamReader failed reading zip archive: failed finding central directory")
    return pickle.loads(body)


# ------------------------------------------------------------------ data loading
class WorkerInfo:
    def __init__(self, id, num_workers):
        self.id, self.num_workers, self.seed, self.dataset = id, num_workers, id, None


def get_worker_info():
    return core.SIM.cur.proc.env.get("torch_worker") if core.SIM is not None else None


class IterableDataset:
    def __init__(self, *a, **k):
        super().__init__(*a, **k)


def collate(x):
    if isinstance(x, dict):
        return {k: collate(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [collate(v) for v in x]
    return Tensor(np.expand_dims(np.asarray(x), 0))


class DataLoader:
    """Loading processes are taken in turn; those at their end are skipped."""

    def __init__(self, dataset=None, batch_size=1, shuffle=None, sampler=None, batch_sampler=None, num_workers=0, collate_fn=None,
                 prefetch_factor=None, **k):
        self.dataset, self.num_workers, self.prefetch_factor = dataset, num_workers, prefetch_factor

    def __len__(self):
        return len(self.dataset)

    def __iter__(self):
        env = core.SIM.cur.proc.env
        if not self.num_workers:
            for x in iter(self.dataset):
                yield collate(x)
            return
        its = []
        for w in range(self.num_workers):
            d = copy.copy(self.dataset)
            if hasattr(d, "kwargs"):
                d.kwargs = dict(d.kwargs)
            its.append([w, d, None])
        alive = list(its)
        while alive:
            for e in list(alive):
                env["torch_worker"] = WorkerInfo(e[0], self.num_workers)
                try:
                    if e[2] is None:
                        e[2] = iter(e[1])
                    x = next(e[2])
                except StopIteration:
                    alive.remove(e)
                    continue
                finally:
                    env.pop("torch_worker", None)
                yield collate(x)


# ------------------------------------------------------------------ collectives
class Group:
    """Collective operations of one job; one at a time, matched in the order each rank calls them."""

    def __init__(self, size):
        self.size = size
        self.cv = threading.Condition()
        self.pending = {}
        self.joined = set()
        self.joins = 0
        self.last = {}
        self.round = 0
        self.results = {}
        self.kind = None
        self.error = None

    def op(self, rank, kind, value):
        """Returns {rank: value} of all ranks that took part."""
        with self.cv:
            if self.error:
                raise RuntimeError(self.error)
            if self.pending and self.kind != kind:
                self.error = "collective mismatch: rank %d calls %s while ranks %s call %s" % (rank, kind, sorted(self.pending), self.kind)
                self.cv.notify_all()
                raise RuntimeError(self.error)
            me = self.round
            self.kind = kind
            self.pending[rank] = value
            self._advance()
            while me not in self.results and not self.error:
                self.cv.wait()
            if me not in self.results:
                raise RuntimeError(self.error)
            return self.results[me]

    def join(self, rank):
        """Takes part with nothing until every rank has joined; returns the last one."""
        with self.cv:
            me = self.joins
            self.joined.add(rank)
            if len(self.joined) == self.size:
                self.joined.clear()
                self.last[me] = rank
                self.joins += 1
                self.cv.notify_all()
                return rank
            self._advance()
            while me not in self.last and not self.error:
                self.cv.wait()
            if me not in self.last:
                raise RuntimeError(self.error)
            return self.last[me]

    def _advance(self):
        if self.pending and len(self.pending) + len(self.joined) == self.size:
            self.results[self.round] = dict(self.pending)
            self.pending.clear()
            self.round += 1
            self.cv.notify_all()


def group():
    return core.SIM.__dict__["torch_group"]


def my_rank():
    return core.SIM.cur.proc.env["rank"]


def all_values(kind, value):
    return group().op(my_rank(), kind, value)


class ReduceOp:
    SUM, AVG, MIN, MAX = "sum", "avg", "min", "max"


def _reduce(vals, op):
    v = [np.asarray(vals[r], dtype=np.float64) for r in sorted(vals)]
    s = sum(v)
    if op == "avg":
        return s / len(v)
    if op == "min":
        return np.minimum.reduce(v)
    if op == "max":
        return np.maximum.reduce(v)
    return s


def all_reduce(t, op=ReduceOp.SUM, *a, **k):
    t.a = np.asarray(_reduce(all_values("all_reduce", t.a.copy()), op)).reshape(t.a.shape)


def broadcast(t, src=0, *a, **k):
    t.copy_(all_values("broadcast", t.a.copy())[src])


def broadcast_object_list(objs, src=0, *a, **k):
    objs[:] = all_values("broadcast_object", list(objs))[src]


def all_gather_object(out, obj, *a, **k):
    out[:] = [v for _, v in sorted(all_values("gather_object", obj).items())]


def barrier(*a, **k):
    all_values("barrier", 0)


def average_grads(params):
    params = list(params)
    g = [np.zeros_like(p.a) if p.grad is None else p.grad for p in params]
    vals = all_values("gradients", [x.copy() for x in g])
    for i, p in enumerate(params):
        # ranks that joined early take part with zeros
        p.grad = sum(v[i] for _, v in sorted(vals.items())) / group().size


class DistributedDataParallel(Module):
    def __init__(self, module, *a, **k):
        Module.__init__(self)
        self.module = module
        barrier()

    def state_dict(self, *a, **k):
        return {"module." + n: v for n, v in self.module.state_dict().items()}

    def forward(self, *a, **k):
        out = self.module(*a, **k)
        if self.training:
            out[0].backward_fns.append(lambda: average_grads(self.module.parameters()))
        return out


def parameters_to_vector(params):
    return Tensor(np.concatenate([p.a.reshape(-1) for p in params]))


def vector_to_parameters(vec, params):
    i = 0
    for p in params:
        n = p.a.size
        p.copy_(vec.a[i:i + n].reshape(p.a.shape))
        i += n


class HvdOptimizer:
    def __init__(self, optimizer):
        self.__dict__["opt"] = optimizer

    def synchronize(self):
        average_grads(self.opt.params)

    def step(self, *a, **k):
        self.synchronize()
        return self.opt.step(*a, **k)

    def __getattr__(self, name):
        return getattr(self.opt, name)


def hvd_allreduce(t, *a, **k):
    return Tensor(np.asarray(_reduce(all_values("all_reduce", t.a.copy()), "avg")).reshape(t.a.shape))


def hvd_broadcast_parameters(params, root_rank=0):
    items = sorted(params.items()) if isinstance(params, dict) else sorted(params)
    vals = all_values("broadcast_parameters", [v.a.copy() for _, v in items])[root_rank]
    for (_, p), v in zip(items, vals):
        p.copy_(v)


class _NoGrad:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, fn=None):
        return fn if fn is not None else self


def install():
    if any(isinstance(f, Finder) for f in sys.meta_path):
        return
    sys.meta_path.insert(0, Finder())
    import torch
    import torch.nn
    import torch.nn.functional
    import torch.nn.parallel
    import torch.nn.parameter
    import torch.nn.utils
    import torch.optim
    import torch.optim.lr_scheduler
    import torch.utils.data
    import torch.utils.tensorboard
    import torch.distributed
    import torch.autograd
    import torch.cuda
    import horovod.torch
    torch.Tensor = torch.FloatTensor = torch.LongTensor = Tensor
    torch.tensor = torch.as_tensor = lambda v, dtype=None, **k: Tensor(np.asarray(v))
    torch.from_numpy = lambda v: Tensor(v)
    torch.cat = torch.concat = lambda ts, d=0: Tensor(np.concatenate([t.a for t in ts], d))
    torch.unsqueeze = lambda t, d: t.unsqueeze(d)
    torch.mean = lambda t, *a: t.mean(*a)
    torch.zeros = lambda *s, **k: Tensor(np.zeros(s))
    torch.no_grad = torch.inference_mode = _NoGrad
    torch.save, torch.load = save, load
    torch.manual_seed = lambda *a: None
    torch.cuda.is_available = lambda: False
    torch.nn.Module, torch.nn.Parameter, torch.nn.parameter.Parameter = Module, Parameter, Parameter
    torch.nn.parallel.DistributedDataParallel = DistributedDataParallel
    torch.nn.utils.parameters_to_vector, torch.nn.utils.vector_to_parameters = parameters_to_vector, vector_to_parameters
    torch.nn.utils.clip_grad_norm_ = lambda *a, **k: Tensor(0.0)
    torch.optim.Optimizer, torch.optim.lr_scheduler.LambdaLR = Optimizer, LambdaLR
    torch.utils.tensorboard.SummaryWriter = SummaryWriter
    torch.utils.data.IterableDataset, torch.utils.data.DataLoader = IterableDataset, DataLoader
    torch.utils.data.get_worker_info = get_worker_info
    torch.autograd.Variable = lambda t, *a, **k: t
    d = torch.distributed
    d.init_process_group = lambda *a, **k: barrier()
    d.destroy_process_group = lambda *a, **k: None
    d.is_initialized = d.is_available = lambda: True
    d.get_rank = lambda *a: my_rank()
    d.get_world_size = lambda *a: group().size
    d.all_reduce, d.broadcast, d.barrier, d.ReduceOp = all_reduce, broadcast, barrier, ReduceOp
    d.broadcast_object_list, d.all_gather_object = broadcast_object_list, all_gather_object
    h = horovod.torch
    h.init = lambda *a, **k: barrier()
    h.rank, h.local_rank, h.size = my_rank, my_rank, lambda: group().size
    h.allreduce, h.broadcast_parameters = hvd_allreduce, hvd_broadcast_parameters
    h.broadcast_optimizer_state = lambda *a, **k: barrier()
    h.broadcast_object = lambda o, root_rank=0, **k: all_values("broadcast_object", o)[root_rank]
    h.DistributedOptimizer = lambda optimizer, *a, **k: HvdOptimizer(optimizer)
    h.Compression = types.SimpleNamespace(fp16=None, none=None)
    h.Average = "avg"
    h.join = lambda *a, **k: group().join(my_rank())
    # packages whose other parts need the real library
    for m in (torch, torch.nn, torch.utils, torch.optim):
        for n, v in list(sys.modules.items()):
            if n.startswith(m.__name__ + ".") and "." not in n[len(m.__name__) + 1:]:
                setattr(m, n[len(m.__name__) + 1:], v)
