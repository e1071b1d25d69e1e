"""Accelerator code paths without an accelerator: tensors that say they live on another device but are ordinary CPU
tensors (or symbolic ones), and a mode that maps every device argument back to the CPU, labels the results, and
refuses operations that mix devices as PyTorch does."""
import torch
from torch.overrides import TorchFunctionMode

from engine.symt import SymTensor

CPU = torch.device("cpu")


class Labelled(torch.Tensor):
    @property
    def device(self):
        return getattr(self, "lab", None) or CPU


def _dev(x):
    """torch.device for an accelerator argument, else None"""
    if isinstance(x, torch.device):
        return x if x.type != "cpu" else None
    if isinstance(x, str) and x.split(":")[0] in ("mps", "cuda"):
        return torch.device(x)
    return None


def _label(t, dev):
    if isinstance(t, SymTensor):
        return SymTensor(t.h, t.dtype, dev or CPU, t.g)
    if isinstance(t, torch.Tensor):
        if dev is None:
            return t.as_subclass(torch.Tensor)
        r = t.as_subclass(Labelled)
        r.lab = dev
        return r
    if isinstance(t, (tuple, list)) and type(t) in (tuple, list):
        return type(t)(_label(x, dev) for x in t)
    return t


def _tensors(xs):
    for x in xs:
        if isinstance(x, torch.Tensor):
            yield x
        elif type(x) in (tuple, list):
            yield from _tensors(x)


FREE = ("__get__", "__set__", "copy_", "as_subclass", "__getitem__", "__setitem__", "__repr__", "__format__", "device", "index_put_")


class Devices(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        name = getattr(func, "__name__", str(func))
        if func is torch.device or name in ("is_available", "is_built"):
            return func(*args, **kwargs)
        ts = list(_tensors(list(args) + list(kwargs.values())))
        here = {str(t.device) for t in ts if t.dim() > 0}
        want, given = None, False
        if "device" in kwargs and kwargs["device"] is not None:
            want, given = _dev(kwargs["device"]), True
            kwargs["device"] = "cpu"
        new = []
        for a in args:
            d = _dev(a)
            if d is None and isinstance(a, torch.device):
                given = True
            if d is not None:
                want, given = d, True
                a = "cpu"
            new.append(a)
        if name == "to" and len(args) > 1 and isinstance(args[1], str):
            given = True
        if name == "cpu":
            want, given = None, True
        if len(here) > 1 and name not in FREE and not given:
            raise RuntimeError(f"Expected all tensors to be on the same device, but found at least two devices: {sorted(here)}")
        r = func(*new, **kwargs)
        if given:
            return _label(r, want)
        if name in ("__get__", "__set__", "as_subclass", "item", "tolist"):
            return r
        labs = [t.device for t in ts]
        on = next((d for d in labs if d.type != "cpu"), None)
        if "out" in kwargs:
            return kwargs["out"]
        if ts and name[-1:] == "_" and name[:1] != "_" and r is args[0]:
            return r
        if name in ("__iadd__", "__isub__", "__imul__", "__itruediv__") and r is args[0]:
            return r
        if on is not None:
            if name == "__getitem__":
                on = args[0].device
            return _label(r, on if on.type != "cpu" else None)
        return r


def on(env, t, dev="mps"):
    return _label(t, torch.device(dev))


def back(env, t):
    return _label(t, None)
