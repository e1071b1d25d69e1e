import contextlib
import warnings

from engine.run import Case
from checks import _mps

EXPLANATION = ("device resolution runs with the availability of every accelerator backend as a free Boolean, for every spelling of the "
               "request and every mix of input devices and data types; the simulators run with inputs on different (simulated) devices")
OUTSIDE = ["torch.device objects (returned as given)", "backends other than CPU, CUDA and MPS", "CUDA indices beyond the number of devices"]
ASSUMPTIONS = ["torch.cuda.is_available and torch.backends.mps.is_available tell the truth",
               "the simulated devices of checks/_mps.py move and refuse tensors as PyTorch does"]

NAMES = ["auto", "AUTO", "Auto", "cpu", "CPU", "cuda", "CUDA", "cuda:0", "cuda:1", "Cuda:0", "mps", "MPS", "mps:0"]
PREFER = [("cuda", "mps", "cpu"), ("mps", "cuda", "cpu"), ("mps", "cpu"), ("cpu", "cuda"), ("cuda",), ("mps",), ("mps", "cuda"), ()]


@contextlib.contextmanager
def backends(env):
    import torch
    cuda, mps = env.bool("cuda available"), env.bool("mps available")
    old = torch.cuda.is_available, torch.backends.mps.is_available
    torch.cuda.is_available, torch.backends.mps.is_available = (lambda: cuda), (lambda: mps)
    try:
        yield cuda, mps
    finally:
        torch.cuda.is_available, torch.backends.mps.is_available = old


def best(env, prefer, cuda, mps):
    for p in prefer:
        if p == "cpu" or env.truth(cuda if p == "cuda" else mps):
            return p
    return "cpu"


def is_dev(d, want):
    import torch
    return isinstance(d, torch.device) and d == torch.device(want)


def expected(env, name, prefer, cuda, mps):
    low = name.lower()
    if low == "auto":
        return best(env, prefer, cuda, mps)
    kind = low.split(":")[0]
    if kind == "cuda":
        return low if env.truth(cuda) else "cpu"
    if kind == "mps":
        return low if env.truth(mps) else "cpu"
    return low


def resolve(env, cfg):
    from torchrir.util import resolve_device
    name = env.choice("request", NAMES)
    prefer = env.choice("prefer", PREFER) if name.lower() == "auto" else PREFER[0]
    with backends(env) as (cuda, mps), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = env.call(resolve_device, name, prefer=prefer) if name.lower() == "auto" else env.call(resolve_device, name)
        want = expected(env, name, prefer, cuda, mps)
    env.check("the request is resolved", r.ok)
    if not r.ok:
        return
    d = r.value
    env.check("the requested device, or the CPU when it is unavailable", is_dev(d, want))
    env.check("no unavailable CUDA device", cuda if d.type == "cuda" else True)
    env.check("no unavailable MPS device", mps if d.type == "mps" else True)
    fell = name.lower().split(":")[0] in ("cuda", "mps") and want == "cpu"
    env.check("falling back is announced, and only that", bool(ws) == fell)
    env.check("nothing requested means the CPU", is_dev(resolve_device(None), "cpu"))
    for o in ("cpu", "cuda:1", "mps"):
        import torch
        env.check("device objects are kept", resolve_device(torch.device(o)) == torch.device(o))


def values(env, cfg):
    """inputs: numbers and tensors on several devices with several data types"""
    import torch
    kinds = {"number": 2.5, "list": [1.0, 2.0], "none": None}
    out = []
    for i in range(cfg["n"]):
        k = env.choice(f"input {i}", cfg["kinds"])
        if k in kinds:
            out.append((k, kinds[k], None, None))
            continue
        dev, dt = k
        t = torch.ones(2, dtype=dt)
        if dev != "cpu":
            t = _mps.on(env, t, dev)
        out.append((k, t, dev, dt))
    return out


def infer(env, cfg):
    import torch
    from torchrir.util.device import DeviceSpec, infer_device_dtype
    vs = values(env, cfg)
    dev = env.choice("device", cfg["devices"])
    dtype = env.choice("dtype", [None, torch.float64, torch.float16])
    prefer = env.choice("prefer", PREFER[:3]) if isinstance(dev, str) and dev.lower() == "auto" else PREFER[0]
    with backends(env) as (cuda, mps):
        r = env.call(lambda: DeviceSpec(device=dev, dtype=dtype, prefer=prefer).resolve(*[v[1] for v in vs]))
        r2 = env.call(lambda: infer_device_dtype(*[v[1] for v in vs], device=dev, dtype=dtype)) if prefer == PREFER[0] else r
        first = next((d for _k, _v, d, _t in vs if d is not None), None)
        if dev is None:
            want = first or "cpu"
        elif isinstance(dev, torch.device):
            want = dev
        elif dev.lower() == "auto":
            want = first or best(env, prefer, cuda, mps)
        else:
            want = expected(env, dev, prefer, cuda, mps)
    wt = dtype or next((t for _k, _v, _d, t in vs if t is not None and t.is_floating_point), torch.float32)
    for q in (r, r2):
        env.check("resolves", q.ok)
        if q.ok:
            d, t = q.value
            env.check("the requested device, else that of the first tensor, else the CPU", is_dev(d, want))
            env.check("the requested data type, else that of the first floating tensor, else float32", t == wt)
            env.check("a floating data type", t.is_floating_point)


def together(env, cfg):
    """inputs on different devices and of different types end on one device with one data type"""
    import torch
    from torchrir.sim import simulate_rir
    from torchrir.util.tensor import as_tensor
    devs = [env.choice(f"device {i}", ["cpu", "mps"]) for i in range(2)]
    req = env.choice("request", [None, "cpu", "mps", "auto"])
    t1 = torch.float32 if "mps" in devs + [req] or req == "auto" else env.choice("type", [torch.float32, torch.float64])
    x = env.tensor("x", (3,), 0.5, 2.5, dtype=t1)
    put = lambda t, d: t if d == "cpu" else _mps.on(env, t, d)  # noqa: E731
    with backends(env) as (cuda, mps):
        env.assume(mps)
        env.assume(env.Not(cuda))
        with _mps.Devices():
            room = put(torch.tensor([3.0, 3.0, 3.0], dtype=t1), devs[0])
            src = put(torch.stack([x]), devs[1])
            a = as_tensor(src, device=req)
            env.check("as_tensor moves to the requested device", a.device.type == (req if req in ("cpu", "mps") else "mps" if req == "auto" else devs[1]))
            from torchrir.models import MicrophoneArray, Room, Source
            rm = Room(size=room, fs=1000.0, c=340.0, beta=torch.tensor([0.5] * 6, dtype=t1))
            from torchrir.config import SimulationConfig
            r = env.call(lambda: simulate_rir(room=rm, sources=Source(src, None), mics=MicrophoneArray(torch.tensor([[1.0, 1.0, 1.0]], dtype=t1), None), max_order=0, nsample=8,
                                              config=SimulationConfig(frac_delay_length=3, use_lut=False, rir_hpf_enable=False), device=req))
            env.check("the simulation runs", r.ok)
            if r.ok:
                got = r.value.device.type
                env.check("the result is on the requested device, else on that of the inputs, else on the best one",
                          got == req if req in ("cpu", "mps") else got in devs + (["mps"] if req == "auto" else []))
                env.check("the result has the data type of the inputs", r.value.dtype == t1)


def cases(tier):
    import torch
    deep = tier == "thorough"
    o = dict(max_paths=100000, time_s=600 if deep else 60, validate_max=4)
    f32, f64, i64 = torch.float32, torch.float64, torch.int64
    kinds = ["number", ("cpu", f64), ("cpu", i64), ("mps", f32), ("cuda:1", f64)]
    if deep:
        kinds += ["none", ("cpu", f32), ("mps", i64)]
    devs = [None, "auto", "AUTO", "cpu", "CUDA", "cuda:1", "mps", "mps:0", torch.device("cpu"), torch.device("mps")]
    cs = [Case("resolve", resolve, {}, **o), Case("infer-2", infer, dict(n=2, kinds=kinds, devices=devs if deep else devs[1:2] + devs[:1] + devs[3:5] + devs[7:]), **o)]
    if deep:
        cs.append(Case("infer-3", infer, dict(n=3, kinds=kinds, devices=devs[:4] + devs[6:8]), **o))
    cs.append(Case("infer-0", infer, dict(n=0, kinds=kinds, devices=devs), **o))
    cs.append(Case("together", together, {}, **o))
    return cs
