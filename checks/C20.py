from engine.run import Case
from checks._conv import conv, row, sig, compare
from checks._mps import Devices, on, back
from checks.C19 import reference

EXPLANATION = ("trajectory convolution runs twice on the same symbolic signals and responses, once with tensors on the CPU and once "
               "with tensors labelled as being on an accelerator (which selects the batched implementation); outputs are compared "
               "with each other and with the reference")
OUTSIDE = ["rounding differences between devices", "the accelerator's own FFT"]
ASSUMPTIONS = ["device tensors follow CPU semantics; replays run the batched path on the CPU through a stand-in device label"]


def both(env, x, h, **kw):
    from torchrir.signal import DynamicConvolver
    a = DynamicConvolver(mode="trajectory", **kw).convolve(x, h)
    b = DynamicConvolver(mode="trajectory", **kw).convolve(on(env, x), on(env, h))
    env.check("result stays on the device", str(b.device).split(":")[0] == "mps")
    env.check("same data type", a.dtype == b.dtype)
    return a, back(env, b)


def even(env, cfg):
    n, T = env.choice("n, T", cfg["grid"])
    ns, nm, L, nx = cfg["ns"], cfg["nm"], cfg["L"], cfg.get("nx", cfg["ns"])
    x = sig(env, (nx, n))
    h = sig(env, (T, ns, nm, L), "h")
    a, b = both(env, x, h)
    env.check("same shape", tuple(a.shape) == tuple(b.shape))
    env.eq(f"{n} samples, {T} steps: batched equals reference path", b, a, tol=1e-6)
    X = x if nx == ns else x.expand(ns, n)
    compare(env, "batched", b, reference(env, X, h, [(t * n) // T for t in range(T)]))


def stamped(env, cfg):
    n, T, ns, nm, L = (cfg[k] for k in ("n", "T", "ns", "nm", "L"))
    starts = env.choice("first samples", cfg["starts"])
    x, h = sig(env, (ns, n)), sig(env, (T, ns, nm, L), "h")
    # binary fractions: exact in the single precision used for time stamps on this device
    ts = env.tensor_of([0.0] + [(k + 0.25 + t / 128) / 8.0 for t, k in enumerate(starts[1:])])
    a, b = both(env, x, h, timestamps=ts, fs=8.0)
    env.eq(f"starts {starts}: batched equals reference path", b, a, tol=1e-6)
    compare(env, "batched", b, reference(env, x, h, list(starts)))


def cases(tier):
    deep = tier == "thorough"
    ctx = dict(ctx=Devices, validate_max=6, max_paths=1000)
    grid = [(n, t) for n in range(1, 6) for t in range(1, 5)] + [(9, 9), (10, 9), (11, 9), (8, 9), (3, 9), (2, 17), (17, 17), (16, 8), (12, 16), (9, 7), (7, 1), (14, 2), (15, 1), (63, 1), (8, 1)]
    if deep:
        grid += [(n, t) for n in range(6, 20) for t in (3, 5, 8, 9, 10, 16, 17, 24, 25)]
    cs = [Case(f"even-{i}", even, dict(ns=1, nm=1, L=3, grid=grid[i::4]), **ctx) for i in range(4)]
    few = [(5, 2), (4, 3), (10, 9), (3, 4)]
    for ns, nm, nx in ((1, 2, 1), (2, 1, 2), (2, 2, 2), (2, 2, 1), (3, 2, 3), (1, 3, 1)):
        cs.append(Case(f"multi-{ns}x{nm}-sig{nx}", even, dict(ns=ns, nm=nm, nx=nx, L=2, grid=few), **ctx))
    cs.append(Case("L1", even, dict(ns=1, nm=1, L=1, grid=few + [(1, 1)]), **ctx))
    cs.append(Case("L6", even, dict(ns=1, nm=2, L=6, grid=few), **ctx))
    st = [(0, 2, 3), (0, 0, 1), (0, 4, 4), (0, 5, 5), (0, 1, 5), (0, 0, 0), (0, 6, 9)]
    cs.append(Case("stamped", stamped, dict(n=5, T=3, ns=1, nm=2, L=2, starts=st), **ctx))
    cs.append(Case("stamped-multi", stamped, dict(n=5, T=3, ns=2, nm=2, L=3, starts=st), **ctx))
    many = [(0, 0, 0, 1, 1, 2, 2, 2, 2, 3), (0, 1, 2, 2, 2, 2, 2, 2, 4, 4), (0,) * 8 + (1, 3), (0,) * 9 + (4,), (0, 5, 5, 5, 5, 5, 5, 5, 5, 5),
            (0, 1, 2, 3, 4, 5, 5, 5, 5, 5)]
    cs.append(Case("stamped-10", stamped, dict(n=5, T=10, ns=1, nm=1, L=3, starts=many), **ctx))
    return cs
