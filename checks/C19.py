from engine.run import Case
from checks._conv import conv, row, sig, compare, add_at

EXPLANATION = ("DynamicConvolver(mode='trajectory') runs on symbolic signals, responses and time stamps; each output sample is compared "
               "with the reference in which every input sample meets exactly the response in force at its time")
OUTSIDE = ["decreasing time stamps", "time stamps whose product with the rate is within rounding of a whole number"]


def reference(env, X, h, starts):
    """starts: first sample of each response (ints), non-decreasing"""
    T, ns, nm, L = h.shape
    n = X.shape[1]
    out = []
    for m in range(nm):
        acc = [0.0] * (n + L - 1)
        for s in range(ns):
            for i in range(n):
                t = max(k for k in range(T) if starts[k] <= i)
                for j in range(L):
                    acc[i + j] = acc[i + j] + X[s, i] * h[t, s, m, j]
        out.append(acc)
    return out


def even(env, cfg):
    from torchrir.signal import DynamicConvolver, convolve_rir
    n, T = env.choice("n, T", cfg["grid"])
    ns, nm, L = cfg["ns"], cfg["nm"], cfg["L"]
    x = sig(env, (n,) if ns == 0 else (ns, n))
    ns = max(ns, 1)
    if cfg.get("const"):
        h1 = sig(env, (ns, nm, L), "h")
        h = h1.unsqueeze(0).expand(T, ns, nm, L)
    else:
        h = sig(env, (T, ns, nm, L), "h")
    y = DynamicConvolver()(x, h) if cfg.get("call") else DynamicConvolver(mode="trajectory").convolve(x, h)
    X = x.reshape(ns, n)
    compare(env, f"{n} samples, {T} steps", y, reference(env, X, h, [(t * n) // T for t in range(T)]))
    if cfg.get("const"):
        compare(env, "constant responses are static convolution", y,
                [row(r) for r in convolve_rir(x, h1).reshape(nm, -1)])


def stamped(env, cfg):
    import itertools
    import torch
    from torchrir.signal import DynamicConvolver
    n, T, fs = cfg["n"], cfg["T"], cfg.get("fs", 8.0)
    ns, nm, L = cfg["ns"], cfg["nm"], cfg["L"]
    x, h = sig(env, (ns, n)), sig(env, (T, ns, nm, L), "h")
    last = cfg.get("last", n)
    opts = list(itertools.combinations_with_replacement(range(last + 1), T - 1))
    if len(opts) > cfg.get("most", 20):
        opts = opts[cfg.get("shift", 0)::-(-len(opts) // cfg.get("most", 20))]
    starts = [0] + list(env.choice("first samples", opts))
    ts = [0.0]
    prev = None
    for t in range(1, T):
        k = starts[t]
        if cfg.get("exact"):
            ts.append(k / fs)
            continue
        # anywhere inside sample k: the response takes over at sample k
        fr = env.real(f"r{t}", 0.01, 0.99)
        if k == starts[t - 1]:
            if prev is None:
                fr = env.real(f"r{t}", 0.0, 0.99)
            else:
                env.assume(fr >= prev)
        prev = fr
        ts.append((k + fr) / fs)
    tt = env.tensor_of(ts, dtype=torch.float32 if cfg.get("f32") else torch.float64) if not cfg.get("list") else ts
    y = DynamicConvolver(mode="trajectory", timestamps=tt, fs=fs).convolve(x, h)
    compare(env, f"starts {starts}", y, reference(env, x, h, starts))


def rejects(env, cfg):
    import torch
    from torchrir.signal import DynamicConvolver
    T = 3
    x, h = sig(env, (1, 6)), sig(env, (T, 1, 2, 2), "h")
    shp = env.choice("shape", [(), (1,), (2,), (3,), (4,), (3, 1), (1, 3)])
    first = env.real("first", -0.2, 0.2)
    fs = env.choice("fs", [None, 8.0])
    n = 1
    for s in shp:
        n *= s
    vals = [first] + [0.25 * (i + 1) for i in range(n - 1)]
    tt = env.tensor_of(vals).reshape(shp)
    r = env.call(lambda: DynamicConvolver(timestamps=tt, fs=fs).convolve(x, h))
    ok = env.And(fs is not None, shp == (T,), first == 0)
    env.check("accepted exactly when valid", env.Iff(r.ok, ok))
    if not r.ok:
        env.check("ValueError", r.raised(ValueError))


def cases(tier):
    deep = tier == "thorough"
    N, TT = (16, 8) if deep else (9, 6)
    grid = [(n, t) for n in range(1, N + 1) for t in range(1, TT + 1)] + [(11, 7), (12, 5), (13, 8), (3, 9), (17, 3), (41, 3)]
    cs = []
    for i in range(4):
        cs.append(Case(f"even-{i}", even, dict(ns=1, nm=1, L=3, grid=grid[i::4], call=i % 2), validate_max=6, max_paths=1000))
    few = [(5, 2), (5, 3), (7, 3), (2, 4), (4, 4), (10, 9)]
    for ns, nm in ((0, 2), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
        cs.append(Case(f"multi-{ns}x{nm}", even, dict(ns=ns, nm=nm, L=2, grid=few)))
    cs.append(Case("const", even, dict(ns=2, nm=2, L=3, const=True, grid=few)))
    cs.append(Case("const-1", even, dict(ns=1, nm=1, L=4, const=True, grid=grid[::4])))
    many = 400 if deep else 20
    for name, c in {
            "2": dict(n=6, T=2, ns=1, nm=1, L=2), "2-exact": dict(n=6, T=2, ns=1, nm=1, L=2, exact=True),
            "3": dict(n=5, T=3, ns=1, nm=1, L=2), "3-exact": dict(n=5, T=3, ns=1, nm=1, L=2, exact=True, shift=1),
            "4": dict(n=4, T=4, ns=1, nm=1, L=2), "6": dict(n=5, T=6, ns=1, nm=1, L=2),
            "multi": dict(n=3, T=3, ns=2, nm=2, L=2), "beyond": dict(n=3, T=3, ns=1, nm=2, L=2, last=6),
            "list": dict(n=4, T=2, ns=1, nm=1, L=2, list=True), "f32": dict(n=4, T=2, ns=1, nm=1, L=2, f32=True, last=3),
            "fs": dict(n=4, T=2, ns=1, nm=1, L=2, fs=1000.0, last=3)}.items():
        cs.append(Case("stamped-" + name, stamped, dict(c, most=many), max_paths=1000))
    cs.append(Case("rejects", rejects, {}))
    return cs
