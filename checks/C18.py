from engine.run import Case
from checks._conv import conv, row, sig, compare, add_at

EXPLANATION = ("DynamicConvolver(mode='hop') runs on symbolic signals and responses for every enumerated length, hop and number of "
               "responses; each output sample is compared with the per-sample reference (sample n uses response floor(n/hop))")
OUTSIDE = ["lengths beyond the bounds", "rounding inside the FFT", "signal beyond the last response (dropped by design)"]


def hops(env, cfg):
    from torchrir.signal import DynamicConvolver, convolve_rir
    n, hop, T = env.choice("n, hop, T", cfg["grid"])
    ns, nm, L = cfg["ns"], cfg["nm"], cfg["L"]
    x = sig(env, (n,) if ns == 0 else (ns, n))
    ns = max(ns, 1)
    if cfg.get("const"):
        h1 = sig(env, (ns, nm, L), "h")
        h = h1.unsqueeze(0).expand(T, ns, nm, L)
    else:
        h = sig(env, (T, ns, nm, L), "h")
    y = DynamicConvolver(mode="hop", hop=hop)(x, h)
    X = x.reshape(ns, n)
    used = min(n, T * hop)
    want = []
    for m in range(nm):
        acc = [0.0] * (used + L - 1)
        for s in range(ns):
            for f in range(T):
                seg = [X[s, i] for i in range(f * hop, min((f + 1) * hop, n))]
                if seg:
                    add_at(acc, f * hop, conv(env, seg, row(h[f, s, m])))
        want.append(acc)
    env.check("microphone axis", y.dim() == (1 if nm == 1 else 2))
    Y = y.reshape(nm, -1)
    N = Y.shape[1]
    env.check("no sample lost", N >= used + L - 1)
    for m in range(nm):
        for j in range(N):
            env.eq(f"mic {m} sample {j}", Y[m, j], want[m][j] if j < len(want[m]) else 0.0, tol=1e-6)
    if cfg.get("const") and T * hop >= n:
        z = convolve_rir(x, h1).reshape(nm, -1)
        env.eq("constant responses are static convolution", Y[:, : n + L - 1], z, tol=1e-6)


def rejects(env, cfg):
    from torchrir.signal import DynamicConvolver
    x, h = sig(env, (1, 6)), sig(env, (3, 1, 2, 2), "h")
    hop = env.choice("hop", [None, 1, 2, 6])
    mode = env.choice("mode", ["hop", "HOP", "static", "", "trajectory"])
    r = env.call(lambda: DynamicConvolver(mode=mode, hop=hop).convolve(x, h))
    env.check("mode and hop", r.ok == (mode == "trajectory" or (mode == "hop" and hop is not None)))
    if not r.ok:
        env.check("ValueError", r.raised(ValueError))


def cases(tier):
    deep = tier == "thorough"
    N, H, TT = (13, 7, 6) if deep else (7, 4, 4)
    grid = [(n, h, t) for n in range(1, N + 1) for h in range(1, H + 1) for t in range(1, TT + 1)]
    grid += [(9, 5, 2), (9, 4, 3), (8, 4, 2), (8, 8, 1), (9, 8, 2), (10, 3, 4), (12, 1, 12), (11, 16, 2), (40, 19, 3)]
    cs = []
    k = 6 if not deep else 24
    for i in range(k):
        cs.append(Case(f"grid-{i}", hops, dict(ns=1, nm=1, L=3, grid=grid[i::k]), validate_max=6, max_paths=1000))
    few = [(5, 2, 2), (5, 2, 3), (6, 3, 3), (7, 3, 2), (4, 4, 2), (3, 5, 2)]
    for ns, nm in ((0, 2), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
        cs.append(Case(f"multi-{ns}x{nm}", hops, dict(ns=ns, nm=nm, L=2, grid=few)))
    cs.append(Case("L1", hops, dict(ns=1, nm=1, L=1, grid=few)))
    cs.append(Case("L-longer-than-hop", hops, dict(ns=1, nm=2, L=5, grid=few)))
    cs.append(Case("const", hops, dict(ns=2, nm=2, L=3, const=True, grid=few + [(6, 2, 3), (7, 2, 4), (8, 4, 2)])))
    cs.append(Case("const-1", hops, dict(ns=1, nm=1, L=4, const=True, grid=grid[::5])))
    cs.append(Case("rejects", rejects, {}))
    return cs
