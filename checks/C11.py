from engine.run import Case
from checks import _ism as I

EXPLANATION = ("simulate_rir is executed with a symbolic mixing time, duration and wall coefficients and with the random "
               "numbers as free variables; the solver shows the head equals the response without a tail and the tail "
               "equals noise * exponential decay * junction level")
OUTSIDE = ["the statistical quality of the random numbers"]


def common(env, cfg, fs):
    dim = cfg.get("dim", 2)
    size = [2.0, 2.25, 2.5][:dim] if not cfg.get("symsize") else I.vec(env, "L", [2.0] * dim, [2.3] * dim)
    b = cfg.get("beta", "sym")
    beta = I.betas(env, dim, 0.1, 0.9) if b == "sym" else [b] * (2 * dim) if b is not None else None
    room = I.room(env, size, beta, fs, t60=cfg.get("t60"))
    ns, nm = cfg.get("ns", 1), cfg.get("nm", 1)
    S = env.tensor_of([[0.5 + 0.2 * i, 1.0, 1.1][:dim] for i in range(ns)])
    M = env.tensor_of([[1.0, 1.2 + 0.2 * i, 1.3][:dim] for i in range(nm)])
    return size, beta, room, S, M


def t60_of(env, cfg, size, beta):
    """reverberation time by Sabine, independently"""
    if cfg.get("t60"):
        return cfg["t60"]
    if beta is None:
        return None
    if len(size) == 2:
        lx, ly = size
        A = ly * (2.0 - beta[0] * beta[0] - beta[1] * beta[1]) + lx * (2.0 - beta[2] * beta[2] - beta[3] * beta[3])
        V = lx * ly
    else:
        lx, ly, lz = size
        A = (ly * lz * (2.0 - beta[0] * beta[0] - beta[1] * beta[1]) + lx * lz * (2.0 - beta[2] * beta[2] - beta[3] * beta[3])
             + lx * ly * (2.0 - beta[4] * beta[4] - beta[5] * beta[5]))
        V = lx * ly * lz
    return V * 0.161 / A


def head(env, cfg):
    """samples before the mixing time; no tail at all outside (0, end)"""
    from torchrir.sim import simulate_rir
    fs = cfg.get("fs", 343.0)
    size, beta, room, S, M = common(env, cfg, fs)
    n = cfg["n"]
    tdiff = env.real("tdiff", -2.0 / fs, (n + 3.0) / fs)
    kw = dict(room=room, sources=S, mics=M, max_order=1, config=I.cfg_plain(3, seed=cfg.get("seed")))
    if cfg.get("via") == "tmax":
        tmax = env.real("tmax", (n - 1 + 0.01) / fs, n / fs)
        kw["tmax"] = tmax
        end = tmax
    elif cfg.get("via") == "both":
        kw["tmax"] = 1.0
        kw["nsample"] = n
        end = n / fs
    else:
        kw["nsample"] = n
        end = n / fs
    plain = simulate_rir(**kw)
    r = env.call(simulate_rir, tdiff=tdiff, **kw)
    if not r.ok:
        env.fail(f"a mixing time is refused: {r}")
    out = r.value
    env.check("shape", tuple(out.shape) == tuple(plain.shape))
    env.finite("response", out)
    ns, nm = out.shape[0], out.shape[1]
    for i in range(ns):
        for k in range(nm):
            for j in range(n):
                x, y = out[i, k, j], plain[i, k, j]
                keep = env.Or(j < env.floor(tdiff * fs), tdiff <= 0, tdiff >= end)
                env.check(f"sample {j} of {i},{k} before the mixing time is untouched",
                          env.Implies(keep, env.And(x - y <= 1e-9, y - x <= 1e-9)))


def law(env, cfg):
    """the tail itself: noise * decay * level, with the noise taken from a reference run"""
    import torch
    from torchrir.sim import simulate_rir
    fs = cfg.get("fs", 256.0)
    size, beta, room, S, M = common(env, dict(cfg, symsize=True), fs)
    n, idx = cfg["n"], cfg["idx"]
    tdiff = env.real("tdiff", (idx + 0.01) / fs, (idx + 0.99) / fs)
    if env.truth(idx < 1) is True:
        return
    seed = cfg.get("seed")
    kw = dict(room=room, sources=S, mics=M, max_order=cfg.get("order", 1), nsample=n, config=I.cfg_plain(3, seed=seed))
    if cfg.get("tmax"):
        kw["tmax"] = 10.0
    plain = simulate_rir(**kw)
    out = simulate_rir(tdiff=tdiff, **kw)
    t60 = t60_of(env, cfg, size, beta)
    ns, nm = out.shape[0], out.shape[1]
    shape = tuple(plain[..., idx:].shape)
    g = torch.Generator()
    g.manual_seed(0 if seed is None else seed)
    noise = torch.randn(shape, generator=g, dtype=plain.dtype)
    for i in range(ns):
        for k in range(nm):
            lev = plain[i, k, idx - 1]
            lev = env.sqrt(lev * lev)
            for j in range(idx, n):
                t = (j - idx) / fs                       # exact: fs is a power of two
                dec = env.exp(-3.0 * t) if t60 is None else env.exp(-t / (t60 / 6.9078)) if t else 1.0
                env.eq(f"tail sample {j} of {i},{k}", out[i, k, j] * 1.0, noise[i, k, j - idx] * dec * (lev + 1e-8), tol=1e-7)
    again = simulate_rir(tdiff=tdiff, **kw)
    env.eq("equal seeds give equal responses", again, out, tol=0.0)
    if not cfg.get("order", 1):
        env.finite("tail", out)


def seeds(env, cfg):
    """equal seeds: same tail whatever happened before; seeds are honoured"""
    import torch
    from torchrir.sim import simulate_rir
    fs = 343.0
    size, beta, room, S, M = common(env, cfg, fs)
    seed = env.int("seed", 0, 3)
    seed = int(seed)
    kw = dict(room=room, sources=S, mics=M, max_order=0, nsample=6, tmax=1.0, tdiff=3.2 / fs)
    a = simulate_rir(config=I.cfg_plain(3, seed=seed), **kw)
    simulate_rir(config=I.cfg_plain(3, seed=7), **kw)
    torch.rand((3,))
    b = simulate_rir(config=I.cfg_plain(3, seed=seed), **kw)
    env.eq("equal seeds", a, b, tol=0.0)


def cases(tier):
    cs = []
    N = dict(n=5)
    for via in ("nsample", "tmax", "both"):
        cs.append(Case(f"head-2d-{via}", head, dict(N, via=via)))
    cs.append(Case("head-3d", head, dict(N, dim=3, via="tmax", beta=0.8)))
    cs.append(Case("head-t60", head, dict(N, beta=None, t60=0.5, via="tmax")))
    cs.append(Case("head-rigid", head, dict(N, beta=1.0, via="tmax")))
    cs.append(Case("head-absorbing", head, dict(N, beta=0.0, via="tmax")))
    cs.append(Case("head-2x2", head, dict(N, ns=2, nm=2, beta=0.5, via="tmax")))
    cs.append(Case("head-n1", head, dict(n=1, via="nsample", beta=0.5)))
    cs.append(Case("head-n2", head, dict(n=2, via="nsample", beta=0.5)))
    for idx in (1, 2, 4, 5):
        cs.append(Case(f"law-2d-{idx}", law, dict(n=6, idx=idx, tmax=True)))
    for idx in (1, 2, 3):
        cs.append(Case(f"law-o0-{idx}", law, dict(n=6, idx=idx, tmax=True, order=0)))
        cs.append(Case(f"law-3d-o0-{idx}", law, dict(n=6, idx=idx, tmax=True, order=0, dim=3)))
    cs.append(Case("law-3d", law, dict(n=6, idx=3, dim=3, tmax=True)))
    cs.append(Case("law-seed", law, dict(n=6, idx=3, seed=5, tmax=True)))
    cs.append(Case("law-t60", law, dict(n=6, idx=2, beta=None, t60=0.5, tmax=True)))
    cs.append(Case("law-t60-3d", law, dict(n=6, idx=2, beta=None, t60=0.4, dim=3, tmax=True)))
    cs.append(Case("law-nsample", law, dict(n=6, idx=2)))
    cs.append(Case("law-2x2", law, dict(n=6, idx=2, ns=2, nm=2, tmax=True)))
    cs.append(Case("seeds", seeds, dict(beta=0.5)))
    return cs
