from engine.run import Case
from checks import _ism as I

EXPLANATION = ("finiteness: every denominator and square root in every output term is shown non-zero / non-negative by "
               "the solver over the whole closed room, coincident placements included; causality: under the assumption "
               "that the direct path is at least d samples long, every earlier output sample is proved zero")


def finite(env, cfg):
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    dim, pat = cfg["dim"], cfg["pat"]
    L = [2.0, 2.25, 2.5][:dim]
    s = I.vec(env, "s", [0.0] * dim, L)
    if cfg["place"] == "coincident":
        m = list(s)
    elif cfg["place"] == "line":          # same point in all but one coordinate
        m = [env.real("mx", 0.0, L[0])] + s[1:]
    else:
        m = I.vec(env, "m", [0.0] * dim, L)
    beta = I.betas(env, dim)
    room = I.room(env, L, beta, 343.0)
    so = [1.0] + [0.0] * (dim - 1)
    mo = [0.0] * (dim - 1) + [-1.0]
    o = (env.tensor_of(so), env.tensor_of(mo)) if pat != "omni" else None
    kw = dict(room=room, max_order=cfg["order"], nsample=cfg["nsample"], config=I.cfg_plain(3), directivity=pat,
              orientation=o)
    if cfg.get("dyn"):
        out = simulate_dynamic_rir(src_traj=env.tensor_of([[s]]), mic_traj=env.tensor_of([[m]]), **kw)
    else:
        out = simulate_rir(sources=env.tensor_of([s]), mics=env.tensor_of([m]), **kw)
    env.finite("response", out)


def causal(env, cfg):
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    dim, j0 = cfg["dim"], cfg["j0"]
    B = cfg.get("B", 4.0)
    size = I.vec(env, "L", [B] * dim, [1.2 * B] * dim)
    s = I.vec(env, "s", [0.0] * dim, [B] * dim)
    m = I.vec(env, "m", [0.0] * dim, [B] * dim)
    d0 = 0.0
    for a, b in zip(s, m):
        d0 = d0 + (a - b) * (a - b)
    fs = cfg["fs"]
    # direct path at least j0 samples long
    env.assume(d0 >= (j0 * I.C / fs) ** 2)
    for n in I.images(cfg["order"], dim):
        d2 = 0.0
        for d in range(dim):
            p, _b = I.mirror_1d(n[d], s[d], size[d], 1.0, 1.0)
            d2 = d2 + (m[d] - p) * (m[d] - p)
        if env.symbolic:
            # the image is at least as far: proved by the solver, axis by axis, then used
            for d in range(dim):
                p, _b = I.mirror_1d(n[d], s[d], size[d], 1.0, 1.0)
                env.lemma((m[d] - p) * (m[d] - p) >= (m[d] - s[d]) * (m[d] - s[d]))
            env.lemma(d2 >= (j0 * I.C / fs) ** 2)
            env.lemma(env.sqrt(d2) / I.C * fs >= j0)
    kw = dict(room=I.room(env, size, I.betas(env, dim), fs), max_order=cfg["order"], nsample=j0,
              config=I.cfg_plain(cfg.get("fdl", 5)))
    if cfg.get("dyn"):
        out = simulate_dynamic_rir(src_traj=env.tensor_of([[s]]), mic_traj=env.tensor_of([[m]]), **kw)
    else:
        out = simulate_rir(sources=env.tensor_of([s]), mics=env.tensor_of([m]), **kw)
    env.eq("no energy before the direct path", out.reshape(-1), [0.0] * j0, tol=1e-9)


def cases(tier):
    cs = []
    for dim in (2, 3):
        for place in ("coincident", "line", "free"):
            for pat in ("omni", "cardioid", ("omni", "bidir"), ("homni", "omni"), "hypercardioid", "subcardioid"):
                if tier == "quick" and (dim == 3 and place == "free" and pat != "omni" or pat in ("subcardioid",)):
                    continue
                order = 1 if place != "free" else 0
                cs.append(Case(f"finite-{dim}d-{place}-{pat}", finite, dict(dim=dim, place=place, pat=pat, order=order, nsample=4)))
    cs.append(Case("finite-dyn-coincident", finite, dict(dim=2, place="coincident", pat="cardioid", order=1, nsample=4, dyn=True)))
    cs.append(Case("finite-dyn-omni", finite, dict(dim=2, place="line", pat="omni", order=1, nsample=4, dyn=True)))
    for B, j0, fs in ((2.0, 1, 343.0), (4.0, 2, 343.0), (2.0, 2, 686.0), (6.0, 3, 343.0), (4.0, 4, 686.0), (8.0, 4, 343.0)):
        cs.append(Case(f"causal-2d-{B:.0f}-{j0}-{fs:.0f}", causal, dict(dim=2, order=1, j0=j0, fs=fs, B=B)))
    cs.append(Case("causal-2d-dyn", causal, dict(dim=2, order=1, j0=2, fs=343.0, dyn=True)))
    cs.append(Case("causal-3d", causal, dict(dim=3, order=1, j0=2, fs=343.0)))
    cs.append(Case("causal-2d-o2", causal, dict(dim=2, order=2, j0=2, fs=343.0)))
    cs.append(Case("causal-3d-o2", causal, dict(dim=3, order=2, j0=2, fs=343.0)))
    return cs
