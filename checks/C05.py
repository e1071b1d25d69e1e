from engine.run import Case
from checks import _ism as I

EXPLANATION = "relations between two symbolic runs of the real code; no reference model is involved"


def body(env, cfg):
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    dim, rel = cfg["dim"], cfg["rel"]
    size = I.vec(env, "L", [2.0] * dim, [2.4] * dim)
    beta = I.betas(env, dim)
    s = I.vec(env, "s", [0.2] + [0.4] * (dim - 1), [0.7] + [1.4] * (dim - 1))
    m = I.vec(env, "m", [1.0] + [0.5] * (dim - 1), [1.8] + [1.6] * (dim - 1))
    fs = cfg.get("fs", 343.0)
    nb = cfg.get("nb")

    def run(size, beta, s, m, nb=nb):
        kw = dict(room=I.room(env, size, beta, fs), max_order=cfg["order"], nb_img=nb, nsample=cfg["nsample"],
                  config=I.cfg_plain(cfg.get("fdl", 5)))
        if cfg.get("dyn"):
            return simulate_dynamic_rir(src_traj=env.tensor_of([[s]]), mic_traj=env.tensor_of([[m]]), **kw)[0]
        return simulate_rir(sources=env.tensor_of([s]), mics=env.tensor_of([m]), **kw)
    a = run(size, beta, s, m)
    if rel == "reciprocity":
        env.eq("exchange source and microphone", run(size, beta, m, s), a)
    elif rel == "mirror":
        for d in range(dim):
            s2, m2, b2 = list(s), list(m), list(beta)
            s2[d] = size[d] - s[d]
            m2[d] = size[d] - m[d]
            b2[2 * d], b2[2 * d + 1] = beta[2 * d + 1], beta[2 * d]
            env.eq(f"mirror axis {d}", run(size, b2, s2, m2), a)
    else:
        perms = [[1, 0]] if dim == 2 else [[1, 2, 0], [1, 0, 2]]
        for p in perms:
            b2 = [beta[2 * d + k] for d in p for k in (0, 1)]
            nb2 = None if nb is None else tuple(nb[d] for d in p)
            env.eq(f"axes {p}", run([size[d] for d in p], b2, [s[d] for d in p], [m[d] for d in p], nb2), a)


def cases(tier):
    cs = []
    for rel in ("reciprocity", "mirror", "axes"):
        cs += [Case(f"{rel}-2d-o3", body, dict(dim=2, order=3, nsample=14, rel=rel)),
               Case(f"{rel}-2d-nb", body, dict(dim=2, order=0, nb=(1, 2), nsample=10, rel=rel)),
               Case(f"{rel}-3d-o2", body, dict(dim=3, order=2, nsample=11, rel=rel)),
               Case(f"{rel}-2d-dyn", body, dict(dim=2, order=2, nsample=10, rel=rel, dyn=True))]
        if tier == "thorough":
            cs += [Case(f"{rel}-2d-o5", body, dict(dim=2, order=5, nsample=24, rel=rel), time_s=600),
                   Case(f"{rel}-3d-o3", body, dict(dim=3, order=3, nsample=16, rel=rel), time_s=600),
                   Case(f"{rel}-3d-nb", body, dict(dim=3, order=0, nb=(2, 1, 1), nsample=16, rel=rel), time_s=600)]
    return cs
