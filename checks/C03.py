from engine.run import Case
from checks import _ism as I

EXPLANATION = ("static and dynamic simulations of the same symbolic placements are executed; each dynamic step is "
               "proved equal to the static response of that step")


def ori(env, name, kind, n, dim):
    """orientation in one of the accepted layouts, bounded away from the zero vector"""
    def v(k):
        return [env.real(f"{name}{k}_{d}", 0.3 if d == 0 else -1.0, 1.0) for d in range(dim)]
    if kind == "shared":
        return env.tensor_of(v(0))
    if kind == "each":
        return env.tensor_of([v(k) for k in range(n)])
    if kind == "angle":
        if dim == 2:
            return env.tensor_of([[env.real(f"{name}{k}_a", -3, 3)] for k in range(n)])
        return env.tensor_of([[env.real(f"{name}{k}_a", -3, 3), env.real(f"{name}{k}_e", -1.5, 1.5)] for k in range(n)])
    return None


def body(env, cfg):
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    dim, T, ns, nm = cfg["dim"], cfg["T"], cfg["ns"], cfg["nm"]
    size = I.vec(env, "L", [2.0] * dim, [2.3] * dim)
    t60 = cfg.get("t60")
    beta = None if t60 else I.betas(env, dim)
    room = I.room(env, size if not t60 else [2.1, 2.2, 2.3][:dim], beta, cfg.get("fs", 343.0), t60=t60)
    st = [[I.vec(env, f"s{t}_{i}_", [0.2] + [0.4] * (dim - 1), [0.7] + [1.0] * (dim - 1)) for i in range(ns)]
          for t in range(T)]
    mt = [[I.vec(env, f"m{t}_{i}_", [1.0] + [0.6] * (dim - 1), [1.5] + [1.4] * (dim - 1)) for i in range(nm)]
          for t in range(T)]
    if cfg.get("near"):
        # a microphone passes a source closely, and through it at the last step
        for t in range(T):
            for i in range(nm):
                d = I.vec(env, f"d{t}_{i}_", [0.0005] + [-0.02] * (dim - 1), [0.03] * dim)
                mt[t][i] = [a + b for a, b in zip(st[t][0], d)] if t < T - 1 else list(st[t][0])
    if cfg.get("still") == "src":
        st = [st[0]] * T
    if cfg.get("still") == "mic":
        mt = [mt[0]] * T
    pat = cfg.get("pat", "omni")
    o = None
    if pat != "omni":
        so = ori(env, "so", cfg["ori"], ns, dim)
        mo = ori(env, "mo", cfg["ori"], nm, dim)
        o = (so, mo) if cfg.get("tuple", True) else so
    c = I.cfg_plain(cfg.get("fdl", 3))
    kw = dict(max_order=cfg["order"], nb_img=cfg.get("nb"), config=c, directivity=pat, orientation=o)
    if "tmax" in cfg:
        kw["tmax"] = cfg["tmax"]
    else:
        kw["nsample"] = cfg["nsample"]
    src_traj, mic_traj = env.tensor_of(st), env.tensor_of(mt)
    if cfg.get("flat"):
        src_traj, mic_traj = src_traj[:, 0, :], mic_traj[:, 0, :]
    dyn = simulate_dynamic_rir(room=room, src_traj=src_traj, mic_traj=mic_traj, **kw)
    stat = [simulate_rir(room=room, sources=env.tensor_of(st[t]), mics=env.tensor_of(mt[t]), **kw) for t in range(T)]
    for t in range(T):
        env.eq(f"step {t}", dyn[t], stat[t])
    env.check("number of steps", tuple(dyn.shape[:3]) == (T, ns, nm))


def cases(tier):
    N = dict(dim=2, T=2, ns=2, nm=2, order=1, nsample=7)
    cs = [
        Case("2d-o2", body, dict(N, T=3, order=2)),
        Case("2d-3src-1mic", body, dict(N, ns=3, nm=1)),
        Case("2d-1src-3mic", body, dict(N, ns=1, nm=3)),
        Case("2d-flat", body, dict(N, T=3, ns=1, nm=1, flat=True, order=2)),
        Case("2d-nb", body, dict(N, nb=(2, 1), order=0)),
        Case("3d-o1", body, dict(N, dim=3, ns=1)),
        Case("3d-nb", body, dict(N, dim=3, ns=1, nb=(0, 1, 2), nsample=9)),
        Case("2d-still-src", body, dict(N, still="src")),
        Case("2d-still-mic", body, dict(N, still="mic")),
        Case("2d-t60", body, dict(N, t60=0.4)),
        Case("3d-t60", body, dict(N, dim=3, ns=1, nm=1, t60=0.4)),
        Case("2d-tmax", body, dict(N, tmax=0.021, ns=1)),
        Case("2d-near", body, dict(N, near=True, T=3)),
        Case("3d-near", body, dict(N, near=True, dim=3, ns=1)),
        Case("2d-near-cardioid", body, dict(N, near=True, ns=1, nm=1, pat="cardioid", ori="each")),
        Case("2d-fdl5", body, dict(N, fdl=5, ns=1)),
    ]
    k = 0
    pats = ["cardioid", "bidir", "homni", "subcardioid", "hypercardioid", ("omni", "cardioid"), ("cardioid", "omni")]
    for pat in pats:
        for o in ("shared", "each", "angle"):
            for dim in (2, 3):
                k += 1
                if tier == "quick" and k % 4 != 1 and not isinstance(pat, tuple):
                    continue
                cs.append(Case(f"{pat}-{o}-{dim}d", body, dict(N, dim=dim, pat=pat, ori=o, order=1 if dim == 2 else 0,
                                                               ns=2 if o != "shared" else 1, nm=2 if dim == 2 else 1)))
    cs.append(Case("cardioid-single-ori", body, dict(N, pat="cardioid", ori="shared", tuple=False, nm=1)))
    return cs
