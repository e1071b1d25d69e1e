from engine.run import Case
from checks import _ism as I

EXPLANATION = ("the same symbolic scene is simulated with the given chunk sizes and with chunks larger than "
               "everything; outputs are proved equal sample by sample")


def scene(env, dim, ns, nm):
    size = I.vec(env, "L", [2.0] * dim, [2.3] * dim)
    beta = I.betas(env, dim)
    srcs = [I.vec(env, f"s{i}_", [0.2] + [0.4] * (dim - 1), [0.7] + [1.0] * (dim - 1)) for i in range(ns)]
    mics = [I.vec(env, f"m{i}_", [1.0] + [0.6] * (dim - 1), [1.5] + [1.4] * (dim - 1)) for i in range(nm)]
    return size, beta, srcs, mics


def body(env, cfg):
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    dim, ns, nm = cfg["dim"], cfg["ns"], cfg["nm"]
    size, beta, srcs, mics = scene(env, dim, ns, nm)
    if cfg.get("fixed"):
        # the table is read at symbolic places otherwise
        size = [2.0, 2.25, 2.5][:dim]
        srcs = [[0.5 + 0.1 * i, 0.9, 1.1][:dim] for i in range(ns)]
        mics = [[1.3, 1.2 + 0.15 * i, 0.7][:dim] for i in range(nm)]
    if cfg.get("one wall"):
        beta = [beta[0]] + [1.0] * (2 * dim - 1)
    room = I.room(env, size, beta, cfg.get("fs", 343.0))
    pat = cfg.get("pat", "omni")
    o = None
    if pat != "omni":
        o = tuple(env.tensor_of([[env.real(f"{k}{i}_{d}", 0.3 if d == 0 else -1.0, 1.0) for d in range(dim)] for i in range(n)])
                  for k, n in (("so", ns), ("mo", nm)))

    def run(ic, ac):
        c = I.cfg_plain(cfg.get("fdl", 3), image_chunk_size=ic, accumulate_chunk_size=ac, use_lut=bool(cfg.get("lut")), **cfg.get("conf", {}))
        kw = dict(directivity=pat, orientation=o)
        if cfg.get("dyn"):
            if cfg.get("steps"):
                st = [[[x + 0.07 * k for x in s] for s in srcs] for k in range(cfg["steps"])]
                mt = [[[x - 0.05 * k for x in m] for m in mics] for k in range(cfg["steps"])]
            else:
                st, mt = [[s] for s in srcs], [[m] for m in mics]
            return simulate_dynamic_rir(room=room, src_traj=env.tensor_of(st), mic_traj=env.tensor_of(mt), max_order=cfg["order"],
                                        nb_img=cfg.get("nb"), nsample=cfg["nsample"], config=c, **kw)
        return simulate_rir(room=room, sources=env.tensor_of(srcs), mics=env.tensor_of(mics),
                            max_order=cfg["order"], nb_img=cfg.get("nb"), nsample=cfg["nsample"], config=c, tdiff=cfg.get("tdiff"), **kw)
    ref = run(*cfg.get("whole", (1000, 1000)))
    for ic, ac in cfg["chunks"]:
        env.eq(f"chunks {ic},{ac}", run(ic, ac), ref)


def cases(tier):
    cs = []
    a = [(1, 1), (2, 3), (3, 2), (4, 1000)]
    b = [(5, 2), (1000, 1), (1000, 4), (12, 5)]
    d = [(13, 13), (7, 3), (6, 6), (1000, 12)]
    for nm, ch in (("a", a), ("b", b), ("d", d)):
        cs.append(Case(f"static-o2-{nm}", body, dict(dim=2, ns=1, nm=2, order=2, nsample=7, chunks=ch),
                       bounds=f"2-D order 2 (13 images), chunks {ch}"))
        cs.append(Case(f"dyn-o2-{nm}", body, dict(dim=2, ns=2, nm=2, order=2, nsample=6, chunks=ch[:3], dyn=True),
                       bounds=f"2-D order 2, T=2, chunks {ch[:3]}"))
    e = [(1, 2), (3, 1), (5, 4), (8, 3)]
    cs.append(Case("static-late-first", body, dict(dim=2, ns=2, nm=1, order=4, nb=(4, 0), nsample=4, fs=171.5, chunks=e),
                   bounds=f"images on one axis ordered from far to near, most of them outside the response; chunks {e}"))
    cs.append(Case("dyn-late-first", body, dict(dim=2, ns=2, nm=2, order=4, nb=(3, 0), nsample=4, fs=171.5, chunks=e, dyn=True)))
    cs.append(Case("static-3d", body, dict(dim=3, ns=2, nm=1, order=1, nsample=7, chunks=[(1, 1), (3, 2), (2, 5), (6, 1)], fdl=5)))
    for dyn in (False, True):
        k = "dyn" if dyn else "static"
        cs.append(Case(f"{k}-lut", body, dict(dim=2, ns=2, nm=2, order=2, nsample=8, chunks=[(1, 1), (5, 2), (13, 4), (4, 13)], lut=True, fixed=True, dyn=dyn,
                                              fdl=5, conf=dict(sinc_lut_granularity=4)), bounds="table interpolation, fixed positions, symbolic walls"))
        cs.append(Case(f"{k}-directed", body, dict(dim=2, ns=2, nm=1, order=1, nsample=6, chunks=[(1, 1), (2, 3), (5, 2)], pat=("cardioid", "bidir"), dyn=dyn, steps=2)))
        cs.append(Case(f"{k}-directed-3d", body, dict(dim=3, ns=1, nm=2, order=1, nsample=5, chunks=[(3, 2), (6, 1)], pat="subcardioid", dyn=dyn, steps=2)))
    cs.append(Case("dyn-entities", body, dict(dim=2, ns=3, nm=2, order=1, nsample=6, chunks=[(1, 1), (2, 2), (3, 4)], dyn=True, steps=2)))
    cs.append(Case("dyn-3d", body, dict(dim=3, ns=1, nm=2, order=1, nsample=6, chunks=[(2, 3), (4, 1)], dyn=True, steps=3)))
    cs.append(Case("static-tail", body, dict(dim=2, ns=2, nm=1, order=2, nsample=9, chunks=[(1, 1), (5, 3)], fixed=True, tdiff=4.5 / 343.0, conf=dict(seed=1))))
    # beyond the default sizes (2048 images, 4096 contributions)
    cs.append(Case("static-default-sizes", body, dict(dim=2, ns=1, nm=1, order=1, nb=(29, 36), nsample=8, fs=34.3, chunks=[(2048, 4096), (4096, 2048)], whole=(5000, 5000),
                                                      fixed=True, **{"one wall": True}), bounds="4307 images, one symbolic wall", weight=3))
    if tier == "thorough":
        for o in (3,):
            n = 25
            ch = [(i, j) for i in (1, 2, 3, 4, 5, 8, 12, 24, 25, 26) for j in (1, 2, 3, 5, 7, 24, 25, 30)]
            for k in range(0, len(ch), 8):
                cs.append(Case(f"static-o3-{k}", body, dict(dim=2, ns=2, nm=2, order=o, nsample=9, chunks=ch[k:k + 8], fdl=5), time_s=900))
    return cs
