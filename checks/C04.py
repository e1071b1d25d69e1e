from engine.run import Case
from checks import _ism as I
from checks.C03 import ori

EXPLANATION = ("one symbolic run with all sources and microphones is proved equal, entry by entry, to symbolic runs "
               "with one source and one microphone; a permuted run is proved to be the permuted result")


def pick(o, i):
    if o is None:
        return None
    return o[i] if o.dim() == 2 else o


def body(env, cfg):
    from torchrir.models import MicrophoneArray, Source
    from torchrir.sim import simulate_rir
    dim, ns, nm = cfg["dim"], cfg["ns"], cfg["nm"]
    size = I.vec(env, "L", [2.0] * dim, [2.3] * dim)
    beta = I.betas(env, dim)
    room = I.room(env, size, beta, cfg.get("fs", 343.0))
    S = [I.vec(env, f"s{i}_", [0.2] + [0.4] * (dim - 1), [0.7] + [1.0] * (dim - 1)) for i in range(ns)]
    M = [I.vec(env, f"m{i}_", [1.0] + [0.6] * (dim - 1), [1.5] + [1.4] * (dim - 1)) for i in range(nm)]
    pat = cfg.get("pat", "omni")
    so = mo = None
    if pat != "omni":
        so, mo = ori(env, "so", cfg["ori"], ns, dim), ori(env, "mo", cfg["ori"], nm, dim)
    c = I.cfg_plain(cfg.get("fdl", 3), accumulate_chunk_size=cfg.get("ac", 4096))
    kw = dict(room=room, max_order=cfg["order"], nsample=cfg["nsample"], config=c, directivity=pat)

    def run(si, mi):
        s = env.tensor_of([S[i] for i in si])
        m = env.tensor_of([M[i] for i in mi])
        if so is None:
            return simulate_rir(sources=s, mics=m, **kw)
        oo = env.tensor_of([list(x) for x in [[so[i][d] for d in range(so.shape[1])] for i in si]]) if so.dim() == 2 else so
        mm = env.tensor_of([[mo[i][d] for d in range(mo.shape[1])] for i in mi]) if mo.dim() == 2 else mo
        if cfg.get("entities"):
            return simulate_rir(sources=Source(s, oo), mics=MicrophoneArray(m, mm), **kw)
        return simulate_rir(sources=s, mics=m, orientation=(oo, mm), **kw)
    full = run(range(ns), range(nm))
    for i in range(ns):
        for j in range(nm):
            env.eq(f"pair {i},{j}", full[i, j], run([i], [j])[0, 0])
    if cfg.get("perm"):
        ps, pm = list(range(ns))[::-1], list(range(nm))[1:] + [0]
        r = run(ps, pm)
        for a, i in enumerate(ps):
            for b, j in enumerate(pm):
                env.eq(f"permuted {i},{j}", r[a, b], full[i, j])


def cases(tier):
    N = dict(dim=2, ns=2, nm=2, order=2, nsample=6)
    cs = [
        Case("2x2", body, dict(N)),
        Case("3x3", body, dict(N, ns=3, nm=3, order=1, perm=True)),
        Case("3x2-short", body, dict(N, ns=3, nm=2, nsample=4, order=1)),
        Case("2x3-3d", body, dict(N, dim=3, nm=3, order=1)),
        Case("2x2-fdl7", body, dict(N, fdl=7, nsample=8, order=1)),
        Case("2x2-chunks", body, dict(N, ac=2, order=1)),
        Case("3x1", body, dict(N, ns=3, nm=1)),
        Case("1x3", body, dict(N, ns=1, nm=3)),
    ]
    for pat in ("cardioid", "homni", ("omni", "bidir"), ("hypercardioid", "omni")):
        for o, dim in (("each", 2), ("shared", 2), ("angle", 3), ("angle", 2), ("each", 3)):
            if tier == "quick" and not (o == "each" and dim == 2 or pat == ("omni", "bidir") and dim == 2
                                        or pat == ("hypercardioid", "omni") and dim == 3):
                continue
            cs.append(Case(f"{pat}-{o}-{dim}", body, dict(N, dim=dim, pat=pat, ori=o, order=1 if dim == 2 else 0, perm=True)))
    cs.append(Case("entities", body, dict(N, pat=("cardioid", "bidir"), ori="each", order=0, entities=True, ns=3)))
    if tier == "thorough":
        cs += [Case("3x3-o2", body, dict(N, ns=3, nm=3, order=2, perm=True, nsample=9)),
               Case("4x4", body, dict(N, ns=4, nm=4, order=1, perm=True)),
               Case("2x2-o3", body, dict(N, order=3, nsample=10, fdl=5))]
    return cs
