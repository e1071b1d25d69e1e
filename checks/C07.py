from engine.run import Case
from checks import _ism as I
from checks.C03 import ori

EXPLANATION = ("simulate_rir is executed with symbolic positions and orientations and proved equal, sample by sample, to an "
               "image sum weighted by an independent pattern table; equivalent descriptions of one direction are "
               "proved to give identical responses")
OUTSIDE = ["the orientation of an image is that of the source (the library does not mirror it)"]

ALIASES = {"omni": ["omnidirectional", "OMNI", "Omni"], "homni": ["halfomni", "half-omni", "HOMNI"], "subcardioid": ["subcard", "SubCardioid"],
           "cardioid": ["card", "Cardioid"], "hypercardioid": ["hypcard"],
           "bidir": ["bidirectional", "figure8", "figure-8"]}


def scene(env, dim, ns=1, nm=1, order=1, fs=343.0, sz=None):
    size = I.vec(env, "L", [2.0] * dim, [2.3] * dim) if sz is None else sz
    beta = I.betas(env, dim) if order else [1.0] * (2 * dim)
    S = [I.vec(env, f"s{i}_", [0.2] + [0.4] * (dim - 1), [0.7] + [1.0] * (dim - 1)) for i in range(ns)]
    M = [I.vec(env, f"m{i}_", [1.0] + [0.6] * (dim - 1), [1.5] + [1.4] * (dim - 1)) for i in range(nm)]
    return size, beta, S, M, I.room(env, size, beta, fs)


def unit(env, v):
    d = 0.0
    for x in v:
        d = d + x * x
    r = env.sqrt(d)
    return [x / r for x in v]


def from_angles(env, a):
    if len(a) == 1:
        return [env.cos(a[0]), env.sin(a[0])]
    az, el = a
    return [env.cos(el) * env.cos(az), env.cos(el) * env.sin(az), env.sin(el)]


def row(o, i):
    return [o[i, d] for d in range(o.shape[1])] if o.dim() == 2 else [o[d] for d in range(o.shape[0])]


def gains(env, cfg):
    """response == image sum weighted by the reference table"""
    from torchrir.models import MicrophoneArray, Source
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    dim, ns, nm, order, ns_ = cfg["dim"], cfg.get("ns", 1), cfg.get("nm", 1), cfg["order"], cfg["nsample"]
    size, beta, S, M, room = scene(env, dim, ns, nm, order)
    pat = cfg["pat"] if isinstance(cfg["pat"], tuple) else (cfg["pat"], cfg["pat"])
    kind = cfg["ori"]
    so = ori(env, "so", kind, ns, dim)
    mo = ori(env, "mo", kind, nm, dim)

    def units(o, n):
        out = []
        for i in range(n):
            v = row(o, i)
            out.append(from_angles(env, v) if kind == "angle" else unit(env, v))
        return out
    su, mu = units(so, ns), units(mo, nm)
    s, m = env.tensor_of(S), env.tensor_of(M)
    kw = dict(room=room, max_order=order, nsample=ns_, config=I.cfg_plain(3), directivity=cfg["pat"])
    if cfg.get("entities") == "obj":
        out = simulate_rir(sources=Source(s, so), mics=MicrophoneArray(m, mo), **kw)
    elif cfg.get("dyn"):
        out = simulate_dynamic_rir(src_traj=s[None], mic_traj=m[None], orientation=(so, mo), **kw)[0]
    elif cfg.get("entities") == "override":      # the explicit argument wins over the entity's own
        out = simulate_rir(sources=Source(s, env.tensor_of([0.0] * (dim - 1) + [1.0])), mics=MicrophoneArray(m),
                           orientation=(so, mo), **kw)
    else:
        out = simulate_rir(sources=s, mics=m, orientation=(so, mo), **kw)
    for i in range(ns):
        for j in range(nm):
            imgs = I.img_list(env, S[i], M[j], size, beta, I.images(order, dim), pat, su[i], mu[j])
            env.eq(f"source {i} mic {j}", out[i, j], I.render(env, imgs, 343.0, I.C, ns_, 3))


def same(env, cfg):
    """two descriptions of one direction"""
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    dim, kind, ns = cfg["dim"], cfg["kind"], cfg.get("ns", 1)
    size, beta, S, M, room = scene(env, dim, ns, 1, cfg.get("order", 1), sz=[2.0, 2.25, 2.5][:dim])
    s, m = env.tensor_of(S), env.tensor_of(M)
    ang = [env.real(f"a{k}", -3.2, 3.2) for k in range(dim - 1)]
    vec = [env.real(f"v{d}", 0.3 if d == 0 else -1.0, 1.0) for d in range(dim)]
    if kind == "scale":
        k = env.real("k", 0.25, 8.0)
        a, b = env.tensor_of(vec), env.tensor_of([k * x for x in vec])
    elif kind == "angle-vector":
        a, b = env.tensor_of(ang), env.tensor_of(from_angles(env, ang))
    elif kind == "scalar-angle":
        a, b = env.tensor_of(ang)[0], env.tensor_of([ang])
    elif kind == "shared-each":
        a, b = env.tensor_of(vec), env.tensor_of([vec] * ns)
    elif kind == "angle-each":
        a = env.tensor_of([ang] * ns)
        b = env.tensor_of([from_angles(env, ang)] * ns)
    elif kind == "angles-1d":           # 2-D: one angle per source in a flat list
        angs = [env.real(f"b{k}", -3.2, 3.2) for k in range(ns)]
        a = env.tensor_of(angs)
        b = env.tensor_of([from_angles(env, [x]) for x in angs])
    mo = env.tensor_of([1.0] + [0.0] * (dim - 1))
    kw = dict(room=room, max_order=cfg.get("order", 1), nsample=5, config=I.cfg_plain(3), directivity=cfg.get("pat", "cardioid"))

    def run(o):
        args = (o, mo) if not cfg.get("mic") else (mo, o)
        if cfg.get("dyn"):
            return simulate_dynamic_rir(src_traj=s[None], mic_traj=m[None], orientation=args, **kw)
        return simulate_rir(sources=s, mics=m, orientation=args, **kw)
    env.eq("same direction", run(a), run(b))


def alias(env, cfg):
    from torchrir.sim import simulate_rir
    size, beta, S, M, room = scene(env, 2, 1, 1, 1)
    name = cfg["name"]
    al = env.choice("alias", ALIASES[name])
    s, m = env.tensor_of(S), env.tensor_of(M)
    so, mo = ori(env, "so", "shared", 1, 2), ori(env, "mo", "shared", 1, 2)
    o = None if cfg.get("none") else (so, mo)
    kw = dict(room=room, sources=s, mics=m, max_order=1, nsample=5, config=I.cfg_plain(3), orientation=o)
    for x, y in ((name, al), ((name, "omni"), (al, "omni")), (("omni", name), ("omni", al))):
        r = env.call(simulate_rir, directivity=y, **kw)
        if not r.ok:
            env.fail(f"alias {y!r} is refused: {r}")
        env.eq(f"{x} vs {y}", r.value, simulate_rir(directivity=x, **kw))


def refused(env, cfg):
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    dim = cfg["dim"]
    size, beta, S, M, room = scene(env, dim, 1, 1, 0)
    s, m = env.tensor_of(S), env.tensor_of(M)
    so, mo = ori(env, "so", "shared", 1, dim), ori(env, "mo", "shared", 1, dim)
    kind = env.choice("kind", ["unknown", "unknown-mic", "unknown-src", "missing", "missing-src", "missing-mic", "triple", "single"])
    pats = ["cardioid", "subcardioid", "hypercardioid", "bidir", "homni"]
    p = pats[int(env.choice("pat", list(range(len(pats)))))] if kind.startswith("missing") else "cardioid"
    d, o = {"unknown": ("supercardioid", (so, mo)), "unknown-mic": (("omni", "wide"), (so, mo)),
            "unknown-src": (("", "omni"), (so, mo)), "missing": (p, None), "missing-src": ((p, "omni"), (None, mo)),
            "missing-mic": (("omni", p), (so, None)), "triple": ((p, p, p), (so, mo)), "single": ((p,), (so, mo))}[kind]
    kw = dict(room=room, max_order=0, nsample=3, config=I.cfg_plain(3), directivity=d, orientation=o)
    if cfg.get("dyn"):
        r = env.call(simulate_dynamic_rir, src_traj=s[None], mic_traj=m[None], **kw)
    else:
        r = env.call(simulate_rir, sources=s, mics=m, **kw)
    env.check(f"{kind} {p} is refused", r.raised(ValueError))


def cases(tier):
    cs = []
    G = dict(dim=2, order=1, nsample=4)
    pats = ["subcardioid", "cardioid", "hypercardioid", "bidir", "homni"]
    for k, p in enumerate(pats):
        for j, o in enumerate(("shared", "each", "angle")):
            for dim in (2, 3):
                if tier == "quick" and (k + j + dim) % 2:
                    continue
                n = 1 if o == "shared" else 2
                cs.append(Case(f"gain-{p}-{o}-{dim}d", gains, dict(G, pat=p, ori=o, dim=dim, ns=n, nm=1, order=1 if dim == 2 else 0)))
    for p in pats:
        cs.append(Case(f"gain-src-{p}", gains, dict(G, pat=(p, "omni"), ori="each", ns=2)))
        cs.append(Case(f"gain-mic-{p}", gains, dict(G, pat=("omni", p), ori="each", nm=2)))
        cs.append(Case(f"gain-mic3d-{p}", gains, dict(G, pat=("omni", p), ori="each", nm=3, dim=3, order=0)))
    cs.append(Case("gain-mixed", gains, dict(G, pat=("cardioid", "bidir"), ori="each", ns=2, nm=2, order=0)))
    cs.append(Case("gain-dyn-mic", gains, dict(G, pat=("omni", "cardioid"), ori="each", nm=2, dyn=True)))
    cs.append(Case("gain-dyn-src", gains, dict(G, pat=("subcardioid", "omni"), ori="each", ns=2, dyn=True)))
    cs.append(Case("gain-dyn-mixed", gains, dict(G, pat=("hypercardioid", "bidir"), ori="each", ns=2, nm=2, order=0, dyn=True)))
    cs.append(Case("gain-dyn-3d", gains, dict(G, pat=("cardioid", "cardioid"), ori="shared", dim=3, order=0, dyn=True)))
    cs.append(Case("gain-mixed-o1", gains, dict(G, pat=("hypercardioid", "subcardioid"), ori="shared")))
    cs.append(Case("gain-entities", gains, dict(G, pat=("cardioid", "hypercardioid"), ori="each", ns=2, nm=2, order=0, entities="obj")))
    cs.append(Case("gain-override", gains, dict(G, pat=("cardioid", "subcardioid"), ori="each", ns=2, nm=1, order=0, entities="override")))
    for dim in (2, 3):
        for kind, ns in (("scale", 1), ("angle-vector", 1), ("scalar-angle", 1), ("shared-each", 2), ("angle-each", 2), ("angles-1d", 3), ("angles-1d", 4)):
            if dim == 3 and kind in ("scalar-angle", "angles-1d"):
                continue
            for mic in (False, True):
                if mic and ns > 1:
                    continue
                for dyn in (False, True):
                    cs.append(Case(f"same-{kind}-{dim}d-{ns}{'-mic' if mic else ''}{'-dyn' if dyn else ''}", same,
                                   dict(dim=dim, kind=kind, ns=ns, mic=mic, dyn=dyn, order=1 if dim == 2 else 0)))
    for n in ALIASES:
        cs.append(Case(f"alias-{n}", alias, dict(name=n)))
    cs.append(Case("alias-omni-no-orientation", alias, dict(name="omni", none=True)))
    for dim in (2, 3):
        cs.append(Case(f"refused-{dim}d", refused, dict(dim=dim)))
        cs.append(Case(f"refused-{dim}d-dyn", refused, dict(dim=dim, dyn=True)))
    return cs
