from engine.run import Case

EXPLANATION = ("Room, Source, MicrophoneArray, StaticScene, DynamicScene and Scene are constructed with symbolic numbers and "
               "every enumerated shape; the solver shows acceptance is equivalent to an independently written validity condition")
OUTSIDE = ["sizes beyond the stated shapes"]
NAN, INF = float("nan"), float("inf")


def nums(env, name, n, lo, hi, special=None):
    """n symbolic numbers; special = (index, value) replaces one by nan/inf"""
    out = [env.real(f"{name}{i}", lo, hi) for i in range(n)]
    if special:
        out[special[0]] = special[1]
    return out


def build(env, flat, shape, dtype=None):
    import torch
    t = env.tensor_of(flat, dtype=dtype or torch.float64) if len(flat) else torch.zeros((0,), dtype=torch.float64)
    return t.reshape(shape)


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def same(env, what, got, want):
    env.check(f"{what}: shape", tuple(got.shape) == tuple(want.shape))
    if got.numel():
        env.eq(f"{what}: stored unchanged", got, want, tol=0.0)


def verdict(env, what, r, valid):
    """accepted iff valid; a refusal is a ValueError or TypeError"""
    if r.ok:
        env.check(f"{what}: only valid input is accepted", valid)
    else:
        env.check(f"{what}: only invalid input is refused", env.Not(valid))
        env.check(f"{what}: refused with a proper error", r.raised(ValueError, TypeError))
    return r.ok


# ------------------------------------------------------------------------------------ rooms

def room_values(env, cfg):
    from torchrir.models import Room
    d = cfg["dim"]
    sp = cfg.get("sizespecial")
    sv = nums(env, "L", d, -1.0, 4.0, (env.choice("si", list(range(d))), env.choice("sv", [NAN, INF, -INF])) if sp else None)
    size = build(env, sv, (d,))
    fs = env.real("fs", -10.0, 100.0) if cfg.get("fs", True) else env.choice("fs", [NAN, 16000.0])
    c = env.real("c", -10.0, 400.0) if cfg.get("fs", True) else env.choice("c", [NAN, 343.0])
    which = cfg["which"]
    beta = t60 = None
    if "b" in which:
        bv = nums(env, "b", 2 * d, -0.5, 1.5, (env.choice("bi", list(range(2 * d))), env.choice("bv", [NAN, INF, -INF])) if cfg.get("bspecial") else None)
        beta = build(env, bv, (2 * d,))
    if "t" in which:
        t60 = env.real("t60", -1.0, 3.0) if not cfg.get("tnan") else env.choice("t60", [NAN, 0.5, 0.0])
    kw = dict(fs=fs, c=c, t60=t60, beta=beta)
    if cfg.get("ctor") == "room":
        r = env.call(Room, size=size, **kw)
    elif cfg.get("ctor") == "replace":
        import torch
        base = Room.shoebox(size=torch.tensor([1.0] * d, dtype=torch.float64), fs=8000.0)
        r = env.call(base.replace, size=size, **kw)
    else:
        r = env.call(Room.shoebox, size=sv if cfg.get("ctor") == "list" and not sp else size, **kw)
    fin = lambda x: env.isfinite(x)
    valid = env.And(*[env.And(fin(x), x > 0) for x in sv], fs > 0, c > 0)
    if beta is not None and t60 is not None:
        valid = False
    elif t60 is not None:
        valid = env.And(valid, t60 > 0)
    elif beta is not None:
        valid = env.And(valid, *[env.And(fin(x), x >= 0, x <= 1) for x in bv])
    if verdict(env, "room", r, valid):
        v = r.value
        same(env, "size", v.size, size)
        env.eq("fs", v.fs, fs, tol=0.0)
        env.eq("c", v.c, c, tol=0.0)
        if beta is None:
            env.check("no coefficients stored", v.beta is None)
        else:
            same(env, "beta", v.beta, beta)
        if t60 is None:
            env.check("no time stored", v.t60 is None)
        else:
            env.eq("t60", v.t60, t60, tol=0.0)


SIZE_SHAPES = [(), (0,), (1,), (2,), (3,), (4,), (5,), (1, 2), (1, 3), (2, 2), (2, 3), (3, 1), (1, 1, 3)]
BETA_SHAPES = [(), (0,), (1,), (2,), (3,), (4,), (5,), (6,), (7,), (8,), (12,), (2, 2), (2, 3), (3, 2), (4, 1), (1, 6), (2, 4)]


def room_shapes(env, cfg):
    from torchrir.models import Room
    sh = env.choice("size shape", SIZE_SHAPES)
    size = build(env, nums(env, "L", numel(sh), 0.5, 4.0), sh)
    bs = env.choice("beta shape", cfg["betas"])
    beta = None if bs is None else build(env, nums(env, "b", numel(bs), 0.0, 1.0), bs)
    r = env.call(Room.shoebox if cfg["via"] == "shoebox" else Room, size=size, fs=16000.0, beta=beta)
    ok = len(sh) == 1 and sh[0] in (2, 3) and (bs is None or numel(bs) == 2 * sh[0])
    if verdict(env, f"room {sh} {bs}", r, ok):
        same(env, "size", r.value.size, size)
        if beta is not None:
            same(env, "beta", r.value.beta, beta.reshape(-1))


# --------------------------------------------------------------------------------- entities

POS_SHAPES = [(), (0,), (1,), (2,), (3,), (4,), (1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3),
              (4, 3), (1, 1, 2), (1, 2, 3), (2, 2, 2), (2, 2, 3)]
ORI_SHAPES = [(), (1,), (2,), (3,), (4,), (5,), (1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2),
              (3, 3), (1, 1, 2), (2, 1, 2), (2, 2, 3)]


def make(cfg):
    from torchrir.models import Source, MicrophoneArray
    cls = Source if cfg["cls"] == "source" else MicrophoneArray
    return cls if cfg["via"] == "ctor" else cls.from_positions


def positions(env, cfg):
    sh = env.choice("shape", POS_SHAPES)
    n = numel(sh)
    sp = None
    if n and env.choice("special", [False, True]):
        sp = (env.choice("at", sorted({0, n // 2, n - 1})), env.choice("sv", [NAN, INF]))
    v = nums(env, "p", n, -3.0, 3.0, sp)
    p = build(env, v, sh)
    r = env.call(make(cfg), p)
    full = (1,) + sh if len(sh) == 1 else sh
    ok = len(full) == 2 and full[1] in (2, 3) and sp is None
    if verdict(env, f"positions {sh}", r, ok):
        same(env, "positions", r.value.positions, p.reshape(full))
        env.check("no orientation invented", r.value.orientation is None)


def ori_ok(sh, n, dim):
    if dim == 2:
        if len(sh) == 0:
            return True
        if len(sh) == 1:
            return sh[0] in (1, 2, n)
        return len(sh) == 2 and sh[0] == n and sh[1] in (1, 2)
    if len(sh) == 1:
        return sh[0] in (2, 3)
    return len(sh) == 2 and sh[0] == n and sh[1] in (2, 3)


def orientations(env, cfg):
    n, dim = cfg["n"], cfg["dim"]
    p = build(env, nums(env, "p", n * dim, -3.0, 3.0), (n, dim))
    sh = env.choice("shape", ORI_SHAPES)
    m = numel(sh)
    sp = None
    if env.choice("special", [False, True]):
        sp = (env.choice("at", sorted({0, m - 1})), env.choice("sv", [NAN, INF]))
    o = build(env, nums(env, "o", m, -3.0, 3.0, sp), sh)
    r = env.call(make(cfg), p, orientation=o)
    if verdict(env, f"orientation {sh}", r, ori_ok(sh, n, dim) and sp is None):
        same(env, "orientation", r.value.orientation, o)
        same(env, "positions", r.value.positions, p)
        if cfg["via"] == "ctor":
            r2 = env.call(r.value.replace, orientation=None)
            env.check("replace keeps validation", r2.ok and r2.value.orientation is None)


# ----------------------------------------------------------------------------------- scenes

def scene_parts(env, dr, ds, dm, ns, nm):
    import torch
    from torchrir.models import Room, Source, MicrophoneArray
    room = Room.shoebox(size=build(env, nums(env, "L", dr, 1.0, 4.0), (dr,)), fs=16000.0)
    src = Source.from_positions(build(env, nums(env, "s", ns * ds, -3.0, 3.0), (ns, ds)))
    mic = MicrophoneArray.from_positions(build(env, nums(env, "m", nm * dm, -3.0, 3.0), (nm, dm)))
    return room, src, mic


def static_scene(env, cfg):
    from torchrir.models import StaticScene, Scene
    dr, ds, dm = (env.choice(k, [2, 3]) for k in ("dr", "ds", "dm"))
    room, src, mic = scene_parts(env, dr, ds, dm, env.choice("ns", [1, 2]), 2)
    wrong = env.choice("wrong type", [None, "room", "sources", "mics"])
    kw = dict(room=room, sources=src, mics=mic)
    if wrong:
        kw[wrong] = {"room": room.size, "sources": mic, "mics": src}[wrong]
    r = env.call(StaticScene if cfg["cls"] == "static" else Scene, **kw)
    if verdict(env, "static scene", r, wrong is None and dr == ds == dm):
        sc = r.value
        env.check("parts stored", sc.room is room and sc.sources is src and sc.mics is mic)
        env.check("not dynamic", sc.is_dynamic() is False)
        sc.validate()
        if cfg["cls"] == "scene":
            st = sc.to_static_scene()
            env.check("conversion keeps the parts", st.room is room and st.sources is src and st.mics is mic)
            env.check("no dynamic scene from a static one", env.call(sc.to_dynamic_scene).raised(ValueError))


def traj_shapes(dim):
    o = 5 - dim
    return [(dim,), (3, dim), (1, dim), (3, o), (3, 1, dim), (2, 1, dim), (3, 2, dim), (2, 2, dim), (3, 3, dim), (3, 2, o), (1, 2, dim),
            (3, 1, 1, dim), (3, 2, 1)]


def traj_ok(sh, n, dim):
    if len(sh) == 2:
        return n == 1 and sh[1] == dim
    return len(sh) == 3 and sh[1] == n and sh[2] == dim


def dynamic_scene(env, cfg):
    """one trajectory free, the other fixed and valid, or both free"""
    from torchrir.models import DynamicScene, Scene
    dim, ns, nm = cfg["dim"], cfg["ns"], cfg["nm"]
    room, src, mic = scene_parts(env, dim, dim, dim, ns, nm)
    T0 = 3
    ssh = env.choice("src traj", traj_shapes(dim)) if cfg["free"] in ("src", "both") else (T0, ns, dim)
    msh = env.choice("mic traj", traj_shapes(dim)) if cfg["free"] in ("mic", "both") else (T0, nm, dim)
    sp = None
    if cfg.get("special"):
        who = env.choice("which", ["src", "mic"])
        sh = ssh if who == "src" else msh
        sp = (env.choice("at", [0, numel(sh) - 1]), env.choice("sv", [NAN, INF, -INF]))
    sv = nums(env, "st", numel(ssh), -3.0, 3.0, sp if sp and who == "src" else None)
    mv = nums(env, "mt", numel(msh), -3.0, 3.0, sp if sp and who == "mic" else None)
    st, mt = build(env, sv, ssh), build(env, mv, msh)
    r = env.call(DynamicScene if cfg["cls"] == "dynamic" else Scene, room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt)
    ok = traj_ok(ssh, ns, dim) and traj_ok(msh, nm, dim) and ssh[0] == msh[0] and sp is None
    if verdict(env, f"dynamic scene {ssh} {msh}", r, ok):
        sc = r.value
        same(env, "source trajectory", sc.src_traj, st)
        same(env, "mic trajectory", sc.mic_traj, mt)
        env.check("dynamic", sc.is_dynamic() is True)
        env.check("parts stored", sc.room is room and sc.sources is src and sc.mics is mic)
        sc.validate()
        if cfg["cls"] == "scene":
            dy = sc.to_dynamic_scene()
            same(env, "converted source trajectory", dy.src_traj, st)
            same(env, "converted mic trajectory", dy.mic_traj, mt)
            env.check("no static scene from a dynamic one", env.call(sc.to_static_scene).raised(ValueError))


def dynamic_dims(env, cfg):
    from torchrir.models import DynamicScene
    dr, ds, dm, dt, du = (env.choice(k, [2, 3]) for k in ("dr", "ds", "dm", "dt", "du"))
    room, src, mic = scene_parts(env, dr, ds, dm, 2, 1)
    st = build(env, nums(env, "st", 3 * 2 * dt, -3.0, 3.0), (3, 2, dt))
    mt = build(env, nums(env, "mt", 3 * du, -3.0, 3.0), (3, 1, du))
    r = env.call(DynamicScene, room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt)
    verdict(env, "dimensions", r, dr == ds == dm == dt == du)


def one_traj(env, cfg):
    from torchrir.models import Scene
    room, src, mic = scene_parts(env, 2, 2, 2, 1, 1)
    t = build(env, nums(env, "t", 6, -3.0, 3.0), (3, 2))
    env.check("only a source trajectory", env.call(Scene, room=room, sources=src, mics=mic, src_traj=t).raised(ValueError))
    env.check("only a mic trajectory", env.call(Scene, room=room, sources=src, mics=mic, mic_traj=t).raised(ValueError))


def cases(tier):
    cs = []
    for d in (2, 3):
        for w in ("", "b", "t", "bt"):
            cs.append(Case(f"room-{d}d-{w or 'plain'}", room_values, dict(dim=d, which=w)))
        cs.append(Case(f"room-{d}d-size-special", room_values, dict(dim=d, which="", sizespecial=True)))
        cs.append(Case(f"room-{d}d-beta-special", room_values, dict(dim=d, which="b", bspecial=True), max_paths=2000))
    cs.append(Case("room-nan-scalars", room_values, dict(dim=2, which="t", fs=False, tnan=True)))
    cs.append(Case("room-ctor", room_values, dict(dim=3, which="b", ctor="room")))
    cs.append(Case("room-ctor-t60", room_values, dict(dim=2, which="t", ctor="room")))
    cs.append(Case("room-list", room_values, dict(dim=3, which="b", ctor="list")))
    cs.append(Case("room-replace", room_values, dict(dim=2, which="b", ctor="replace")))
    cs.append(Case("room-replace-t60", room_values, dict(dim=3, which="t", ctor="replace")))
    cs.append(Case("room-shapes", room_shapes, dict(via="shoebox", betas=[None, (4,), (6,)])))
    cs.append(Case("room-beta-shapes", room_shapes, dict(via="room", betas=BETA_SHAPES), max_paths=2000))
    for cls in ("source", "mic"):
        for via in ("ctor", "from"):
            cs.append(Case(f"positions-{cls}-{via}", positions, dict(cls=cls, via=via), max_paths=2000))
        for dim in (2, 3):
            for n in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3) if cls == "source" else (2,):
                via = "ctor" if (n + dim) % 2 else "from"
                cs.append(Case(f"orientation-{cls}-{dim}d-{n}", orientations, dict(cls=cls, via=via, dim=dim, n=n), max_paths=2000))
    for cls in ("static", "scene"):
        cs.append(Case(f"scene-{cls}", static_scene, dict(cls=cls)))
    for cls in ("dynamic", "scene"):
        for dim in (2, 3):
            for ns, nm in ((1, 1), (2, 1), (1, 2), (2, 2)) if tier == "thorough" else ((2, 1), (1, 2)) if cls == "dynamic" else ((dim - 1, 2),):
                for free in ("src", "mic"):
                    cs.append(Case(f"dyn-{cls}-{dim}d-{ns}x{nm}-{free}", dynamic_scene, dict(cls=cls, dim=dim, ns=ns, nm=nm, free=free)))
            cs.append(Case(f"dyn-{cls}-{dim}d-special", dynamic_scene, dict(cls=cls, dim=dim, ns=1, nm=2, free="none", special=True)))
        if cls == "dynamic" or tier == "thorough":
            cs.append(Case(f"dyn-{cls}-both", dynamic_scene, dict(cls=cls, dim=2, ns=2, nm=1, free="both"), max_paths=2000))
    cs.append(Case("dyn-dims", dynamic_dims, {}))
    cs.append(Case("scene-one-traj", one_traj, {}))
    return cs
