from engine.run import Case
from checks import _ism as I

EXPLANATION = ("every entry point is called twice on the same symbolic whole numbers, once as Python integers (or integer tensors) "
               "and once as the equal floats; the solver shows all results agree")
OUTSIDE = ["whole numbers beyond the ranges in the bounds"]


def fl(x):
    if isinstance(x, (list, tuple)):
        return [fl(v) for v in x]
    return x * 1.0


def ints(env, name, n, lo, hi):
    return [env.int(f"{name}{i}", lo, hi) for i in range(n)]


def as_kind(env, kind, xi):
    """integers as a Python list or as an integer tensor"""
    import torch
    if kind == "tensor":
        return env.tensor_of(xi, dtype=torch.int64)
    return xi


def as_float(env, kind, xi):
    import torch
    return env.tensor_of(fl(xi), dtype=torch.float32) if kind == "tensor" else fl(xi)


def both(env, what, f, a, b, tol=0.0):
    """f(*a) and f(*b) agree: same outcome, same values"""
    ra, rb = env.call(f, *a), env.call(f, *b)
    env.check(f"{what}: accepted alike", ra.ok == rb.ok)
    if not ra.ok or not rb.ok:
        return None
    cmp(env, what, ra.value, rb.value, tol)
    return ra.value


def cmp(env, what, x, y, tol=0.0):
    import torch
    if isinstance(x, torch.Tensor):
        env.check(f"{what}: same shape", tuple(x.shape) == tuple(y.shape))
        env.eq(what, x.to(torch.float64), y.to(torch.float64), tol=tol)
    elif x is None or y is None:
        env.check(what, x is None and y is None)
    else:
        env.eq(what, x * 1.0, y * 1.0, tol=tol)


def room(env, cfg):
    from torchrir.models import Room
    d, kind = cfg["dim"], cfg["kind"]
    L = ints(env, "L", d, 1, 12)
    b = [env.real(f"b{i}", 0.0, 1.0) for i in range(2 * d)] if cfg["beta"] == "real" else ints(env, "b", 2 * d, 0, 1) if cfg["beta"] == "int" else None
    t = env.int("t60", 1, 4) if cfg["beta"] == "t60" else None
    fs, c = env.int("fs", 1, 48000), env.int("c", 1, 6000)
    if b is not None:
        bi = as_kind(env, kind, b) if cfg["beta"] == "int" else env.tensor_of(b) if kind == "tensor" else b
        bf = as_float(env, kind, b) if cfg["beta"] == "int" else env.tensor_of(b) if kind == "tensor" else b
    else:
        bi = bf = None
    ctor = Room if cfg.get("ctor") else Room.shoebox
    x = ctor(size=as_kind(env, kind, L), fs=fs, c=c, beta=bi, t60=t)
    y = ctor(size=as_float(env, kind, L), fs=fs * 1.0, c=c * 1.0, beta=bf, t60=None if t is None else t * 1.0)
    for k in ("size", "fs", "c", "beta", "t60"):
        cmp(env, k, getattr(x, k), getattr(y, k), tol=1e-6)


def acoustics(env, cfg):
    from torchrir.util import (estimate_beta_from_t60, estimate_t60_from_beta, estimate_image_counts_from_tmax,
                               attenuation_db_to_time_sabine)
    d, kind = cfg["dim"], cfg["kind"]
    L = ints(env, "L", d, 1, 12)
    Li, Lf = as_kind(env, kind, L), as_float(env, kind, L)
    if cfg["what"] == "beta":
        t = env.int("t", 1, 5)
        both(env, "beta from an integer time", estimate_beta_from_t60, (Li, t), (Lf, t * 1.0), 1e-6)
        both(env, "beta", estimate_beta_from_t60, (Li, 0.4), (Lf, 0.4), 1e-6)
    elif cfg["what"] == "t60":
        b = [env.real(f"b{i}", 0.1, 0.95) for i in range(2 * d)]
        bt = env.tensor_of(b) if kind == "tensor" else b
        both(env, "t60", estimate_t60_from_beta, (Li, bt), (Lf, bt), 1e-5)
    elif cfg["what"] == "t60int":
        b = ints(env, "b", 2 * d, 0, 1)
        env.assume(b[0] == 0)
        both(env, "t60", estimate_t60_from_beta, (Li, as_kind(env, kind, b)), (Lf, as_float(env, kind, b)), 1e-5)
    else:
        t = env.int("t", 1, 3)
        c = env.int("c", 1, 400)
        both(env, "counts", estimate_image_counts_from_tmax, (t, Li, c), (t * 1.0, Lf, c * 1.0))
        both(env, "counts (short)", estimate_image_counts_from_tmax, (0.25, Li, 256), (0.25, Lf, 256.0))
        a = env.int("a", 1, 100)
        both(env, "attenuation time", attenuation_db_to_time_sabine, (a, t), (a * 1.0, t * 1.0), 1e-9)


def arrays(env, cfg):
    from torchrir import geometry as G
    kind = cfg["kind"]
    d = cfg.get("dim", 3)
    c = ints(env, "c", d, -5, 5)
    ci, cf = as_kind(env, kind, c), as_float(env, kind, c)
    w = cfg["what"]
    if w == "binaural":
        o = env.real("o", 0.01, 0.9)
        f = lambda x: G.binaural_array(x, offset=o)
        both(env, w, f, (ci,), (cf,))
        k = env.int("o2", 1, 3)
        both(env, w + " integer offset", lambda x, o: G.binaural_array(x, offset=o), (ci, k), (cf, k * 1.0))
    elif w == "linear":
        n = cfg["num"]
        s = env.real("s", 0.01, 0.9)
        both(env, w, lambda x: G.linear_array(x, num=n, spacing=s, axis=cfg.get("axis", 0)), (ci,), (cf,), 1e-9)
        k = env.int("s2", 1, 3)
        both(env, w + " integer spacing", lambda x, s: G.linear_array(x, num=n, spacing=s), (ci, k), (cf, k * 1.0), 1e-9)
    elif w == "linear-dir":
        di = ints(env, "d", d, -2, 3)
        env.assume(di[0] >= 1)
        n = cfg["num"]
        both(env, w, lambda x, y: G.linear_array(x, num=n, spacing=0.25, direction=y), (ci, di), (cf, fl(di)), 1e-6)
        dr = [0.6, 0.8, 0.0][:d]
        both(env, w + " real direction", lambda x: G.linear_array(x, num=n, spacing=0.25, direction=dr), (ci,), (cf,), 1e-6)
        both(env, w + " integer tensor direction", lambda x, y: G.linear_array(x, num=n, spacing=0.25, direction=y),
             (ci, as_kind(env, "tensor", di)), (cf, fl(di)), 1e-6)
    elif w == "circular":
        r = env.real("r", 0.05, 0.9)
        kw = dict(plane=cfg.get("plane", "xy")) if d == 3 else {}
        both(env, w, lambda x: G.circular_array(x, num=cfg["num"], radius=r, **kw), (ci,), (cf,), 1e-9)
        k = env.int("r2", 1, 3)
        both(env, w + " integer radius", lambda x, r: G.circular_array(x, num=cfg["num"], radius=r, **kw), (ci, k), (cf, k * 1.0), 1e-9)
    elif w == "circular-normal":
        n = ints(env, "n", 3, -2, 2)
        env.assume(n[2] >= 1)
        both(env, w, lambda x, y: G.circular_array(x, num=cfg["num"], radius=0.5, normal=y), (ci, n), (cf, fl(n)), 1e-6)
        both(env, w + " integer tensor normal", lambda x, y: G.circular_array(x, num=cfg["num"], radius=0.5, normal=y),
             (ci, as_kind(env, "tensor", n)), (cf, fl(n)), 1e-6)
    elif w == "polyhedron":
        r = env.real("r", 0.05, 0.9)
        both(env, w, lambda x: G.polyhedron_array(x, kind=cfg["poly"], radius=r), (ci,), (cf,), 1e-6)
    elif w in ("em32", "em64"):
        r = env.real("r", 0.01, 0.2)
        f = getattr(G, "eigenmike_" + w)
        both(env, w, lambda x: f(x, radius=r), (ci,), (cf,), 1e-6)
        both(env, w + " integer rotation", lambda x, a: f(x, azimuth_offset_deg=a), (ci, 30), (cf, 30.0), 1e-6)


def clamp(env, cfg):
    import torch
    from torchrir.geometry import clamp_positions
    d = cfg["dim"]
    L = ints(env, "L", d, 2, 9)
    p = ints(env, "p", 2 * d, -3, 12)
    P = [p[:d], p[d:]]
    m = env.real("m", 0.0, 0.9) if cfg["margin"] == "real" else env.int("m", 0, 1)
    ti = lambda v: env.tensor_of(v, dtype=torch.int64)
    tf = lambda v: env.tensor_of(fl(v), dtype=torch.float32)
    both(env, "integer room", lambda a, b: clamp_positions(a, b, m), (tf(P), ti(L)), (tf(P), tf(L)), 1e-6)
    both(env, "integer positions", lambda a, b: clamp_positions(a, b, m), (ti(P), tf(L)), (tf(P), tf(L)), 1e-6)
    both(env, "both integer", lambda a, b, mm: clamp_positions(a, b, mm), (ti(P), ti(L), m), (tf(P), tf(L), m * 1.0), 1e-6)


class Draws:
    """stands in for random.Random: uniform draws share their underlying variables"""

    def __init__(self, env, n):
        self.u = [env.real(f"u{i}", 0.0, 1.0) for i in range(n)]
        self.i = 0

    def uniform(self, a, b):
        v = a + (b - a) * self.u[self.i]
        self.i += 1
        return v


def sampling(env, cfg):
    import torch
    from torchrir import geometry as G
    d = cfg["dim"]
    L = ints(env, "L", d, 4, 9)
    m = env.int("m", 0, 1)
    ti = env.tensor_of(L, dtype=torch.int64)
    tf = env.tensor_of(fl(L), dtype=torch.float32)
    N = 12
    draws = Draws(env, N)

    def rng():
        draws.i = 0
        return draws
    z = ints(env, "z", 2, 1, 3)
    both(env, "positions", lambda s, m: G.sample_positions(num=2, room_size=s, rng=rng(), margin=m), (ti, m), (tf, m * 1.0), 1e-6)
    both(env, "positions with heights", lambda s, m, z: G.sample_positions_with_z_range(num=2, room_size=s, rng=rng(), margin=m, z_range=z),
         (ti, m, tuple(z)), (tf, m * 1.0, tuple(fl(z))), 1e-6)
    c = ints(env, "c", d, 1, 3)
    both(env, "positions with distance",
         lambda s, m, cc, q: G.sample_positions_min_distance(num=1, room_size=s, rng=rng(), margin=m, center=cc, min_distance=q, max_attempts=1, z_range=None),
         (ti, m, env.tensor_of(c, dtype=torch.int64), 1), (tf, m * 1.0, env.tensor_of(fl(c), dtype=torch.float32), 1.0), 1e-6)


def trajectory(env, cfg):
    import torch
    from torchrir.geometry import linear_trajectory
    d = cfg["dim"]
    a, b = ints(env, "a", d, -5, 5), ints(env, "b", d, -5, 5)
    both(env, "trajectory", lambda x, y: linear_trajectory(x, y, cfg["steps"]),
         (env.tensor_of(a, dtype=torch.int64), env.tensor_of(b, dtype=torch.int64)),
         (env.tensor_of(fl(a), dtype=torch.float32), env.tensor_of(fl(b), dtype=torch.float32)), 1e-6)


def simulate(env, cfg):
    """rooms, positions, directions and orders given as integers"""
    import torch
    from torchrir.models import Room, Source, MicrophoneArray
    from torchrir.sim import simulate_rir, simulate_dynamic_rir
    d, who = cfg["dim"], cfg["ints"]
    L = [2, 3, 4][:d]
    p = [env.int(f"p{i}", 0, 1) for i in range(d)]
    # the other entity is at a place with fractions, which truncation would move
    q = [env.real(f"q{i}", 1.3, 1.6) for i in range(d)]
    b = [env.real(f"b{i}", 0.2, 0.95) for i in range(2 * d)]

    def run(whole):
        k = (lambda v: v) if whole else fl
        room = Room.shoebox(size=k(L), fs=k(343), c=k(343), beta=b)
        src, mic = ([k(p)], [q]) if who == "src" else ([q], [k(p)])
        o = {}
        if cfg.get("ori"):
            o["orientation"] = k([1, 2, 2][:d])
        if cfg.get("dyn"):
            t = lambda v: torch.as_tensor(v)
            st, mt = t([src, src]), t([mic, mic])
            return simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, max_order=1, nsample=5, config=I.cfg_plain(3))
        if cfg.get("raw"):
            s, m = torch.as_tensor(src), torch.as_tensor(mic)
        else:
            s, m = Source.from_positions(src, **o), MicrophoneArray.from_positions(mic)
        kw = dict(directivity=("cardioid", "omni")) if o else {}
        return simulate_rir(room=room, sources=s, mics=m, max_order=1, nsample=5, config=I.cfg_plain(3), **kw)
    env.eq("response", run(True), run(False), tol=1e-5)


def cases(tier):
    cs = []
    for kind in ("list", "tensor"):
        for d in (2, 3):
            for b in ("real", "int", "t60", "none"):
                cs.append(Case(f"room-{kind}-{d}d-{b}", room, dict(dim=d, kind=kind, beta=b)))
            for w in ("beta", "t60", "t60int", "counts"):
                cs.append(Case(f"acoustics-{w}-{kind}-{d}d", acoustics, dict(dim=d, kind=kind, what=w)))
        for d in (2, 3):
            cs.append(Case(f"binaural-{kind}-{d}d", arrays, dict(what="binaural", dim=d, kind=kind)))
            cs.append(Case(f"linear-{kind}-{d}d", arrays, dict(what="linear", dim=d, kind=kind, num=4, axis=d - 1)))
            cs.append(Case(f"linear-dir-{kind}-{d}d", arrays, dict(what="linear-dir", dim=d, kind=kind, num=2)))
            cs.append(Case(f"circular-{kind}-{d}d", arrays, dict(what="circular", dim=d, kind=kind, num=5)))
        cs.append(Case(f"circular-xz-{kind}", arrays, dict(what="circular", kind=kind, num=3, plane="xz")))
        cs.append(Case(f"circular-yz-{kind}", arrays, dict(what="circular", kind=kind, num=3, plane="yz")))
        cs.append(Case(f"circular-normal-{kind}", arrays, dict(what="circular-normal", kind=kind, num=3)))
        for poly in ("tetrahedron", "cube", "octahedron", "dodecahedron", "icosahedron"):
            cs.append(Case(f"{poly}-{kind}", arrays, dict(what="polyhedron", kind=kind, poly=poly)))
        cs.append(Case(f"em32-{kind}", arrays, dict(what="em32", kind=kind)))
        cs.append(Case(f"em64-{kind}", arrays, dict(what="em64", kind=kind)))
    for d in (2, 3):
        for m in ("real", "int"):
            cs.append(Case(f"clamp-{d}d-{m}", clamp, dict(dim=d, margin=m)))
        cs.append(Case(f"sampling-{d}d", sampling, dict(dim=d), max_paths=1000))
        for s in (2, 4):
            cs.append(Case(f"trajectory-{d}d-{s}", trajectory, dict(dim=d, steps=s)))
        for who in ("src", "mic"):
            cs.append(Case(f"simulate-{who}-{d}d", simulate, dict(dim=d, ints=who)))
        cs.append(Case(f"simulate-dyn-{d}d", simulate, dict(dim=d, ints="src", dyn=True)))
        cs.append(Case(f"simulate-raw-{d}d", simulate, dict(dim=d, ints="src", raw=True)))
        cs.append(Case(f"simulate-ori-{d}d", simulate, dict(dim=d, ints="src", ori=True)))
    cs.append(Case("room-ctor", room, dict(dim=3, kind="tensor", beta="real", ctor=True)))
    return cs
