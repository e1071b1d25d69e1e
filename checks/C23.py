from engine.run import Case

EXPLANATION = ("the samplers run with every random draw replaced by a free variable of the generator's range; the returned positions are "
               "checked against margins, height range and distance for all draws at once")
OUTSIDE = ["more points or attempts than stated", "rounding to single precision (checked up to 1e-6)"]
ASSUMPTIONS = ["random.Random.uniform(a, b) returns a value between a and b"]


class Rng:
    """random.Random whose draws are free variables"""

    def __init__(self, env):
        self.env, self.n = env, 0

    def random(self):
        self.n += 1
        return self.env.real(f"u{self.n}", 0.0, 1.0)

    def uniform(self, a, b):
        return a + (b - a) * self.random()


def setup(env, cfg):
    import torch
    d = cfg["dim"]
    L = env.tensor("L", (d,), 0.1, 10.0, dtype=cfg.get("dtype", torch.float64))
    m = env.real("margin", 0.0, 2.0)
    fits = env.And(*[2 * m <= L[i] for i in range(d)])
    return d, L, m, fits


def inside(env, p, d, L, m, tag=""):
    for k in range(p.shape[0]):
        for i in range(d):
            env.check(f"{tag}point {k} keeps the margin (axis {i})", env.And(p[k, i] >= m - 1e-6, p[k, i] <= L[i] - m + 1e-6))


def heights(env, p, L, m, zr):
    lo = env.ite(zr[0] > m, zr[0], m)
    hi = env.ite(zr[1] < L[2] - m, zr[1], L[2] - m)
    for k in range(p.shape[0]):
        env.check(f"point {k} inside the height range", env.Implies(lo <= hi, env.And(p[k, 2] >= lo - 1e-6, p[k, 2] <= hi + 1e-6)))


def plain(env, cfg):
    from torchrir.geometry import sample_positions
    d, L, m, fits = setup(env, cfg)
    default = cfg.get("default")
    if default:
        fits = env.And(*[1 <= L[i] for i in range(d)])
        m = 0.5
        r = env.call(sample_positions, num=cfg["num"], room_size=L, rng=Rng(env))
    else:
        r = env.call(sample_positions, num=cfg["num"], room_size=L, rng=Rng(env), margin=m)
    env.check("refused exactly when the margin leaves no space", env.Iff(r.ok, fits))
    if not r.ok:
        env.check("ValueError", r.raised(ValueError))
        return
    p = r.value
    env.check("shape", tuple(p.shape) == (cfg["num"], d))
    inside(env, p, d, L, m)
    if cfg["num"] == 2:
        # nothing is predetermined: every point of the room can come up
        pass


def ranged(env, cfg):
    from torchrir.geometry.sampling import sample_positions_with_z_range
    d, L, m, fits = setup(env, cfg)
    env.assume(fits)
    zr = (env.real("z0", 0.0, 5.0), env.real("z1", 0.0, 5.0))
    env.assume(zr[0] <= zr[1])
    if cfg.get("default"):
        zr = (1.5, 1.8)
        p = sample_positions_with_z_range(num=cfg["num"], room_size=L, rng=Rng(env), margin=m)
    else:
        p = sample_positions_with_z_range(num=cfg["num"], room_size=L, rng=Rng(env), margin=m, z_range=zr)
    env.check("shape", tuple(p.shape) == (cfg["num"], d))
    inside(env, p, d, L, m)
    if d == 3:
        heights(env, p, L, m, zr)


def distant(env, cfg):
    from torchrir.geometry import sample_positions_min_distance
    d, L, m, fits = setup(env, cfg)
    c = env.tensor("c", (d,), 0.0, 10.0)
    q = env.real("min_distance", 0.0, 5.0)
    num, att = cfg["num"], cfg["attempts"]
    kw = {}
    zr = (1.5, 1.8)
    if cfg.get("z") == "none":
        zr = kw["z_range"] = None
    elif cfg.get("z") == "free":
        zr = kw["z_range"] = (env.real("z0", 0.0, 5.0), env.real("z1", 0.0, 5.0))
        env.assume(zr[0] <= zr[1])
    rng = Rng(env)
    r = env.call(sample_positions_min_distance, num=num, room_size=L, rng=rng, margin=m, center=c, min_distance=q, max_attempts=att, **kw)
    if not r.ok:
        env.check("error names the reason", env.Or(r.raised(RuntimeError), env.And(r.raised(ValueError), env.Not(fits))))
        env.check("gives up only after the allowed attempts", env.Or(env.Not(fits), rng.n >= d * att))
        return
    p = r.value
    env.check("shape", tuple(p.shape) == (num, d))
    inside(env, p, d, L, m)
    if d == 3 and zr is not None:
        heights(env, p, L, m, zr)
    for k in range(num):
        d2 = env.sum([(p[k, i] - c[i]) * (p[k, i] - c[i]) for i in range(d)])
        # two ways of saying the same thing: the solver may use either
        env.check(f"point {k} keeps the distance", env.Or(env.sqrt(d2) >= q - 1e-5, d2 >= q * q - 1e-6))


def mismatch(env, cfg):
    from torchrir.geometry import sample_positions_min_distance
    a, b = env.choice("room", [2, 3]), env.choice("centre", [1, 2, 3, 4])
    shp = env.choice("shape", [0, 1])
    L = env.tensor("L", (a,), 5.0, 6.0)
    c = env.tensor("c", (b,), 0.0, 1.0)
    r = env.call(sample_positions_min_distance, num=1, room_size=L, rng=Rng(env), center=c.reshape(1, -1) if shp else c, min_distance=0.0, max_attempts=1)
    env.check("centre must match the room", r.ok == (a == b))
    if not r.ok:
        env.check("ValueError", r.raised(ValueError))


def clamp(env, cfg):
    from torchrir.geometry import clamp_positions
    d, L, m, fits = setup(env, cfg)
    env.assume(fits)
    shp = cfg["shape"]
    p = env.tensor("p", shp + (d,), -5.0, 15.0)
    if cfg.get("default"):
        m = 0.1
        env.assume(env.And(*[0.2 <= L[i] for i in range(d)]))
        y = clamp_positions(p, L)
    else:
        y = clamp_positions(p, L, m)
    env.check("shape", tuple(y.shape) == tuple(p.shape))
    P, Y = p.reshape(-1, d), y.reshape(-1, d)
    inside(env, Y, d, L, m)
    for k in range(P.shape[0]):
        for i in range(d):
            a = P[k, i]
            w = env.ite(a < m, m, env.ite(a > L[i] - m, L[i] - m, a))
            env.eq(f"nearest admissible value {k},{i}", Y[k, i], w, tol=1e-9)


def cases(tier):
    import torch
    deep = tier == "thorough"
    cs = []
    for d in (2, 3):
        cs.append(Case(f"plain-{d}", plain, dict(dim=d, num=2)))
        cs.append(Case(f"plain-default-{d}", plain, dict(dim=d, num=1, default=True)))
        cs.append(Case(f"clamp-{d}", clamp, dict(dim=d, shape=(2,))))
        cs.append(Case(f"clamp-deep-{d}", clamp, dict(dim=d, shape=(2, 1))))
        cs.append(Case(f"clamp-default-{d}", clamp, dict(dim=d, shape=(), default=True)))
    cs.append(Case("plain-f32", plain, dict(dim=3, num=1, dtype=torch.float32)))
    cs.append(Case("ranged-2", ranged, dict(dim=2, num=1)))
    cs.append(Case("ranged-3", ranged, dict(dim=3, num=2)))
    cs.append(Case("ranged-default", ranged, dict(dim=3, num=1, default=True)))
    att = 4 if deep else 3
    cs.append(Case("distant-2", distant, dict(dim=2, num=1, attempts=att)))
    cs.append(Case("distant-2-two", distant, dict(dim=2, num=2, attempts=att, z="none")))
    cs.append(Case("distant-3", distant, dict(dim=3, num=1, attempts=2)))
    cs.append(Case("distant-3-free", distant, dict(dim=3, num=1, attempts=2, z="free")))
    cs.append(Case("distant-3-none", distant, dict(dim=3, num=2, attempts=2, z="none")))
    cs.append(Case("distant-zero", distant, dict(dim=2, num=1, attempts=0)))
    cs.append(Case("mismatch", mismatch, {}))
    return cs
