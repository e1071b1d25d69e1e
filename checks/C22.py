import math

from engine.run import Case

EXPLANATION = ("the array constructors run on symbolic centres, spacings, radii, offsets and directions; coordinates are compared with "
               "the geometric definition (and, for arbitrary normals, with the defining equations of the circle)")
OUTSIDE = ["zero-length directions and normals", "the manufacturer's microphone angles themselves (their radius, separation and symmetry are checked)"]


def centre(env, dim, name="c"):
    return env.tensor(name, (dim,), -5.0, 5.0)


def give(env, c, how):
    return [c[i] for i in range(c.shape[0])] if how == "list" else c


def binaural(env, cfg):
    from torchrir.geometry import binaural_array
    dim = env.choice("dim", [2, 3])
    c, off = centre(env, dim), env.real("offset", 0.001, 1.0)
    default = env.choice("default", [False, True])
    p = binaural_array(c) if default else binaural_array(c, offset=off)
    off = 0.08 if default else off
    env.check("two microphones", tuple(p.shape) == (2, dim))
    for i in range(dim):
        env.eq(f"left {i}", p[0, i], c[i] - (off if i == 0 else 0.0), tol=1e-9)
        env.eq(f"right {i}", p[1, i], c[i] + (off if i == 0 else 0.0), tol=1e-9)


def linear(env, cfg):
    from torchrir.geometry import linear_array
    dim, num = cfg["dim"], env.choice("num", cfg["nums"])
    c, sp = centre(env, dim), env.real("spacing", 0.001, 2.0)
    if cfg.get("direction"):
        d = env.tensor("d", (dim,), -3.0, 3.0)
        n2 = env.sum([d[i] * d[i] for i in range(dim)])
        env.assume(n2 >= 1e-4)
        p = linear_array(c, num=num, spacing=sp, direction=d)
        nrm = env.sqrt(n2)
        u = [d[i] / nrm for i in range(dim)]
    else:
        ax = env.choice("axis", list(range(dim)))
        p = linear_array(c, num=num, spacing=sp, axis=ax) if env.choice("kw", [0, 1]) or ax else linear_array(c, num=num, spacing=sp)
        u = [1.0 if i == ax else 0.0 for i in range(dim)]
    env.check("shape", tuple(p.shape) == (num, dim))
    env.finite("finite", p)
    for k in range(num):
        for i in range(dim):
            env.eq(f"mic {k} axis {i}", p[k, i], c[i] + (k - (num - 1) / 2.0) * sp * u[i], tol=1e-7)


def circle_flat(env, cfg):
    from torchrir.geometry import circular_array
    dim = cfg["dim"]
    num = env.choice("num", cfg["nums"])
    c, r = centre(env, dim), env.real("radius", 0.001, 3.0)
    if dim == 2:
        p = circular_array(c, num=num, radius=r)
        a, b = 0, 1
    else:
        pl = env.choice("plane", [None, "xy", "xz", "yz", "XZ", "Yz"])
        p = circular_array(c, num=num, radius=r) if pl is None else circular_array(c, num=num, radius=r, plane=pl)
        a, b = {"xy": (0, 1), "xz": (0, 2), "yz": (1, 2)}[(pl or "xy").lower()]
    env.check("shape", tuple(p.shape) == (num, dim))
    for k in range(num):
        for i in range(dim):
            v = math.cos(2 * math.pi * k / num) if i == a else math.sin(2 * math.pi * k / num) if i == b else 0.0
            env.eq(f"mic {k} axis {i}", p[k, i], c[i] + r * v, tol=1e-6)


def dot(env, a, b):
    return env.sum([x * y for x, y in zip(a, b)])


def circle_normal(env, cfg):
    from torchrir.geometry import circular_array
    num = cfg["num"]
    r = env.real("radius", 0.01, 1.0)
    n = env.tensor("n", (3,), -2.0, 2.0)
    fix = cfg.get("fix", {})
    for i in range(3):
        if i in fix:
            n[i] = fix[i]
    n2 = env.sum([n[i] * n[i] for i in range(3)])
    env.assume(n2 >= 0.01)
    c = centre(env, 3) if cfg.get("centre") else env.tensor_of([0.0, 0.0, 0.0])
    p = circular_array(c, num=num, radius=r, normal=n)
    env.check("shape", tuple(p.shape) == (num, 3))
    env.finite("finite", p)
    v = [[p[k, i] - c[i] for i in range(3)] for k in range(num)]
    for k in range(num):
        env.eq(f"mic {k} lies in the plane", dot(env, v[k], [n[0], n[1], n[2]]), 0.0, tol=1e-6)
        env.eq(f"mic {k} at the radius", dot(env, v[k], v[k]), r * r, tol=1e-6)
        if num > 1:
            w = v[(k + 1) % num]
            env.eq(f"mics {k} and next: even spacing", dot(env, v[k], w), r * r * math.cos(2 * math.pi / num), tol=1e-6)
    if num > 2:
        w = v[2]
        env.eq("goes on the same way round", dot(env, v[0], w), r * r * math.cos(4 * math.pi / num), tol=1e-6)


NEAR = {"tetrahedron": (4, 3, math.sqrt(8 / 3)), "cube": (8, 3, 2 / math.sqrt(3)), "octahedron": (6, 4, math.sqrt(2)),
        "dodecahedron": (20, 3, 4 / (math.sqrt(3) * (1 + math.sqrt(5)))), "icosahedron": (12, 5, 1 / math.sin(2 * math.pi / 5))}


def polyhedron(env, cfg):
    from torchrir.geometry import polyhedron_array
    kind = env.choice("kind", [None] + cfg["kinds"])
    c, r = centre(env, 3), env.real("radius", 0.001, 3.0)
    default = env.choice("default radius", [False, True])
    kw = {} if kind is None else dict(kind=kind)
    if default:
        r = 0.1
    else:
        kw["radius"] = r
    p = polyhedron_array(c, **kw)
    unit = polyhedron_array([0.0, 0.0, 0.0], radius=1.0, **({} if kind is None else dict(kind=kind)), dtype=c.dtype)
    count, deg, edge = NEAR[(kind or "tetrahedron").lower()]
    env.check(f"{count} vertices", tuple(p.shape) == (count, 3))
    U = [[float(unit[k, i]) for i in range(3)] for k in range(count)]
    for k in range(count):
        env.check(f"vertex {k} on the sphere", abs(sum(x * x for x in U[k]) - 1) < 1e-6)
        ds = sorted(math.dist(U[k], U[j]) for j in range(count) if j != k)
        env.check(f"vertex {k} is regular", all(abs(d - edge) < 1e-5 for d in ds[:deg]) and (len(ds) == deg or ds[deg] > edge + 0.1))
        for i in range(3):
            env.eq(f"vertex {k} axis {i}", p[k, i], c[i] + r * U[k][i], tol=1e-7)
    for i in range(3):
        env.check("centred", abs(sum(u[i] for u in U)) < 1e-5)


def eigenmike(env, cfg):
    from torchrir.geometry import eigenmike_em32, eigenmike_em64
    f, count, nearest = (eigenmike_em32, 32, 0.55) if cfg["which"] == 32 else (eigenmike_em64, 64, 0.35)
    c, r = centre(env, 3), env.real("radius", 0.001, 3.0)
    default = env.choice("default radius", [False, True])
    off = env.choice("offset", [0.0, 90.0, 180.0, 37.5, -30.0])
    kw = dict(azimuth_offset_deg=off) if off else {}
    if default:
        r = 0.042
    else:
        kw["radius"] = r
    p = f(c, **kw)
    base = f([0.0, 0.0, 0.0], radius=1.0, dtype=c.dtype)
    env.check(f"{count} microphones", tuple(p.shape) == (count, 3))
    B = [[float(base[k, i]) for i in range(3)] for k in range(count)]
    co, si = math.cos(math.radians(off)), math.sin(math.radians(off))
    for k in range(count):
        env.check(f"mic {k} on the sphere", abs(sum(x * x for x in B[k]) - 1) < 1e-6)
        d = min(math.dist(B[k], B[j]) for j in range(count) if j != k)
        env.check(f"mic {k} separated from its neighbours", nearest * 0.6 < d < nearest * 1.6)
        want = [B[k][0] * co - B[k][1] * si, B[k][0] * si + B[k][1] * co, B[k][2]]
        for i in range(3):
            env.eq(f"mic {k} axis {i}", p[k, i], c[i] + r * want[i], tol=1e-6)
    if count == 32:
        for k in range(16):
            a, b = B[k], B[k + 16]
            env.check(f"mics {k} and {k + 16} face each other", math.dist([-a[0], -a[1], a[2]], b) < 0.05)
    for i in range(3):
        env.check("spread evenly round the centre", abs(sum(u[i] for u in B)) / count < 0.03)


def rejects(env, cfg):
    from torchrir.geometry import (binaural_array, circular_array, eigenmike_em32, eigenmike_em64, linear_array, polyhedron_array)
    which = env.choice("array", ["linear", "circular", "poly", "em32", "em64", "axis", "direction", "plane", "kind", "normal", "dims"])
    num = env.int("num", -2, 3)
    size = env.real("size", -1.0, 1.0)
    dim = env.choice("dim", [2, 3])
    c = centre(env, dim)
    if which == "linear":
        r = env.call(linear_array, c, num=num, spacing=size)
        ok = env.And(num > 0, size > 0)
    elif which == "circular":
        r = env.call(circular_array, c, num=num, radius=size)
        ok = env.And(num > 0, size > 0)
    elif which == "poly":
        r = env.call(polyhedron_array, c, radius=size)
        ok = env.And(dim == 3, size > 0)
    elif which in ("em32", "em64"):
        r = env.call(eigenmike_em32 if which == "em32" else eigenmike_em64, c, radius=size)
        ok = env.And(dim == 3, size > 0)
    elif which == "axis":
        ax = env.int("axis", -4, 4)
        r = env.call(linear_array, c, num=2, spacing=0.1, axis=ax)
        ok = env.And(ax >= 0, ax < dim)
    elif which == "direction":
        n = env.choice("direction size", [1, 2, 3, 4])
        r = env.call(linear_array, c, num=2, spacing=0.1, direction=[1.0] * n)
        ok = n == dim
    elif which == "plane":
        pl = env.choice("plane", ["xy", "yx", "", "xyz", "zz", "yz"])
        r = env.call(circular_array, c, num=2, radius=0.1, plane=pl)
        ok = dim == 2 or pl in ("xy", "yz")
    elif which == "kind":
        k = env.choice("kind", ["cube", "CUBE", "", "sphere"])
        r = env.call(polyhedron_array, c, kind=k)
        ok = dim == 3 and k.lower() == "cube"
    elif which == "normal":
        n = env.choice("normal size", [2, 3, 4])
        r = env.call(circular_array, centre(env, 3, "cc"), num=2, radius=0.1, normal=[0.0, 1.0, 1.0, 0.0][:n])
        ok = n == 3
    else:
        n = env.choice("centre size", [1, 4])
        r = env.call(circular_array, [0.0] * n, num=2, radius=0.1)
        ok = False
    env.check(f"{which}: accepted exactly when valid", env.Iff(r.ok, ok))
    if not r.ok:
        env.check("ValueError", r.raised(ValueError))


def cases(tier):
    deep = tier == "thorough"
    nums = [1, 2, 3, 4, 5, 6] + ([7, 8, 12, 16] if deep else [])
    cs = [Case("binaural", binaural, {})]
    for dim in (2, 3):
        cs.append(Case(f"linear-{dim}", linear, dict(dim=dim, nums=nums)))
        cs.append(Case(f"linear-dir-{dim}", linear, dict(dim=dim, nums=nums[:4], direction=True)))
        cs.append(Case(f"circle-{dim}", circle_flat, dict(dim=dim, nums=nums)))
    for num in nums[:4] if not deep else nums[:8]:
        cs.append(Case(f"normal-{num}", circle_normal, dict(num=num, centre=num == 3)))
    cs.append(Case("normal-x", circle_normal, dict(num=3, fix={1: 0.0, 2: 0.0})))
    cs.append(Case("normal-xz", circle_normal, dict(num=3, fix={1: 0.0})))
    cs.append(Case("normal-xy", circle_normal, dict(num=3, fix={2: 0.0})))
    cs.append(Case("normal-yz", circle_normal, dict(num=3, fix={0: 0.0})))
    cs.append(Case("polyhedron-0", polyhedron, dict(kinds=["tetrahedron", "cube", "Octahedron"])))
    cs.append(Case("polyhedron-1", polyhedron, dict(kinds=["dodecahedron", "ICOSAHEDRON"])))
    cs.append(Case("em32", eigenmike, dict(which=32)))
    cs.append(Case("em64", eigenmike, dict(which=64)))
    cs.append(Case("rejects", rejects, {}, max_paths=1000))
    return cs
