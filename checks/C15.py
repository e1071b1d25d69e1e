from engine.run import Case

EXPLANATION = ("estimate_image_counts_from_tmax and attenuation_db_to_time_sabine run with symbolic sizes, durations and speeds; "
               "minimal covering counts and proportionality are obligations over all of them")
OUTSIDE = ["rounding of the quotient tmax*c/size when it is within an ulp of a whole number"]


def counts(env, cfg):
    from torchrir.util import estimate_image_counts_from_tmax
    dim = cfg["dim"]
    L = [env.real(f"L{i}", 0.5, 20.0) for i in range(dim)]
    t = env.real("tmax", 1e-4, 2.0)
    kw = {}
    c = 343.0
    if cfg.get("c"):
        c = kw["c"] = env.real("c", 10.0, 6000.0)
    n = estimate_image_counts_from_tmax(t, env.tensor_of(L), **kw)
    env.check("one count per axis", tuple(n.shape) == (dim,))
    env.check("whole numbers", not n.dtype.is_floating_point)
    for i in range(dim):
        k = n[i] * 1.0
        env.check(f"axis {i} covers the distance", k * L[i] >= t * c - 1e-9)
        env.check(f"axis {i} is the smallest such number", (k - 1.0) * L[i] < t * c + 1e-9)
        env.check(f"axis {i} at least one", n[i] >= 1)


def multiples(env, cfg):
    """at exact multiples the count is exactly the multiple"""
    from torchrir.util import estimate_image_counts_from_tmax
    k = env.int("k", 1, 50)
    L = env.int("e", -1, 4)
    L = 2.0 ** int(L)
    c = 256.0
    t = k * L / c
    n = estimate_image_counts_from_tmax(t, env.tensor_of([L, 3.0 * L, 0.5 * L]), c=c)
    env.check("exact multiple", n[0] == k)
    env.check("other axes", env.And(n[1] * 3 >= k, n[1] * 3 <= k + 2, n[2] == 2 * k))


def valid(env, cfg):
    from torchrir.util import estimate_image_counts_from_tmax
    t = env.real("tmax", -1.0, 1.0)
    r = env.call(estimate_image_counts_from_tmax, t, env.tensor_of([env.real("L0", 0.5, 9.0), env.real("L1", 0.5, 9.0)]))
    env.check("refused exactly when not positive", env.Iff(r.ok, t > 0))
    if not r.ok:
        env.check("ValueError", r.raised(ValueError))


def badsize(env, cfg):
    from torchrir.util import estimate_image_counts_from_tmax
    n = int(env.int("n", 0, 5))
    r = env.call(estimate_image_counts_from_tmax, 0.1, env.tensor_of([env.real(f"L{i}", 0.5, 9.0) for i in range(n)]))
    env.check("2-D or 3-D sizes only", r.ok == (n in (2, 3)))


def decay(env, cfg):
    from torchrir.util import attenuation_db_to_time_sabine as f
    a = env.real("att", -20.0, 120.0)
    t = env.real("t60", -1.0, 10.0)
    r = env.call(f, att_db=a, t60=t)
    env.check("refused exactly when an argument is not positive", env.Iff(r.ok, env.And(a > 0, t > 0)))
    if r.ok:
        d = r.value * 60.0 - a * t
        env.check("proportional to attenuation and time", env.And(d <= 1e-9, d >= -1e-9))
        env.check("positive", r.value > 0)
        k = env.real("k", 0.01, 10.0)
        s = f(a * k, t)
        u = f(a, t * k)
        e1, e2 = s - r.value * k, u - r.value * k
        env.check("scales with attenuation", env.And(e1 <= 1e-6, e1 >= -1e-6))
        env.check("scales with time", env.And(e2 <= 1e-6, e2 >= -1e-6))
    else:
        env.check("ValueError", r.raised(ValueError))


def sixty(env, cfg):
    from torchrir.util import attenuation_db_to_time_sabine as f
    t = env.real("t60", 0.01, 10.0)
    env.eq("60 dB take t60", f(60.0, t), t, tol=1e-12)


def covers(env, cfg):
    """the derived counts are usable as image counts, and every farther image is too late for the response"""
    import math
    from torchrir.util import estimate_image_counts_from_tmax
    from torchrir.sim import simulate_rir
    from checks import _ism as I
    fs = 343.0
    n = cfg["n"]
    L = [env.real("L0", 3.0, 3.2), env.real("L1", 3.5, 3.7)]
    counts = estimate_image_counts_from_tmax(n / fs, env.tensor_of(L), c=343.0)
    k = [int(counts[0].item()), int(counts[1].item())]
    room = I.room(env, L, I.betas(env, 2, 0.2, 1.0), fs)
    src, mic = env.tensor_of([[1.0, 1.2]]), env.tensor_of([[1.4, 1.9]])
    kw = dict(room=room, sources=src, mics=mic, max_order=0, nsample=n, config=I.cfg_plain(1))
    a = simulate_rir(nb_img=tuple(k), **kw)
    b = simulate_rir(nb_img=tuple(x + 1 for x in k), **kw)
    env.eq("more images change nothing before tmax", a, b, tol=1e-9)


def cases(tier):
    cs = []
    for d in (2, 3):
        cs.append(Case(f"counts-{d}d", counts, dict(dim=d)))
        cs.append(Case(f"counts-c-{d}d", counts, dict(dim=d, c=True)))
    cs.append(Case("multiples", multiples, {}))
    cs.append(Case("valid", valid, {}))
    cs.append(Case("badsize", badsize, {}))
    cs.append(Case("decay", decay, {}))
    cs.append(Case("sixty", sixty, {}))
    for n in (2, 4) + ((7, 9) if tier == "thorough" else ()):
        cs.append(Case(f"covers-{n}", covers, dict(n=n)))
    return cs
