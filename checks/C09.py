import math
from engine.run import Case
from checks import _ism as I

EXPLANATION = ("the table lookup is executed with a symbolic fractional delay (every value in each table segment); the "
               "solver shows the distance to the exact windowed sinc stays below the linear-interpolation error bound "
               "pi^2/(24*granularity^2) (times 1.1), using secant enclosures of sinc with a rigorous remainder as its only fact about sinc; "
               "histories of earlier calls with other settings precede the call under test")
ASSUMPTIONS = ["|sinc''| <= pi^2/3, so sinc lies within pi^2/24*len^2 of its secant on an interval of length len"]
OUTSIDE = ["delays within 1e-6 of a whole sample (a rounding step there shifts the kernel by one sample)"]


M = 4            # sub-intervals per table segment
SLACK = 1.1      # the claimed bound is 1.1 * pi^2/(24*granularity^2)


def enclosure(env, v, d, lo, hi, j):
    """piecewise-linear facts about v == sinc(j-d), lo<=d<=hi: on each piece sinc is within
    pi^2/3*len^2/8 of its secant"""
    out = []
    for i in range(M):
        a, b = lo + (hi - lo) * i / M, lo + (hi - lo) * (i + 1) / M
        fa, fb = _sinc(j - a), _sinc(j - b)
        r = math.pi ** 2 / 24 * (b - a) ** 2 + 1e-12
        sec = fa + (fb - fa) / (b - a) * (d - a)
        out.append(env.Implies(env.And(d >= a, d <= b), env.And(v - sec <= r, sec - v <= r)))
    return out


def one(env, gran, fdl, a, k, nsample, dtype, fs=343.0, tag="", tol=1e-7, verify=True):
    """single image at a delay of a+f samples, f anywhere in table segment k"""
    import torch
    from torchrir.sim import simulate_rir
    lo, hi = k / gran, (k + 1) / gran
    lo, hi = max(lo, 1e-6), min(hi, 1 - 1e-6)
    f = env.real("f" + tag, lo, hi)
    d = a + f
    D = torch.float64 if dtype == 64 else torch.float32
    src = env.tensor_of([[0.5, 1.0]], dtype=D)
    mic = env.tensor_of([[0.5 + d, 1.0]], dtype=D)
    room = I.room(env, [200.0, 2.0], [1.0] * 4, fs, dtype=D)
    out = simulate_rir(room=room, sources=src, mics=mic, max_order=0, nsample=nsample,
                       config=I.cfg_plain(fdl, use_lut=True, sinc_lut_granularity=gran))
    h = (fdl - 1) // 2
    w = I.hann(fdl)
    bound = SLACK * math.pi ** 2 / 24 / gran ** 2 + tol
    y = out[0, 0]
    env.check("shape and dtype", tuple(out.shape) == (1, 1, nsample) and out.dtype == D)
    for j in range(nsample if verify else 0):
        n = j - a                       # the kernel covers samples a .. a+fdl-1
        if n < 0 or n >= fdl or w[n] < 1e-12:
            env.check(f"sample {j} outside the kernel", env.And(y[j] * d <= 1e-6, y[j] * d >= -1e-6))
            continue
        v = env.sinc(j - h - d)
        e = y[j] * d - w[n] * v
        claim = env.And(e <= bound, e >= -bound)
        if env.symbolic:
            claim = env.Implies(env.And(*enclosure(env, v, d, a + lo, a + hi, j - h)), claim)
        env.check(f"sample {j} within the interpolation error", claim)


def track(env, cfg):
    gran = cfg["gran"]
    k = cfg["k"] if "k" in cfg else int(env.choice("segment", list(range(gran))))
    one(env, gran, cfg["fdl"], cfg.get("a", 2), k, cfg["nsample"], cfg.get("dtype", 64), tol=1e-7 if cfg.get("dtype", 64) == 64 else 2e-5)


def history(env, cfg):
    """earlier calls with other settings, then the call under test"""
    for i in range(cfg["steps"]):
        gran, fdl, dt = env.choice(f"call{i}", cfg["menu"])
        one(env, gran, fdl, 2, cfg["ks"][i] % gran, fdl + 4, dt, tag=str(i), tol=2e-5, verify=False)
    gran, fdl, dt = cfg["last"]
    one(env, gran, fdl, 2, cfg["k"], fdl + 4, dt, tol=1e-7 if dt == 64 else 2e-5)


def lut_sum(env, cfg):
    """several images, sources and microphones: superposition of table pulses"""
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    gran, fdl, ns = cfg["gran"], cfg["fdl"], cfg["nsample"]
    size, beta = [2.0, 2.25], I.betas(env, 2)
    S = [[0.5, env.real(f"s{i}", 0.5, 0.8)] for i in range(2)]
    M = [[1.5, env.real(f"m{i}", 1.1, 1.3)] for i in range(2)]
    room = I.room(env, size, beta, 343.0)
    conf = I.cfg_plain(fdl, use_lut=True, sinc_lut_granularity=gran, accumulate_chunk_size=cfg.get("ac", 4096))
    kw = dict(room=room, max_order=1, nsample=ns, config=conf)
    if cfg.get("dyn"):
        out = simulate_dynamic_rir(src_traj=env.tensor_of([S, S[::-1]]), mic_traj=env.tensor_of([M, M]), **kw)[0]
    else:
        out = simulate_rir(sources=env.tensor_of(S), mics=env.tensor_of(M), **kw)
    w = I.hann(fdl)
    h = (fdl - 1) // 2
    for si in range(2):
        for mi in range(2):
            imgs = I.img_list(env, S[si], M[mi], size, beta, I.images(1, 2))
            ref = []
            for j in range(ns):
                t = []
                for dist, amp in imgs:
                    s = dist / I.C * 343.0 + h
                    i0 = env.floor(s)
                    fr = s - i0
                    lo, hi = I.bounds(env, i0)
                    g = env.floor((1.0 - fr) * gran)
                    x = (1.0 - fr) * gran - g
                    for b in range(lo, hi + 1):
                        n = j - b + h
                        if n < 0 or n >= fdl or w[n] < 1e-12:
                            continue
                        for q in range(gran + 1):
                            s0 = _sinc(n - h - 1 + q / gran)
                            s1 = _sinc(n - h - 1 + (q + 1) / gran)
                            t.append(env.ite(env.And(i0 == b, g == q), amp * w[n] * (s0 + x * (s1 - s0)), 0.0))
                ref.append(env.sum(t))
            env.eq(f"pulse sum {si},{mi}", out[si, mi], ref, tol=1e-6)


def _sinc(x):
    return 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)


def cases(tier):
    cs = []
    for gran, fdl, dt in ((1, 3, 64), (2, 5, 64), (3, 5, 64), (4, 7, 64), (7, 3, 64), (5, 1, 64), (4, 5, 32), (3, 3, 32)):
        cs.append(Case(f"g{gran}-f{fdl}-d{dt}", track, dict(gran=gran, fdl=fdl, nsample=fdl + 5, dtype=dt)))
    if tier == "thorough":
        for k in range(20):
            cs.append(Case(f"g20-f11-seg{k}", track, dict(gran=20, fdl=11, nsample=15, k=k), time_s=200))
    ks = range(20) if tier == "thorough" else (0, 7, 19)
    for k in ks:
        cs.append(Case(f"default-81-20-seg{k}", track, dict(gran=20, fdl=81, nsample=86, k=k), weight=9))
    cs.append(Case("truncated", track, dict(gran=3, fdl=7, nsample=4, a=1)))
    cs.append(Case("late", track, dict(gran=2, fdl=5, nsample=60, a=53)))
    menu = [(2, 5, 64), (4, 5, 64), (4, 3, 64), (4, 5, 32), (8, 5, 64)]
    for last in ((4, 5, 64), (2, 5, 32), (4, 7, 64)):
        cs.append(Case(f"history2-{last}", history, dict(menu=menu, last=last, steps=2, ks=[1, 0], k=1), time_s=200, weight=10))
    if tier == "thorough":
        cs.append(Case("history3", history, dict(menu=menu, last=(4, 5, 64), steps=3, ks=[1, 0, 1], k=2), time_s=1500))
        for gran in (11, 32):
            cs.append(Case(f"g{gran}-f21", track, dict(gran=gran, fdl=21, nsample=26), time_s=900))
    cs.append(Case("sum-g1", lut_sum, dict(gran=1, fdl=3, nsample=7)))
    cs.append(Case("sum-g2", lut_sum, dict(gran=2, fdl=5, nsample=9)))
    cs.append(Case("sum-g3-chunk", lut_sum, dict(gran=3, fdl=3, nsample=7, ac=2)))
    cs.append(Case("sum-g2-dyn", lut_sum, dict(gran=2, fdl=3, nsample=6, dyn=True)))
    return cs
