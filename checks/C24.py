from engine.run import Case

EXPLANATION = "linear_trajectory runs on symbolic end points for every step count; each point is compared with the straight line"
OUTSIDE = ["more steps than stated", "non-positive step counts"]


def line(env, cfg):
    import torch
    from torchrir.geometry import linear_trajectory
    d = env.choice("dim", [2, 3, 1])
    n = env.choice("steps", cfg["steps"])
    dt = torch.float32 if cfg.get("f32") else torch.float64
    a, b = env.tensor("a", (d,), -10.0, 10.0, dtype=dt), env.tensor("b", (d,), -10.0, 10.0, dtype=dt)
    e = 1e-4 if cfg.get("f32") else 1e-7
    keep = a.clone(), b.clone()
    p = linear_trajectory(a, b, n)
    env.check("shape", tuple(p.shape) == (n, d))
    env.check("data type", p.dtype == dt)
    env.finite("finite", p)
    env.eq("starts at the start", p[0], a, tol=e)
    if n > 1:
        env.eq("ends at the end", p[n - 1], b, tol=e)
    for t in range(n):
        for i in range(d):
            env.eq(f"step {t} axis {i}", p[t, i], a[i] + (b[i] - a[i]) * t / max(n - 1, 1), tol=e)
            env.check(f"step {t} axis {i} between the end points", env.Or(
                env.And(p[t, i] >= a[i] - e, p[t, i] <= b[i] + e), env.And(p[t, i] <= a[i] + e, p[t, i] >= b[i] - e)))
    for t in range(2, n):
        env.eq(f"equal increments {t}", p[t] - p[t - 1], p[1] - p[0], tol=e)
    env.eq("start untouched", a, keep[0], tol=0.0)
    env.eq("end untouched", b, keep[1], tol=0.0)


def batch(env, cfg):
    """several entities at once, and there-and-back symmetry"""
    from torchrir.geometry import linear_trajectory
    n = env.choice("steps", [1, 2, 3, 5])
    a, b = env.tensor("a", (2, 3), -10.0, 10.0), env.tensor("b", (2, 3), -10.0, 10.0)
    p = linear_trajectory(a, b, n)
    env.check("shape", tuple(p.shape) == (n, 2, 3))
    for k in range(2):
        env.eq(f"entity {k} moves by itself", p[:, k], linear_trajectory(a[k], b[k], n), tol=1e-9)
    if n > 1:
        q = linear_trajectory(b, a, n)
        for t in range(n):
            env.eq(f"reversed {t}", q[n - 1 - t], p[t], tol=1e-7)
    if n == 1:
        env.eq("single step is the start", p[0], a, tol=0.0)
    s = linear_trajectory(a, a, n)
    for t in range(n):
        env.eq(f"standing still {t}", s[t], a, tol=1e-9)


def cases(tier):
    steps = list(range(1, 9)) + [17, 33] if tier != "thorough" else list(range(1, 34)) + [64, 100]
    cs = [Case(f"line-{i}", line, dict(steps=steps[i::3]), validate_max=6, max_paths=1000) for i in range(3)]
    cs.append(Case("line-f32", line, dict(steps=[1, 2, 4, 7], f32=True), max_paths=1000))
    cs.append(Case("batch", batch, {}))
    return cs
