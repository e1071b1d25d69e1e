from engine.run import Case
from checks import _ism as I

EXPLANATION = ("estimate_beta_from_t60, estimate_t60_from_beta and simulate_rir run with symbolic sizes, times and coefficients; "
               "Sabine's relation, round trips, range, monotonicity and saturation are obligations in non-linear real arithmetic")
OUTSIDE = ["coefficients so close to 1 that rounding hides the absorption"]


def sabine_parts(size):
    if len(size) == 2:
        x, y = size
        return x * y, 2.0 * (x + y), [y, y, x, x]
    x, y, z = size
    return x * y * z, 2.0 * (x * y + y * z + x * z), [y * z, y * z, x * z, x * z, x * y, x * y]


def sizes(env, dim, lo=0.5, hi=20.0, name="L"):
    return [env.real(f"{name}{i}", lo, hi) for i in range(dim)]


def forward(env, cfg):
    """beta from t60: range, Sabine's relation, saturation, same on every wall"""
    from torchrir.util import estimate_beta_from_t60
    dim = cfg["dim"]
    L = sizes(env, dim)
    t = env.real("t60", 0.001, 10.0)
    V, S, _ = sabine_parts(L)
    b = estimate_beta_from_t60(env.tensor_of(L), t)
    env.check("one coefficient per wall", tuple(b.shape) == (2 * dim,))
    env.finite("coefficients", b)
    b0 = b[0]
    for i in range(1, 2 * dim):
        env.check(f"wall {i} like wall 0", b[i] == b0)
    env.check("in [0, 1]", env.And(b0 >= 0, b0 <= 1))
    reach = 0.161 * V <= 0.999 * t * S             # the required absorption is below the ceiling
    a = (1.0 - b0 * b0) * t * S - 0.161 * V
    env.check("Sabine's relation when reachable", env.Implies(reach, env.And(a <= 1e-6, a >= -1e-6)))
    env.check("saturates when unreachable", env.Implies(env.Not(reach), env.And(b0 <= 0.0317, b0 >= 0.0316)))


def invalid(env, cfg):
    from torchrir.util import estimate_beta_from_t60
    dim = cfg["dim"]
    L = sizes(env, dim)
    t = env.real("t60", -2.0, 2.0)
    r = env.call(estimate_beta_from_t60, env.tensor_of(L), t)
    env.check("refused exactly when not positive", env.Iff(r.ok, t > 0))
    if not r.ok:
        env.check("ValueError", r.raised(ValueError))


def roundtrip(env, cfg):
    from torchrir.util import estimate_beta_from_t60, estimate_t60_from_beta
    dim = cfg["dim"]
    L = sizes(env, dim, *cfg.get("range", (0.5, 20.0)))
    V, S, _ = sabine_parts(L)
    size = env.tensor_of(L)
    if cfg["dir"] == "t":
        t = env.real("t60", 0.05, 10.0)
        env.assume(0.161 * V <= 0.999 * t * S)
        b = estimate_beta_from_t60(size, t)
        t2 = estimate_t60_from_beta(size, b)
        env.check("time recovered", env.And(t2 * 1.0 - t <= 1e-6, t - t2 <= 1e-6))
    else:
        b = env.real("b", 0.04, 0.9999)
        t = estimate_t60_from_beta(size, env.tensor_of([b] * (2 * dim)))
        b2 = estimate_beta_from_t60(size, t)[0]
        env.check("coefficient recovered", env.And(b2 - b <= 1e-6, b - b2 <= 1e-6))


def backward(env, cfg):
    """t60 from any coefficients: Sabine's sum over the walls, in wall order; infinite iff rigid"""
    from torchrir.util import estimate_t60_from_beta
    dim = cfg["dim"]
    L = sizes(env, dim)
    b = [env.real(f"b{i}", 0.0, 1.0) for i in range(2 * dim)]
    V, _, areas = sabine_parts(L)
    A = env.sum([s * (1.0 - x * x) for s, x in zip(areas, b)])
    if cfg.get("rigid"):
        r = estimate_t60_from_beta(env.tensor_of(L), env.tensor_of([1.0] * (2 * dim)))
        env.check("rigid walls never decay", r == float("inf"))
        return
    env.assume(A >= 1e-3)
    t = estimate_t60_from_beta(env.tensor_of(L), env.tensor_of(b))
    env.finite("t60", t)
    d = t * A - 0.161 * V
    env.check("Sabine's sum over the walls", env.And(d <= 1e-6, d >= -1e-6))


def shapes(env, cfg):
    from torchrir.util import estimate_t60_from_beta
    dim = cfg["dim"]
    n = env.int("n", 0, 8)
    n = int(n)
    L = sizes(env, dim)
    b = [env.real(f"b{i}", 0.0, 0.9) for i in range(n)]
    r = env.call(estimate_t60_from_beta, env.tensor_of(L), env.tensor_of(b))
    env.check("two coefficients per axis required", r.ok == (n == 2 * dim))
    if not r.ok:
        env.check("ValueError", r.raised(ValueError))


def monotone(env, cfg):
    from torchrir.util import estimate_beta_from_t60, estimate_t60_from_beta
    dim = cfg["dim"]
    L = sizes(env, dim)
    size = env.tensor_of(L)
    if cfg["dir"] == "t":
        t1 = env.real("t1", 0.01, 10.0)
        t2 = env.real("t2", 0.01, 10.0)
        env.assume(t1 <= t2)
        b1, b2 = estimate_beta_from_t60(size, t1)[0], estimate_beta_from_t60(size, t2)[0]
        # compare squares: both are non-negative roots
        env.check("non-negative", env.And(b1 >= 0, b2 >= 0))
        env.check("longer reverberation, larger coefficient", b1 * b1 <= b2 * b2 + 1e-9)
        V, S, _ = sabine_parts(L)
        env.check("strictly when reachable", env.Implies(env.And(0.161 * V <= 0.99 * t1 * S, t2 >= 1.01 * t1), b1 * b1 < b2 * b2))
    else:
        k = cfg["wall"]
        b = [env.real(f"b{i}", 0.1, 0.99) if dim == 2 or i == k else 0.5 + 0.05 * i for i in range(2 * dim)]
        d = env.real("d", 0.0, 0.009)
        c = list(b)
        c[k] = b[k] + d
        ta = estimate_t60_from_beta(size, env.tensor_of(b))
        tb = estimate_t60_from_beta(size, env.tensor_of(c))
        env.check(f"a more reflective wall {k} never shortens the decay", ta <= tb * (1 + 1e-9))


def simulate(env, cfg):
    """simulating with t60 equals simulating with the converted coefficient on every wall"""
    from torchrir.models import Room
    from torchrir.sim import simulate_rir, simulate_dynamic_rir
    dim = cfg["dim"]
    t = env.real("t60", *cfg.get("t", (0.1, 2.0)))
    base = [2.0, 2.25, 2.5][:dim]
    L = [env.real(f"L{i}", b, b + 0.05) for i, b in enumerate(base)]
    V, S, _ = sabine_parts(L)
    a = 0.161 * V / (t * S)
    b = (1.0 - 0.999) ** 0.5 if a > 0.999 else env.sqrt(1.0 - a)
    fs = 343.0
    size = env.tensor_of(L)
    r1 = Room.shoebox(size=size, fs=fs, t60=t)
    r2 = Room.shoebox(size=size, fs=fs, beta=env.tensor_of([b] * (2 * dim)))
    n = cfg.get("n", 6)
    cfgp = I.cfg_plain(3)
    src, mic = env.tensor_of([[0.5, 1.0, 1.1][:dim]]), env.tensor_of([[1.0, 1.2, 1.3][:dim]])
    if cfg.get("dyn"):
        sT = env.tensor_of([[[0.5, 1.0, 1.1][:dim]], [[0.6, 1.1, 1.2][:dim]]])
        mT = env.tensor_of([[[1.0, 1.2, 1.3][:dim]]] * 2)
        x = simulate_dynamic_rir(room=r1, src_traj=sT, mic_traj=mT, max_order=cfg["order"], nsample=n, config=cfgp)
        y = simulate_dynamic_rir(room=r2, src_traj=sT, mic_traj=mT, max_order=cfg["order"], nsample=n, config=cfgp)
    else:
        x = simulate_rir(room=r1, sources=src, mics=mic, max_order=cfg["order"], nsample=n, config=cfgp)
        y = simulate_rir(room=r2, sources=src, mics=mic, max_order=cfg["order"], nsample=n, config=cfgp)
    env.eq("same response", x, y, tol=1e-7)


def default(env, cfg):
    """neither coefficients nor time given: rigid walls"""
    from torchrir.models import Room
    from torchrir.sim import simulate_rir
    dim = cfg["dim"]
    L = [env.real(f"L{i}", b, b + 0.05) for i, b in enumerate([2.0, 2.25, 2.5][:dim])]
    size = env.tensor_of(L)
    src, mic = env.tensor_of([[0.5, 1.0, 1.1][:dim]]), env.tensor_of([[1.0, 1.2, 1.3][:dim]])
    x = simulate_rir(room=Room.shoebox(size=size, fs=343.0), sources=src, mics=mic, max_order=1, nsample=6, config=I.cfg_plain(3))
    y = simulate_rir(room=Room.shoebox(size=size, fs=343.0, beta=[1.0] * (2 * dim)), sources=src, mics=mic, max_order=1, nsample=6,
                     config=I.cfg_plain(3))
    env.eq("same response", x, y, tol=1e-9)


def cases(tier):
    cs = []
    for d in (2, 3):
        cs.append(Case(f"forward-{d}d", forward, dict(dim=d)))
        cs.append(Case(f"invalid-{d}d", invalid, dict(dim=d)))
        cs.append(Case(f"roundtrip-t-{d}d", roundtrip, dict(dim=d, dir="t")))
        cs.append(Case(f"roundtrip-b-{d}d", roundtrip, dict(dim=d, dir="b")))
        cs.append(Case(f"backward-{d}d", backward, dict(dim=d)))
        cs.append(Case(f"rigid-{d}d", backward, dict(dim=d, rigid=True)))
        cs.append(Case(f"shapes-{d}d", shapes, dict(dim=d)))
        cs.append(Case(f"monotone-t-{d}d", monotone, dict(dim=d, dir="t")))
        for k in range(2 * d):
            cs.append(Case(f"monotone-b{k}-{d}d", monotone, dict(dim=d, dir="b", wall=k)))
        cs.append(Case(f"simulate-{d}d", simulate, dict(dim=d, order=1)))
        cs.append(Case(f"simulate-sat-{d}d", simulate, dict(dim=d, order=1, t=(0.001, 0.05))))
        cs.append(Case(f"simulate-dyn-{d}d", simulate, dict(dim=d, order=1, dyn=True)))
        cs.append(Case(f"default-{d}d", default, dict(dim=d)))
        if tier == "thorough":
            cs.append(Case(f"simulate-o2-{d}d", simulate, dict(dim=d, order=2, n=9)))
    return cs
