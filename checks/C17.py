from engine.run import Case
from checks._conv import conv, row, sig, compare

EXPLANATION = ("convolve_rir and fft_convolve run on symbolic signals and responses; the FFT is interpreted exactly (a spectrum "
               "stands for the vector it came from), so products are circular convolutions and aliasing would show")
OUTSIDE = ["rounding inside the FFT", "lengths beyond the bounds"]
ASSUMPTIONS = ["torch.fft.rfft/irfft compute the discrete Fourier transform"]


def one(env, cfg):
    from torchrir.signal import fft_convolve
    n, L = env.choice("lengths", cfg["pairs"])
    x, h = sig(env, (n,)), sig(env, (L,), "h")
    y = fft_convolve(x, h)
    env.check("length", tuple(y.shape) == (n + L - 1,))
    compare(env, f"fft_convolve {n},{L}", y, [conv(env, row(x), row(h))])


def static(env, cfg):
    from torchrir.signal import convolve_rir
    ns, nm, nx = cfg["ns"], cfg["nm"], cfg["nx"]
    n, L = env.choice("lengths", cfg["pairs"])
    xs = (n,) if nx == 0 else (nx, n)
    x = sig(env, xs)
    h = sig(env, {1: (L,), 2: (nm, L), 3: (ns, nm, L)}[cfg["dims"]], "h")
    keep = (x.clone(), h.clone())
    y = convolve_rir(x, h)
    X = x.reshape(-1, n)
    Hh = h.reshape(ns, nm, L)
    want = []
    for m in range(nm):
        acc = [0.0] * (n + L - 1)
        for s in range(ns):
            c = conv(env, row(X[s if X.shape[0] > 1 else 0]), row(Hh[s, m]))
            acc = [a + b for a, b in zip(acc, c)]
        want.append(acc)
    compare(env, "convolve_rir", y, want)
    env.eq("signal not modified", x, keep[0], tol=0.0)
    env.eq("response not modified", h, keep[1], tol=0.0)
    env.check("dtype kept", y.dtype == x.dtype)


def linear(env, cfg):
    """superposition and time shift on the real code, no reference"""
    from torchrir.signal import convolve_rir
    n, L = cfg["n"], cfg["L"]
    x, z, h = sig(env, (2, n)), sig(env, (2, n), "z"), sig(env, (2, 2, L), "h")
    a = env.real("a", -2.0, 2.0)
    env.eq("superposition", convolve_rir(x * a + z, h), convolve_rir(x, h) * a + convolve_rir(z, h), tol=1e-6)
    import torch
    pad = torch.zeros((2, 3), dtype=x.dtype)
    late = convolve_rir(torch.cat([pad, x], dim=1), h)
    env.eq("delay", late[:, 3:], convolve_rir(x, h), tol=1e-6)
    env.eq("silence before", late[:, :3], torch.zeros((2, 3), dtype=x.dtype), tol=1e-6)


def mismatch(env, cfg):
    from torchrir.signal import convolve_rir, fft_convolve
    nx = env.choice("signals", [1, 2, 3])
    ns = env.choice("sources", [1, 2, 3])
    r = env.call(convolve_rir, sig(env, (nx, 3)), sig(env, (ns, 2, 2), "h"))
    env.check("matched or broadcast, else refused", r.ok == (nx in (1, ns)))
    if not r.ok:
        env.check("ValueError", r.raised(ValueError))
    d = env.choice("dims", [(3, 1), (0, 1), (1, 0), (1, 4)])
    shp = {0: (), 1: (3,), 2: (1, 3), 3: (1, 1, 3), 4: (1, 1, 1, 3)}
    r = env.call(convolve_rir, sig(env, shp[d[0]], "y"), sig(env, shp[d[1]], "g"))
    env.check(f"{d[0]}-D signal with {d[1]}-D response refused", r.raised(ValueError))
    e = env.choice("fdims", [(1, 1), (2, 1), (1, 2)])
    r = env.call(fft_convolve, sig(env, shp[e[0]], "u"), sig(env, shp[e[1]], "v"))
    env.check("fft_convolve takes 1-D tensors only", r.ok == (e == (1, 1)))


def cases(tier):
    deep = tier == "thorough"
    N = 9 if deep else 6
    cs = []
    pairs = [(n, L) for n in range(1, N + 1) for L in range(1, N + 1)] + [(1, 12), (12, 1), (13, 4), (8, 9), (16, 2), (2, 16), (9, 8)]
    third = (len(pairs) + 2) // 3
    for i in range(3):
        cs.append(Case(f"one-{i}", one, dict(pairs=pairs[i::3]), validate_max=6))
    few = [(1, 1), (1, 3), (3, 1), (2, 2), (4, 3), (3, 4), (5, 4), (6, 5)]
    if deep:
        few += [(7, 5), (8, 8), (9, 8), (5, 13)]
    cs.append(Case("one-long", one, dict(pairs=[(40, 2), (2, 40), (130, 2), (3, 257), (1030, 1), (1, 1025)]), validate_max=6))
    cs.append(Case("static-long", static, dict(dims=3, ns=2, nm=2, nx=2, pairs=[(70, 2), (3, 66)])))
    for dims, ns, nm, nx in ((1, 1, 1, 0), (1, 1, 1, 1), (2, 1, 1, 0), (2, 1, 2, 0), (2, 1, 3, 1), (3, 1, 2, 0), (3, 2, 1, 2), (3, 2, 2, 2),
                             (3, 2, 2, 1), (3, 3, 2, 3), (3, 2, 3, 0), (3, 3, 3, 3), (3, 3, 1, 1)):
        cs.append(Case(f"static-{dims}d-{ns}x{nm}-sig{nx}", static, dict(dims=dims, ns=ns, nm=nm, nx=nx, pairs=few)))
    cs.append(Case("linear", linear, dict(n=4, L=3)))
    cs.append(Case("mismatch", mismatch, {}))
    return cs
