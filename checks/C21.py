from engine.run import Case
from checks._conv import sig
from checks._mps import Devices, on, back

EXPLANATION = ("every layout of signal (0-3 axes) and response (0-5 axes) with counts 1-3 is offered to every convolution routine with "
               "symbolic values; accepted ones must equal the same data in the full layout, the rest must be refused")
OUTSIDE = ["more than three sources or microphones", "empty axes"]

N, L, T = 4, 2, 3


def run(env, routine, x, h):
    from torchrir.signal import DynamicConvolver, convolve_rir
    if routine == "static":
        return convolve_rir(x, h)
    if routine == "hop":
        return DynamicConvolver(mode="hop", hop=min(2, x.shape[-1] if x.dim() else 1)).convolve(x, h)
    if routine == "call":
        return DynamicConvolver()(x, h)
    if routine == "trajectory":
        return DynamicConvolver(mode="trajectory").convolve(x, h)
    if routine == "stamped":
        import torch
        return DynamicConvolver(mode="trajectory", fs=4.0, timestamps=torch.tensor([0.0, 0.25, 0.75][:h.shape[0] if h.dim() else 1])).convolve(x, h)
    return back(env, DynamicConvolver(mode="trajectory").convolve(on(env, x), on(env, h)))


def layouts(env, cfg):
    N, L, T = cfg.get("nlt", (4, 2, 3))
    r = cfg["routine"]
    dyn = r != "static"
    lead = (T,) if dyn else ()
    nx = env.choice("signal rows (0: 1-D)", [0, 1, 2, 3])
    lay = env.choice("response axes", ["L", "ML", "SML"])
    ns = env.choice("sources", [1, 2, 3]) if lay == "SML" else 1
    nm = env.choice("microphones", [1, 2, 3]) if lay != "L" else 1
    x = sig(env, (nx, N) if nx else (N,))
    h = sig(env, lead + {"L": (L,), "ML": (nm, L), "SML": (ns, nm, L)}[lay], "h")
    out = env.call(run, env, r, x, h)
    rows = max(nx, 1)
    fits = rows in (1, ns)
    env.check(f"{rows} signals for {ns} sources: {'accepted' if fits else 'refused'}", out.ok == fits)
    if not fits:
        env.check("ValueError", out.raised(ValueError))
        return
    y = out.value
    n_out = N + L - 1 if r != "hop" else None
    env.check("microphone axis present exactly for several microphones", y.dim() == (1 if nm == 1 else 2))
    env.check("one row per microphone", nm == 1 or y.shape[0] == nm)
    env.check("length", n_out is None or y.shape[-1] == n_out)
    # the same data, everything spelled out, one source and one microphone at a time
    H4 = h.reshape(lead + (ns, nm, L))
    X2 = x.reshape(rows, N)
    Y = y.reshape(nm, -1)
    for m in range(nm):
        parts = []
        for s in range(ns):
            hs = H4[..., s:s + 1, m:m + 1, :]
            parts.append(run(env, r, X2[(s if rows > 1 else 0):][:1], hs))
        w = parts[0]
        for p in parts[1:]:
            w = w + p
        env.eq(f"microphone {m} is the sum over sources", Y[m], w, tol=1e-6)


def refused(env, cfg):
    r = cfg["routine"]
    dyn = r != "static"
    xd = env.choice("signal axes", [0, 1, 2, 3])
    hd = env.choice("response axes", [0, 1, 2, 3, 4, 5])
    ok_h = (2, 3, 4) if dyn else (1, 2, 3)
    x = sig(env, {0: (), 1: (N,), 2: (1, N), 3: (1, 1, N)}[xd])
    h = sig(env, {0: (), 1: (L,), 2: (T, L) if dyn else (1, L), 3: (T, 1, L) if dyn else (1, 1, L),
                  4: (T, 1, 1, L) if dyn else (1, 1, 1, L), 5: (T, 1, 1, 1, L)}[hd], "h")
    out = env.call(run, env, r, x, h)
    env.check(f"{xd}-D signal with {hd}-D response", out.ok == (xd in (1, 2) and hd in ok_h))
    if not out.ok:
        env.check("ValueError", out.raised(ValueError))


def same(env, cfg):
    """constant dynamic responses mean the same as the static response in every layout"""
    from torchrir.signal import convolve_rir
    lay = env.choice("response axes", ["L", "ML", "SML"])
    nx = env.choice("rows", [0, 1, 2])
    nm = env.choice("microphones", [1, 2])
    ns = 2 if lay == "SML" else 1
    if nx == 2 and ns == 1:
        return
    if lay == "L":
        nm = 1
    x = sig(env, (nx, N) if nx else (N,))
    h = sig(env, {"L": (L,), "ML": (nm, L), "SML": (ns, nm, L)}[lay], "h")
    a = convolve_rir(x, h)
    for r in ("hop", "trajectory", "batched"):
        hh = h.unsqueeze(0).repeat((T,) + (1,) * h.dim())
        b = run(env, r, x, hh)
        env.check(f"{r}: same axes", a.dim() == b.dim())
        env.eq(f"{r} with constant responses", b[..., : N + L - 1], a, tol=1e-6)


def cases(tier):
    cs = []
    for r in ("static", "hop", "trajectory", "call", "stamped", "batched"):
        o = dict(ctx=Devices, max_paths=1000, validate_max=5)
        cs.append(Case("layouts-" + r, layouts, dict(routine=r), **o))
        cs.append(Case("refused-" + r, refused, dict(routine=r), **o))
    for r in ("static", "hop", "trajectory", "batched"):
        cs.append(Case("tiny-" + r, layouts, dict(routine=r, nlt=(1, 1, 1)), **o))
    cs.append(Case("same", same, {}, ctx=Devices, max_paths=1000))
    return cs
