import numpy as np

from engine.run import Case
from checks import _ism as I

EXPLANATION = ("simulate_rir/simulate_dynamic_rir and apply_rir_hpf run symbolically; SciPy's compiled filter kernels are "
               "replaced by their exact linear operator, measured on unit impulses through the real kernel on every run; "
               "each output sample is compared with an independently built per-row operator")
OUTSIDE = ["responses not longer than SciPy's edge padding, which SciPy refuses",
           "the arithmetic inside SciPy's compiled filter"]
ASSUMPTIONS = ["SciPy's filters are linear in the signal"]


def _syms(x):
    from engine.symt import SymNum
    return isinstance(x, SymNum)


class TagSos:
    """stand-in for a filter designed at a symbolic cut-off"""

    def __init__(self, wn):
        self.wn = wn


def patch_scipy(p):
    import scipy.signal as ss

    def operator_version(name, xpos):
        real = getattr(ss, name)

        def w(*a, **k):
            a = list(a)
            x = a[xpos] if len(a) > xpos else k.pop("x")
            x = x if isinstance(x, np.ndarray) else x.numpy() if hasattr(x, "numpy") else np.asarray(x)
            if any(isinstance(v, TagSos) for v in a):
                return x * (1.0 + next(v for v in a if isinstance(v, TagSos)).wn)
            if x.dtype != object:
                args = a[:xpos] + [x] + a[xpos + 1:]
                return real(*args, **k)
            axis = k.pop("axis", -1)
            if len(a) > xpos + 1:
                axis = a[xpos + 1]
            n = x.shape[axis]
            H = real(*a[:xpos], np.eye(n), axis=-1, **k)       # H[k, j]: response at j to a unit at k
            y = np.moveaxis(x, axis, -1)
            out = np.empty(y.shape, dtype=object)
            for ix in np.ndindex(*y.shape[:-1]):
                for j in range(n):
                    acc = 0.0
                    for kk in range(n):
                        acc = acc + y[ix + (kk,)] * float(H[kk, j])
                    out[ix + (j,)] = acc
            return np.moveaxis(out, -1, axis)
        p.set(ss, name, w)
        p.everywhere(real, w)

    operator_version("sosfiltfilt", 1)
    operator_version("sosfilt", 1)
    operator_version("filtfilt", 2)
    operator_version("lfilter", 2)

    for name in ("iirfilter", "butter"):
        def make(real):
            def w(N, Wn=None, *a, **k):
                if _syms(Wn):
                    real(N, 0.5, *a, **k)
                    for v in (Wn if isinstance(Wn, (list, tuple)) else np.asarray(Wn, dtype=object).reshape(-1)):
                        if not v > 0 or not v < 1:
                            raise ValueError("Digital filter critical frequencies must be 0 < Wn < 1")
                    return TagSos(Wn)
                return real(N, Wn, *a, **k)
            return w
        real = getattr(ss, name)
        w = make(real)
        p.set(ss, name, w)
        p.everywhere(real, w)


_OPS = {}


def op(n, fc, fs, kw):
    """independent operator: zero-phase (forward-backward) high-pass along one row"""
    key = (n, fc, fs, tuple(sorted(kw.items())))
    if key not in _OPS:
        import scipy.signal as ss
        k = {a: b for a, b in kw.items() if a not in ("n", "type", "ftype")}
        sos = ss.iirfilter(int(kw.get("n", 2)), 2.0 * fc / fs, btype="highpass", output="sos",
                           ftype=kw.get("ftype", kw.get("type", "butter")), **k)
        _OPS[key] = ss.sosfiltfilt(sos, np.eye(n), axis=-1)
    return _OPS[key]


KW = {"n": 2, "rp": 5.0, "rs": 60.0, "type": "butter"}


def ref(env, row, fc, fs, kw):
    H = op(len(row), fc, fs, kw)
    return [env.sum([row[k] * float(H[k, j]) for k in range(len(row))]) for j in range(len(row))]


def rows(t):
    if t.ndim == 1:
        yield (), t
        return
    for i in range(t.shape[0]):
        for ix, r in rows(t[i]):
            yield (i,) + ix, r


def compare(env, what, got, plain, fc, fs, kw):
    env.check(f"{what}: shape kept", tuple(got.shape) == tuple(plain.shape))
    env.check(f"{what}: dtype kept", got.dtype == plain.dtype)
    got_rows = dict(rows(got))
    for ix, r in rows(plain):
        n = r.shape[0]
        y = ref(env, [r[j] for j in range(n)], fc, fs, kw)
        for j in range(n):
            env.eq(f"{what}: row {ix} sample {j}", got_rows[ix][j], y[j], tol=2e-4 if "32" in str(plain.dtype) else 1e-7)


def direct(env, cfg):
    """free response values of any batch shape"""
    import torch
    from torchrir.config import SimulationConfig
    from torchrir.sim.ism.hpf import apply_rir_hpf
    dt = torch.float32 if cfg.get("f32") else torch.float64
    x = env.tensor("h", cfg["shape"], -1.0, 1.0, dtype=dt)
    keep = x.clone()
    fs, fc = cfg.get("fs", 1000.0), cfg.get("fc", 10.0)
    kw = cfg.get("kw", KW)
    off = apply_rir_hpf(x, fs, SimulationConfig(rir_hpf_enable=False, rir_hpf_fc=fc, rir_hpf_kwargs=kw))
    env.eq("disabled filter leaves the response untouched", off, keep, tol=0.0)
    on = apply_rir_hpf(x, fs, SimulationConfig(rir_hpf_fc=fc, rir_hpf_kwargs=kw))
    compare(env, "filtered", on, keep, fc, fs, kw)


def end2end(env, cfg):
    import torch
    from torchrir.sim import simulate_rir, simulate_dynamic_rir
    fs = cfg.get("fs", 1000.0)
    dim = cfg.get("dim", 2)
    dt = torch.float32 if cfg.get("f32") else torch.float64
    size = [2.0, 2.25, 2.5][:dim]
    room = I.room(env, size, I.betas(env, dim, 0.1, 1.0), fs, dtype=dt)
    ns, nm, nt = cfg.get("ns", 2), cfg.get("nm", 2), cfg.get("nt")
    src = [[0.5 + 0.3 * i, 1.0, 1.1][:dim] for i in range(ns)]
    mic = [[1.0, 1.2 + 0.3 * i, 1.3][:dim] for i in range(nm)]
    fc = cfg.get("fc", 10.0)
    kw = cfg.get("kw", KW)
    on = I.cfg_plain(3, rir_hpf_enable=True, rir_hpf_fc=fc, rir_hpf_kwargs=kw)
    off = I.cfg_plain(3, rir_hpf_fc=fc, rir_hpf_kwargs=kw)
    common = dict(room=room, max_order=1, nsample=cfg.get("n", 12), dtype=dt)
    if nt:
        st = env.tensor_of([[[v + 0.1 * t for v in p] for p in src] for t in range(nt)], dtype=dt)
        mt = env.tensor_of([mic for t in range(nt)], dtype=dt)
        a = simulate_dynamic_rir(src_traj=st, mic_traj=mt, config=off, **common)
        b = simulate_dynamic_rir(src_traj=st, mic_traj=mt, config=on, **common)
    else:
        s, m = env.tensor_of(src, dtype=dt), env.tensor_of(mic, dtype=dt)
        a = simulate_rir(sources=s, mics=m, config=off, **common)
        b = simulate_rir(sources=s, mics=m, config=on, **common)
    compare(env, "simulated", b, a, fc, fs, kw)


def cutoff(env, cfg):
    """which cut-offs are accepted, and that the filter is designed at fc/(fs/2)"""
    import torch
    from torchrir.config import SimulationConfig
    from torchrir.sim.ism.hpf import apply_rir_hpf
    fs = env.real("fs", 100.0, 2000.0)
    fc = env.real("fc", -50.0, 2500.0)
    ft = cfg["type"]
    x = torch.tensor([[(-1.0) ** j * (1 + j % 3) for j in range(40)]], dtype=torch.float64)
    kw = {"n": 2, "rp": 1.0, "rs": 40.0, cfg.get("key", "type"): ft}
    c = SimulationConfig(rir_hpf_fc=fc, rir_hpf_kwargs=kw)
    r = env.call(apply_rir_hpf, x.clone(), fs, c)
    good = ft in ("butter", "cheby1", "cheby2", "ellip", "bessel")
    if not good:
        env.check("unknown filter types are rejected", r.raised(ValueError, NotImplementedError, KeyError, TypeError))
        return
    inside = env.And(fc > 0, fc * 2 < fs)
    if r.ok:
        env.check("accepted only inside (0, fs/2)", inside)
        wn = 2.0 * fc / fs
        if env.symbolic:
            want = x * (1.0 + wn)
        else:
            from scipy import signal as ss
            want = torch.as_tensor(ss.sosfiltfilt(ss.iirfilter(2, wn, rp=1.0, rs=40.0, btype="highpass", ftype=ft, output="sos"),
                                                  x.numpy()).copy())
        env.eq("designed at the requested cut-off", r.value, want, tol=1e-6)
    else:
        env.check("refusal is a ValueError", r.raised(ValueError))
        env.check("refused only outside (0, fs/2)", env.Not(inside))


def sims_cutoff(env, cfg):
    """the same boundary through the public entry point; the configuration rejects non-positive ones"""
    from torchrir.sim import simulate_rir
    fs = 1000.0
    room = I.room(env, [2.0, 2.25], [0.5] * 4, fs)
    fc = env.real("fc", -100.0, 1000.0)
    c = env.call(I.cfg_plain, 3, rir_hpf_enable=True, rir_hpf_fc=fc)
    v = env.call(c.value.validate) if c.ok else c
    env.check("configuration rejects non-positive cut-offs", env.Iff(v.ok, fc > 0))
    if not c.ok:
        return
    r = env.call(simulate_rir, room=room, sources=env.tensor_of([[0.5, 1.0]]), mics=env.tensor_of([[1.0, 1.2]]), max_order=0, nsample=12, config=c.value)
    env.check("accepted exactly inside (0, fs/2)", env.Iff(r.ok, env.And(fc > 0, fc < fs / 2)))
    if not r.ok:
        env.check("refusal is a ValueError", r.raised(ValueError))


def cases(tier):
    P = dict(patches=[patch_scipy])
    cs = []
    shapes = [(1, 1, 12), (2, 1, 12), (1, 3, 12), (2, 3, 11), (2, 2, 2, 12), (3, 1, 2, 10), (12, 2, 12), (12, 12)]
    if tier == "thorough":
        shapes += [(12, 12, 12), (2, 3, 4, 12), (3, 3, 24), (1, 1, 40)]
    for sh in shapes:
        cs.append(Case("direct-" + "x".join(map(str, sh)), direct, dict(shape=sh), **P))
    cs.append(Case("direct-f32", direct, dict(shape=(2, 2, 12), f32=True), **P))
    cs.append(Case("direct-cheby1", direct, dict(shape=(2, 2, 14), kw={"n": 2, "rp": 1.0, "rs": 40.0, "type": "cheby1"}, fc=40.0), **P))
    cs.append(Case("direct-ellip", direct, dict(shape=(2, 24), kw={"n": 4, "rp": 1.0, "rs": 40.0, "ftype": "ellip"}, fc=100.0), **P))
    cs.append(Case("direct-n1", direct, dict(shape=(2, 1, 12), kw={"n": 1, "type": "butter"}, fc=30.0), **P))
    cs.append(Case("direct-n3", direct, dict(shape=(2, 1, 16), kw={"n": 3}, fc=30.0, fs=400.0), **P))
    cs.append(Case("static-2d", end2end, dict(), **P))
    cs.append(Case("static-2d-f32", end2end, dict(f32=True), **P))
    cs.append(Case("static-3d", end2end, dict(dim=3, n=14, fc=25.0), **P))
    cs.append(Case("static-12mics", end2end, dict(ns=1, nm=12, n=12), **P))
    cs.append(Case("dynamic-2d", end2end, dict(nt=2), **P))
    cs.append(Case("dynamic-12", end2end, dict(nt=12, ns=1, nm=1), **P))
    cs.append(Case("dynamic-3d", end2end, dict(nt=3, ns=2, nm=1, dim=3), **P))
    for ft in ("butter", "cheby1", "cheby2", "ellip", "bessel", "nosuch"):
        cs.append(Case(f"cutoff-{ft}", cutoff, dict(type=ft), validate_max=0, **P))
    cs.append(Case("cutoff-ftype-key", cutoff, dict(type="cheby2", key="ftype"), validate_max=0, **P))
    cs.append(Case("cutoff-public", sims_cutoff, {}, validate_max=0, **P))
    return cs
