import warnings

from engine.run import Case
from checks import _ism as I

EXPLANATION = ("the simulation entry points run with symbolic configuration and argument values; the solver shows which "
               "value is used, that the length is the duration times the rate rounded up, that exactly the invalid values are refused, and that the simulator "
               "object returns what the function returns")


def scene(env, dyn, T=2, ns=1, nm=1, ori=False, beta=True):
    from torchrir.models import MicrophoneArray, Source
    room = I.room(env, [2.0, 2.25], I.betas(env, 2) if beta else [0.9, 0.8, 0.7, 0.6], 343.0)
    S = [[I.vec(env, f"s{t}_{i}_", [0.3, 0.5], [0.7, 1.4]) for i in range(ns)] for t in range(T if dyn else 1)]
    M = [[I.vec(env, f"m{t}_{i}_", [1.0, 0.6], [1.5, 1.6]) for i in range(nm)] for t in range(T if dyn else 1)]
    so = mo = None
    if ori == "each":
        so = env.tensor_of([[env.real(f"so{i}_{d}", 0.3, 1.0) for d in range(2)] for i in range(ns)])
        mo = env.tensor_of([[env.real(f"mo{i}_{d}", 0.3, 1.0) for d in range(2)] for i in range(nm)])
    elif ori == "angle":
        so = env.tensor_of([[env.real(f"so{i}", -3, 3)] for i in range(ns)])
        mo = env.tensor_of([[env.real(f"mo{i}", -3, 3)] for i in range(nm)])
    src = Source(env.tensor_of(S[0]), so)
    mic = MicrophoneArray(env.tensor_of(M[0]), mo)
    return room, src, mic, env.tensor_of(S), env.tensor_of(M), so, mo


def run(dyn, room, src, mic, st, mt, o, **kw):
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    if dyn:
        return simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, orientation=o, **kw)
    return simulate_rir(room=room, sources=src, mics=mic, **kw)


def length(env, cfg):
    from torchrir.sim import ISMSimulator
    from torchrir.models import DynamicScene, StaticScene
    dyn = cfg.get("dyn")
    fs = env.real("fs", 100.0, 400.0)
    tmax = env.real("tmax", 1e-3, cfg["tmax"])
    from torchrir.models import MicrophoneArray, Source
    room = I.room(env, [2.0, 2.25], [0.5] * 4, fs)
    s, m = env.tensor_of([[0.5, 1.0]]), env.tensor_of([[1.0, 1.0]])
    kw = dict(max_order=0)
    via = cfg["via"]
    if via == "arg":
        kw.update(tmax=tmax, config=I.cfg_plain(1))
    elif via == "cfg":
        kw.update(config=I.cfg_plain(1, tmax=tmax))
    elif via == "arg-over-cfg":
        kw.update(tmax=tmax, config=I.cfg_plain(1, tmax=env.real("other", 0.001, 0.1)))
    elif via == "both":        # the sample count wins over the duration
        n = env.int("n", 1, 4)
        kw.update(nsample=n, tmax=tmax, config=I.cfg_plain(1))
    if via == "simulator":
        sim = ISMSimulator(max_order=0, tmax=tmax)
        sc = StaticScene(room, Source(s), MicrophoneArray(m)) if not dyn else DynamicScene(room, Source(s), MicrophoneArray(m), s[None], m[None])
        out = sim.simulate(sc, I.cfg_plain(1)).rirs
    else:
        out = run(dyn, room, s, m, s[None], m[None], None, **kw)
    L = out.shape[-1]
    if via == "both":
        env.check("length is the requested sample count", env.eqv(L, n) if hasattr(env, "eqv") else L == n)
    else:
        env.check("length is the duration in samples, rounded up", env.And(L >= tmax * fs, L < tmax * fs + 1))


def precedence(env, cfg):
    """every combination of given and missing values"""
    dyn = cfg.get("dyn")
    room, src, mic, st, mt, so, mo = scene(env, dyn, ori="each", T=1, beta=False)
    o = (so, mo)
    ck, ak = {}, {}
    want = {}
    for name, cv, av in cfg.get("vals") or (("max_order", 1, 0), ("tmax", 3.5 / 343.0, 2.5 / 343.0), ("directivity", "cardioid", "bidir")):
        inc, ina = env.bool("cfg_" + name), env.bool("arg_" + name)
        inc, ina = bool(inc), bool(ina)
        if inc:
            ck[name] = cv
        ak[name] = av if ina else None
        want[name] = av if ina else cv if inc else None
    ns = bool(env.bool("arg_nsample"))
    if ns:
        ak["nsample"] = 2
    out = env.call(run, dyn, room, src, mic, st, mt, o, config=I.cfg_plain(3, **ck), **ak)
    if want["max_order"] is None or (want["tmax"] is None and not ns):
        env.check("missing order or duration is refused", out.raised(ValueError))
        return
    if not out.ok:
        env.fail(f"accepted values are refused: {out}")
    import math
    nsample = 2 if ns else int(math.ceil(want["tmax"] * 343.0))
    ref = run(dyn, room, src, mic, st, mt, o, config=I.cfg_plain(3), max_order=want["max_order"],
              nsample=nsample, directivity=want["directivity"] or "omni")
    env.eq(f"values used for {ck} {ak}", out.value, ref)


def invalid(env, cfg):
    dyn = cfg.get("dyn")
    room, src, mic, st, mt, so, mo = scene(env, dyn)
    f = cfg["field"]
    ck, ak = {}, dict(max_order=0, nsample=2)
    if f in ("fs", "tmax", "rir_hpf_fc"):
        v = env.real("v", -2.0, 2.0)
        ok = v > 0
        ck[f] = v
    elif f == "frac_delay_length":
        v = env.int("v", -4, 7)
        ok = env.And(v > 0, v % 2 == 1)
        ck[f] = v
    elif f in ("sinc_lut_granularity", "image_chunk_size", "accumulate_chunk_size"):
        v = env.int("v", -3, 4)
        ok = v > 0
        ck[f] = v
        ck["use_lut"] = f == "sinc_lut_granularity"
    elif f == "n":
        v = env.int("v", -2, 3)
        ok = v > 0
        ck["rir_hpf_kwargs"] = {"n": v, "type": "butter"}
    elif f in ("max_order", "seed"):
        v = env.int("v", -3, 3)
        ok = v >= 0
        ck[f] = v
    elif f == "arg max_order":
        v = env.int("v", -3, 2)
        ok = v >= 0
        ak["max_order"] = v
    elif f == "arg nsample":
        v = env.int("v", -3, 3)
        ok = v > 0
        ak["nsample"] = v
    elif f == "arg tmax":
        v = env.real("v", -0.01, 0.01)
        ok = v > 0
        ak.pop("nsample")
        ak["tmax"] = v
    fdl = ck.pop("frac_delay_length", 1)
    c = I.cfg_plain(fdl, **ck)
    r = env.call(run, dyn, room, src, mic, st, mt, None, config=c, **ak)
    env.check(f"{f}: accepted exactly when valid", env.Iff(env.truth(r.ok), ok))
    if not r.ok:
        env.check(f"{f}: refused with a ValueError", r.raised(ValueError))
    if f not in ("arg max_order", "arg nsample", "arg tmax"):
        r2 = env.call(c.validate)
        env.check(f"{f}: validate() agrees", env.Iff(env.truth(r2.ok), ok))
        if "rir_hpf_kwargs" in ck or f == "n":
            return
        r3 = env.call(I.cfg_plain(1).replace, **({f: v}))
        env.check(f"{f}: replace() agrees", env.Iff(env.truth(r3.ok), ok))


def simulator(env, cfg):
    from torchrir.models import DynamicScene, Scene, StaticScene
    from torchrir.sim import ISMSimulator
    dyn = cfg.get("dyn")
    room, src, mic, st, mt, so, mo = scene(env, dyn, ns=cfg.get("ns", 1), nm=cfg.get("nm", 1), ori=cfg.get("ori"))
    pat = cfg.get("pat", "omni")
    kw = dict(max_order=cfg.get("order", 1), directivity=pat, nb_img=cfg.get("nb"))
    if cfg.get("tmax"):
        kw["tmax"] = cfg["tmax"]
    else:
        kw["nsample"] = 4
    if cfg.get("dtype"):
        import torch
        kw.update(dtype=getattr(torch, cfg["dtype"]), device="cpu")
    c = I.cfg_plain(3, directivity=cfg.get("cpat"))
    sim = ISMSimulator(**kw)
    k = cfg.get("scene", "new")
    if k == "new":
        sc = DynamicScene(room, src, mic, st, mt) if dyn else StaticScene(room, src, mic)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sc = Scene(room, src, mic, st, mt) if dyn else Scene(room, src, mic)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = env.call(sim.simulate, sc, c)
    if not r.ok:
        env.fail(f"the simulator refuses what the function accepts: {r}")
    res = r.value
    ref = run(dyn, room, src, mic, st, mt, None if so is None else (so, mo), config=c, **kw)
    env.check("number format and device of the result", res.rirs.dtype == ref.dtype and res.rirs.device == ref.device
              and (cfg.get("dtype") is None or str(res.rirs.dtype) == "torch." + cfg["dtype"]))
    env.eq("simulator and function", res.rirs, ref, tol=1e-6 if cfg.get("dtype") is None else 1e-4)
    env.check("result carries its configuration", res.config is c and res.scene.room is room and res.scene.sources is src)


def conflict(env, cfg):
    from torchrir.models import DynamicScene, StaticScene
    from torchrir.sim import ISMSimulator
    dyn = cfg.get("dyn")
    room, src, mic, st, mt, so, mo = scene(env, dyn, T=1, beta=False)
    sc = DynamicScene(room, src, mic, st, mt) if dyn else StaticScene(room, src, mic)
    a, b = env.int("sim_order", 0, 1), env.int("cfg_order", 0, 2)
    u, v = env.real("sim_tmax", 0.004, 0.008), env.real("cfg_tmax", 0.004, 0.012)
    given = [bool(env.bool(n)) for n in ("order", "tmax_cfg", "tmax_sim")]
    ck = {}
    if given[0]:
        ck["max_order"] = b
    if given[1]:
        ck["tmax"] = v
    sim = ISMSimulator(max_order=a, **(dict(tmax=u) if given[2] else dict(nsample=2)))
    r = env.call(sim.simulate, sc, I.cfg_plain(1, **ck))
    bad = env.Or(env.And(env.truth(given[0]), a != b), env.And(env.truth(given[1] and given[2]), u != v))
    env.check("conflicting values are refused, agreeing ones accepted", env.Iff(env.truth(r.raised(ValueError)), bad))


def ctor(env, cfg):
    from torchrir.sim import ISMSimulator
    a = env.int("order", -2, 2)
    g = [bool(env.bool("tmax given")), bool(env.bool("nsample given"))]
    t, n = env.real("tmax", -1, 1), env.int("nsample", -2, 2)
    r = env.call(ISMSimulator, max_order=a, tmax=t if g[0] else None, nsample=n if g[1] else None)
    ok = env.And(a >= 0, env.truth(g[0] or g[1]), t > 0 if g[0] else env.truth(True), n > 0 if g[1] else env.truth(True))
    env.check("constructor accepts exactly the valid values", env.Iff(env.truth(r.ok), ok))


def cases(tier):
    cs = []
    for dyn in (False, True):
        d = "-dyn" if dyn else ""
        for via in ("arg", "cfg", "arg-over-cfg", "both", "simulator"):
            cs.append(Case(f"length-{via}{d}", length, dict(via=via, dyn=dyn, tmax=0.0125 if tier == "quick" else 0.1)))
        cs.append(Case("precedence" + d, precedence, dict(dyn=dyn), time_s=240, weight=5))
        cs.append(Case("precedence-omni" + d, precedence, dict(dyn=dyn, vals=(("max_order", 0, 1), ("tmax", 1.5 / 343.0, 2.5 / 343.0),
                       ("directivity", ("bidir", "cardioid"), "omni"))), time_s=240, weight=5))
        for f in ("fs", "tmax", "rir_hpf_fc", "frac_delay_length", "sinc_lut_granularity", "image_chunk_size",
                  "accumulate_chunk_size", "n", "max_order", "seed", "arg max_order", "arg nsample", "arg tmax"):
            cs.append(Case(f"invalid-{f.replace(' ', '-')}{d}", invalid, dict(field=f, dyn=dyn)))
        for k in ("new", "old"):
            cs.append(Case(f"simulator-{k}{d}", simulator, dict(dyn=dyn, scene=k, ns=2, nm=2)))
        cs.append(Case(f"simulator-dtype{d}", simulator, dict(dyn=dyn, ns=2, dtype="float32")))
        cs.append(Case(f"simulator-tmax{d}", simulator, dict(dyn=dyn, tmax=0.012)))
        cs.append(Case(f"simulator-nb{d}", simulator, dict(dyn=dyn, nb=(1, 2))))
        for pat in ("cardioid", "hypercardioid", ("bidir", "omni"), ("omni", "subcardioid")):
            for o in ("each", "angle"):
                cs.append(Case(f"simulator-{pat}-{o}{d}", simulator, dict(dyn=dyn, pat=pat, ori=o, ns=2, nm=2 if isinstance(pat, tuple) else 1)))
        cs.append(Case(f"simulator-cfg-pattern{d}", simulator, dict(dyn=dyn, pat=None, cpat="cardioid", ori="each", ns=2)))
        cs.append(Case(f"simulator-old-pattern{d}", simulator, dict(dyn=dyn, pat="cardioid", ori="each", ns=2, scene="old")))
        cs.append(Case(f"conflict{d}", conflict, dict(dyn=dyn), time_s=240, weight=4))
    cs.append(Case("constructor", ctor, {}))
    return cs
