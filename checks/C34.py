from pathlib import Path

from engine.run import Case
from checks._json import Json, numbers
from checks._tar import scratch

EXPLANATION = ("metadata assembly and saving run on symbolic rooms, positions, trajectories, rates and signal lengths; every stated number is "
               "compared with the scene it was given")
OUTSIDE = ["values that are not finite", "microphones that coincide with one another (spacing)", "rounding of single precision values"]
ASSUMPTIONS = ["json writes numbers so that reading restores them (repr round trip of doubles)",
               "atan2 is an uninterpreted function of the two components in symbolic runs"]


def scene(env, cfg, moving=None):
    import torch
    from torchrir.models import MicrophoneArray, Room, Source
    dim, ns, nm = cfg["dim"], cfg.get("ns", 2), cfg.get("nm", 2)
    f = dict(dtype=torch.float64)
    size = env.tensor("size", (dim,), 2.0, 9.0, **f)
    coef = cfg.get("coef", "beta")
    k = {}
    if coef == "beta":
        k["beta"] = env.tensor("beta", (2 * dim,), 0.0, 1.0, **f)
    elif coef == "t60":
        k["t60"] = env.real("t60", 0.1, 2.0)
    room = Room(size=size, fs=env.real("fs", 8000.0, 48000.0), c=env.real("c", 300.0, 400.0), **k)
    sp = env.tensor("src", (ns, dim), 0.1, 1.9, **f)
    mp = env.tensor("mic", (nm, dim), 0.1, 1.9, **f) if nm < 3 or not cfg.get("notes") else torch.tensor([[0.2, 0.4, 1.1], [0.7, 0.3, 1.2], [0.9, 1.4, 0.6]], **f)[:, :dim]
    so = env.tensor("so", (ns, dim), -1.0, 1.0, **f) if cfg.get("orient") else None
    mo = env.tensor("mo", (dim,), -1.0, 1.0, **f) if cfg.get("orient") else None
    return room, Source(sp, so), MicrophoneArray(mp, mo)


def traj(env, name, kind, n, dim):
    import torch
    if kind == "none":
        return None, None
    t = int(kind[1:].rstrip("f"))
    if kind.endswith("f"):
        x = env.tensor(name, (t, dim), 0.1, 1.9, dtype=torch.float64)
        return x, x.unsqueeze(1)
    x = env.tensor(name, (t, n, dim), 0.1, 1.9, dtype=torch.float64)
    return x, x


def body(env, cfg):
    import torch
    from torchrir.io.metadata import build_metadata, save_metadata_json
    from torchrir.io.outputs import save_scene_metadata
    dim = cfg["dim"]
    room, src, mic = scene(env, cfg)
    ns, nm = src.positions.shape[0], mic.positions.shape[0]
    sk, mk = env.choice("source trajectory", cfg["straj"]), env.choice("microphone trajectory", cfg["mtraj"])
    st, stn = traj(env, "st", sk, ns, dim)
    mt, mtn = traj(env, "mt", mk, nm, dim)
    stamps = env.choice("time stamps", cfg["stamps"])
    k = {}
    if stamps == "given":
        k["timestamps"] = env.tensor("ts", (3,), 0.0, 5.0, dtype=torch.float64)
    length = None
    if stamps == "length":
        length = k["signal_len"] = env.int("signal length", 1, 200000)
    rirs = torch.zeros((1, ns, nm, cfg.get("nsample", 60)))
    info = [{"speaker": "s", "utterances": ("u1", Path("a/b.wav")), "gain": env.real("gain", -5.0, 5.0)}]
    extra = {"n": 3, "t": env.tensor("extra", (2,), -9.0, 9.0), "nested": {"flag": True, "none": None}}
    notes = env.choice("notes", cfg.get("notes", ["both"]))
    info = info if notes in ("both", "source information") else None
    extra = extra if notes in ("both", "extra") else {} if notes == "empty extra" else None
    n_s, n_m = (1 if stn is None else stn.shape[0]), (1 if mtn is None else mtn.shape[0])
    steps = max(n_s, n_m)
    bad = n_s != n_m and min(n_s, n_m) > 1
    with scratch() as d, Json(env) as js:
        args = dict(room=room, sources=src, mics=mic, rirs=rirs, src_traj=st, mic_traj=mt, source_info=info, extra=extra, **k)
        if env.choice("by", ["pieces", "outputs"]) == "pieces":
            r = env.call(lambda: build_metadata(**args))
            path = Path(d) / "x" / "y.json"
            w = env.call(lambda: save_metadata_json(path, r.value)) if r.ok else r
        else:
            r = w = env.call(lambda: save_scene_metadata(out_dir=Path(d) / "x", metadata_name="y.json", **args))
            path = Path(d) / "x" / "y.json"
        if bad:
            env.check("trajectories of different lengths are refused", r.raised(ValueError) and not path.exists())
            return
        env.check("metadata is built and written", r.ok and w.ok)
        if not (r.ok and w.ok):
            return
        back = js.read(path)
    for where, m in (("built", r.value), ("read back", back)):
        judge(env, where, m, room, src, mic, stn, mtn, steps, rirs, length, k, info, extra, cfg)


def judge(env, where, m, room, src, mic, stn, mtn, steps, rirs, length, k, info, extra, cfg):
    import torch
    sp = src.positions.unsqueeze(0) if stn is None else stn
    mp = mic.positions.unsqueeze(0) if mtn is None else mtn
    dim = sp.shape[-1]
    sp = sp.expand(steps, -1, -1) if sp.shape[0] == 1 else sp
    mp = mp.expand(steps, -1, -1) if mp.shape[0] == 1 else mp
    L = lambda s: f"{where}: {s}"  # noqa: E731
    numbers(env, L("room size"), m["room"]["size"], room.size)
    env.eq(L("sampling rate and speed of sound"), [m["room"]["fs"], m["time_axis"]["fs"], m["room"]["c"]], [room.fs, room.fs, room.c])
    if room.beta is not None:
        numbers(env, L("coefficients"), m["room"]["beta"], room.beta)
    else:
        env.check(L("no coefficients"), m["room"]["beta"] is None)
    if room.t60 is not None:
        env.eq(L("reverberation time"), m["room"]["t60"], room.t60)
    else:
        env.check(L("no reverberation time"), m["room"]["t60"] is None)
    for key, e in (("sources", src), ("mics", mic)):
        numbers(env, L(key), m[key]["positions"], e.positions)
        if e.orientation is None:
            env.check(L(key + " without orientation"), m[key]["orientation"] is None)
        else:
            numbers(env, L(key + " orientation"), m[key]["orientation"], e.orientation)
    dyn = steps > 1
    env.check(L("dynamic or static"), m["dynamic"] is dyn)
    env.check(L("shape of the responses"), list(m["rirs_shape"]) == list(rirs.shape) and m["time_axis"]["nsample"] == rirs.shape[-1])
    for key, t in (("sources", sp), ("mics", mp)):
        if dyn:
            numbers(env, L(key + " trajectory"), m["trajectories"][key], t)
        else:
            env.check(L(key + " do not move"), m["trajectories"][key] is None)
    t = m["time_axis"]["t"]
    env.check(L("time axis length"), len(t) == rirs.shape[-1])
    if len(t) == rirs.shape[-1]:
        at = [0, 1, len(t) // 2, len(t) - 1]
        env.eq(L("time axis"), [t[i] * room.fs for i in at], [float(i) for i in at], 1e-4)
    az, el = [], []
    for i in range(steps):
        for a in range(sp.shape[1]):
            for b in range(mp.shape[1]):
                v = sp[i, a] - mp[i, b]
                az.append(torch.atan2(v[1], v[0]))
                el.append(torch.atan2(v[2], torch.sqrt(v[0] ** 2 + v[1] ** 2)) if dim == 3 else torch.zeros((), dtype=torch.float64))
    shp = (steps, sp.shape[1], mp.shape[1])
    numbers(env, L("azimuth"), m["doa"]["azimuth"], torch.stack(az).reshape(shp))
    numbers(env, L("elevation"), m["doa"]["elevation"], torch.stack(el).reshape(shp))
    env.check(L("unit and frame"), m["doa"]["unit"] == "radians" and m["doa"]["frame"] == "world")
    ts = m["timestamps"]
    if "timestamps" in k:
        numbers(env, L("given time stamps"), ts, k["timestamps"])
    elif length is not None and dyn:
        env.check(L("a time stamp per step"), isinstance(ts, list) and len(ts) == steps)
        if isinstance(ts, list) and len(ts) == steps:
            env.eq(L("time stamps from zero to the last sample"), ts, [(length - 1) / room.fs * (i / (steps - 1)) for i in range(steps)], 1e-4)
    else:
        env.check(L("no time stamps"), ts is None)
    nm = mic.positions.shape[0]
    numbers(env, L("array"), m["array"]["positions"], mic.positions)
    numbers(env, L("array centre"), m["array"]["center"], sum(mic.positions[i] for i in range(nm)) / nm)
    sp_ = m["array"]["spacing"]
    if nm == 1:
        env.check(L("no spacing"), sp_ is None)
    elif nm == 2:
        dd = mic.positions[0] - mic.positions[1]
        d2 = (dd * dd).sum().item() if hasattr(dd, "sum") else 0
        if env.truth(d2 > 1e-6):
            env.check(L("spacing"), sp_ is not None)
            if sp_ is not None:
                env.eq(L("spacing"), sp_, env.sqrt(d2), 1e-5)
    env.check(L("geometry name"), m["array"]["geometry"] == {1: "single", 2: "binaural"}.get(nm, "custom"))
    if extra:
        env.check(L("extra is there"), isinstance(m.get("extra"), dict))
        env.eq(L("extra"), list(m["extra"]["t"]), extra["t"].tolist())
        env.check(L("extra structure"), m["extra"]["n"] == 3 and m["extra"]["nested"] == {"flag": True, "none": None})
    else:
        env.check(L("no extra"), not m.get("extra"))
    if info is not None:
        env.check(L("source information is there"), isinstance(m.get("source_info"), list) and len(m["source_info"]) == 1)
        env.eq(L("source information"), m["source_info"][0]["gain"], info[0]["gain"])
        env.check(L("source information structure"), list(m["source_info"][0]["utterances"]) == ["u1", "a/b.wav"] and m["source_info"][0]["speaker"] == "s")
    else:
        env.check(L("no source information"), m.get("source_info") is None)


def spacing(env, cfg):
    """closest pair of a larger array, one microphone anywhere"""
    import torch
    from torchrir.io.metadata import build_metadata
    from torchrir.models import MicrophoneArray, Room, Source
    n, f = cfg["n"], torch.float64 if cfg.get("double") else torch.float32
    p = env.tensor("p", (3,), 4.0, 5.0, dtype=f)
    base = torch.tensor([[1.0 + 0.37 * (i % 5), 1.5 + 0.41 * ((i // 5) % 5), 1.0 + 0.43 * (i // 25)] for i in range(n - 1)], dtype=f)
    q = torch.cat([base, p.unsqueeze(0)])
    room = Room(size=torch.tensor([6.0, 6.0, 6.0], dtype=f), fs=16000.0, beta=torch.tensor([0.5] * 6, dtype=f))
    r = env.call(lambda: build_metadata(room=room, sources=Source(torch.tensor([[3.0, 3.0, 3.0]], dtype=f), None), mics=MicrophoneArray(q, None), rirs=torch.zeros(1, n, 2)))
    env.check("metadata is built", r.ok)
    if r.ok:
        s = r.value["array"]["spacing"]
        env.check("a spacing is stated", s is not None)
        if s is not None:
            env.eq("the smallest distance between two microphones", s, 0.37, 1e-4)


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=20000, time_s=600 if deep else 60, validate_max=4)
    S = ["none", "t1", "t2", "t3", "t3f", "t1f"]
    cs = []
    for dim in (2, 3):
        for coef, orient in (("beta", True), ("t60", False)):
            cs.append(Case(f"static-{dim}d-{coef}", body, dict(dim=dim, coef=coef, orient=orient, straj=["none", "t1"], mtraj=["none"], stamps=["none", "length", "given"], nm=2 if orient else 1), **o))
        cs.append(Case(f"moving-{dim}d", body, dict(dim=dim, coef="none", ns=2, nm=2, straj=S[2:4] if not deep else S, mtraj=["none", "t2", "t1"] if not deep else S, stamps=["none", "length"]), **o))
        cs.append(Case(f"flat-{dim}d", body, dict(dim=dim, ns=1, nm=1, straj=["t3f", "none"], mtraj=["t3f", "t2f", "none"], stamps=["length", "given"]), **o))
    for n in (1, 2, 3):
        cs.append(Case(f"notes-{n}", body, dict(dim=2 if n == 2 else 3, ns=1, nm=n, straj=["none"], mtraj=["none"], stamps=["none"], notes=["extra", "source information", "none", "empty extra"]), **o))
    cs.append(Case("mismatch", body, dict(dim=3, straj=["t3", "t2"], mtraj=["t2"], stamps=["none"]), **o))
    if deep:
        cs.append(Case("long", body, dict(dim=3, straj=["t6"], mtraj=["none", "t6", "t1"], stamps=["length"], ns=3, nm=3), **o))
    cs += [Case("spacing-26", spacing, dict(n=26), **o), Case("spacing-27d", spacing, dict(n=27, double=True), **o)]
    return cs
