import os
from pathlib import Path

from engine.run import Case
from checks._build import Corpus, Gen, surroundings
from checks._json import numbers
from checks._tar import scratch

EXPLANATION = ("the whole dataset builder runs with symbolic responses or symbolic speech; what is written (samples, file names, metadata) is compared "
               "with what was simulated and loaded")
OUTSIDE = ["more scenes, sources or samples than stated", "the writing of WAV files itself (C33) and of the metadata of arbitrary scenes (C34)", "plots and videos (C38)"]
ASSUMPTIONS = ["soundfile writes the samples it is given", "rounding is ignored"]
FS, MICS = 8, 6


class Middle(Gen):
    """places everything without free variables (placement is C30)"""

    def _draw(self, low, high):
        self.n += 1
        return low + (high - low) * ((self.n * 0.37) % 0.9 + 0.05)

    def _pick(self, k):
        self.n += 1
        return self.n % k


def run(env, cfg, corpus, responses, d, **over):
    from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset
    gen = Middle(env, 99)
    k = dict(cmu_root=Path(d) / "c", dataset_root=Path(d) / "out", speakers=list(corpus.signals), n_scenes=cfg.get("scenes", 1),
             n_sources=cfg["n"], n_moving_sources=cfg.get("moving", 0), duration_sec=cfg["target"] / FS, trajectory_steps=cfg.get("steps", 1),
             rir_samples=cfg.get("taps", 1), max_order=0, rt60=0.2, save_layout_mp4=False, save_layout_images=False)
    k.update(over)
    with surroundings(env, corpus, responses, gen, first=not cfg.get("choices")) as kept:
        r = env.call(lambda: build_dynamic_cmu_arctic_dataset(**k))
        scenes = []
        if r.ok:
            for i in range(k["n_scenes"]):
                p = Path(d) / "out" / f"scene_{i:04d}"
                scenes.append((kept.json.read(p / "metadata.json"), kept.json.read(p / "source_info.json"))
                              if p.is_dir() else None)
    return r, kept, scenes, k


def audio(kept, d, i):
    """samples written for scene i: name -> (data, rate)"""
    base = os.path.join(os.path.realpath(str(d)), "out", f"scene_{i:04d}")
    out = {}
    for path, data, fs, k in kept.audio:
        if os.path.dirname(os.path.realpath(path)) == base:
            out[os.path.basename(path)] = (data, fs, k)
    return out


def files(env, d, kept, n_scenes, n):
    root = Path(d) / "out"
    env.check("one directory for every scene", sorted(os.listdir(root)) == [f"scene_{i:04d}" for i in range(n_scenes)])
    want = sorted([f"source_{i:02d}.wav" for i in range(n)] + ["mixture.wav", "metadata.json", "source_info.json"])
    for i in range(n_scenes):
        env.check(f"files of scene {i}", sorted(os.listdir(root / f"scene_{i:04d}")) == want)
    env.check("each file is written once", len({os.path.realpath(a[0]) for a in kept.audio}) == len(kept.audio) == n_scenes * (n + 1))
    env.check("all at the sampling rate", all(int(a[2]) == FS for a in kept.audio))


def rows(x):
    return [list(r) for r in (x.tolist() if hasattr(x, "tolist") else x)]


def levels(env, cfg):
    """free responses: one gain for all, no clipping, mixture = sum"""
    import torch
    n, T, L = cfg["n"], cfg["target"], cfg["taps"]
    sig = {s: {"u": torch.tensor([cfg["speech"][(i + j) % len(cfg["speech"])] for j in range(T)], dtype=torch.float32)} for i, s in enumerate("abc"[:n])}
    free = cfg["free"]
    vals = {f: env.real(f"h {f}", -cfg["range"], cfg["range"]) for f in free}

    def responses(kept, k):
        h = torch.zeros((1, n, MICS, L), dtype=torch.float64)
        x = [[[[vals.get((i, m, t), 0.0) for t in range(L)] for m in range(MICS)] for i in range(n)]]
        x[0][0][MICS - 1][0] = cfg["anchor"]
        return env.tensor_of(x) if env.symbolic else torch.tensor(x, dtype=torch.float64) + 0 * h
    with scratch() as d:
        r, kept, scenes, k = run(env, cfg, Corpus(sig, FS), responses, d)
        env.check("the dataset is built", r.ok)
        if not r.ok:
            return
        env.check("rate and number of microphones are returned", tuple(int(v) for v in r.value) == (FS, MICS))
        files(env, d, kept, 1, n)
        got = audio(kept, d, 0)
    if len(got) != n + 1:
        return
    stems = [rows(got[f"source_{i:02d}.wav"][0]) for i in range(n)]
    mix = rows(got["mixture.wav"][0])
    ref = []
    for i in range(n):
        s = list(sig["abc"[i]].values())[0].tolist()
        ref.append([[sum((vals.get((i, m, t - j), 0.0) if not (i == 0 and m == MICS - 1 and t == j) else cfg["anchor"]) * s[j]
                         for j in range(T) if 0 <= t - j < L) for m in range(MICS)] for t in range(len(stems[i]))])
    env.check("samples times microphones", all(len(x) == len(mix) >= T and all(len(y) == MICS for y in x) for x in stems + [mix]))
    if any(len(x) != len(mix) for x in stems):
        return
    env.observe("mixture", [v for y in mix for v in y])
    a, b = stems[0][0][MICS - 1], cfg["anchor"] * cfg["speech"][0]
    env.check("the gain is positive and does not amplify", env.And(a * b > 0, a / b <= 1 + 1e-6))
    for i in range(n):
        env.eq(f"source {i} is the convolved speech at the common gain", [v * b for y in stems[i] for v in y], [v * a for y in ref[i] for v in y], 1e-5)
    env.eq("the mixture is the sum of the sources", [v for y in mix for v in y],
           [sum(stems[i][t][m] for i in range(n)) for t in range(len(mix)) for m in range(MICS)], 1e-6)
    q = b / a
    env.check("the gain is finite", q > 0)
    for name, x in [(f"source {i}", stems[i]) for i in range(n)] + [("mixture", mix)]:
        for t, y in enumerate(x):
            for m, v in enumerate(y):
                if env.symbolic:        # the same thing without divisions: q > 0 is the inverse of the gain
                    w = v * q
                    env.check(f"{name} does not clip [{t},{m}]", env.And(w <= q * (1 + 1e-4), w >= q * (-1 - 1e-4)))
                else:
                    env.check(f"{name} does not clip [{t},{m}]", env.And(v <= 1 + 1e-6, v >= -1 - 1e-6))
    quiet = env.And(*[env.And(v <= 0.98, v >= -0.98) for x in ref for y in x for v in y],
                    *[env.And(w <= 0.98, w >= -0.98) for t in range(len(mix)) for m in range(MICS)
                      for w in [sum(ref[i][t][m] for i in range(n))]])
    env.check("quiet scenes are stored unscaled", env.Implies(quiet, env.And(a - b <= 1e-6, b - a <= 1e-6)))


def speech(env, cfg):
    """free speech and free picks: who speaks what, joined and cut, numbering, metadata"""
    import torch
    n, T, S = cfg["n"], cfg["target"], cfg["scenes"]
    steps = cfg.get("steps", 1)
    sig = {s: {f"{s}{j}": env.tensor(f"{s}{j}", (ln,), -0.3, 0.3, dtype=torch.float32) for j, ln in enumerate(lens)}
           for s, lens in zip("abcd", cfg["lens"])}
    sent = []

    def responses(kept, k):
        h = torch.zeros((steps, n, MICS, 2), dtype=torch.float64)
        for m in range(MICS):
            h[:, :, m, 0] = 0.25 / (m + 1)
        sent.append(h)
        return h
    with scratch() as d:
        corpus = Corpus(sig, FS)
        r, kept, scenes, k = run(env, cfg, corpus, responses, d, rir_samples=2)
        env.check("the dataset is built", r.ok)
        if not r.ok:
            return
        files(env, d, kept, S, n)
        got = [audio(kept, d, i) for i in range(S)]
    env.check("one simulation for each scene", len(kept.sims) == S)
    if len(kept.sims) != S or any(len(g) != n + 1 for g in got):
        return
    used = [e[1:] for e in corpus.log if e[0] == "load"]
    for i in range(S):
        meta, info = scenes[i]
        sim = kept.sims[i]
        P = f"scene {i}: "
        env.check(P + "as many sources", len(info) == n == len(meta["source_info"]) and meta["extra"]["n_sources"] == n)
        env.check(P + "distinct known speakers", len({e["speaker"] for e in info}) == n and all(e["speaker"] in sig for e in info))
        for q, e in enumerate(info):
            own = sig[e["speaker"]]
            env.check(P + f"source {q}: index and own utterances", e["source_index"] == q and list(e["utterance_ids"]) and all(u in own for u in e["utterance_ids"]))
            if not all(u in own for u in e["utterance_ids"]):
                return
            env.check(P + f"source {q}: stated utterances were loaded", all((e["speaker"], u) in used for u in e["utterance_ids"]))
            x = [v for u in e["utterance_ids"] for v in own[u].tolist()]
            last = len(x) - own[e["utterance_ids"][-1]].shape[0]
            env.check(P + f"source {q}: no more utterances than needed", last < T <= len(x))
            y = rows(got[i][f"source_{q:02d}.wav"][0])
            env.check(P + f"source {q}: length", len(y) >= T)
            for m in (0, MICS - 1):
                env.eq(P + f"source {q}: microphone {m}: joined and cut speech", [row[m] for row in y],
                       [v * (0.25 / (m + 1)) for v in x[:T]] + [0.0] * (len(y) - T), 1e-5)
            env.check(P + f"source {q}: same in both files", {a: b for a, b in e.items()} == dict(meta["source_info"][q]))
            mv = q in meta["extra"]["moving_source_indices"]
            env.check(P + f"source {q}: motion as in the metadata", e["is_moving"] is mv and e["motion_type"] == ("arc" if mv else "static")
                      and e["velocity_mps"] == meta["extra"]["source_velocity_mps"][q] and (e["velocity_mps"] > 0) == mv
                      and e["angular_velocity_rad_s"] == meta["extra"]["angular_velocity_rad_s"][q]
                      and e["turn_direction"] == meta["extra"]["turn_direction"][q])
        room = sim["room"]
        numbers(env, P + "room", meta["room"]["size"], [8.0, 6.0, 3.0])
        numbers(env, P + "simulated room", meta["room"]["size"], room.size)
        env.eq(P + "rate and reverberation time", [meta["room"]["fs"], float(room.fs), meta["room"]["t60"], float(room.t60)], [float(FS), float(FS), 0.2, 0.2])
        numbers(env, P + "sources", meta["sources"]["positions"], sim["src_traj"][0])
        numbers(env, P + "microphones", meta["mics"]["positions"], sim["mic_traj"][0])
        if steps > 1:
            numbers(env, P + "source trajectory", meta["trajectories"]["sources"], sim["src_traj"])
            numbers(env, P + "microphone trajectory", meta["trajectories"]["mics"], sim["mic_traj"])
            env.eq(P + "time stamps", meta["timestamps"], [(T - 1) / FS * (t / (steps - 1)) for t in range(steps)], 1e-6)
        env.check(P + "shape of the responses", list(meta["rirs_shape"]) == [steps, n, MICS, 2])
        ex = meta["extra"]
        env.check(P + "scene name", ex["scene_id"] == f"scene_{i:04d}")
        env.check(P + "motion window", abs(ex["motion_time_sec"]["move_start"] - 0.35 * T / FS) < 1e-9 and
                  abs(ex["motion_time_sec"]["move_end"] - 0.65 * T / FS) < 1e-9 and abs(ex["motion_time_sec"]["total"] - T / FS) < 1e-9
                  and all(abs(e["move_start_sec"] - 0.35 * T / FS) < 1e-9 and abs(e["move_end_sec"] - 0.65 * T / FS) < 1e-9 for e in info))
        env.check(P + "simulation options", sim["nsample"] == 2 and sim["max_order"] == 0)


def rates(env, cfg):
    """speakers at different rates, without utterances or missing are refused"""
    import torch
    fs = {s: env.choice(f"rate of {s}", [8, 16]) for s in "ab"}
    empty = env.bool("b has no utterances")
    sig = {"a": {"u": torch.ones(9)}, "b": {} if env.truth(empty) else {"v": torch.ones(9)}}
    import shutil
    with scratch() as d:
        r, kept, scenes, k = run(env, cfg, Corpus(sig, fs), lambda kept, k: torch.zeros((1, 1, MICS, 1), dtype=torch.float64), d)
        ok = fs["a"] == fs["b"] and len(sig["b"]) > 0
        env.check("only consistent speakers are mixed", r.ok == ok)
        if ok:
            env.check("rate of the files", r.value[0] == fs["a"] and all(a[2] == fs["a"] for a in kept.audio))
        else:
            env.check("nothing is written", r.raised(ValueError, RuntimeError) and not kept.audio)


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=20000, time_s=700 if deep else 150, validate_max=4, query_ms=8000)
    lv = dict(n=2, target=2, taps=1, speech=[0.8, -0.5, 0.3], anchor=0.5, range=4.0, free=[(0, 0, 0), (1, 0, 0), (1, 2, 0)])
    cs = [Case("levels", levels, lv, **o),
          Case("levels, two taps", levels, dict(lv, taps=2, free=[(0, 0, 0), (0, 0, 1), (1, 0, 1)]), **o),
          Case("levels, one source", levels, dict(lv, n=1, taps=2, free=[(0, 0, 0), (0, 0, 1), (0, 3, 0)]), **o),
          Case("levels, loud speech", levels, dict(lv, speech=[1.6, -0.5, 0.3], anchor=0.25, range=2.0), **o),
          Case("speech", speech, dict(n=2, target=5, scenes=1, steps=2, moving=1, choices=True, lens=[(2, 4), (5,), (7,)]), **o),
          Case("scenes", speech, dict(n=2, target=4, scenes=3, steps=1, lens=[(3, 2), (4,), (5,)]), **o),
          Case("long motion", speech, dict(n=3, target=8, scenes=2, steps=4, moving=2, lens=[(3, 2), (4, 4), (9,)]), **o),
          Case("rates", rates, dict(n=1, target=4), **o)]
    if deep:
        cs += [Case("levels, three sources", levels, dict(lv, n=3, free=[(0, 0, 0), (1, 0, 0), (2, 0, 0), (2, 1, 0)]), **o),
               Case("levels, longer", levels, dict(lv, target=4, taps=3, free=[(0, 0, 0), (0, 0, 2), (1, 0, 1), (1, 1, 0)]), **o),
               Case("speech of three", speech, dict(n=3, target=7, scenes=1, steps=1, choices=True, lens=[(2, 4), (5,), (3, 3)]), **o)]
    return cs
