import math
from pathlib import Path

from engine.run import Case
from checks._build import Corpus, Gen, surroundings
from checks._tar import scratch

EXPLANATION = ("the whole dataset builder runs with every draw of its generators as a free variable and with symbolic rooms, margins, arrays, "
               "motion windows and speeds; the trajectories it simulates (and the motion it states) are checked at every step")
OUTSIDE = ["more sources or steps than stated", "placement attempts after the stated number of failed ones", "distances between two sources (only "
           "their even spacing in azimuth at the start is promised)", "a motion window that contains no trajectory step of a single-step trajectory",
           "rounding (checked up to 1e-6)"]
ASSUMPTIONS = ["numpy's Generator.uniform(low, high) returns low + (high - low) u with 1e-7 <= u <= 1 - 1e-7", "sin and cos are uninterpreted with "
               "sin^2 + cos^2 = 1 and range [-1, 1] in symbolic runs"]
DIST = 1.8
TOL = 1e-6


def build(env, cfg, d, gen):
    import torch
    from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset
    n, mv = cfg["n"], cfg["moving"]
    free, size, margin = cfg.get("axes", ""), [8.0, 6.0, 3.0], [0.5, 0.4, 0.3]
    for i, a in enumerate("xyz"):
        if a in free:
            size[i], margin[i] = env.real(f"room {a}", 1.0, 12.0), env.real(f"margin {a}", 0.0, 1.5)
    edge = env.real("array edge", 0.05, 2.0) if cfg.get("array") else 1.0
    if cfg.get("motion"):
        r0, r1 = env.real("motion starts", 0.0, 1.0), env.real("motion ends", 0.0, 1.0)
        env.assume(r1 - r0 >= 0.01)
    else:
        r0, r1 = 0.35, 0.65
    if mv:
        v0, v1 = env.real("slowest", 0.05, 2.0), env.real("fastest", 0.05, 2.0)
        env.assume(v0 <= v1)
    else:
        v0, v1 = 0.3, 0.8
    center = [4.0, 3.0, 1.5]
    if cfg.get("fixed"):
        center = [env.real(f"center {c}", 0.0, 12.0) if c in cfg["fixed"] else center[i] for i, c in enumerate("xyz")]
    steps, dur = cfg["steps"], cfg.get("dur", 0.5)
    corpus = Corpus({s: {"u": torch.ones(4)} for s in "abcd"}, 8)

    def responses(kept, k):
        return torch.zeros((k["src_traj"].shape[0], n, 6, 1), dtype=torch.float64)
    with surroundings(env, corpus, responses, gen) as kept:
        r = env.call(lambda: build_dynamic_cmu_arctic_dataset(
            cmu_root=Path(d) / "c", dataset_root=Path(d) / "out", speakers=["a", "b", "c", "d"], n_scenes=1, n_sources=n, n_moving_sources=mv,
            duration_sec=dur, room_size=size, mic_center=center, octa_edge_m=edge, source_margin=margin, trajectory_steps=steps, rir_samples=1,
            max_order=0, randomize_mic_center=not cfg.get("fixed"), move_start_ratio=r0, move_end_ratio=r1, moving_speed_min=v0,
            moving_speed_max=v1, save_layout_mp4=False, save_layout_images=False))
        meta = kept.json.read(Path(d) / "out" / "scene_0000" / "metadata.json") if r.ok else None
    return r, kept, meta, dict(size=size, margin=margin, edge=edge, r0=r0, r1=r1, v0=v0, v1=v1, center=center, steps=steps, dur=dur)


def within(env, label, c, r, k, m, size):
    """c + r k lies in [m, size - m]; the steps in between only help the solver"""
    if env.symbolic:
        env.lemma(env.And(r <= c - m, r <= size - m - c))
        if env.truth(k > 1e-9):
            env.lemma(r <= (size - m - c) / k)
            env.lemma(r * k <= size - m - c)
            env.lemma(r * k >= 0)
        elif env.truth(k < -1e-9):
            env.lemma(r <= (m - c) / k)
            env.lemma(-r * k <= c - m)
            env.lemma(r * k <= 0)
    env.check(f"{label} low", c + r * k >= m - TOL)
    env.check(f"{label} high", c + r * k <= size - m + TOL)


def body(env, cfg):
    gen = Gen(env, cfg.get("trials", 1), cfg.get("one_order"))
    with scratch() as d:
        r, kept, meta, o = build(env, cfg, d, gen)
    size, margin = o["size"], o["margin"]
    if not r.ok:
        env.check("only ValueError is raised", r.raised(ValueError))
        env.check("nothing is simulated then", not kept.sims)
        rad = o["edge"] / math.sqrt(2.0)
        if cfg.get("fixed"):
            c = o["center"]
            fits = env.And(*[c[i] >= rad + TOL for i in range(3)], *[c[i] <= size[i] - rad - TOL for i in range(3)],
                           *[c[i] >= margin[i] + DIST + TOL for i in range(2)], *[c[i] <= size[i] - margin[i] - DIST - TOL for i in range(2)],
                           size[2] - 2 * margin[2] >= TOL)
        else:
            fits = env.And(*[2 * rad + TOL <= size[i] for i in range(3)], *[2 * (margin[i] + DIST) + TOL <= size[i] for i in range(2)],
                           *[rad + margin[i] + DIST + TOL <= size[i] for i in range(2)], size[2] - 2 * margin[2] >= TOL)
        if cfg.get("refusal", True):
            env.check("a layout that leaves space is not refused", env.Not(fits))
        return
    env.check("one simulation per scene", len(kept.sims) == 1)
    k = kept.sims[0]
    src, mic = k["src_traj"], k["mic_traj"]
    n, steps = cfg["n"], o["steps"]
    env.check("shapes", tuple(src.shape) == (steps, n, 3) and tuple(mic.shape) == (steps, 6, 3))
    if tuple(src.shape) != (steps, n, 3) or tuple(mic.shape) != (steps, 6, 3):
        return
    env.observe("sources", src)
    c = [sum(mic[0, j, a] for j in range(6)) / 6 for a in range(3)]
    for j in range(6):
        for a in range(3):
            env.check(f"microphone {j} inside the room (axis {a})", env.And(mic[0, j, a] >= -TOL, mic[0, j, a] <= size[a] + TOL))
            env.eq(f"microphone {j} stays (axis {a})", [mic[t, j, a] for t in range(1, steps)], [mic[0, j, a]] * (steps - 1))
    if cfg.get("fixed"):
        env.eq("the array is at the given centre", c, o["center"])
    ex = meta["extra"]
    env.eq("stated centre", ex["mic_center_xyz_m"], c)
    moving = list(ex["moving_source_indices"])
    env.check("as many moving sources as asked", len(set(moving)) == len(moving) == cfg["moving"] and all(0 <= i < n for i in moving))
    az = [a / (180.0 / math.pi) for a in ex["start_azimuth_deg"]]
    slots = []
    for i in range(n):
        q = (az[i] - az[0]) / (2 * math.pi / n)
        ks = [s for s in range(-n, n + 1) if env.truth(env.And(q >= s - 1e-6, q <= s + 1e-6))]
        slots.append(ks[0] % n if ks else None)
    env.check("sources start evenly spaced in azimuth", None not in slots and len(set(slots)) == n)
    for i in range(n):
        p0 = [src[0, i, a] for a in range(3)]
        env.check(f"source {i} within the height margins", env.And(p0[2] >= margin[2] - TOL, p0[2] <= size[2] - margin[2] + TOL))
        dx, dy = p0[0] - c[0], p0[1] - c[1]
        rad = dx * env.cos(az[i]) + dy * env.sin(az[i])
        env.eq(f"source {i} starts in its stated direction", [dx, dy], [rad * env.cos(az[i]), rad * env.sin(az[i])], 1e-6)
        env.lemma(rad >= DIST)
        env.check(f"source {i} keeps its distance from the array", rad >= DIST - TOL)
        for a, f in enumerate((env.cos, env.sin)):
            within(env, f"source {i} keeps the margins at the start (axis {a})", c[a], rad, f(az[i]), margin[a], size[a])
        if i not in moving:
            env.eq(f"source {i} does not move", [src[t, i, a] for t in range(1, steps) for a in range(3)], p0 * (steps - 1))
            env.check(f"source {i} is stated still", ex["source_velocity_mps"][i] == 0 and ex["angular_velocity_rad_s"][i] == 0 and ex["turn_direction"][i] == 0)
            env.eq(f"source {i} is stated at its direction", [ex["end_azimuth_deg"][i]], [ex["start_azimuth_deg"][i]])
            continue
        v, w, turn = ex["source_velocity_mps"][i], ex["angular_velocity_rad_s"][i], ex["turn_direction"][i]
        env.check(f"source {i} within the speed range", env.And(v >= o["v0"] - TOL, v <= o["v1"] + TOL))
        env.eq(f"source {i} angular speed", [w * rad], [turn * v], 1e-6)
        env.check(f"source {i} turns one way", turn in (-1, 1))
        t0, t1 = o["r0"] * o["dur"], o["r1"] * o["dur"]
        end = ex["end_azimuth_deg"][i] / (180.0 / math.pi)
        env.eq(f"source {i} end direction", [end], [az[i] + w * (t1 - t0)], 1e-6)
        for t in range(steps):
            x = [src[t, i, a] for a in range(3)]
            now = t / (steps - 1) if steps > 1 else 0.0
            env.eq(f"source {i} step {t}: height", [x[2]], [p0[2]])
            if env.truth(now < o["r0"]):
                th = az[i]
            elif env.truth(now > o["r1"]):
                th = end
            else:
                th = az[i] + (end - az[i]) * ((now - o["r0"]) / (o["r1"] - o["r0"]))
            if steps == 1:
                th = az[i]
            cs, sn = (x[0] - c[0]), (x[1] - c[1])
            env.eq(f"source {i} step {t}: on its arc", [cs, sn], [rad * env.cos(th), rad * env.sin(th)], 1e-6)
            for a, f in enumerate((env.cos, env.sin)):
                if env.symbolic and a == 0:
                    for b in range(2):
                        env.lemma(env.And(rad <= c[b] - margin[b], rad <= size[b] - margin[b] - c[b]))
                env.check(f"source {i} step {t}: margins (axis {a})",
                          env.And(c[a] + rad * f(th) >= margin[a] - TOL, c[a] + rad * f(th) <= size[a] - margin[a] + TOL))


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=20000, time_s=800 if deep else 300, validate_max=4, query_ms=20000 if deep else 8000)
    cs = [Case("still x", body, dict(n=1, moving=0, steps=2, axes="x", array=True), **o),
          Case("still y", body, dict(n=1, moving=0, steps=2, axes="y", array=True), **o),
          Case("still z", body, dict(n=1, moving=0, steps=2, axes="z", array=True), **o),
          Case("still two", body, dict(n=2, moving=0, steps=1, fixed="x", one_order=not deep), **o, weight=7),
          Case("moving x", body, dict(n=1, moving=1, steps=2, axes="x"), **o),
          Case("moving y", body, dict(n=1, moving=1, steps=2, axes="y"), **o),
          Case("moving z", body, dict(n=1, moving=1, steps=2, axes="z"), **o),
          Case("window", body, dict(n=1, moving=1, steps=3, motion=True, dur=4.0, fixed="none"), **o, weight=9),
          Case("mixed", body, dict(n=2, moving=1, steps=2, fixed="none", one_order=not deep), **o, weight=8),
          Case("fixed x", body, dict(n=1, moving=0, steps=1, axes="x", fixed="x"), **o),
          Case("fixed y", body, dict(n=1, moving=0, steps=1, axes="y", fixed="y"), **o),
          Case("fixed z", body, dict(n=1, moving=0, steps=1, axes="z", fixed="z"), **o),
          Case("fixed moving", body, dict(n=1, moving=1, steps=2, fixed="xy", dur=4.0), **o)]
    return cs
