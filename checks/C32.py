import contextlib
import os
import shutil
from pathlib import Path

from engine.run import Case
from checks._build import Corpus, surroundings
from checks._tar import scratch
from checks.C31 import Middle

EXPLANATION = ("the whole dataset builder runs on scratch directories with symbolic option values and every combination of existing content and "
               "overwriting; the tree is compared before and after, and every deletion is recorded")
OUTSIDE = ["options whose infeasibility shows only after random draws", "failures of the file system or of the simulation while a dataset is "
           "written", "option combinations other than the stated groups"]
ASSUMPTIONS = ["deletions go through shutil.rmtree, os.remove, os.unlink, os.rmdir, os.rename or os.replace"]


def tree(d):
    """everything below d"""
    out = {}
    for base, dirs, fs in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d)] = "directory"
        for x in fs:
            p = os.path.join(base, x)
            out[os.path.relpath(p, d)] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out


@contextlib.contextmanager
def contained(d):
    """deletions outside d are recorded but not carried out"""
    d = os.path.realpath(str(d))
    old, seen, depth = {}, [], [0]

    def wrap(mod, name):
        f = getattr(mod, name)
        old[mod, name] = f

        def g(path, *a, **k):
            if depth[0]:
                return f(path, *a, **k)
            p = os.path.realpath(os.fspath(path)) if isinstance(path, (str, os.PathLike)) else ""
            seen.append(p)
            if not p.startswith(d + os.sep):
                return None
            depth[0] += 1
            try:
                return f(path, *a, **k)
            finally:
                depth[0] -= 1
        setattr(mod, name, g)
    for m, n in ((shutil, "rmtree"), (os, "remove"), (os, "unlink"), (os, "rmdir"), (os, "rename"), (os, "replace")):
        wrap(m, n)
    try:
        yield seen
    finally:
        for (m, n), f in old.items():
            setattr(m, n, f)


def options(env, which):
    """symbolic option values and whether they are valid"""
    k, ok = {}, True
    if "scenes" in which:
        k["n_scenes"] = env.int("scenes", -2, 2)
        ok = env.And(ok, k["n_scenes"] >= 1)
    if "sources" in which:
        n, m = env.choice("sources", list(range(-1, 5))), env.choice("moving sources", list(range(-1, 5)))
        k["n_sources"], k["n_moving_sources"] = n, m
        ok = env.And(ok, n >= 1, n <= 3, m >= 0, m <= n)
    if "steps" in which:
        k["trajectory_steps"], k["rir_samples"], k["max_order"] = env.int("steps", -1, 2), env.int("samples", -1, 1), env.int("order", -2, 1)
        ok = env.And(ok, k["trajectory_steps"] >= 1, k["rir_samples"] >= 1, k["max_order"] >= 0)
    if "duration" in which:
        k["duration_sec"] = env.real("duration", -1.0, 0.3)
        env.assume(env.Or(k["duration_sec"] <= 0.124, k["duration_sec"] >= 0.126))      # one sample lasts 0.125 s
        ok = env.And(ok, k["duration_sec"] >= 0.125)
    if "ratios" in which:
        k["move_start_ratio"], k["move_end_ratio"] = env.real("motion starts", -0.5, 1.5), env.real("motion ends", -0.5, 1.5)
        env.assume(env.Or(k["move_end_ratio"] - k["move_start_ratio"] <= 0, k["move_end_ratio"] - k["move_start_ratio"] >= 1e-3))
        ok = env.And(ok, k["move_start_ratio"] >= 0, k["move_end_ratio"] <= 1, k["move_start_ratio"] < k["move_end_ratio"])
    if "speeds" in which:
        k["moving_speed_min"], k["moving_speed_max"] = env.real("slowest", -1.0, 1.0), env.real("fastest", -1.0, 1.0)
        ok = env.And(ok, k["moving_speed_min"] > 0, k["moving_speed_max"] >= k["moving_speed_min"])
    if "room" in which:
        x, m = env.real(f"room {which[-1]}", 0.5, 9.0), env.real(f"margin {which[-1]}", 0.0, 2.0)
        i = "xyz".index(which[-1])
        size, margin = [8.0, 6.0, 3.0], [0.5, 0.5, 0.3]
        size[i], margin[i] = x, m
        k["room_size"], k["source_margin"], k["octa_edge_m"] = size, margin, 0.5
        need = 2 * (m + 1.8) if i < 2 else 2 * m
        # everything fits: sources on every side of the array and the array itself
        fits = env.And(x >= need + 1e-3, x >= 0.75 + 1e-3, x - m - 1.8 >= 0.36 if i < 2 else True)
        miss = env.Or(x <= need - 1e-3, x <= 0.7)
        env.assume(env.Or(fits, miss))
        ok = env.And(ok, fits)
    if "centre" in which:
        x = env.real("centre " + which[-1], -1.0, 9.0)
        i = "xyz".index(which[-1])
        c = [4.0, 3.0, 1.5]
        c[i] = x
        k["mic_center"], k["randomize_mic_center"], k["octa_edge_m"] = c, False, 0.5
        lo, hi = [(2.3, 5.7), (2.3, 3.7), (0.3535533906, 2.6464466094)][i]
        env.assume(env.Or(x <= lo - 1e-3, env.And(x >= lo + 1e-3, x <= hi - 1e-3), x >= hi + 1e-3))
        ok = env.And(ok, x >= lo, x <= hi)
    return k, ok


def body(env, cfg):
    import torch
    from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset
    k, ok = options(env, cfg["options"])
    existing = env.choice("existing", cfg.get("existing", ["nothing", "files"]))
    over = env.truth(env.bool("overwrite"))
    sig = {s: {"u": torch.ones(9)} for s in "abc"}
    fs, missing = 8, ()
    if cfg["options"] == "corpus":
        bad = env.choice("corpus", ["good", "missing speaker", "no utterances", "two rates", "unknown speaker"])
        ok = bad == "good"
        missing = ("c",) if bad == "missing speaker" else ()
        if bad == "no utterances":
            sig["c"] = {}
        fs = {"a": 8, "b": 8, "c": 16} if bad == "two rates" else 8
    speakers = ["a", "b", "c"] + (["zz"] if cfg["options"] == "corpus" and bad == "unknown speaker" else [])

    def responses(kept, q):
        s = q["src_traj"].shape
        return torch.zeros((s[0], s[1], 6, q["nsample"]), dtype=torch.float64)
    with scratch() as d:
        root = Path(d) / "data" / "sets" / "mine"
        (Path(d) / "data" / "sets" / "mine2").mkdir(parents=True)
        (Path(d) / "data" / "sets" / "mine2" / "keep.wav").write_bytes(b"other")
        (Path(d) / "data" / "keep.txt").write_bytes(b"outer")
        (Path(d) / "cmu").mkdir()
        (Path(d) / "cmu" / "corpus.wav").write_bytes(b"corpus")
        if existing in ("later scenes", "notes", "hidden file"):
            root.mkdir(parents=True)
            old = {"later scenes": root / "scene_0003" / "mixture.wav", "notes": root / "notes.txt", "hidden file": root / ".recipe"}[existing]
            old.parent.mkdir(exist_ok=True)
            old.write_bytes(b"old")
        elif existing != "nothing":
            (root / "scene_0000").mkdir(parents=True)
            (root / "scene_0007").mkdir()
        if existing == "files":
            (root / "scene_0000" / "mixture.wav").write_bytes(b"old")
            (root / "scene_0007" / "mixture.wav").write_bytes(b"old")
            (root / "notes.txt").write_bytes(b"mine")
            os.symlink(Path(d) / "data" / "keep.txt", root / "link")
        before = tree(d)
        args = dict(cmu_root=Path(d) / "cmu", dataset_root=root, speakers=speakers, n_scenes=1, n_sources=1, n_moving_sources=0, duration_sec=0.3,
                    trajectory_steps=1, rir_samples=1, max_order=0, save_layout_mp4=False, save_layout_images=False, overwrite=over)
        args.update(k)
        with surroundings(env, Corpus(sig, fs, missing=missing), responses, Middle(env, 999)) as kept, contained(d) as gone:
            r = env.call(lambda: build_dynamic_cmu_arctic_dataset(**args))
            after = tree(d)
        good = env.truth(ok)
        env.check("deletions stay in the dataset's own directory",
                  all(p == os.path.realpath(root) or p.startswith(os.path.realpath(root) + os.sep) for p in gone))
        own = os.path.join("data", "sets", "mine")
        mine = lambda p: p == own or p.startswith(own + os.sep)  # noqa: E731
        env.check("nothing else changes", {p: v for p, v in before.items() if not mine(p)} == {p: v for p, v in after.items() if not mine(p)})
        if not good:
            env.check("invalid options are refused", r.raised(ValueError, RuntimeError, FileNotFoundError, FileExistsError))
            env.check("and nothing is written or removed", before == after and not gone and not kept.audio)
            return
        if existing != "nothing" and not over:
            env.check("an existing dataset is refused", r.raised(FileExistsError))
            env.check("and left alone", before == after and not gone)
            return
        env.check("the dataset is built", r.ok)
        if r.ok:
            left = {p for p in after if mine(p)}
            n = len([p for p in left if os.path.basename(p).startswith("scene_") and os.path.dirname(p) == own])
            env.check("nothing of the old dataset remains", not any("scene_0007" in p or "scene_0003" in p or "notes" in p or ".recipe" in p or p.endswith("link") for p in left)
                      and after.get(os.path.join(own, "scene_0000", "mixture.wav")) != b"old" and n >= 1)


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=20000, time_s=700 if deep else 150, validate_max=4, query_ms=8000)
    groups = ["scenes", "sources", "steps", "duration", "ratios", "speeds", "corpus"] + [f"{g} {a}" for g in ("room", "centre") for a in "xyz"]
    cs = [Case(g, body, dict(options=g), **o) for g in groups]
    cs.append(Case("empty directory", body, dict(options="scenes", existing=["directories"]), **o))
    cs.append(Case("other contents", body, dict(options="scenes", existing=["later scenes", "notes", "hidden file"]), **o))
    if deep:
        cs += [Case("scenes and sources", body, dict(options="scenes sources"), **o), Case("steps and duration", body, dict(options="steps duration"), **o),
               Case("ratios and speeds", body, dict(options="ratios speeds"), **o), Case("speeds and room", body, dict(options="speeds room x"), **o)]
    return cs
