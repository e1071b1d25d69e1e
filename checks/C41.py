import argparse
import contextlib
import logging
import os
import sys
from pathlib import Path

from engine.run import Case
from checks._tar import scratch

EXPLANATION = ("the command line entry point runs with its real parser; every parsed number is then replaced by a symbolic one, "
               "every flag is present or absent symbolically, and the solver compares what the builder is asked for")
OUTSIDE = ["how argparse reads the digits of a number", "abbreviated option names", "what the builder does with its arguments (C30, C31, C32)"]

INTS = dict(n_scenes=11, n_sources=12, n_moving_sources=13, trajectory_steps=14, rir_samples=15, max_order=16, seed=17)
REALS = dict(duration_sec=100.5, octa_edge_m=101.5, rt60=102.5, sound_speed=103.5, layout_video_fps=104.5)
TRIPLES = dict(room_size="room-size", mic_center="mic-center", source_margin="source-margin")
# option that switches it on (or None), option that switches it off (or None), parameter of the builder, value when neither is given
FLAGS = [("download-cmu", "no-download-cmu", "download_cmu", False), ("overwrite-dataset", None, "overwrite", False),
         ("randomize-mic-center", "no-randomize-mic-center", "randomize_mic_center", True),
         ("save-layout-mp4", "no-save-layout-mp4", "save_layout_mp4", True),
         ("save-layout-mp4-3d", "no-save-layout-mp4-3d", "save_layout_mp4_3d", True),
         (None, "layout-video-no-audio", "layout_video_mux_audio", True),
         ("save-layout-images", "no-save-layout-images", "save_layout_images", True),
         ("save-layout-images-3d", "no-save-layout-images-3d", "save_layout_images_3d", True),
         (None, "no-annotate-source-indices", "annotate_source_indices", True)]


def opt(name):
    return "--" + name.replace("_", "-")


@contextlib.contextmanager
def cli(env, argv, values, asked):
    """main() with these arguments; numbers equal to a placeholder become the symbolic value of that option"""
    import torchrir.datasets.dynamic_cmu_arctic as m
    undo = []

    def put(o, n, v):
        undo.append((o, n, vars(o).get(n, undo)))
        setattr(o, n, v)
    real = argparse.ArgumentParser.parse_known_args
    place = {ph: values[n] for n, ph in {**INTS, **REALS}.items() if n in values}

    def parse(self, *a, **k):
        ns, rest = real(self, *a, **k)
        for n, v in list(vars(ns).items()):
            if type(v) in (int, float) and v in place:
                setattr(ns, n, place[v])
        return ns, rest
    put(argparse.ArgumentParser, "parse_known_args", parse)
    put(sys, "argv", ["prog"] + argv)
    put(logging, "basicConfig", lambda **k: None)
    put(m, "build_dynamic_cmu_arctic_dataset", lambda **k: (asked.append(k), (16000, 6))[1])
    if env.symbolic:
        def to_int(x=0, *a):
            if hasattr(x, "e"):
                return env.ite(x >= 0, env.floor(x), -1 * env.floor(-1 * x))
            return int(x, *a)

        def to_float(x=0.0):
            return x if hasattr(x, "e") else float(x)
        put(m, "int", to_int)
        put(m, "float", to_float)
    try:
        yield m
    finally:
        for o, n, v in reversed(undo):
            if v is undo:
                delattr(o, n)
            else:
                setattr(o, n, v)


def run(env, argv, values):
    asked = []
    with cli(env, argv, values, asked) as m:
        r = env.call(m.main)
    return r, asked


def defaults():
    """the builder's own defaults"""
    import inspect
    import torchrir.datasets.dynamic_cmu_arctic as m
    return {k: p.default for k, p in inspect.signature(m.build_dynamic_cmu_arctic_dataset).parameters.items()}


def compare(env, k, want, base):
    """k: what the builder was asked for; want: what the command line says; base: the defaults"""
    for n, v in want.items():
        env.check(f"{n} is passed on", n in k)
        if n in k:
            if isinstance(v, (bool, str, list, Path)) or v is None:
                got = list(k[n]) if isinstance(v, list) else k[n]
                env.check(f"{n} arrives", bool(got == v) if not isinstance(v, bool) else env.Iff(env.truth(got), env.truth(v)))
            elif isinstance(v, tuple):
                env.check(f"{n} arrives", len(k[n]) == len(v) and all(float(a) == b for a, b in zip(k[n], v)))
            else:
                env.check(f"{n} arrives", k[n] is not None and env.truth(env.And(k[n] - v <= 0, v - k[n] <= 0)))
    for n, v in k.items():
        if n in want:
            continue
        env.check(f"{n} keeps its default", n in base)
        d = base.get(n)
        same = tuple(map(float, v)) == tuple(map(float, d)) if n in TRIPLES else (
            list(v) == list(d) if n == "speakers" else Path(v).resolve() == Path(d).resolve() if n.endswith("_root") else v == d and (v is None) == (d is None))
        env.check(f"{n} keeps its default", bool(same))


def numbers(env, cfg):
    """any subset of the numeric options, in any position"""
    names = cfg["names"]
    values, argv = {}, ["--cmu-root", "root"]
    for n in names:
        if bool(env.bool(n + " given")):
            values[n] = env.int(n, -3, 5000) if n in INTS else env.real(n, -5.0, 1000.0)
            argv = (argv + [opt(n), str(INTS.get(n, REALS.get(n)))]) if len(values) % 2 else ([opt(n), str(INTS.get(n, REALS.get(n)))] + argv)
    r, asked = run(env, argv, values)
    env.check("the builder is asked once", r.ok and len(asked) == 1)
    if len(asked) == 1:
        compare(env, asked[0], dict(values, cmu_root=Path("root").resolve()), defaults())


def edges(env, cfg):
    """the parser itself: edge values of each option, unsubstituted"""
    n = env.choice("option", cfg["names"])
    v = env.choice("value", [-7, -1, 0, 1, 2, 65536] if n in INTS else [-0.25, 0.0, 1e-3, 0.5, 7.0, 25000.0])
    r, asked = run(env, ["--cmu-root", "root", opt(n), str(v)], {})
    env.check("the builder is asked once", r.ok and len(asked) == 1)
    if len(asked) == 1:
        compare(env, asked[0], {n: v, "cmu_root": Path("root").resolve()}, defaults())


def flags(env, cfg):
    """every flag on, off or not given"""
    argv, want = ["--cmu-root", "root"], {}
    for on, off, name, dflt in [f for f in FLAGS if f[2] in cfg["names"]]:
        how = env.choice(name, ["absent"] + (["on"] if on else []) + (["off"] if off else []) + (["on, then off", "off, then on"] if on and off else []))
        toks = {"absent": [], "on": [on], "off": [off], "on, then off": [on, off], "off, then on": [off, on]}[how]
        argv += ["--" + t for t in toks]
        want[name] = dflt if not toks else toks[-1] == on
    r, asked = run(env, argv, {})
    env.check("the builder is asked once", r.ok and len(asked) == 1)
    if len(asked) == 1:
        compare(env, asked[0], dict(want, cmu_root=Path("root").resolve()), defaults())


TEXTS = [("1.5,2.5,3.5", (1.5, 2.5, 3.5)), (" 4, 5 ,6e-1 ", (4.0, 5.0, 0.6)), ("1,2", None), ("1,2,3,4", None), ("", None), ("1,x,3", None), ("7;8;9", None)]


def triples(env, cfg):
    """comma-separated triples: three numbers or an error before anything is built"""
    argv, want, bad = ["--cmu-root", "root"], {}, False
    which = env.choice("option", list(TRIPLES))
    t, v = env.choice("text", TEXTS)
    for n in TRIPLES:
        text, val = (t, v) if n == which else env.choice(n, [(None, None), ("10,20,30", (10.0, 20.0, 30.0))])
        if text is not None:
            argv += [opt(n) + "=" + text]
            want[n] = val
            bad = bad or val is None
    r, asked = run(env, argv, {})
    env.check("refused exactly when it is not three numbers", r.raised(ValueError, SystemExit) if bad else r.ok)
    env.check("nothing is built from a bad triple", len(asked) == (0 if bad else 1))
    if len(asked) == 1 and not bad:
        compare(env, asked[0], dict(want, cmu_root=Path("root").resolve()), defaults())


def places(env, cfg):
    """roots and speakers"""
    argv, want = [], {}
    home = env.choice("home", [False, True])
    with scratch() as d:
        old = os.environ.get("HOME")
        os.environ["HOME"] = str(d)
        try:
            for n in ("cmu_root", "dataset_root"):
                how = env.choice(n, ["relative", "absolute", "home"] + (["absent"] if n == "dataset_root" else []))
                text = {"relative": "x/../" + n, "absolute": str(Path(d) / n), "home": "~/" + n, "absent": None}[how]
                if text is not None:
                    argv += [opt(n), text]
                    want[n] = {"relative": Path(n).resolve(), "absolute": (Path(d) / n).resolve(), "home": (Path(d) / n).resolve()}[how]
            sp = env.choice("speakers", [None, ["slt"], ["rms", "bdl", "slt"]])
            if sp:
                argv += ["--speakers"] + sp
                want["speakers"] = sp
            if home:
                argv += ["--log-level", "debug"]
            r, asked = run(env, argv, {})
        finally:
            if old is None:
                del os.environ["HOME"]
            else:
                os.environ["HOME"] = old
        env.check("the builder is asked once", r.ok and len(asked) == 1)
        if len(asked) == 1:
            compare(env, asked[0], want, defaults())


def cases(tier):
    q = tier == "quick"
    out = []
    names = list(INTS) + list(REALS)
    if q:
        groups = [names[0:4], names[4:8], names[8:12], ["n_scenes", "seed", "rt60"], ["rir_samples", "trajectory_steps", "max_order"], ["duration_sec", "sound_speed"]]
        fgroups = [["download_cmu", "overwrite"], ["save_layout_mp4", "save_layout_mp4_3d"], ["save_layout_images", "save_layout_images_3d"],
                   ["randomize_mic_center", "layout_video_mux_audio", "annotate_source_indices"]]
    else:
        groups = [names[0:7], names[7:12] + ["seed", "n_scenes"], names[3:9]]
        fgroups = [["download_cmu", "overwrite", "randomize_mic_center", "layout_video_mux_audio"], ["save_layout_mp4", "save_layout_mp4_3d", "annotate_source_indices", "overwrite"],
                   ["save_layout_images", "save_layout_images_3d", "save_layout_mp4", "layout_video_mux_audio"]]
    for i, g in enumerate(groups):
        out.append(Case(f"numbers-{i}", numbers, dict(names=g), max_paths=900))
    for i, g in enumerate(fgroups):
        out.append(Case(f"flags-{i}", flags, dict(names=g), max_paths=900))
    out.append(Case("edges", edges, dict(names=names), max_paths=900))
    out.append(Case("triples", triples, {}, max_paths=900))
    out.append(Case("places", places, {}, max_paths=900))
    return out
