import os
from pathlib import Path

from engine.run import Case
from checks import _draw
from checks._draw import same, scene, whole
from checks._tar import scratch

EXPLANATION = ("the plotting, animation and sound-muxing code runs against recorders for matplotlib, the sound file library and the "
               "encoder, with symbolic trajectories, strides, durations, samples and channel numbers and every operation failing in turn")
OUTSIDE = ["what matplotlib and ffmpeg make of the data they are given", "trajectories of sources and microphones with different step counts",
           "a crash of the process itself between two file operations"]
ASSUMPTIONS = ["ffmpeg writes its last argument from its -i inputs and reports failure by its exit status",
               "an encoder failure in the animation writer is the animation writer's affair (the file it was writing may be incomplete)"]


OPS = ["none", "figure", "axes", "scatter", "plot", "text", "title", "legend", "set_size_inches", "savefig", "save", "close"]
class Failure(Exception):
    """an exception type of an optional dependency that the library cannot know"""


EXC = {"Failure": Failure, "RuntimeError": RuntimeError, "ImportError": ImportError, "OSError": OSError, "MemoryError": MemoryError}


def saving(env, cfg):
    """every optional picture: failures are reported, never raised; without failure the right files with the right contents"""
    import torchrir.viz.io as vio
    dim, T = env.choice("dim", [2, 3]), cfg["T"]
    what = cfg["what"]
    op = env.choice("failing", OPS)
    nth = env.choice("nth", [0, 1]) if op not in ("none", "close") else 0
    exc = EXC[env.choice("error", cfg["errors"])] if op != "none" else RuntimeError
    has = env.choice("trajectories", ["both", "none"] if what in ("plots", "layout") else ["both"])
    moving = {"both": ("src", "mic"), "none": ()}[has]
    room, src, mic, st, mt = scene(env, dim, T, 2, 1, moving)
    log = _draw.Log()
    fault = _draw.Fault(op, nth, exc)
    flags = dict(a=env.choice("2d", [True, False]), b=env.choice("3d", [True, False])) if op == "none" and what in ("plots", "layout") else dict(a=True, b=True)
    with scratch() as d, _draw.world(env, _draw.World(fault)) as w:
        out = Path(d) / "out"
        os.mkdir(out)
        common = dict(out_dir=out, room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt, logger=log)
        if what == "plots":
            r = env.call(lambda: vio.save_scene_plots(prefix="p", show=False, plot_2d=flags["a"], plot_3d=flags["b"], **common))
            names = [f"p_{k}_{v}d.png" for v in (2, 3) if v <= dim and flags["a" if v == 2 else "b"] for k in (["static", "dynamic"] if moving else ["static"])]
        elif what == "layout":
            r = env.call(lambda: vio.save_scene_layout_images(save_2d=flags["a"], save_3d=flags["b"], **common))
            names = [f"room_layout_{v}d.png" for v in (2, 3) if v <= dim and flags["a" if v == 2 else "b"]]
        elif what == "gifs":
            r = env.call(lambda: vio.save_scene_gifs(prefix="g", signal_len=8, fs=4, gif_fps=env.choice("gif_fps", [0, 3]), **common))
            names = ["g.gif"] + (["g_3d.gif"] if dim == 3 else [])
        else:
            s3 = env.choice("save_3d", [True, False])
            r = env.call(lambda: vio.save_scene_videos(signal_len=8, fs=4, save_3d=s3, **common))
            names = ["room_layout_2d.mp4"] + (["room_layout_3d.mp4"] if dim == 3 and s3 else [])
        env.check("nothing is raised", r.ok)
        files = sorted(os.listdir(out))
        env.check("no other files", set(files) <= set(names) and os.listdir(d) == ["out"])
        if fault.hit:
            env.check("the failure is reported", log.warned())
            return
        env.check("no warning without a failure", not log.warned())
        env.check("all files are written", files == sorted(names))
        env.check("each file is announced", sorted(str(x) for n, a in log.lines for x in a[1:]) == sorted(str(out / n) for n in names))
        s, m = whole(st, src, T), whole(mt, mic, T)
        for path, fig in w.saved:
            ax = fig.axes[0]
            vd = 3 if path.endswith("3d.png") else 2
            env.check("view", ax.dim == vd)
            tx = ax.of("text")
            env.check("source labels", [t.text for t in tx] == ["S0", "S1"])
            for j, t in enumerate(tx):
                for c in range(vd):
                    env.eq("label at its source", t.xyz[c], src[j, c])
            if "static" in path or not moving:
                sc = [a for a in ax.of("scatter")]
                env.check("sources and microphones are drawn", sorted(a.kw.get("label") for a in sc) == ["mics", "sources"])
                for a in sc:
                    same(env, "drawn where they are", a.snapshot(), [(src if a.kw["label"] == "sources" else mic)[:, c] for c in range(vd)])
            elif has == "both" and "layout" not in what:
                pass
        for v in w.videos:
            vd = 3 if "_3d." in v.path else 2
            env.check("view", v.axes.dim == vd)
            env.check("one frame per step", len(v.frames) == T)
            if len(v.frames) == T:
                for k in range(T):
                    same(env, "sources at the frame's step", v.frames[k][0][0], [s[k, :, c] for c in range(vd)])
                    same(env, "microphones at the frame's step", v.frames[k][0][1], [m[k, :, c] for c in range(vd)])


ENC = ["ok", "absent", "fails early", "fails late", "raises", "raises late", "ok without output", "interrupted"]


def sound(env, cfg):
    """adding sound: the video survives, nothing is left behind, the right channels are used"""
    import torchrir.viz as viz
    import torchrir.viz.io as vio
    n, ch = cfg["n"], env.choice("channels", cfg["ch"])
    enc = env.choice("encoder", ENC)
    op = env.choice("failing", ["none", "read", "write"]) if enc == "ok" else "none"
    present = env.choice("recording", [True, False]) if enc == "ok" and op == "none" else True
    direct = env.choice("called", ["animate", "save"])
    room, src, mic, st, mt = scene(env, 2, 2, 1, 1)
    fault = _draw.Fault(op, 0, OSError)
    w = _draw.World(fault)
    w.encoder = enc
    data = env.tensor("samples", (n, ch), -1.0, 1.0)
    fs = env.int("fs", 8000, 48000)
    w.recording = (data.numpy() if not env.symbolic else data.numpy(), fs)
    l, r_ = (0, 1)
    if direct == "animate" and enc == "ok" and op == "none":
        l, r_ = int(env.int("left", -1, 3)), int(env.int("right", -1, 3))
    with scratch() as d, _draw.world(env, w):
        out, rec = Path(d) / "v.mp4", Path(d) / "mixture.wav"
        if direct == "save":
            out = Path(d) / "room_layout_2d.mp4"
        if present:
            rec.write_bytes(b"mixture")
        log = _draw.Log()
        from torchrir.viz import animation as an
        old, an.LOGGER = an.LOGGER, log
        try:
            if direct == "animate":
                r = env.call(lambda: guarded(lambda: viz.animate_scene_mp4(out_path=out, room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt,
                                                                           mixture_path=rec, audio_channels=(l, r_))))
            else:
                r = env.call(lambda: guarded(lambda: vio.save_scene_videos(out_dir=Path(d), room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt,
                                                                           signal_len=4, fs=2, logger=log, mixture_path=rec)))
        finally:
            an.LOGGER = old
        if direct == "save":
            env.check("nothing is raised", r.ok)
        files = sorted(os.listdir(d))
        env.check("only the video remains beside the recording", files == sorted([out.name] + (["mixture.wav"] if present else [])))
        env.check("the recording is untouched", not present or rec.read_bytes() == b"mixture")
        video = out.read_bytes() if out.exists() else None
        good = present and enc == "ok" and not fault.hit and ch > 0
        env.check("the video has sound if and only if adding it worked", video == (b"muxed:silent+audio" if good else b"silent"))
        if not good:
            env.check("missing sound is reported", log.warned() or not r.ok or enc == "interrupted" or r.value == "interrupted")
            return
        env.check("done", r.ok and len(w.audio) == 1)
        if len(w.audio) != 1:
            return
        _p, st_, rate_ = w.audio[0]
        env.check("sampling rate", rate_ == fs)
        env.check("stereo", tuple(st_.shape) == (n, 2))
        if tuple(st_.shape) != (n, 2):
            return
        valid = ch > 1 and env.truth(env.And(l >= 0, l < ch, r_ >= 0, r_ < ch))
        a, b = (int(l), int(r_)) if valid else (0, min(1, ch - 1))
        for t in range(n):
            env.eq("left", st_[t, 0], data[t, a])
            env.eq("right", st_[t, 1], data[t, b])


def guarded(f):
    try:
        return f()
    except KeyboardInterrupt:
        return "interrupted"


def cases(tier):
    q = tier == "quick"
    out = []
    for what in ("plots", "layout", "gifs", "videos"):
        out.append(Case("saving-" + what, saving, dict(what=what, T=2, errors=["Failure", "ImportError"] if q else list(EXC)), max_paths=900))
    out.append(Case("sound", sound, dict(n=2, ch=[1, 2, 3] if q else [0, 1, 2, 3, 4]), max_paths=900))
    return out
