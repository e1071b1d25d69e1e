from pathlib import Path
import os

from engine.run import Case
from checks import _draw
from checks._draw import same, scene, whole
from checks._tar import scratch

EXPLANATION = ("the plotting and animation code runs against recorders for matplotlib with symbolic rooms, positions, trajectories, strides, "
               "rates and durations; the solver compares the coordinates of everything drawn with the geometry given")
OUTSIDE = ["what matplotlib makes of the data it is given (colours, markers, rendering)",
           "trajectories of sources and microphones with different step counts"]


def frames(env, cfg):
    """each frame shows the positions and paths up to its step"""
    import torch
    import torchrir.viz as viz
    dim, T, ns, nm = cfg["dim"], cfg["T"], cfg["ns"], cfg["nm"]
    room, src, mic, st, mt = scene(env, dim, T, ns, nm, cfg.get("moving", ("src", "mic")))
    step = env.int("step", 1, T + 1)
    view = env.choice("view", ["2d", "3d"] if dim == 3 else ["2d"])
    kind = env.choice("kind", ["gif", "mp4"])
    with scratch() as d, _draw.world(env, _draw.World()) as w:
        out = Path(d) / "sub" / ("x." + kind)
        f = viz.animate_scene_gif if kind == "gif" else viz.animate_scene_mp4
        r = env.call(lambda: f(out_path=out, room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt, step=step,
                               plot_2d=view == "2d", plot_3d=view == "3d", duration_s=cfg.get("duration"),
                               annotation_lines=cfg.get("lines")))
        env.check("an animation is written", r.ok and out.exists() and len(w.videos) == 1)
        if not r.ok or len(w.videos) != 1:
            return
        env.check("its path is returned", str(r.value) == str(out) == w.videos[0].path)
        env.check("only that file is written", sorted(os.listdir(out.parent)) == [out.name] and os.listdir(d) == ["sub"])
        v = w.videos[0]
        vd = 3 if view == "3d" else 2
        env.check("axes", v.axes.dim == vd)
        for ax, k in zip("xyz"[:vd], range(vd)):
            lim = v.axes.limits.get(ax)
            env.check("axis limits", lim is not None and len(lim) == 2)
            env.eq("axis limits are the room", lim[1] - lim[0], room[k])
        n = len(v.frames)
        s, m = whole(st, src, T), whole(mt, mic, T)
        env.check("the frames reach as far as the stride allows", env.And((n - 1) * step <= T - 1, n * step > T - 1))
        for i, (sc, ln, tx) in enumerate(v.frames):
            idx = i * step
            k = int(idx)
            env.check("two scatters and a line per entity", len(sc) == 2 and len(ln) == ns + nm)
            if len(sc) != 2 or len(ln) != ns + nm or k >= T:
                return
            same(env, "sources at the frame's step", sc[0], [s[k, :, c] for c in range(vd)])
            same(env, "microphones at the frame's step", sc[1], [m[k, :, c] for c in range(vd)])
            for j in range(ns):
                same(env, "source path so far", ln[j], [s[:k + 1, j, c] for c in range(vd)])
            for j in range(nm):
                same(env, "microphone path so far", ln[ns + j], [m[:k + 1, j, c] for c in range(vd)])
            env.check("source labels", [t for _p, t in tx] == [f"S{j}" for j in range(ns)])
            for j, (p, _t) in enumerate(tx):
                env.check("label coordinates", len(p) == vd)
                for c in range(vd):
                    env.eq("label at its source", p[c], s[k, j, c])
        if cfg.get("lines"):
            env.check("annotation", [a.text for a in v.axes.of("note")] == ["one\ntwo"])


def rate(env, cfg):
    """the frame rate follows the given rate, or the duration"""
    import torchrir.viz as viz
    T = cfg["T"]
    room, src, mic, st, mt = scene(env, 2, T, 1, 1)
    step = env.int("step", 1, T)
    how = env.choice("given", ["duration", "length", "fps", "zero fps", "nothing", "both"])
    kw, dur, fps = {}, None, None
    if how in ("duration", "zero fps", "both"):
        dur = kw["duration_s"] = env.real("duration", 0.3, 6.0)
    if how == "length":
        n, fs = env.int("signal_len", 1, 40), env.real("fs", 8.0, 12.0)
        kw.update(signal_len=n, fs=fs)
        dur = n / fs
        env.assume(dur >= 0.3)
    if how in ("fps", "both"):
        fps = kw["fps"] = env.real("fps", 0.1, 12.0)
    if how == "zero fps":
        kw["fps"] = 0
    kind = env.choice("kind", ["gif", "mp4"])
    with scratch() as d, _draw.world(env, _draw.World()) as w:
        f = viz.animate_scene_gif if kind == "gif" else viz.animate_scene_mp4
        r = env.call(lambda: f(out_path=Path(d) / "x.out", room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt, step=step, **kw))
        env.check("an animation is written", r.ok and len(w.videos) == 1)
        if not r.ok or len(w.videos) != 1:
            return
        v = w.videos[0]
        n = len(v.frames)
        env.check("at least one frame per second", v.fps >= 1)
        if fps is not None:
            low, err = fps, 0.5
        elif dur is not None:
            # n / dur within half a frame, multiplied by the duration
            env.check("the animation lasts as long as the signal",
                      env.Or(env.And(v.fps * dur - n <= 0.5 * dur + 1e-6, n - v.fps * dur <= 0.5 * dur + 1e-6), env.And(v.fps == 1, n <= dur)))
            return
        else:
            env.check("six frames per second", v.fps == 6)
            return
        env.check("the requested rate", env.Or(env.And(v.fps - low <= err + 1e-6, low - v.fps <= err + 1e-6), env.And(v.fps == 1, low <= 1)))


def paths(env, cfg):
    """drawn trajectories are the given ones at every step-th step"""
    import torchrir.viz.io as vio
    dim, T = cfg["dim"], cfg["T"]
    room, src, mic, st, mt = scene(env, dim, T, 1, 2, cfg["moving"])
    # one entity leaves its place at some step
    at = env.choice("moves at step", list(range(T)))
    for tr, pos in ((st, src), (mt, mic)):
        if tr is not None:
            env.assume(tr[at, 0, 0] - pos[0, 0] >= 0.01)
    step = env.int("step", 1, T + 1)
    with scratch() as d, _draw.world(env, _draw.World()) as w:
        r = env.call(lambda: vio.render_scene_plots(out_dir=Path(d) / "o", room=room, sources=src, mics=mic, src_traj=st, mic_traj=mt, step=step))
        env.check("drawn", r.ok)
        if not r.ok:
            return
        a, b = r.value
        want = [2, 3] if dim == 3 else [2]
        env.check("paths", [str(p) for p in a] == [str(Path(d) / "o" / f"scene_static_{v}d.png") for v in want])
        env.check("paths", [str(p) for p in b] == [str(Path(d) / "o" / f"scene_dynamic_{v}d.png") for v in want])
        k = int(step)
        for path, fig in w.saved:
            if "dynamic" not in path:
                continue
            ax = fig.axes[0]
            vd = 3 if path.endswith("3d.png") else 2
            lines = [p for p in ax.of("plot") if p.kw.get("markevery") is not None or p.kw.get("label") is not None]
            trajs = ([st[:, j] for j in range(1)] if st is not None else []) + ([mt[:, j] for j in range(2)] if mt is not None else [])
            env.check("one line per moving entity", len(lines) == len(trajs))
            for p, t in zip(lines, trajs):
                same(env, "the path", p.snapshot(), [t[::k, c] for c in range(vd)])


def near(env, p, q):
    return env.And(*[env.And(a - b <= 1e-6, b - a <= 1e-6) for a, b in zip(p, q)])


def points(a):
    """the points of one artist"""
    import torch
    xs = [torch.as_tensor(x) for x in a.snapshot()]
    return [[x.reshape(-1)[i] for x in xs] for i in range(xs[0].numel())]


def cover(env, name, pts, want):
    env.check(name + ": all are drawn", env.And(*[env.Or(*[near(env, p, q) for p in pts]) if pts else env.truth(False) for q in want]))
    env.check(name + ": nothing else is drawn", env.And(*[env.Or(*[near(env, p, q) for q in want]) for p in pts]))


def rows(t, vd):
    return [[t[j, c] for c in range(vd)] for j in range(t.shape[0])]


def outline(env, ax, room, lines):
    """the twelve edges of the box"""
    import itertools
    import torch
    dim = ax.dim
    for a, k in zip("xyz"[:dim], range(dim)):
        lim = ax.limits.get(a)
        env.check("axis limits", lim is not None and len(lim) == 2)
        env.check("axis limits are the room", env.And(near(env, [lim[0]], [0.0]), near(env, [lim[1]], [room[k]])))
    if dim == 3:
        env.check("twelve edges", len(lines) == 12)
        got = set()
        for a in lines:
            ends = []
            for w in (0, 1):
                # which corner of the room is it?  (the outline is kept in single precision)
                c = []
                for k, x in enumerate(a.snapshot()):
                    x = torch.as_tensor(x[w])
                    side = env.truth(x >= 0.5 * room[k])
                    side = 1 if side else 0
                    env.check("corners of the room", env.And(x - side * room[k] <= 1e-4, side * room[k] - x <= 1e-4))
                    c.append(side)
                ends.append(tuple(c))
            got.add(tuple(sorted(ends)))
        want = {tuple(sorted((p, q))) for p in itertools.product((0, 1), repeat=3) for q in itertools.product((0, 1), repeat=3)
                if sum(u != v for u, v in zip(p, q)) == 1}
        env.check("every edge of the room is drawn", got == want)


def given(env, how, room, src, mic):
    """the same scene as objects, tensors or nested lists"""
    from torchrir.models import MicrophoneArray, Room, Source
    if how == "objects":
        return Room(room, 16000.0, beta=[0.5] * (2 * room.numel())), Source(src), MicrophoneArray(mic)
    if how == "lists":
        return [room[k] for k in range(room.numel())], [[x for x in r] for r in src], [[x for x in r] for r in mic]
    return room, src, mic


def still(env, cfg):
    """a static plot"""
    import torchrir.viz as viz
    dim, ns, nm = cfg["dim"], cfg["ns"], cfg["nm"]
    room, src, mic, _s, _m = scene(env, dim, 1, ns, nm, ())
    how = env.choice("given as", ["objects", "tensors"] + ([] if env.symbolic and not cfg.get("lists") else ["lists"]))
    labels = env.choice("labels", [True, False])
    note = env.choice("note", [None, ["one ", "", "two"]])
    own = env.choice("own axes", [False, True])
    with _draw.world(env, _draw.World()) as w:
        ax0 = _draw.Axes(w, _draw.Figure(w), dim) if own else None
        R, S, M = given(env, how, room, src, mic)
        r = env.call(lambda: viz.plot_scene_static(room=R, sources=S, mics=M, ax=ax0, title="T", annotate_sources=labels, annotation_lines=note))
        env.check("drawn", r.ok)
        if not r.ok:
            return
        ax = r.value
        env.check("on the given axes", ax is ax0 or not own)
        env.check("dimensions", ax.dim == dim)
        check_scene(env, ax, room, src, mic, src, labels, note, dim)
        if labels and not note:
            outline(env, ax, room, ax.of("plot"))


def check_scene(env, ax, room, src, mic, at, labels, note, dim):
    sc = ax.of("scatter") + [a for a in ax.of("plot") if a.kw.get("label") is not None]
    named = {n: [a for a in sc if a.kw.get("label") == n] for n in ("sources", "mics")}
    env.check("one legend entry each", all(len(v) == 1 for v in named.values()))
    if not all(len(v) == 1 for v in named.values()):
        return None
    mark = {n: v[0].kw.get("marker") for n, v in named.items()}
    env.check("sources and microphones look different", mark["sources"] != mark["mics"])
    for n, want in (("sources", src), ("mics", mic)):
        pts = [p for a in ax.of("scatter") if a.kw.get("marker") == mark[n] for p in points(a)]
        cover(env, n, pts, rows(want, dim))
    tx = ax.of("text")
    env.check("source labels", [t.text for t in tx] == ([f"S{j}" for j in range(at.shape[0])] if labels else []))
    for j, t in enumerate(tx):
        env.check("label coordinates", len(t.xyz) == dim)
        for c in range(dim):
            env.eq("label at its source", t.xyz[c], at[j, c])
    env.check("annotation", [a.text for a in ax.of("note")] == (["one\ntwo"] if note else []))
    env.check("title", ax.title == "T")
    return mark


def moves(env, cfg):
    """a trajectory plot drawn directly: positions given or not, moving or not"""
    import torchrir.viz as viz
    dim, T, ns, nm = cfg["dim"], cfg["T"], cfg["ns"], cfg["nm"]
    room, src, mic, st, mt = scene(env, dim, T, ns, nm)
    step = int(env.int("step", 1, T))
    pos = env.choice("positions", [False, True])
    labels = env.choice("labels", [True, False])
    note = env.choice("note", [None, ["one ", "", "two"]]) if labels else None
    kind = {}
    for n, t, p in (("sources", st, src), ("mics", mt, mic)):
        kind[n] = env.choice(n + " move", [True, False])
        ref = p if pos else t[0]
        if kind[n]:
            # one of them moves, along the last axis
            env.assume(t[T - 1, -1, dim - 1] - ref[-1, dim - 1] >= 0.01)
        else:
            t = ref.unsqueeze(0).repeat(T, 1, 1)
            if n == "sources":
                st = t
            else:
                mt = t
    with _draw.world(env, _draw.World()) as w:
        kw = dict(src_pos=src, mic_pos=mic) if pos else {}
        r = env.call(lambda: viz.plot_scene_dynamic(room=room, src_traj=st, mic_traj=mt, step=step, title="T", annotate_sources=labels,
                                                    annotation_lines=note, **kw))
        env.check("drawn", r.ok)
        if not r.ok:
            return
        ax = r.value
        s0, m0 = (src, mic) if pos else (st[0], mt[0])
        mark = check_scene(env, ax, room, s0, m0, s0, labels, note, dim)
        if mark is None:
            return
        lines = [a for a in ax.of("plot") if a.kw.get("label") is not None]
        for n, t in (("sources", st), ("mics", mt)):
            mine = [a for a in lines if a.kw.get("marker") == mark[n]]
            env.check("a path for every moving entity, none for the others", len(mine) == (t.shape[1] if kind[n] else 0))
            if len(mine) == t.shape[1]:
                for j, a in enumerate(mine):
                    same(env, "the path", a.snapshot(), [t[::step, j, c] for c in range(dim)])
        if step == 1 and pos and not note:
            outline(env, ax, room, [a for a in ax.of("plot") if a.kw.get("label") is None])


def refused(env, cfg):
    """a trajectory without the entity axis is refused"""
    import torchrir.viz as viz
    room, src, mic, st, mt = scene(env, 2, 3, 1, 1)
    which = env.choice("flat", ["src", "mic"])
    with _draw.world(env, _draw.World()):
        r = env.call(lambda: viz.plot_scene_dynamic(room=room, src_traj=st[:, 0] if which == "src" else st, mic_traj=mt[:, 0] if which == "mic" else mt))
        env.check("refused", r.raised(ValueError))


def cases(tier):
    q = tier == "quick"
    out = []
    for dim, T, ns, nm in ((2, 3, 2, 1), (3, 4, 1, 2)) if q else ((2, 3, 2, 1), (3, 4, 1, 2), (3, 6, 2, 2), (2, 8, 1, 1)):
        out.append(Case(f"frames-{dim}d-{T}", frames, dict(dim=dim, T=T, ns=ns, nm=nm, duration=2.0), weight=2))
    out.append(Case("frames-source-only", frames, dict(dim=2, T=3, ns=1, nm=2, moving=("src",), lines=["one ", "", "two"])))
    out.append(Case("frames-mic-only", frames, dict(dim=3, T=2, ns=2, nm=1, moving=("mic",))))
    out.append(Case("frames-one-step", frames, dict(dim=2, T=1, ns=1, nm=1, duration=1.0)))
    out.append(Case("rate", rate, dict(T=3 if q else 6)))
    out.append(Case("paths-2d", paths, dict(dim=2, T=3 if q else 6, moving=("src", "mic"))))
    out.append(Case("paths-3d", paths, dict(dim=3, T=4 if q else 7, moving=("src", "mic"))))
    for m in ("src", "mic"):
        out.append(Case("paths-only-" + m, paths, dict(dim=3, T=3, moving=(m,))))
    for dim, ns, nm in ((2, 2, 3), (3, 2, 1)) if q else ((2, 2, 3), (3, 2, 1), (3, 3, 4)):
        out.append(Case(f"still-{dim}d-{ns}-{nm}", still, dict(dim=dim, ns=ns, nm=nm)))
        out.append(Case(f"moves-{dim}d-{ns}-{nm}", moves, dict(dim=dim, T=3 if q else 4, ns=ns, nm=nm)))
    out.append(Case("refused", refused, {}))
    return out
