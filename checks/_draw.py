"""Stand-ins for matplotlib, soundfile and the encoder: everything drawn or encoded is recorded, the output files are real
files in a scratch directory, and any operation can be made to fail."""
import contextlib
import functools
import inspect
import os
import shutil
import subprocess
import sys
import types


class Fault:
    """the n-th operation of one kind fails"""

    def __init__(self, kind, nth=0, exc=RuntimeError):
        self.kind, self.left, self.exc, self.hit = kind, nth, exc, False

    def __call__(self, kind):
        if kind == self.kind:
            if self.left == 0:
                self.hit = True
                self.left -= 1
                raise self.exc("injected: " + kind)
            self.left -= 1


@functools.lru_cache(None)
def reals():
    import matplotlib.animation as an
    import matplotlib.axes as ax
    import matplotlib.figure as fg
    import matplotlib.lines as li
    import matplotlib.collections as co
    import matplotlib.text as tx
    import mpl_toolkits.mplot3d as m3
    import mpl_toolkits.mplot3d.art3d as a3
    return {"axes": (ax.Axes, m3.Axes3D), "figure": (fg.Figure,) * 2, "anim": (an.FuncAnimation,) * 2, "scatter": (co.PathCollection, a3.Path3DCollection),
            "plot": (li.Line2D, a3.Line3D), "text": (tx.Text, a3.Text3D), "note": (tx.Text,) * 2}


def real(what, dim):
    """the class the recorder stands in for"""
    return reals().get(what, (None, None))[dim == 3]


@functools.lru_cache(None)
def signature(cls, n):
    try:
        return inspect.signature(getattr(cls, n))
    except (TypeError, ValueError):
        return None


def like_the_real(what, dim, n, a, k):
    """the call must be one the real class accepts"""
    cls = real(what, dim)
    if cls is None:
        return
    if not hasattr(cls, n):
        raise AttributeError(f"{cls.__name__!r} object has no attribute {n!r}")
    sig = signature(cls, n)
    if sig is None:
        return
    try:
        sig.bind(None, *a, **k)
    except TypeError as e:
        raise TypeError(f"{cls.__name__}.{n}() {e}") from None


class Rec:
    """accepts every call the real object accepts"""
    dim = 2

    def __init__(self, world, what):
        self.__dict__.update(_world=world, _what=what, calls=[])

    def __getattribute__(self, n):
        v = object.__getattribute__(self, n)
        if n.startswith("_") or not inspect.ismethod(v) or n in ("of", "snapshot"):
            return v
        if real(self._what, self.dim) is not None and not hasattr(real(self._what, self.dim), n):
            raise AttributeError(n)

        def f(*a, **k):
            like_the_real(self._what, self.dim, n, a, k)
            return v(*a, **k)
        return f

    def __getattr__(self, n):
        if n.startswith("__") or real(self._what, self.dim) is not None and not hasattr(real(self._what, self.dim), n):
            raise AttributeError(n)

        def f(*a, **k):
            like_the_real(self._what, self.dim, n, a, k)
            self._world.fault(n)
            self.calls.append((n, a, k))
            return Rec(self._world, n)
        return f


class Artist(Rec):
    """a drawn object: its data as last set"""

    def __init__(self, world, what, data, kw):
        super().__init__(world, what)
        self.__dict__.update(xyz=[None if d is None else d for d in data], kw=kw, text=None)

    def set_offsets(self, o):
        self._world.fault("set_offsets")
        self.__dict__["xyz"] = [o[:, 0], o[:, 1]]

    def __setattr__(self, n, v):
        if n == "_offsets3d":
            self.__dict__["xyz"] = list(v)
        self.__dict__[n] = v

    def set_data(self, *xy):
        self.__dict__["xyz"] = list(xy[0] if len(xy) == 1 else xy) + self.xyz[2:]

    def set_xdata(self, x):
        self.xyz[0] = x

    def set_ydata(self, y):
        self.xyz[1] = y

    def set_data_3d(self, *xyz):
        self.__dict__["xyz"] = list(xyz[0] if len(xyz) == 1 else xyz)

    def set_3d_properties(self, z, *a, **k):
        self.__dict__["xyz"] = self.xyz[:2] + [z]

    def set_position(self, xy):
        self.__dict__["xyz"] = list(xy) + self.xyz[2:]

    def set_x(self, x):
        self.xyz[0] = x

    def set_y(self, y):
        self.xyz[1] = y

    def snapshot(self):
        return list(self.xyz)


class Axes(Rec):
    def __init__(self, world, fig, dim):
        super().__init__(world, "axes")
        self.__dict__.update(figure=fig, dim=dim, drawn=[], title=None, limits={}, transAxes="axes")

    def text2D(self, x, y, s, **k):
        return self._put("note", (x, y), s, k)

    def _put(self, what, data, text, kw):
        self._world.fault(what)
        a = Artist(self._world, what, data, kw)
        a.__dict__.update(text=text, dim=self.dim)
        self.drawn.append(a)
        return a

    def _xyz(self, a, k):
        a = list(a[:self.dim])
        return a + [k.pop(n) for n in ("x", "y", "xs", "ys", "zs") if n in k and len(a) < self.dim]

    def scatter(self, *a, **k):
        return self._put("scatter", self._xyz(a, k), None, k)

    def plot(self, *a, **k):
        return [self._put("plot", self._xyz(a, k), None, k)]

    scatter3D, plot3D = scatter, plot

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)

    def text(self, *a, **k):
        if k.get("transform") is not None:
            return self._put("note", a[:2], a[2], k)
        return self._put("text", a[:-1], a[-1], k)

    def set_title(self, t, **k):
        self._world.fault("title")
        self.__dict__["title"] = t

    def _limit(self, axis, a, k):
        if len(a) == 1 and hasattr(a[0], "__len__"):
            a = a[0]
        old = self.limits.get(axis, (0.0, 1.0))
        lo = [k[n] for n in ("left", "bottom", axis + "min") if n in k]
        hi = [k[n] for n in ("right", "top", axis + "max") if n in k]
        a = list(a) + [None] * (2 - len(a))
        a = [(lo or [None])[0] if a[0] is None else a[0], (hi or [None])[0] if a[1] is None else a[1]]
        self.limits[axis] = tuple(o if v is None else v for v, o in zip(a, old))

    def set_xlim(self, *a, **k):
        self._limit("x", a, k)

    def set_ylim(self, *a, **k):
        self._limit("y", a, k)

    def set_zlim(self, *a, **k):
        self._limit("z", a, k)

    set_xlim3d, set_ylim3d, set_zlim3d = set_xlim, set_ylim, set_zlim

    def axis(self, arg=None, *a, **k):
        if hasattr(arg, "__len__") and not isinstance(arg, str):
            for n, i in zip("xyz", range(0, len(arg), 2)):
                self._limit(n, arg[i:i + 2], {})

    def get_figure(self):
        return self.figure

    def of(self, what):
        return [a for a in self.drawn if a._what == what]


class Figure(Rec):
    def __init__(self, world):
        super().__init__(world, "figure")
        self.__dict__.update(axes=[])
        world.figures.append(self)

    def add_subplot(self, *a, projection=None, **k):
        self._world.fault("axes")
        ax = Axes(self._world, self, 3 if projection == "3d" else 2)
        self.axes.append(ax)
        return ax

    def savefig(self, path, **k):
        with open(path, "wb") as f:
            self._world.fault("savefig")
            f.write(b"image")
        self._world.saved.append((os.fspath(path), self))


def in_order(ax):
    """markers and lines, the sources' first, however the code drew them"""
    sc = sorted(ax.of("scatter"), key=lambda a: a.kw.get("label") == "mics")
    mics = {a.kw.get("color") for a in sc if a.kw.get("label") == "mics"} - {a.kw.get("color") for a in sc if a.kw.get("label") != "mics"}
    return sc, sorted(ax.of("plot"), key=lambda a: a.kw.get("color") in mics)


class Anim(Rec):
    def __init__(self, world, fig, func, frames=None, interval=200, **k):
        super().__init__(world, "anim")
        self.__dict__.update(fig=fig, func=func, n=frames, interval=interval, kw=k)

    def save(self, path, writer=None, fps=None, dpi=None, **k):
        with open(path, "wb") as f:
            f.write(b"part")
            self._world.fault("save")
        seq = self.n
        seq = range(seq) if hasattr(seq, "__index__") else list(seq)
        frames = []
        for i in seq:
            self.func(i)
            ax = self.fig.axes[0]
            sc, ln = in_order(ax)
            frames.append(([a.snapshot() for a in sc], [a.snapshot() for a in ln], [(a.snapshot(), a.text) for a in ax.of("text")]))
        if fps is None and isinstance(writer, Writer):
            fps = writer.fps
        with open(path, "wb") as f:
            f.write(b"silent")
        self._world.videos.append(types.SimpleNamespace(path=os.fspath(path), frames=frames, fps=fps, interval=self.interval,
                                                        axes=self.fig.axes[0], writer=writer))


class Writer:
    def __init__(self, fps=5, **k):
        self.fps = fps


class World:
    def __init__(self, fault=None):
        self.fault = fault or (lambda kind: None)
        self.figures, self.saved, self.videos, self.audio, self.commands = [], [], [], [], []
        self.encoder = "ok"
        self.recording = None       # (samples (n, channels), rate)
        self.read_fault = None


def modules(w):
    def figure(*a, **k):
        w.fault("figure")
        return Figure(w)

    def subplots(*a, subplot_kw=None, **k):
        f = figure()
        return f, f.add_subplot(111, projection=(subplot_kw or {}).get("projection"))
    mpl = types.ModuleType("matplotlib")
    mpl.__path__ = []
    plt = types.ModuleType("matplotlib.pyplot")
    plt.figure, plt.subplots = figure, subplots
    plt.axes = lambda *a, projection=None, **k: figure().add_subplot(111, projection=projection)
    plt.subplot = plt.axes
    plt.rcParams = {}
    plt.style = types.SimpleNamespace(use=lambda *a, **k: None)

    def close(*a):
        w.fault("close")
    plt.close, plt.show = close, lambda *a, **k: None
    an = types.ModuleType("matplotlib.animation")
    def animate(*a, **k):
        like_the_real("anim", 2, "__init__", a, k)
        return Anim(w, *a, **k)
    an.FuncAnimation = animate
    an.FFMpegWriter = an.PillowWriter = Writer
    pa = types.ModuleType("matplotlib.patches")
    pa.Rectangle = lambda *a, **k: Rec(w, "rectangle")
    mpl.pyplot, mpl.animation, mpl.patches = plt, an, pa
    sp = types.ModuleType("scienceplots")
    return {"matplotlib": mpl, "matplotlib.pyplot": plt, "matplotlib.animation": an, "matplotlib.patches": pa, "scienceplots": sp}


class Log:
    def __init__(self):
        self.lines = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: self.lines.append((n, a))

    def warned(self):
        return any(n in ("warning", "error", "exception") for n, _ in self.lines)


@contextlib.contextmanager
def world(env, w):
    import soundfile
    import torchrir.viz.animation as an
    import torchrir.viz.utils as ut
    undo = []

    def put(o, n, v):
        undo.append((o, n, getattr(o, n) if hasattr(o, n) else undo))
        setattr(o, n, v)
    reals()
    mods = modules(w)
    saved = {n: m for n, m in sys.modules.items() if n.split(".")[0] in ("matplotlib", "scienceplots", "mpl_toolkits")}
    for n in saved:
        del sys.modules[n]
    sys.modules.update(mods)

    def read(file, *a, always_2d=False, dtype="float64", **k):
        w.fault("read")
        data, fs = w.recording
        return (data if always_2d or data.shape[1] != 1 else data[:, 0]), fs

    def write(file, data, samplerate, *a, **k):
        with open(file, "wb") as f:
            f.write(b"aud")
            w.fault("write")
            f.write(b"io")
        w.audio.append((os.fspath(file), data, samplerate))

    def run(cmd, *a, check=False, **k):
        w.commands.append(list(cmd))
        ins = [cmd[i + 1] for i, c in enumerate(cmd[:-1]) if c == "-i"]
        out = cmd[-1]
        how = w.encoder
        text = b"muxed:" + b"+".join(open(p, "rb").read() if os.path.exists(p) else b"?" for p in ins)
        if how in ("raises late", "fails late", "ok", "interrupted"):
            with open(out, "wb") as f:
                f.write(text[:6] if how != "ok" else text)
        if how.startswith("raises"):
            raise FileNotFoundError("ffmpeg")
        if how == "interrupted":
            raise KeyboardInterrupt()
        rc = 1 if how.startswith("fails") else 0
        if check and rc:
            raise subprocess.CalledProcessError(rc, cmd)
        return subprocess.CompletedProcess(cmd, rc, "", "it failed" if rc else "")
    put(soundfile, "read", read)
    put(soundfile, "write", write)
    put(shutil, "which", lambda *a, **k: None if w.encoder == "absent" else "/scratch/ffmpeg")
    put(subprocess, "run", run)
    if hasattr(ut, "_MPL_DEFAULT_STYLE_APPLIED"):
        put(ut, "_MPL_DEFAULT_STYLE_APPLIED", False)
    if env.symbolic:
        from checks._build import Shim
        put(an, "np", Shim(env, None))
    try:
        yield w
    finally:
        for n in [n for n in sys.modules if n.split(".")[0] in ("matplotlib", "scienceplots", "mpl_toolkits")]:
            del sys.modules[n]
        sys.modules.update(saved)
        for o, n, v in reversed(undo):
            if v is undo:
                delattr(o, n)
            else:
                setattr(o, n, v)


def scene(env, dim, T, ns, nm, moving=("src", "mic")):
    room = env.tensor("room", (dim,), 1.0, 9.0)
    src, mic = env.tensor("src", (ns, dim), 0.0, 1.0), env.tensor("mic", (nm, dim), 0.0, 1.0)
    st = env.tensor("src_traj", (T, ns, dim), 0.0, 1.0) if "src" in moving else None
    mt = env.tensor("mic_traj", (T, nm, dim), 0.0, 1.0) if "mic" in moving else None
    return room, src, mic, st, mt


def whole(t, pos, T):
    return t if t is not None else pos.unsqueeze(0).repeat(T, 1, 1)


def same(env, name, got, want):
    """got: list of coordinate arrays; want: the matching tensors"""
    import torch
    env.check(name + ": coordinates", len(got) == len(want) and all(g is not None for g in got))
    if len(got) != len(want) or any(g is None for g in got):
        return
    for g, w in zip(got, want):
        g = torch.as_tensor(g)
        env.check(name + ": size", tuple(g.shape) == tuple(w.shape))
        if tuple(g.shape) == tuple(w.shape):
            env.eq(name, g, w, tol=1e-6)
