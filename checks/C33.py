import contextlib
from pathlib import Path

from engine.run import Case
from checks._tar import scratch

EXPLANATION = ("every save and load entry point runs on symbolic samples and peaks; what is handed to (or received from) the sound file "
               "library is compared with the given audio")
OUTSIDE = ["recordings of up to eight samples in time-major layout (they cannot be told from channel-major ones)",
           "recordings with as many channels as samples", "quantisation and rounding by the sound file library",
           "values that are not finite", "values beyond [-1, 1] in formats other than wav"]
ASSUMPTIONS = ["soundfile writes the (samples, channels) array it is given and returns the file's contents; PCM subtypes clip at +-1"]


class Files:
    """stands in for soundfile: keeps what was written, returns what was put there"""

    def __init__(self):
        self.written, self.files, self.subtype = [], {}, "PCM_16"

    def write(self, file, data, samplerate, subtype=None, endian=None, format=None, closefd=True):
        self.written.append((str(file), data, samplerate, subtype))

    def read(self, file, frames=-1, start=0, stop=None, dtype="float64", always_2d=False, fill_value=None, out=None, samplerate=None,
             channels=None, format=None, subtype=None, endian=None, closefd=True):
        data, fs = self.files[str(file)]
        if not always_2d and data.shape[1] == 1:
            data = data[:, 0]
        return data, fs

    def info(self, file, verbose=False):
        data, fs = self.files[str(file)]

        class Info:
            samplerate, frames, channels, format, subtype = fs, data.shape[0], data.shape[1], "WAV", self.subtype
            duration = data.shape[0] / fs
        return Info()


@contextlib.contextmanager
def soundfile(f):
    import soundfile as sf
    old = sf.write, sf.read, sf.info
    sf.write, sf.read, sf.info = f.write, f.read, f.info
    try:
        yield f
    finally:
        sf.write, sf.read, sf.info = old


def audio_of(env, c, n, dense):
    """(c, n) samples: all symbolic, or symbolic at a few places between distinct constants"""
    import torch
    if dense:
        return env.tensor("x", (c, n), -4.0, 4.0)
    x = env.tensor("x", (3,), -4.0, 4.0)
    rows = [[(k * n + t + 1) / (8.0 * c * n) for t in range(n)] for k in range(c)]
    rows[0][0], rows[c - 1][n - 1], rows[c // 2][n // 2] = x[0], x[1], x[2]
    return torch.stack([torch.stack([torch.as_tensor(v, dtype=torch.float64) for v in r]) for r in rows])


def writer(name):
    import torchrir.io as tio
    import torchrir.io.audio as ta
    return {"save_audio": ta.save_audio, "save": ta.save, "io.save_wav": tio.save_wav, "io.save_audio": tio.save_audio, "io.save": tio.save,
            "data": lambda p, a, fs, **k: ta.save_audio_data(p, ta.AudioData(audio=a, sample_rate=fs, subtype=None), **k)}[name]


def save(env, cfg):
    import torch
    name = env.choice("entry point", cfg["by"])
    layout = env.choice("layout", cfg["layouts"])
    c, n = env.choice("channels", cfg["c"]), cfg["n"]
    if layout == "1d" and c != 1:
        env.check("outside", True)
        return
    norm = env.choice("normalise", [False, True])
    ref = audio_of(env, c, n, cfg.get("dense"))
    if layout == "1d":
        a = ref[0].clone()
    elif layout == "time":
        a = ref.T.contiguous() if not cfg.get("strided") else ref.T
    else:
        a = ref.clone()
    keep = a.clone()
    fs = env.choice("rate", [16000, 44100]) if cfg.get("rates") else 16000
    peak = env.real("peak", 0.05, 1.0) if norm and cfg.get("peak") else None
    kw = dict(normalize=norm)
    if peak is not None:
        kw["peak"] = peak
    sub = env.choice("subtype", [None, "PCM_24"]) if cfg.get("subtype") else None
    if sub:
        kw["subtype"] = sub
    with soundfile(Files()) as f:
        r = env.call(writer(name), Path("/nowhere/x.wav"), a, fs, **kw)
    env.check("accepted", r.ok)
    env.check("written once", len(f.written) == 1)
    path, data, rate, st = f.written[0]
    env.check("path and rate", path == "/nowhere/x.wav" and rate == fs)
    env.check("samples by channels", tuple(data.shape) == (n, c) or (c == 1 and tuple(data.shape) == (n,)))
    got = torch.as_tensor(data).reshape(n, c)
    env.eq("input untouched", a, keep, tol=0.0)
    top = ref.abs().max()
    if not norm:
        for k in range(c):
            env.eq(f"channel {k}", got[:, k], ref[k], tol=1e-6)
        env.check("values beyond full scale are not clipped", env.Or(st in ("FLOAT", "DOUBLE"), top <= 1.0 + 1e-6) if sub is None else st == sub)
        return
    p = 1.0 if peak is None else peak
    env.check("subtype", st == sub if sub else st in (None, "FLOAT", "DOUBLE"))
    if env.truth(top <= 0.0):
        env.eq("silence stays silent", got, torch.zeros(n, c, dtype=torch.float64), tol=0.0)
        return
    for k in range(c):
        for t in range(n):
            env.eq(f"channel {k} sample {t} scaled by the common factor", got[t, k] * top, ref[k, t] * p, tol=1e-5)


def refused(env, cfg):
    import torch
    import torchrir.io as tio
    import torchrir.io.audio as ta
    x = env.tensor("x", (9,), -1.0, 1.0)
    with soundfile(Files()) as f:
        for suffix in ["flac", "ogg", "", "wavx", "mp3"]:
            p = Path("/nowhere/x" + ("." + suffix if suffix else ""))
            env.check(f"wav only: save {suffix}", env.call(ta.save, p, x, 8000).raised(ValueError))
            env.check(f"wav only: load {suffix}", env.call(ta.load, p).raised(ValueError))
            for g in (tio.save_wav, tio.save):
                env.check(f"wav only: {g.__name__} {suffix}", env.call(g, p, x, 8000).raised(ValueError))
            for g in (tio.load_wav, tio.load, tio.info_wav, tio.info):
                env.check(f"wav only: {g.__name__} {suffix}", env.call(g, p).raised(ValueError))
        peak = env.real("peak", -2.0, 2.0)
        ok = env.truth(peak > 0)
        for g in (ta.save, ta.save_audio, tio.save_wav):
            r = env.call(g, Path("/nowhere/x.wav"), x, 8000, peak=peak)
            env.check("positive peaks only", r.ok == bool(ok) and (r.ok or r.raised(ValueError)))
            env.check("no peak needed without normalisation", env.call(g, Path("/nowhere/x.wav"), x, 8000, peak=peak, normalize=False).ok)
        env.check("upper case extension", env.call(ta.save, Path("/nowhere/x.WAV"), x, 8000).ok)
        for g in (tio.load_wav, tio.load, tio.info_wav, tio.info):
            env.check(f"the stated format counts: {g.__name__}", env.call(g, Path("/nowhere/x.wav"), format="flac").raised(ValueError))
        f.files["/nowhere/take"] = (x.reshape(9, 1).numpy(), 8000)
        r = env.call(tio.load_wav, Path("/nowhere/take"), format="WAV")
        env.check("the stated format counts: load", r.ok and r.value[1] == 8000)
        if r.ok:
            env.eq("its samples", r.value[0], x, tol=0.0)
        i = env.call(tio.info_wav, Path("/nowhere/take"), format="wav")
        env.check("the stated format counts: info", i.ok and (i.value.num_frames, i.value.num_channels, i.value.sample_rate) == (9, 1, 8000))
        n = len(f.written)
        r = env.call(tio.save_wav, Path("/nowhere/take"), x, 8000, format="wav", normalize=False)
        env.check("the stated format counts: save", r.ok and len(f.written) == n + 1 and f.written[-1][0] == "/nowhere/take")
        if r.ok and len(f.written) == n + 1:
            env.eq("its samples", torch.as_tensor(f.written[-1][1]).reshape(-1), x, tol=1e-6)
        was = tio.get_audio_backend()
        env.check("the backend in use is one of those listed", was in tio.list_audio_backends())
        env.check("unknown backend refused", env.call(tio.set_audio_backend, "none").raised(ValueError) and tio.get_audio_backend() == was)
        env.check("listed backends can be chosen", all(env.call(tio.set_audio_backend, b).ok and tio.get_audio_backend() == b for b in tio.list_audio_backends()))
        tio.set_audio_backend(was)
        env.check("unknown backend", env.call(tio.save_wav, Path("/nowhere/x.wav"), x, 8000, backend="none").raised(ValueError))


def reader(name):
    import torchrir.io as tio
    import torchrir.io.audio as ta
    return {"load": ta.load, "load_audio": ta.load_audio, "io.load_wav": tio.load_wav, "io.load_audio": tio.load_audio, "io.load": tio.load,
            "data": ta.load_audio_data}[name]


def load(env, cfg):
    import warnings
    import torch
    name = env.choice("entry point", ["load", "load_audio", "io.load_wav", "io.load_audio", "io.load", "data"])
    c, n = env.choice("channels", [1, 2, 9]), env.choice("samples", [1, 2, 5])
    x = env.tensor("x", (n, c), -1.0, 1.0)
    fs = env.choice("rate", [8000, 48000])
    with soundfile(Files()) as f:
        f.files["/nowhere/x.wav"] = (x.numpy(), fs)
        f.subtype = "PCM_24"
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = env.call(reader(name), Path("/nowhere/x.wav"))
        info = env.call(__import__("torchrir.io.audio", fromlist=["x"]).info_audio, Path("/nowhere/x.wav"))
    env.check("accepted", r.ok)
    v = r.value
    a, rate = (v.audio, v.sample_rate) if name == "data" else v
    env.check("rate", rate == fs)
    env.check("one axis", tuple(a.shape) == (n,))
    env.eq("the first channel's samples in order", a, x[:, 0], tol=0.0)
    env.check("a warning exactly when channels are dropped", any(issubclass(q.category, RuntimeWarning) for q in w) == (c > 1))
    if name == "data":
        env.check("format kept", (v.format, v.subtype) == ("WAV", "PCM_24"))
        with soundfile(Files()) as g:
            from torchrir.io.audio import save_audio_data
            save_audio_data(Path("/nowhere/y.wav"), v, normalize=False)
        env.check("round trip keeps the subtype", g.written[0][3] == "PCM_24" and g.written[0][2] == fs)
        env.eq("round trip keeps the samples", torch.as_tensor(g.written[0][1]).reshape(-1), x[:, 0], tol=1e-6)
    i = info.value
    env.check("file information", (i.sample_rate, i.num_frames, i.num_channels, i.subtype) == (fs, n, c, "PCM_24") and abs(i.duration - n / fs) < 1e-12)


def scene(env, cfg):
    """save_scene_audio writes the normalised scene and returns where"""
    import torch
    from torchrir.io import save_scene_audio
    c = env.choice("channels", [1, 2, 3])
    x = env.tensor("x", (c, 9), -2.0, 2.0) if c > 1 else env.tensor("x", (9,), -2.0, 2.0)
    with scratch() as d, soundfile(Files()) as f:
        r = env.call(save_scene_audio, out_dir=Path(d) / "a" / "b", audio=x, fs=8000, audio_name="mix.wav")
        env.check("directory made", (Path(d) / "a" / "b").is_dir())
        env.check("path", r.ok and str(r.value) == d + "/a/b/mix.wav" and f.written[0][0] == str(r.value) and f.written[0][2] == 8000)
        bad = env.call(save_scene_audio, out_dir=Path(d), audio=x, fs=8000, audio_name="mix.flac")
        env.check("wav only", not bad.ok)
    env.check("channels", torch.as_tensor(f.written[0][1]).reshape(9, c).shape == (9, c))


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=5000, time_s=600 if deep else 60)
    all_by = ["save_audio", "save", "io.save_wav", "io.save_audio", "io.save", "data"]
    return [Case("mono", save, dict(by=all_by, layouts=["1d", "channel", "time"], c=[1], n=9, rates=True), **o),
            Case("peak", save, dict(by=["save_audio", "data"] if not deep else all_by, layouts=["channel", "time"], c=[1, 2], n=9, peak=True, subtype=True), **o),
            Case("channels", save, dict(by=["save_audio", "io.save_wav"], layouts=["channel", "time"], c=[2, 7, 8, 9, 12], n=13), **o),
            Case("many", save, dict(by=["save_audio"], layouts=["channel", "time"], c=[9, 16, 20], n=21, strided=True), **o),
            Case("dense", save, dict(by=["save_audio"], layouts=["1d", "channel"], c=[1, 2, 3] if deep else [1, 2], n=3, dense=True), **o),
            Case("refused", refused, {}, **o), Case("load", load, {}, **o), Case("scene", scene, {}, **o)]
