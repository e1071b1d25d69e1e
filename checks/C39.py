import contextlib
import copy
import sys

from engine.run import Case
from checks import _ism as I
from checks.C12 import patch_scipy

EXPLANATION = ("histories of calls with different configurations and scenes are run on symbolic inputs, starting from the library's state at "
               "import; the solver compares each result with that of the same call made alone, and every input with its value before")
OUTSIDE = ["several threads or processes calling at the same time", "torch's own state (thread counts, default data type, compiled code)",
           "histories longer than stated"]


@contextlib.contextmanager
def fresh():
    """the module-level state of the library as it was when the check process started"""
    mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "torchrir" and m is not None]
    keep = []
    for m in mods:
        for n, v in list(vars(m).items()):
            if n.startswith("__"):
                continue
            if type(v) in (dict, list, set) and id(v) not in {id(k[1]) for k in keep}:
                keep.append((m, v, copy.copy(v)))
            elif hasattr(v, "cache_clear"):
                v.cache_clear()

    def reset():
        for _m, v, old in keep:
            if type(v) is list:
                v[:] = old
            else:
                v.clear()
                v.update(old)
        for m in mods:
            for v in list(vars(m).values()):
                if hasattr(v, "cache_clear"):
                    v.cache_clear()
    try:
        yield reset
    finally:
        reset()


def frozen(v, seen=None):
    """(path, tensor) of everything reachable from an input"""
    import dataclasses
    import torch
    if torch.is_tensor(v):
        return [v]
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return [t for f in dataclasses.fields(v) for t in frozen(getattr(v, f.name))]
    if isinstance(v, dict):
        return [t for x in v.values() for t in frozen(x)]
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in frozen(x)]
    return []


def unchanged(env, name, ins, keep):
    for t, k in zip(ins, keep):
        env.check(f"{name}: inputs keep their shape and type", tuple(t.shape) == tuple(k.shape) and t.dtype == k.dtype)
        if t.numel() and tuple(t.shape) == tuple(k.shape):
            env.eq(f"{name}: inputs are left alone", t, k, tol=0.0)


def plain(c):
    import dataclasses
    return {f.name: copy.deepcopy(getattr(c, f.name)) for f in dataclasses.fields(c)}


def outs(v):
    return frozen(v)


def same(env, name, a, b, tol=1e-9):
    a, b = outs(a), outs(b)
    env.check(f"{name}: same results", len(a) == len(b))
    for x, y in zip(a, b):
        env.check(f"{name}: same shape and type", tuple(x.shape) == tuple(y.shape) and x.dtype == y.dtype)
        if tuple(x.shape) == tuple(y.shape) and x.numel():
            env.eq(name, x, y, tol=tol)


def calls(env, cfg):
    """the calls a history is made of: name -> (function, inputs)"""
    import torch
    from torchrir.models import MicrophoneArray, Source
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    out = {}
    size = I.vec(env, "L", [2.0, 2.0], [2.2, 2.2])
    beta = I.betas(env, 2)
    s, m = I.vec(env, "s", [0.3, 0.5], [0.7, 1.4]), I.vec(env, "m", [1.0, 0.6], [1.5, 1.6])
    u = env.tensor_of([[env.real("o0", 0.2, 1.0), env.real("o1", 0.2, 1.0)]])
    room = I.room(env, size, beta, 343.0)
    S, M = env.tensor_of([s]), env.tensor_of([m])
    other = I.room(env, size, [0.5, 0.6, 0.7, 0.8], 686.0)
    r32 = I.room(env, size, beta, 343.0, dtype=torch.float32)
    so, mo = Source(S, u), MicrophoneArray(M, u)
    tr, tm = env.tensor_of([[s], [m]]), env.tensor_of([[m], [m]])
    base = dict(max_order=1, nsample=5)

    def st(name, config, room=room, src=S, mic=M, **kw):
        k = dict(base, **kw)
        out[name] = (lambda: simulate_rir(room=room, sources=src, mics=mic, config=config, **k), [room, src, mic, k, config])

    def dy(name, config, room=room, o=None, **kw):
        k = dict(base, **kw)
        out[name] = (lambda: simulate_dynamic_rir(room=room, src_traj=tr, mic_traj=tm, orientation=o, config=config, **k), [room, tr, tm, k, o, config])
    st("plain", I.cfg_plain(3))
    st("wider kernel", I.cfg_plain(5))
    st("narrow kernel", I.cfg_plain(1))
    st("single precision", I.cfg_plain(3), room=r32, src=S.to(torch.float32), mic=M.to(torch.float32))
    st("chunks", I.cfg_plain(3, image_chunk_size=2, accumulate_chunk_size=1))
    st("directed", I.cfg_plain(3), src=so, mic=mo, directivity="cardioid")
    st("order", I.cfg_plain(3), max_order=2)
    st("counts", I.cfg_plain(3), nb_img=torch.tensor([1, 2]))
    st("rate", I.cfg_plain(3), room=other)
    dy("moving", I.cfg_plain(3))
    dy("moving, wider", I.cfg_plain(5, accumulate_chunk_size=2))
    dy("moving, directed", I.cfg_plain(3), o=u, directivity=("bidir", "omni"))
    if cfg.get("lut"):
        # the table is sampled at symbolic offsets: fixed positions
        sc = dict(room=I.room(env, [2.0, 2.25], [0.9, 0.8, 0.7, 0.6], 343.0), src=torch.tensor([[0.5, 0.9]], dtype=I.D), mic=torch.tensor([[1.3, 1.2]], dtype=I.D))
        st("table", I.cfg_plain(3, use_lut=True, sinc_lut_granularity=4), **sc)
        st("finer table", I.cfg_plain(3, use_lut=True, sinc_lut_granularity=7), **sc)
        st("wider table", I.cfg_plain(5, use_lut=True, sinc_lut_granularity=4), **sc)
        st("no table", I.cfg_plain(3), **sc)
    if cfg.get("filter"):
        f = dict(rir_hpf_enable=True, rir_hpf_fc=10.0)
        st("filtered", I.cfg_plain(3, **f), nsample=12)
        st("unfiltered", I.cfg_plain(3, rir_hpf_fc=10.0), nsample=12)
        st("filtered twice as steeply", I.cfg_plain(3, **f, rir_hpf_kwargs={"n": 4, "type": "butter"}), nsample=16)
        st("another filter", I.cfg_plain(3, rir_hpf_enable=True, rir_hpf_fc=40.0, rir_hpf_kwargs={"n": 1, "rp": 1.0, "ftype": "cheby1"}), nsample=12)
        dy("filtered, moving", I.cfg_plain(3, **f, rir_hpf_kwargs={"n": 3, "type": "butter"}), nsample=16)
    if cfg.get("tail"):
        st("tail", I.cfg_plain(3, tdiff=2.5 / 343.0, seed=3) if "tdiff" in I.cfg_plain(3).__dataclass_fields__ else I.cfg_plain(3, seed=3), tdiff=2.5 / 343.0)
        st("other tail", I.cfg_plain(3, seed=4), tdiff=3.5 / 343.0)
    return {k: v for k, v in out.items() if k in cfg["calls"]}


def history(env, cfg):
    """first, second, first again: each result is what the call alone gives, results already returned and inputs stay as they are"""
    import torch
    cs = calls(env, cfg)
    a = env.choice("first", list(cs))
    b = env.choice("second", [n for n in cs])
    (fa, ia), (fb, ib) = cs[a], cs[b]
    ins = frozen(ia) + frozen(ib)
    keep = [t.clone() for t in ins]
    confs = [ia[-1], ib[-1]]
    said = [plain(c) for c in confs]
    with fresh() as reset:
        reset()
        alone = fb()
        reset()
        g = torch.get_rng_state()
        r1 = fa()
        c1 = r1.clone()
        r2 = fb()
        c2 = r2.clone()
        r3 = fa()
        same(env, f"{b} after {a} is {b} alone", r2, alone)
        same(env, f"{a} again", r3, c1)
        same(env, f"{a}: a result already returned", r1, c1, tol=0.0)
        same(env, f"{b}: a result already returned", r2, c2, tol=0.0)
        unchanged(env, f"{a}, {b}", ins, keep)
        env.check("the global random state is left alone", bool(torch.equal(torch.get_rng_state(), g)))
        env.check("configurations are left alone", [plain(c) for c in confs] == said)
        # the caller may change a result it owns without changing later calls
        r1.zero_()
        same(env, f"{a} after its first result was overwritten", fa(), c1)
        unchanged(env, f"{a}, overwritten result", ins, keep)
        env.check("configurations are left alone", [plain(c) for c in confs] == said)


def helpers(env, cfg):
    """the other public computations: inputs left alone, the same again"""
    import torch
    import torchrir.geometry as geo
    import torchrir.util as util
    from torchrir.io import build_metadata
    from torchrir.models import MicrophoneArray, Room, Source
    from torchrir.signal import DynamicConvolver, convolve_rir, fft_convolve
    D = torch.float64
    p, q = env.tensor("p", (2, 3), 0.2, 0.9), env.tensor("q", (2, 3), 1.1, 1.9)
    size = env.tensor("L", (3,), 2.0, 2.5)
    beta = env.tensor("b", (6,), 0.2, 0.9)
    x, y = env.tensor("x", (2, 4), -1.0, 1.0), env.tensor("y", (1, 3), -1.0, 1.0)
    h, g = env.tensor("h", (2, 1, 2), -1.0, 1.0), env.tensor("g", (2, 2, 1, 2), -1.0, 1.0)
    u = env.tensor("u", (2, 3), 0.2, 1.0)
    ts = torch.tensor([0.0, 1.0], dtype=D)
    room = Room(size, 16000.0, beta=beta)
    src, mic = Source(p, u), MicrophoneArray(q, u)
    traj = torch.stack([p, q])
    table = {
        "fft_convolve": (lambda: fft_convolve(x[0], y[0]), [x, y]),
        "convolve_rir": (lambda: convolve_rir(x, h), [x, h]),
        "hop convolver": (lambda: DynamicConvolver(mode="hop", hop=2).convolve(x, g), [x, g]),
        "trajectory convolver": (lambda: DynamicConvolver(mode="trajectory", timestamps=ts, fs=2.0).convolve(x, g), [x, g, ts]),
        "trajectory": (lambda: geo.linear_trajectory(p[0], q[0], 4), [p, q]),
        "binaural": (lambda: geo.binaural_array(p[0], offset=0.1), [p]),
        "linear": (lambda: geo.linear_array(p[0], num=3, spacing=0.1, axis=1), [p]),
        "circular": (lambda: geo.circular_array(p[0], num=3, radius=0.1), [p]),
        "polyhedron": (lambda: geo.polyhedron_array(p[0], kind="octahedron", radius=0.1), [p]),
        "clamp": (lambda: geo.clamp_positions(q, size, margin=0.3), [q, size]),
        "beta": (lambda: util.estimate_beta_from_t60(size, 0.4), [size]),
        "counts": (lambda: torch.as_tensor(util.estimate_image_counts_from_tmax(0.01, size)), [size]),
        "unit": (lambda: util.orientation_to_unit(u, 3), [u]),
        "unit angles": (lambda: util.orientation_to_unit(u[:, :2], 3), [u]),
        "normalise": (lambda: util.normalize_orientation(u), [u]),
        "size": (lambda: util.extend_size(size[:2], 3), [size]),
        "metadata": (lambda: [v for v in [build_metadata(room=room, sources=src, mics=mic, rirs=h[:, :1].expand(2, 2, 2), src_traj=traj, mic_traj=traj, signal_len=4)] and []],
                     [room, src, mic, traj, h]),
        "replace": (lambda: [room.replace(fs=8000.0).size, src.replace(positions=q).positions, mic.replace(orientation=None).positions], [room, src, mic]),
    }
    n = env.choice("function", [k for k in table if k in cfg["names"]])
    f, i = table[n]
    ins = frozen(i)
    keep = [t.clone() for t in ins]
    with fresh() as reset:
        reset()
        st = torch.get_rng_state()
        a = env.call(f)
        env.check(f"{n} runs", a.ok)
        if not a.ok:
            return
        kept = [t.clone() for t in outs(a.value)]
        unchanged(env, n, ins, keep)
        b = env.call(f)
        env.check(f"{n} runs again", b.ok)
        same(env, n + " again", b.value, kept)
        same(env, n + ": a result already returned", a.value, kept, tol=0.0)
        unchanged(env, n, ins, keep)
        env.check("the global random state is left alone", bool(torch.equal(torch.get_rng_state(), st)))


NAMES = ["fft_convolve", "convolve_rir", "hop convolver", "trajectory convolver", "trajectory", "binaural", "linear", "circular", "polyhedron", "clamp", "beta",
         "counts", "unit", "unit angles", "normalise", "size", "metadata", "replace"]


def cases(tier):
    q = tier == "quick"
    o = dict(max_paths=900, time_s=150 if q else 900, validate_max=6)
    kern = ["plain", "wider kernel", "narrow kernel", "single precision", "chunks"]
    scn = ["plain", "directed", "order", "counts", "rate"]
    mov = ["plain", "moving", "moving, wider", "moving, directed"]
    out = [Case("kernels", history, dict(calls=kern), weight=5, **o), Case("scenes", history, dict(calls=scn), weight=5, **o),
           Case("moving", history, dict(calls=mov), weight=4, **o),
           Case("tables", history, dict(calls=["table", "finer table", "wider table", "no table", "narrow kernel"], lut=True), **o),
           Case("tails", history, dict(calls=["tail", "other tail", "plain"], tail=True), **o)]
    out.append(Case("filters", history, dict(calls=["filtered", "unfiltered", "filtered twice as steeply", "another filter", "filtered, moving"], filter=True),
                    patches=[patch_scipy], weight=4, **o))
    if not q:
        out.append(Case("mixed", history, dict(calls=kern[:4] + scn[1:] + mov[1:]), **o))
    for i in range(0, len(NAMES), 6):
        out.append(Case(f"helpers-{i // 6}", helpers, dict(names=NAMES[i:i + 6]), **o))
    return out
