from dataclasses import dataclass

from engine.run import Case

EXPLANATION = ("collate_dataset_items runs on items whose samples and padding value are symbolic; lengths, layouts, data types, metadata and "
               "sampling rates are solver-chosen")
OUTSIDE = ["more items or samples than stated", "mixtures of devices"]


def collate(items, **k):
    from torchrir.datasets import collate_dataset_items
    return collate_dataset_items(items, **k)


def build(env, lengths, rates, texts, dtypes=None, layouts=None):
    import torch
    from torchrir.datasets import DatasetItem

    @dataclass(frozen=True)
    class Rich(DatasetItem):
        metadata: object = None
    items, audio = [], []
    for i, n in enumerate(lengths):
        lay = layouts[i] if layouts else "1d"
        dt = dtypes[i] if dtypes else torch.float64
        shape = {"1d": (n,), "row": (1, n), "col": (n, 1), "stereo": (2, n), "tail": (n, 2), "0d": ()}[lay]
        if dt == torch.int16:
            a = torch.arange(1, 1 + max(n, 1), dtype=dt)[:n].reshape(shape) * 3
        else:
            a = env.tensor(f"x{i}", shape, -1.0, 1.0, dtype=dt)
        kind = texts[i]
        cls = DatasetItem if kind == "plain" else Rich
        kw = {} if kind == "plain" else {"metadata": {"n": i}}
        items.append(cls(audio=a, sample_rate=rates[i], utterance_id=f"u{i}", text=None if kind == "none" else f"t{i}",
                         speaker=None if i == 1 else f"s{i}", **kw))
        audio.append(a)
    return items, audio


def judge(env, items, audio, lengths, out, pad, meta, tol=0.0):
    n, top = len(items), max(lengths)
    got = out.audio
    if any(a.dim() != 1 for a in audio) and got.numel() == n * top:
        got = got.reshape(n, top)            # mono items with an extra dimension may keep it
    env.check("batch shape", tuple(got.shape) == (n, top))
    env.check("lengths", [int(v) for v in out.lengths] == list(lengths))
    env.check("lengths are whole numbers", not out.lengths.is_floating_point())
    env.check("rate", out.sample_rate == items[0].sample_rate)
    env.check("identifiers", list(out.utterance_ids) == [i.utterance_id for i in items])
    env.check("texts", list(out.texts) == [i.text for i in items])
    env.check("speakers", list(out.speakers) == [i.speaker for i in items])
    if meta:
        env.check("metadata", out.metadata == [getattr(i, "metadata", None) for i in items])
    else:
        env.check("no metadata unless asked", out.metadata is None)
    for i, (a, k) in enumerate(zip(audio, lengths)):
        flat = a.reshape(-1)
        for t in range(top):
            env.eq(f"item {i} sample {t}", got[i, t], flat[t] if t < k else pad, tol=tol)


def plain(env, cfg):
    n = env.choice("items", cfg["n"])
    lengths = [env.choice(f"length {i}", cfg["lengths"]) for i in range(n)]
    pad = env.choice("padding", ["default", "given"])
    meta = env.choice("keep metadata", [False, True])
    kinds = [env.choice(f"kind {i}", ["rich", "plain", "none"]) if i < 2 else "rich" for i in range(n)] if cfg.get("kinds") else ["plain"] * n
    items, audio = build(env, lengths, [16000] * n, kinds)
    keep = [a.clone() for a in audio]
    kw = {}
    p = 0.0
    if pad == "given":
        p = kw["pad_value"] = cfg.get("pad", -7.0)
    given = env.choice("given as", ["list", "generator"])
    out = collate(items if given == "list" else (i for i in items), keep_metadata=meta, **kw)
    judge(env, items, audio, lengths, out, p, meta)
    for a, b in zip(audio, keep):
        env.eq("item untouched", a, b, tol=0.0)
    # the same items in another order give the same rows in that order
    if n > 1 and given == "list":
        back = collate(items[::-1], keep_metadata=meta, **kw)
        for i in range(n):
            env.eq(f"reversed {i}", back.audio[n - 1 - i], out.audio[i], tol=0.0)


def refused(env, cfg):
    """different rates or channel layouts, and the empty batch"""
    env.check("empty batch", env.call(collate, []).raised(ValueError))
    n = cfg["n"]
    rates = [env.choice(f"rate {i}", [16000, 8000]) for i in range(n)]
    lengths = [env.choice(f"length {i}", [1, 3]) for i in range(n)]
    layouts = [env.choice(f"layout {i}", ["1d", "row", "col", "stereo", "tail"]) for i in range(n)]
    items, audio = build(env, lengths, rates, ["plain"] * n, layouts=layouts)
    r = env.call(collate, items)
    if len(set(rates)) > 1:
        env.check("mixed rates refused", not r.ok)
        return
    if any(lay == "tail" and k == 1 for lay, k in zip(layouts, lengths)):
        env.check("one row of two samples", True)     # (1, 2) is a mono item of two samples
        return
    if any(lay in ("stereo", "tail") for lay in layouts):
        # refused, or every item kept whole (a batch with a channel axis): never mixed into one row
        out = r.value.audio if r.ok else None
        if r.ok and all(out.ndim == 1 + it.audio.ndim and all(p >= q for p, q in zip(out.shape[1:], it.audio.shape)) for it in items):
            for i, it in enumerate(items):
                env.eq("several channels kept apart", out[i][tuple(slice(k) for k in it.audio.shape)], it.audio)
        else:
            env.check("several channels refused", not r.ok)
        return
    if r.ok:
        judge(env, items, audio, lengths, r.value, 0.0, False)
    elif all(lay == "1d" for lay in layouts):
        env.fail("ordinary items accepted")
    env.check("decided", True)


def types(env, cfg):
    """items of different data types are kept exactly (or refused)"""
    import torch
    opts = [torch.float64, torch.float32, torch.int16]
    n = 2
    dts = [env.choice(f"type {i}", opts) for i in range(n)]
    lengths = [env.choice(f"length {i}", [1, 2]) for i in range(n)]
    items, audio = build(env, lengths, [16000] * n, ["plain"] * n, dtypes=dts)
    r = env.call(collate, items)
    if not r.ok:
        env.check("only mixed types may be refused", dts[0] != dts[1])
        return
    if dts[0] == dts[1]:
        env.check("type kept", r.value.audio.dtype == dts[0])
    else:
        env.check("wide enough for every item", all(torch.promote_types(r.value.audio.dtype, d) == r.value.audio.dtype for d in dts))
    judge(env, items, audio, lengths, r.value, 0.0, False)


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=20000, time_s=600 if deep else 60)
    return [Case("plain", plain, dict(n=[1, 2, 3], lengths=[1, 3] if not deep else [0, 1, 2, 3, 5]), **o),
            Case("four", plain, dict(n=[4], lengths=[1, 3] if deep else [1, 4]), **o),
            Case("kinds", plain, dict(n=[1, 2] if not deep else [1, 2, 3], lengths=[2, 3], kinds=True), **o),
            Case("empty-item", plain, dict(n=[2, 3], lengths=[0, 2], pad=1.5), **o),
            Case("refused", refused, dict(n=3 if deep else 2), **o),
            Case("types", types, {}, **o)]
