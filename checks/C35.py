import os
from dataclasses import dataclass
from pathlib import Path
from typing import Optional

from engine import strings as S
from engine.run import Case
from checks._tar import scratch

EXPLANATION = ("the attribution lookup, the dataset handles and the writer of the attribution file run with fields, subset names and notes "
               "that are strings of symbolic characters; the file is read back and compared character by character")
OUTSIDE = ["line-end characters inside fields and notes", "strings longer than the stated number of characters", "non-ASCII dataset keys"]
ASSUMPTIONS = ["operations of str are modelled over code points by engine/strings.py (validated against the real ones on every run)"]

KEYS = ["dataset", "source", "license_name", "license_url", "required_attribution"]
TITLES = ["Dataset", "Source", "License", "License URL", "Required attribution"]


@dataclass
class Plain:
    dataset: str
    source: str
    license_name: str
    license_url: str
    required_attribution: str
    subset: Optional[str] = None


class Other:
    def __init__(self, d):
        self.d = d

    def to_dict(self):
        return self.d


def write(env, cfg):
    from torchrir.io.outputs import save_attribution_file
    S.fresh()
    info = {k: S.text(env, k[:8], env.choice(f"length of {k}", cfg["n"]) if i == cfg["vary"] else 2) for i, k in enumerate(KEYS)}
    sub = env.choice("subset", ["absent", "none", "given"])
    if sub == "none":
        info["subset"] = None
    elif sub == "given":
        info["subset"] = S.text(env, "sub", env.choice("length of the subset", [1, 2]))
    notes = [S.text(env, f"note{i}", cfg["note"]) for i in range(env.choice("notes", cfg["notes"]))]
    form = env.choice("given as", ["mapping", "to_dict", "dataclass"])
    if form == "mapping":
        given = dict(info, extra=S.text(env, "extra", 2), dataset_key="k")
    elif form == "to_dict":
        given = Other(dict(info))
    else:
        given = Plain(**info)
    name = env.choice("file", [None, "A.txt"])
    before = list(notes)
    with scratch() as d:
        out = Path(d) / "w" / "x"
        r = env.call(lambda: save_attribution_file(out_dir=out, dataset_attribution=given, modifications=notes, **(dict(attribution_name=name) if name else {})))
        env.check("the file is written", r.ok)
        if not r.ok:
            return
        p = out / (name or "ATTRIBUTION.txt")
        env.check("the path is returned", Path(r.value) == p and sorted(os.listdir(out)) == [p.name])
        with open(p, encoding="utf-8", newline="") as f:
            text = f.read()
    env.check("the notes are left as they were", len(notes) == len(before) and all(a is b for a, b in zip(notes, before)))
    ls = text.split("\n")
    want = [f"{t}: {info[k]}" for t, k in zip(TITLES, KEYS)]
    if info.get("subset") is not None:
        want.append(f"Subset: {info['subset']}")
    at = next((i for i, x in enumerate(ls) if x.startswith("Dataset: ")), None)
    env.check("there is a dataset line", at is not None)
    if at is None:
        return

    def span(label, i, ref):
        got = ls[i:i + len(ref)]
        env.check(label, env.And(*[S.eq(env, g, w) for g, w in zip(got, ref)]) if len(got) == len(ref) else False)
    span("dataset, source, licence, attribution and subset, in order", at, want)
    env.check("nothing else in that block", ls[at + len(want)] == "")
    mod = next((i for i in range(at + len(want), len(ls)) if ls[i].startswith("Modifications")), None)
    env.check("there is a list of modifications", mod is not None)
    if mod is None:
        return
    span("every modification, in order", mod + 1, [f"- {n}" for n in notes])
    env.check("no other modification", ls[mod + 1 + len(notes)] == "")
    fixed = ls[:at] + ls[mod + 2 + len(notes):]
    env.check("nothing of the fields elsewhere", not any(S.has_ph(x) for x in fixed) and not any(x.startswith("- ") or x.split(":")[0] in TITLES + ["Subset"] for x in fixed))
    env.observe("text", [float(len(text)), float(len(ls))])


def refused(env, cfg):
    from torchrir.io.outputs import save_attribution_file
    S.fresh()
    info = {k: S.text(env, k[:8], 1) for k in KEYS}
    gone = [k for k in KEYS if env.choice(f"{k} missing", [False, True])]
    for k in gone:
        del info[k]
    form = env.choice("given as", ["mapping", "to_dict", "number", "none"])
    given = {"mapping": dict(info), "to_dict": Other(info), "number": 3, "none": None}[form]
    with scratch() as d:
        os.makedirs(f"{d}/w")
        Path(f"{d}/w/ATTRIBUTION.txt").write_text("old")
        r = env.call(lambda: save_attribution_file(out_dir=Path(f"{d}/w"), dataset_attribution=given, modifications=["m"]))
        now = Path(f"{d}/w/ATTRIBUTION.txt").read_text()
    if form in ("number", "none"):
        env.check("not an attribution: refused", r.raised(TypeError))
    elif gone:
        env.check("an incomplete attribution is refused", r.raised(ValueError))
    else:
        env.check("a complete attribution is written", r.ok and now != "old")
    if not r.ok:
        env.check("a refused attribution leaves the file alone", now == "old")


def lookup(env, cfg):
    """the attribution of a key is that of the data set it names, with the subset that was used"""
    from torchrir.datasets.attribution import attribution_for
    S.fresh()
    pre, n, post = env.choice("key", cfg["keys"])
    key = pre + S.text(env, "key", n, lo=32, hi=126) + post
    with_sub = env.choice("subset", [False, True])
    sub = S.text(env, "sub", 3) if with_sub else None
    r = env.call(lambda: attribution_for(key, subset=sub) if with_sub else attribution_for(key))

    def named(full):
        if len(full) != len(key):
            return False
        cs = []
        for c, f in zip(S.native(key), full):
            cs.append(env.Or(S.eq(env, c, f), S.eq(env, c, f.upper())))
        return env.truth(env.And(*cs))
    which = "cmu" if named("cmu_arctic") else "libri" if named("librispeech") else None
    env.check("known keys are answered, others refused", r.raised(ValueError) if which is None else r.ok)
    if which is None or not r.ok:
        return
    a = r.value
    dd = a.to_dict()
    env.check("it is that data set", ("ARCTIC" in a.dataset and "festvox" in a.source and "Carnegie" in a.required_attribution
                                      and a.dataset_key == "cmu_arctic") if which == "cmu" else
              ("LibriSpeech" in a.dataset and "openslr" in a.source and "Panayotov" in a.required_attribution and a.dataset_key == "librispeech"
               and "by/4.0" in a.license_url))
    if which == "libri" and with_sub:
        env.check("with the subset used", S.eq(env, a.subset, sub) if isinstance(a.subset, str) and len(a.subset) == len(sub) else False)
        env.check("with the subset used, in the mapping too", S.eq(env, dd["subset"], sub) if isinstance(dd["subset"], str) and len(dd["subset"]) == len(sub) else False)
    else:
        env.check("without a subset", a.subset is None and dd["subset"] is None)
    env.check("attribution is required", a.attribution_required is True and all(isinstance(dd[k], str) and dd[k] for k in KEYS))


def handles(env, cfg):
    """the handles of the data sets report the data set and subset they were opened for"""
    import torchrir.datasets.librispeech as ml
    import torchrir.datasets.cmu_arctic as mc
    S.fresh()
    with scratch() as d:
        if cfg["libri"]:
            sub = S.text(env, "sub", 3, lo=48, exclude="/.\\")
            S.register("abc", "abd")
            old = ml.VALID_SUBSETS
            ml.VALID_SUBSETS = {"abc", "abd"}
            for x in ("abc", "abd"):
                os.makedirs(f"{d}/LibriSpeech/{x}/7")
            try:
                import contextlib
                with (S.files({}) if env.symbolic else contextlib.nullcontext()):
                    sp = env.choice("speaker", [None, "7"])
                    r = env.call(lambda: ml.LibriSpeechDataset(Path(d), subset=sub, speaker=sp))
            finally:
                ml.VALID_SUBSETS = old
            known = env.truth(env.Or(S.eq(env, sub, "abc"), S.eq(env, sub, "abd")))
            env.check("only known subsets open", r.ok if known else r.raised(ValueError))
            if r.ok and known:
                a = r.value.attribution_info()
                env.check("its own data set", a.dataset_key == "librispeech")
                env.check("its own subset", S.eq(env, a.subset, sub) if isinstance(a.subset, str) and len(a.subset) == 3 else False)
        else:
            sp = S.text(env, "sp", 3, lo=48, hi=122, exclude="/.\\")
            S.register(*mc.VALID_SPEAKERS)
            for x in sorted(mc.VALID_SPEAKERS):
                os.makedirs(f"{d}/ARCTIC/cmu_us_{x}_arctic")
            import contextlib
            with (S.files({}) if env.symbolic else contextlib.nullcontext()):
                r = env.call(lambda: mc.CmuArcticDataset(Path(d), speaker=sp))
            known = env.truth(env.Or(*[S.eq(env, sp, x) for x in sorted(mc.VALID_SPEAKERS)]))
            env.check("only known speakers open", r.ok if known else r.raised(ValueError))
            if r.ok and known:
                a = r.value.attribution_info()
                env.check("its own data set", a.dataset_key == "cmu_arctic" and a.subset is None)


def notes(env, cfg):
    from torchrir.datasets.attribution import default_modification_notes
    dyn = env.bool("dynamic")
    a = default_modification_notes(dynamic=env.truth(dyn))
    b = default_modification_notes(dynamic=env.truth(dyn))
    env.check("a fresh list every time", a == b and a is not b and len(set(a)) == len(a) and all(a))
    env.check("the kind of simulation is stated once", sum("Dynamic" in x for x in a) == (1 if env.truth(dyn) else 0)
              and sum("Static" in x for x in a) == (0 if env.truth(dyn) else 1))


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=100000, time_s=600 if deep else 60, validate_max=4)
    ns = [0, 1, 5] if deep else [0, 3]
    cs = [Case(f"write-{KEYS[i]}", write, dict(vary=i, n=ns, notes=[0, 1, 3] if deep else [0, 2], note=3 if deep else 2), **o) for i in (range(5) if deep else (0, 4))]
    ks = [("", 0, "cmu_arctic"), ("cmu_a", 3, "ic"), ("", 2, "u_arctic"), ("libri", 3, "ech"), ("", 2, "brispeech"), ("Libri", 2, "PEECH"), ("", 4, ""), ("cmu_arctic", 1, ""), ("", 1, "librispeech")]
    if deep:
        ks += [("cmu_", 5, "c"), ("l", 5, "peech"), ("librispeec", 2, "")]
    cs += [Case("refused", refused, {}, **o), Case("lookup", lookup, dict(keys=ks), **o), Case("libri", handles, dict(libri=True), **o),
           Case("cmu", handles, dict(libri=False), **o), Case("notes", notes, {}, **o)]
    return cs
