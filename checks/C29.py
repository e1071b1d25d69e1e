import contextlib
import itertools
import os
from pathlib import Path

from engine import strings as S
from engine.run import Case
from checks._tar import scratch

EXPLANATION = ("the parsers, listings and item access of both loaders run on transcript files whose characters are symbolic code points; "
               "every comparison, search and strip forks with the solver, so that each path stands for all texts of its shape")
OUTSIDE = ["lines without an identifier or without quotes (CMU ARCTIC) or without a text (LibriSpeech)", "identifiers containing path separators",
           "line-end characters inside a text", "texts and identifiers longer than the stated number of characters"]
ASSUMPTIONS = ["operations of str are modelled over code points by engine/strings.py (validated against the real ones on every run)",
               "files are decoded as UTF-8"]


@contextlib.contextmanager
def corpus(env, contents, reverse=False):
    """the files with the given lines; symbolic ones are served by the string engine, others are written"""
    for p, ls in contents.items():
        Path(p).parent.mkdir(parents=True, exist_ok=True)
        Path(p).write_text("" if env.symbolic else "".join(ls), encoding="utf-8")
    real_scan, real_list = os.scandir, os.listdir

    class Scan:
        def __init__(self, *a):
            with real_scan(*a) as it:
                self.e = sorted(it, key=lambda x: x.name, reverse=reverse)
            self.i = iter(self.e)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def __iter__(self):
            return self.i

        def __next__(self):
            return next(self.i)
    os.scandir = Scan
    os.listdir = lambda *a: sorted(real_list(*a), reverse=reverse)
    try:
        if env.symbolic:
            with S.files(contents):
                yield
        else:
            yield
    finally:
        os.scandir, os.listdir = real_scan, real_list


def ident(env, name, n):
    """an identifier of n symbolic characters"""
    s = S.text(env, name, n, lo=33, exclude="\"()/\\.:")
    for ch in S.native(s):
        if env.symbolic:
            env.assume(env.Not(S.in_ranges(ch, S.SPACES)))
        else:
            env.assume(not ch.isspace())
    return s


def body_text(env, name, n, trimmed):
    s = S.text(env, name, n)
    if trimmed and n:
        for ch in {0: S.native(s)[0], 1: S.native(s)[-1]}.values():
            env.assume(env.Not(S.in_ranges(ch, S.SPACES)) if env.symbolic else not ch.isspace())
    return s


def blank(env, name, n):
    s = S.text(env, name, n)
    for ch in S.native(s):
        env.assume(S.in_ranges(ch, S.SPACES) if env.symbolic else ch.isspace())
    return s


def same(env, label, got, want):
    ok = isinstance(got, str) and len(got) == len(want)
    env.check(label, S.eq(env, got, want) if ok else False)
    if ok:
        env.observe(label, S.codes(got))


def line(env, libri, tag, k, n, style):
    u = ident(env, tag + "i", k) if not isinstance(k, str) else k
    t = body_text(env, tag + "t", n, libri)
    if libri:
        return u, t, u + " " + t
    pre, mid, post = {"plain": ("( ", ' "', '" )'), "tight": ("(", ' "', '")'), "wide": ("  (  ", '   "', '"  )  '), "tab": ("(\t", '\t"', '"\t)')}[style]
    return u, t, pre + u + mid + t + post


def dataset(libri, root):
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset
    return LibriSpeechDataset(Path(root), subset="dev-clean") if libri else CmuArcticDataset(Path(root), speaker="bdl")


def places(libri, d):
    if libri:
        return f"{d}/LibriSpeech/dev-clean/19/198", "19-198.trans.txt", "flac"
    return f"{d}/ARCTIC/cmu_us_bdl_arctic/wav", "../etc/txt.done.data", "wav"


def parse(env, cfg):
    """every line yields its identifier and its whole text; blank lines yield nothing"""
    S.fresh()
    libri = cfg["libri"]
    style = env.choice("layout", ["plain", "tight", "wide", "tab"]) if not libri else "plain"
    lines, want = [], []
    for j, spec in enumerate(cfg["lines"]):
        if spec == "blank":
            b = blank(env, f"b{j}", env.choice(f"blank {j}", [0, 1, 2]))
            lines.append(b + "\n")
            continue
        u, t, ln = line(env, libri, f"l{j}", spec[0], spec[1], style)
        last = j == len(cfg["lines"]) - 1 and env.choice("newline at the end", [True, False]) is False
        lines.append(ln + ("" if last else "\n"))
        want.append((u, t))
    with scratch() as d:
        adir, tfile, ext = places(libri, d)
        os.makedirs(adir)
        with corpus(env, {os.path.normpath(f"{adir}/{tfile}"): lines}):
            if libri:
                real = Path.exists
                Path.exists = lambda p, *a, **k: True if p.suffix == ".flac" else real(p, *a, **k)
                real2, real3 = Path.is_file, os.path.exists
                Path.is_file = lambda p, *a, **k: True if p.suffix == ".flac" else real2(p, *a, **k)
                try:
                    ds = dataset(libri, d)
                    r = env.call(ds.available_sentences)
                finally:
                    Path.exists, Path.is_file = real, real2
            else:
                r = env.call(dataset(libri, d).sentences)
    env.check("well-formed transcripts are read", r.ok)
    if not r.ok:
        return
    got = list(r.value)
    env.check("one sentence per line", len(got) == len(want))
    if len(got) == len(want):
        for j, (s, (u, t)) in enumerate(zip(got, want)):
            same(env, f"identifier {j}", s.utterance_id, u)
            same(env, f"text {j}", s.text, t)
            if libri:
                env.check(f"speaker and chapter {j}", s.speaker_id == "19" and s.chapter_id == "198")


def listing(env, cfg):
    """listed sentences are exactly the transcribed ones with an audio file, with their own text and file"""
    import torchrir.datasets.cmu_arctic as mc
    import torchrir.datasets.librispeech as ml
    import torch
    S.fresh()
    libri, n = cfg["libri"], cfg["n"]
    pre = "19-198-" if libri else "arctic_"
    files = [pre + x for x in env.choice("audio files", cfg["files"])]
    S.register(*files)
    lines, given = [], []
    for j in range(n):
        u = pre + ident(env, f"u{j}", cfg["k"])
        t = body_text(env, f"t{j}", cfg["t"], libri)
        given.append((u, t))
        lines.append((u + " " + t if libri else '( ' + u + ' "' + t + '" )') + "\n")
    loaded = []

    def load(path, *a, **k):
        loaded.append(path)
        return torch.zeros(3), 16000
    with scratch() as d:
        adir, tfile, ext = places(libri, d)
        os.makedirs(adir)
        for f in files + cfg.get("decoys", []):
            open(f"{adir}/{f}" + ("" if "." in f[3:] else "." + ext), "wb").close()
        m = ml if libri else mc
        names = [k for k in ("load", "load_audio") if k in vars(m)]
        old = {k: getattr(m, k) for k in names}
        for k in names:
            setattr(m, k, load)
        try:
            with corpus(env, {os.path.normpath(f"{adir}/{tfile}"): lines}):
                ds = dataset(libri, d)
                r = env.call(ds.available_sentences)
                env.check("listing succeeds", r.ok)
                if not r.ok:
                    return
                got = list(r.value)
                ref = [(u, t) for u, t in given if env.truth(env.Or(*[S.eq(env, u, f) for f in files]) if files else False)]
                env.check("exactly the transcribed utterances with audio are listed", len(got) == len(ref) == len(ds))
                if len(got) != len(ref):
                    return
                for j, (s, (u, t)) in enumerate(zip(got, ref)):
                    same(env, f"identifier {j}", s.utterance_id, u)
                    same(env, f"text {j}", s.text, t)
                    it = env.call(lambda: ds[j])
                    env.check(f"item {j} loads", it.ok and len(loaded) == j + 1)
                    if it.ok and len(loaded) == j + 1:
                        same(env, f"item {j} identifier", it.value.utterance_id, u)
                        same(env, f"item {j} text", it.value.text, t)
                        same(env, f"item {j} file", os.path.relpath(S.native(os.fspath(loaded[j])), d), os.path.relpath(adir, d) + "/" + u + "." + ext)
        finally:
            for k in names:
                setattr(m, k, old[k])


def order(env, cfg):
    """the listing does not depend on the order in which the file system reports directories, and speakers and
    chapters are those of the directories holding the transcript"""
    S.fresh()
    libri = cfg["libri"]
    t = body_text(env, "t", 2, True)
    with scratch() as d:
        cs = {}
        if libri:
            for sp, ch in (("103", "1240"), ("103", "999"), ("87", "5")):
                a = f"{d}/LibriSpeech/dev-clean/{sp}/{ch}"
                os.makedirs(a)
                for k in ("0001", "0000"):
                    open(f"{a}/{sp}-{ch}-{k}.flac", "wb").close()
                cs[f"{a}/{sp}-{ch}.trans.txt"] = [f"{sp}-{ch}-0001 " + t + "\n", f"{sp}-{ch}-0000 " + t + "\n"]
        else:
            a, tf, _ = places(False, d)
            os.makedirs(a)
            for k in ("b", "a", "c"):
                open(f"{a}/{k}.wav", "wb").close()
            S.register("a", "b", "c")
            cs[os.path.normpath(f"{a}/{tf}")] = [f'( {k} "' + t + '" )\n' for k in ("b", "a", "c")]
        seen = []
        for rev in (False, True):
            with corpus(env, cs, reverse=rev):
                ds = dataset(libri, d)
                r = env.call(ds.available_sentences)
                env.check("listing succeeds", r.ok)
                if not r.ok:
                    return
                seen.append(list(r.value))
                env.check("speakers sorted", ds.list_speakers() == sorted(ds.list_speakers()) and (not libri or ds.list_speakers() == ["103", "87"]))
    ids = [[S.native(x.utterance_id) for x in s] for s in seen]
    env.check("same order whatever the directory order", ids[0] == ids[1])
    env.check("everything is listed", sorted(ids[0]) == (sorted(f"{s}-{k}" for s in ("103-1240", "103-999", "87-5") for k in ("0000", "0001"))
                                                         if libri else ["a", "b", "c"]))
    for s in seen[0]:
        same(env, "text", s.text, t)
        if libri:
            env.check("speaker and chapter", S.native(s.utterance_id).startswith(f"{s.speaker_id}-{s.chapter_id}-"))


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=100000, time_s=600 if deep else 50, validate_max=4)
    b = [[(k, n)] for k in ((1, 2, 4) if deep else (1, 3)) for n in ((1, 2, 4, 7) if deep else (1, 4))]
    cs = []
    for libri in (False, True):
        nm = "libri" if libri else "cmu"
        for ls in b + ([] if libri else [[(2, 0)]]):
            cs.append(Case(f"{nm}-line-{ls[0][0]}-{ls[0][1]}", parse, dict(libri=libri, lines=ls), **o))
        cs.append(Case(f"{nm}-blank", parse, dict(libri=libri, lines=["blank", (1, 2), "blank", (2, 1)]), **o))
        fs = [[], ["a"], ["a", "b"], ["b", "ab"]] if deep else [[], ["a", "b"]]
        cs.append(Case(f"{nm}-listing", listing, dict(libri=libri, n=3 if deep else 2, k=1, t=2 if deep else 1, files=fs, decoys=["arctic_z.txt", "19-198-z.wav" if libri else "arctic_y.flac"]), **o))
        cs.append(Case(f"{nm}-order", order, dict(libri=libri), **o))
    return cs
