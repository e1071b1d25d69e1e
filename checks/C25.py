import os
import tarfile
from pathlib import Path

from engine import strings as S
from engine.run import Case
from checks._tar import Recorder, inside, make_member, scratch

EXPLANATION = ("member names are strings of symbolic characters up to a length, and longer names over path components; "
               "safe_extractall, and the two dataset loaders that call it, run on archives whose member names, kinds and link targets are "
               "chosen by solver-decided branches over an alphabet of path components; the extraction itself is a recorder that resolves "
               "where each member would be written")
OUTSIDE = ["names of more than the stated number of components", "archives changing between the check and the extraction",
           "file systems with case folding"]
ASSUMPTIONS = ["tarfile writes a member at dest joined with its name, following links (its documented default behaviour)"]

PARTS = ["..", ".", "", "a", "dest", "dest2", "...", "out", "back", "f.txt"]


def prepare(d):
    """scratch/dest with an existing link out of it and one back into it"""
    os.makedirs(f"{d}/w/dest/a")
    os.makedirs(f"{d}/w/dest2")
    os.symlink("../dest2", f"{d}/w/dest/out")
    os.symlink("a", f"{d}/w/dest/back")
    os.symlink("dest", f"{d}/w/lnk")
    return f"{d}/w/dest"


def pick_name(env, tag, n, parts):
    lead = env.choice(tag + " absolute", ["", "/", "SCRATCH/"])
    return lead, [env.choice(f"{tag} part {i}", parts) for i in range(n)]


def build(d, name):
    lead, comps = name
    return (f"{d}/w/" if lead == "SCRATCH/" else lead) + "/".join(comps)


def judge(env, d, dest, members, log, r):
    root = os.path.realpath(dest)
    bad = [w for w, _n, _t in log if not inside(root, w)]
    env.check("nothing is written outside the destination", not bad)
    probe = Recorder([], [])
    esc = any(not inside(root, probe.resolve(os.path.join(dest, m.name))) for m in members)
    if esc:
        env.check("an escaping member is refused", not r.ok)
    if not r.ok:
        env.check("refused before anything is written", not log)
    links = any(m.issym() or m.islnk() for m in members)
    special = any(not (m.isreg() or m.isdir()) for m in members)
    at_root = any(probe.resolve(os.path.join(dest, m.name)) == root for m in members)
    if not esc and not links and not special and not at_root:
        env.check("ordinary members are extracted", r.ok and [n for _w, n, _t in log] == [m.name for m in members])


def direct(env, cfg):
    from torchrir.datasets._archive import safe_extractall
    n = env.choice("components", cfg["n"])
    name = pick_name(env, "name", n, cfg["parts"])
    slash = env.choice("trailing slash", [False, True]) if cfg.get("slash") else False
    kind = env.choice("kind", cfg.get("kinds", ["file"]))
    via = env.choice("destination given as", cfg.get("via", ["path"]))
    with scratch() as d:
        dest = prepare(d)
        log = []
        first = [make_member("a/ok.txt", "file")] if cfg.get("first") else []
        ms = first + [make_member(build(d, name) + ("/" if slash else ""), kind, cfg.get("target", "a"))]
        if cfg.get("after"):
            ms.append(make_member("a/later.txt", "file"))
        old = os.getcwd()
        try:
            p = Path(dest)
            if via == "link":
                p = Path(f"{d}/w/lnk")
            elif via == "relative":
                os.chdir(f"{d}/w")
                p = Path("dest")
            elif via == "dotted":
                p = Path(f"{d}/w/dest/a/..")
            elif via == "missing":
                p = Path(f"{d}/w/dest/new")
            r = env.call(safe_extractall, Recorder(ms, log), p)
            judge(env, d, str(p), ms, log, r)
        finally:
            os.chdir(old)


def characters(env, cfg):
    """any name of up to n characters: each is a separator, a dot, the destination's one-letter name or any other character (which
    stays symbolic: paths treat all others alike)"""
    from torchrir.datasets._archive import safe_extractall
    S.fresh()
    n = env.choice("characters", cfg["n"])
    kind = env.choice("kind", cfg["kinds"])
    text = S.text(env, "name", n, 1, 0xD7FF, lines=True)
    name = ""
    for c in S.native(text):
        code = S.code(c) if env.symbolic else ord(c)
        for lit in "/.d":
            if env.truth(code == ord(lit)):
                c = lit
                break
        name += c
    with scratch() as d:
        dest = f"{d}/longname/d"
        os.makedirs(dest)
        log = []
        ms = [make_member(name, kind, "longname")]
        r = env.call(safe_extractall, Recorder(ms, log), Path(dest))
        judge(env, d, dest, ms, log, r)


def chain(env, cfg):
    """a link member followed by a member that goes through it"""
    from torchrir.datasets._archive import safe_extractall
    kind = env.choice("link kind", ["sym", "hard"])
    target = env.choice("link target", ["..", "../..", "a", ".", "/etc", "../dest2", "a/../../dest2", "back", "out", "f.txt"])
    second = env.choice("second member", ["l/f.txt", "l", "l/../f.txt", "l/a/f.txt", "./l/f.txt", "a/../l/f.txt"])
    order = env.choice("order", [0, 1])
    skind = env.choice("second kind", ["file", "dir"])
    with scratch() as d:
        dest = prepare(d)
        log = []
        ms = [make_member("l", kind, target), make_member(second, skind)]
        if order:
            ms.reverse()
        r = env.call(safe_extractall, Recorder(ms, log), Path(dest))
        judge(env, d, dest, ms, log, r)


def loaders(env, cfg):
    """the loaders refuse the same archives, also when they extract a second time after a fresh download"""
    import urllib.request
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset
    libri = cfg["libri"]
    lead, comps = pick_name(env, "name", 2, ["..", "a", "dest2"])
    kind = env.choice("kind", ["file", "sym", "hard"])
    corrupt = env.choice("first archive", ["readable", "unreadable", "breaks while extracting"])
    present = env.choice("archive already there", [False, True])
    with scratch() as d:
        root = f"{d}/w/root"
        os.makedirs(root)
        base = root if libri else root + "/ARCTIC"
        log, opened = [], []
        arch = f"{base}/" + ("dev-clean.tar.gz" if libri else "cmu_us_bdl_arctic.tar.bz2")
        if present:
            os.makedirs(base, exist_ok=True)
            open(arch, "wb").close()
        ms = [make_member("a/x", "file"), make_member(build(d, (lead, comps)), kind, "../../..")]

        def fake_open(name=None, mode="r", *a, **k):
            opened.append(str(name))
            if len(opened) == 1 and corrupt != "readable":
                if corrupt == "unreadable":
                    raise tarfile.ReadError("bad archive")
                return Recorder([make_member("a/x", "file")], log, fail_at=0, error=OSError("bad stream"))
            return Recorder(ms, log)

        class Response:
            length = 4

            def __init__(self):
                self.data = b"data"

            def read(self, n=-1):
                out, self.data = self.data, b""
                return out

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        real_open, real_url = tarfile.open, urllib.request.urlopen
        tarfile.open = fake_open
        urllib.request.urlopen = lambda *a, **k: Response()
        try:
            if libri:
                r = env.call(LibriSpeechDataset, Path(root), subset="dev-clean", download=True)
            else:
                r = env.call(CmuArcticDataset, Path(root), speaker="bdl", download=True)
        finally:
            tarfile.open, urllib.request.urlopen = real_open, real_url
        env.check("the archive was opened from the dataset root", all(inside(root, os.path.realpath(o)) for o in opened))
        judge(env, d, base, ms, log, r) if not (r.raised(FileNotFoundError)) else env.check(
            "nothing is written outside the destination", not [w for w, _n, _t in log if not inside(base, w)])
        env.check("opened once, or twice after a corrupt archive", len(opened) == (1 if corrupt == "readable" else 2))


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=100000, time_s=700 if deep else 60, validate_max=3, weight=3)
    cs = [Case("short", direct, dict(n=[1, 2], parts=PARTS, slash=True), **o)]
    three = ["..", "a", "dest2", "out"] if not deep else PARTS
    cs.append(Case("three", direct, dict(n=[3], parts=three, first=True, after=True), **o))
    four = ["..", "a", "dest"] if not deep else ["..", ".", "", "a", "dest2", "out"]
    cs.append(Case("four", direct, dict(n=[4], parts=four), **o))
    if deep:
        cs.append(Case("five", direct, dict(n=[5], parts=["..", "a", "dest", "out"], first=True), **o))
    cs.append(Case("kinds", direct, dict(n=[1, 2], parts=["..", "a", "f.txt"], kinds=["file", "dir", "sym", "hard", "fifo", "chr", "cont", "sparse"],
                                         first=True, after=True, target="../../x"), **o))
    cs.append(Case("dest-forms", direct, dict(n=[1, 2, 3] if deep else [1, 2], parts=["..", "a", "dest", "dest2"], via=["path", "link", "relative", "dotted", "missing"]), **o))
    for k in ([1, 2, 3, 4], [5]) if not deep else ([1, 2, 3, 4], [5], [6]):
        cs.append(Case(f"characters-{k[-1]}", characters, dict(n=k, kinds=["file"] if k[-1] > 4 else ["file", "sym"]), **o))
    cs.append(Case("chain", chain, {}, **o))
    cs.append(Case("libri", loaders, dict(libri=True), **o))
    cs.append(Case("cmu", loaders, dict(libri=False), **o))
    return cs
