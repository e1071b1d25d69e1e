import os
import tarfile
import zlib
from pathlib import Path

from engine.run import Case
from checks._tar import Recorder, inside, make_member, scratch

EXPLANATION = ("both dataset loaders run their whole download and extraction on real scratch files, with a network and an archive reader whose "
               "faults (kind, place, stated length, bytes delivered) at every attempt of a history of calls are solver variables")
OUTSIDE = ["the process being killed outright during extraction (only interruptions Python can see)",
           "truncation of a transfer whose length the server does not state and whose end it does not mark",
           "corruption that the archive reader does not notice", "several processes downloading into one directory",
           "dataset directories left incomplete by something else"]
ASSUMPTIONS = ["an HTTP body shorter than its stated length ends like a complete one; its length attribute counts down as it is read",
               "reading a truncated or corrupt archive raises ReadError, EOFError, OSError or (gzip) zlib.error while it is scanned or extracted"]

GOOD, BAD = b"abc", b"abX"


class Crash(Exception):
    pass


class Layout:
    def __init__(self, libri, d):
        self.libri = libri
        self.root = Path(d) / "root"
        self.base = self.root if libri else self.root / "ARCTIC"
        if libri:
            self.archive = self.base / "dev-clean.tar.gz"
            self.dir = self.root / "LibriSpeech" / "dev-clean"
            self.other = self.root / "LibriSpeech" / "test-clean" / "1" / "x"
            self.members = {"LibriSpeech/README": b"r", "LibriSpeech/dev-clean/84/2/84-2.trans.txt": b"t", "LibriSpeech/dev-clean/84/2/84-2-0.flac": b"f"}
            self.inner = {n[len("LibriSpeech/dev-clean/"):]: v for n, v in self.members.items() if "dev-clean" in n}
        else:
            self.archive = self.base / "cmu_us_bdl_arctic.tar.bz2"
            self.dir = self.base / "cmu_us_bdl_arctic"
            self.other = self.base / "cmu_us_slt_arctic" / "etc" / "x"
            self.members = {"cmu_us_bdl_arctic/etc/txt.done.data": b"t", "cmu_us_bdl_arctic/wav/a.wav": b"w", "cmu_us_bdl_arctic/COPYING": b"c"}
            self.inner = {n[len("cmu_us_bdl_arctic/"):]: v for n, v in self.members.items()}
        self.part = self.archive.with_name(self.archive.name + ".part")

    def fill(self):
        for n, v in self.inner.items():
            p = self.dir / n
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(v)

    def state(self):
        if not self.dir.exists():
            return "absent"
        got = {str(p.relative_to(self.dir)): p.read_bytes() for p in self.dir.rglob("*") if p.is_file()}
        return "complete" if got == self.inner else "partial"

    def make(self):
        from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset
        if self.libri:
            return LibriSpeechDataset(self.root, subset="dev-clean", download=True)
        return CmuArcticDataset(self.root, speaker="bdl", download=True)


class Writing(Recorder):
    """extraction into the scratch directory"""

    def __init__(self, lay, d, fail_at=None, error=None):
        super().__init__([make_member(n, "file") for n in lay.members], [], fail_at, error)
        self.lay, self.d = lay, d

    def _extract(self, m, path, flt):
        where = os.path.realpath(os.path.join(str(path), m.name))
        if not inside(self.d, where):
            raise Crash("extraction outside the scratch directory")
        os.makedirs(os.path.dirname(where), exist_ok=True)
        with open(where, "wb") as f:
            f.write(self.lay.members[m.name])

    def extractfile(self, member):
        import io
        return io.BytesIO(self.lay.members[member if isinstance(member, str) else member.name])


class Headers(dict):
    def get(self, k, default=None):
        return dict.get(self, k.lower(), default)

    __getitem__ = get
    get_all = get


class Response:
    def __init__(self, data, length, end=None):
        self.data, self.length, self.end, self.status, self.code = data, length, end, 200, 200
        self.headers = Headers({} if length is None else {"content-length": str(length) if isinstance(length, int) else length})

    def read(self, n=-1):
        out, self.data = (self.data[:1], self.data[1:])     # one byte at a time
        if not out and self.end is not None:
            raise self.end
        if self.length is not None:
            self.length = self.length - len(out)
        return out

    def info(self):
        return self.headers

    def getheader(self, k, default=None):
        return self.headers.get(k, default)

    def getcode(self):
        return self.status

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Net:
    """faults while any are left"""

    def __init__(self, env, lay, d, faults, kinds, ekinds):
        self.env, self.lay, self.d, self.left = env, lay, d, faults
        self.kinds, self.ekinds = kinds, ekinds
        self.unknown = False
        self.opened, self.extracted, self.failed, self.n = 0, 0, 0, 0
        self.delivered, self.broken, self.interrupted = [], 0, False
        self.urls = []

    def fault(self, what, kinds):
        self.n += 1
        k = self.env.choice(f"{what} {self.n}", ["ok"] + kinds) if self.left else "ok"
        if k != "ok":
            self.left -= 1
        return k

    def urlopen(self, url, *a, **k):
        self.opened += 1
        self.urls.append(getattr(url, "full_url", url))
        env = self.env
        f = self.fault("transfer", self.kinds)
        if f in ("ok", "corrupt"):
            self.delivered.append("good" if f == "ok" else "bad")
            known = env.choice(f"length stated {self.n}", [True, False]) if self.unknown else True
            data = GOOD if f == "ok" else BAD
            return Response(data, len(data) if known else None)
        if f == "short":
            # any stated length from the number of bytes that arrive; equal means the transfer was complete after all
            k_ = env.choice(f"bytes {self.n}", [0, 2, 3])
            stated = env.int(f"stated length {self.n}", k_ + (k_ < 3), 10 ** 11)
            done = k_ == 3 and env.truth(stated == 3)
            self.failed += not done
            self.delivered.append("good" if done else "failed")
            return Response(GOOD[:k_], stated)
        self.failed += 1
        self.delivered.append("failed")
        if f == "refused":
            raise OSError("refused")
        k_ = env.choice(f"bytes {self.n}", [0, 2])
        stated = env.int(f"stated length {self.n}", k_ + 1, 10 ** 11)
        if f == "reset":
            return Response(GOOD[:k_], stated, ConnectionResetError("reset"))
        if f == "incomplete":
            import http.client
            return Response(GOOD[:k_], None, http.client.IncompleteRead(b""))
        if f == "interrupted":
            self.interrupted = True
            return Response(GOOD[:k_], stated, KeyboardInterrupt())
        raise AssertionError(f)

    def tar(self, name=None, mode="r", fileobj=None, *a, **k):
        self.extracted += 1
        data = fileobj.read() if fileobj is not None else Path(name).read_bytes()
        env = self.env
        if data == GOOD:
            f = self.fault("extraction", self.ekinds)
            if f == "ok":
                return Writing(self.lay, self.d)
            self.broken += 1
            self.interrupted = f == "interrupted"
            where = env.choice(f"place {self.n}", [1, "end"])
            return Writing(self.lay, self.d, where, OSError("disk full") if f == "disk" else KeyboardInterrupt())
        self.broken += 1
        errs = {"unreadable": (tarfile.ReadError("bad"), "open"), "ends": (EOFError("ended"), "scan"), "breaks": (OSError("bad stream"), 2),
                "ends late": (EOFError("ended"), 1)}
        if self.lay.libri:
            errs["inflate"] = (zlib.error("bad data"), "scan")
            errs["inflate late"] = (zlib.error("bad data"), 2)
        e, where = errs[env.choice(f"error {self.n}.{self.extracted}", list(errs))]
        if where == "open":
            raise e
        return Writing(self.lay, self.d, where, e)


def guarded(f):
    try:
        f()
        return None
    except KeyboardInterrupt as e:
        return e
    except Crash:
        raise
    except Exception as e:
        return e


def history(env, cfg):
    import urllib.request
    libri = cfg["libri"]
    arch = env.choice("archive", cfg["archive"])
    data = env.choice("dataset", cfg["dataset"])
    part = env.choice("part file", [False, True]) if cfg.get("part") else False
    with scratch() as d:
        lay = Layout(libri, d)
        lay.base.mkdir(parents=True)
        lay.other.parent.mkdir(parents=True)
        lay.other.write_bytes(b"other")
        init = {"absent": None, "good": GOOD, "truncated": GOOD[:2], "corrupt": BAD}[arch]
        if init is not None:
            lay.archive.write_bytes(init)
        if data == "complete":
            lay.fill()
        if part:
            lay.part.write_bytes(b"abcdef")
        net = Net(env, lay, d, cfg["faults"], cfg["kinds"], cfg["ekinds"])
        net.unknown = cfg.get("unknown", False)
        real_open, real_tf, real_url, real_ret = tarfile.open, tarfile.TarFile.open, urllib.request.urlopen, urllib.request.urlretrieve
        tarfile.open = net.tar
        urllib.request.urlopen = net.urlopen
        try:
            for call in range(cfg["calls"]):
                net.left = cfg["faults"] if call == 0 else net.left
                if call == cfg["calls"] - 1:
                    net.left = 0
                before, was, opened = net.failed, lay.state(), net.opened
                a0 = lay.archive.read_bytes() if lay.archive.exists() else None
                broken, net.delivered, net.interrupted = net.broken, [], False
                e = guarded(lay.make)
                judge(env, lay, net, e, was, a0, net.opened - opened, net.failed - before, net.broken - broken, call == cfg["calls"] - 1)
        finally:
            tarfile.open, urllib.request.urlopen = real_open, real_url


def judge(env, lay, net, e, was, a0, opened, failed, broken, last):
    now = lay.state()
    final = lay.archive.read_bytes() if lay.archive.exists() else None
    env.check("success means a complete dataset", e is not None or now == "complete")
    env.check("a dataset is never left incomplete", now != "partial")
    env.check("nothing incomplete appears under the archive's name", final in (None, a0, GOOD, BAD))
    env.check("a failed transfer never replaces the archive", final is None or final == a0 or (net.delivered and net.delivered[-1] == {GOOD: "good", BAD: "bad"}.get(final)))
    env.check("other data is untouched", lay.other.exists() and lay.other.read_bytes() == b"other")
    env.check("an existing dataset stays", was != "complete" or now == "complete")
    if was == "complete":
        env.check("existing data is not downloaded again", opened == 0)
        env.check("existing data can be used without a connection", e is None)
        return
    if a0 == GOOD and broken == 0:
        env.check("an existing archive is not downloaded again", opened == 0 and e is None)
    if last:
        env.check("a call without faults succeeds, whatever happened before", e is None)
    if net.interrupted:
        return
    if failed == 1 and broken == 0 and a0 is None and "bad" not in net.delivered:
        env.check("one failed transfer is retried", e is None and opened == 2)
    if broken == 1:
        # (the transfers that follow may fail, too)
        env.check("one unusable archive is replaced by a fresh download", opened >= 1 and (net.delivered[-1:] != ["good"] or e is None))
    env.check("the number of transfers is bounded", opened <= 4)
    env.check("failures are reported", not (net.delivered and net.delivered[-1] == "failed") or e is not None)
    env.check("the archive is fetched from the dataset's site", all(str(u).startswith(("https://", "http://")) and str(u).endswith("/" + lay.archive.name) for u in net.urls))


TRANSFER = ["refused", "short", "reset", "incomplete", "corrupt", "interrupted"]
EXTRACT = ["disk", "interrupted"]


def cases(tier):
    q = tier == "quick"
    out = []
    for libri in (True, False):
        n = "librispeech" if libri else "cmu"

        def add(tag, faults, calls, archive, dataset, kinds=TRANSFER, ekinds=EXTRACT, **k):
            out.append(Case(f"{n}-{tag}", history, dict(libri=libri, faults=faults, calls=calls, archive=archive, dataset=dataset, kinds=kinds, ekinds=ekinds, **k),
                            max_paths=4000, time_s=200 if q else 900))
        add("fresh", 2 if q else 3, 2, ["absent"], ["absent"])
        add("existing archive", 1 if q else 2, 2, ["good", "truncated", "corrupt"], ["absent"], part=True)
        add("existing data", 1, 2, ["absent", "good", "truncated"], ["complete"], part=True)
        add("transfers", 3 if q else 4, 2, ["absent"], ["absent"], kinds=["refused", "short"], ekinds=[], unknown=True)
        if not q:
            add("long history", 2, 3, ["absent", "corrupt"], ["absent"])
    return out
