"""A stand-in for tarfile.TarFile: members are given, extraction is only recorded (nothing is ever written), with the
effects a real extraction would have tracked on a model of the links created so far."""
import contextlib
import os
import shutil
import tarfile
import tempfile


def make_member(name, kind, link=""):
    m = tarfile.TarInfo(name)
    m.type = {"file": tarfile.REGTYPE, "dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE,
              "fifo": tarfile.FIFOTYPE, "chr": tarfile.CHRTYPE, "cont": tarfile.CONTTYPE, "sparse": tarfile.GNUTYPE_SPARSE}[kind]
    m.linkname = link
    m.size = 0
    return m


class Recorder:
    """looks enough like an open TarFile"""
    name, mode, fileobj, errorlevel, debug, format, encoding = "x.tar", "r", None, 1, 0, tarfile.DEFAULT_FORMAT, "utf-8"
    extraction_filter = None

    def __init__(self, members, log, fail_at=None, error=None):
        self.members, self.log, self.links = members, log, {}
        self.fail_at, self.error = fail_at, error
        self.read = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def _fail(self, where):
        if where is not None and self.fail_at == where:
            raise self.error

    def getmembers(self):
        self._fail("scan")
        return list(self.members)

    def getnames(self):
        return [m.name for m in self.getmembers()]

    def __iter__(self):
        return iter(self.getmembers())

    def next(self):
        if self.read < len(self.members):
            self.read += 1
            return self.members[self.read - 1]
        return None

    def getmember(self, name):
        for m in reversed(self.members):
            if m.name.rstrip("/") == name.rstrip("/"):
                return m
        raise KeyError(name)

    def extractfile(self, member):
        raise NotImplementedError

    def extractall(self, path=".", members=None, *, numeric_owner=False, filter=None):
        todo = self.members if members is None else list(members)
        for k, m in enumerate(todo):
            self._fail(k)
            self._extract(m, path, filter)
        self._fail("end")

    def extract(self, member, path="", set_attrs=True, *, numeric_owner=False, filter=None):
        m = self.getmember(member) if isinstance(member, str) else member
        k = next((i for i, o in enumerate(self.members) if o is m), None)
        self._fail(k)
        self._extract(m, path, filter)
        if k == len(self.members) - 1:
            self._fail("end")

    def _extract(self, m, path, flt):
        if isinstance(flt, str):
            flt = {"data": tarfile.data_filter, "tar": tarfile.tar_filter, "fully_trusted": tarfile.fully_trusted_filter}[flt]
        if flt is not None:
            try:
                m = flt(m, str(path))
            except tarfile.FilterError:
                raise
            if m is None:
                return
        where = self.resolve(os.path.join(str(path), m.name))
        self.log.append((where, m.name, m.type))
        if m.type == tarfile.SYMTYPE:
            self.links[where] = os.path.join(os.path.dirname(where), m.linkname)
        elif m.type == tarfile.LNKTYPE:
            t = self.resolve(os.path.join(str(path), m.linkname))
            self.links[where] = t

    def resolve(self, p):
        """where the operating system would end up, following real and archived links"""
        cur, parts, n = "/", os.path.abspath("/") and [x for x in os.path.join(os.getcwd(), p).split("/")], 0
        parts = parts[::-1]
        while parts:
            x = parts.pop()
            if x in ("", "."):
                continue
            if x == "..":
                cur = os.path.dirname(cur)
                continue
            nxt = os.path.join(cur, x)
            t = self.links.get(nxt)
            if t is None and os.path.islink(nxt):
                t = os.path.join(cur, os.readlink(nxt))
            if t is None:
                cur = nxt
                continue
            n += 1
            if n > 20:
                return nxt
            parts.extend(t.split("/")[::-1])
            cur = "/"
        return cur


def inside(root, p):
    root = os.path.realpath(root)
    return p == root or p.startswith(root.rstrip("/") + "/")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-scratch-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
