"""Metadata files with symbolic numbers."""
import json
import os
from pathlib import Path


class Json:
    """json.dump / json.load on symbolic numbers: keeps the tree, refusing what JSON cannot hold"""

    def __init__(self, env):
        self.env, self.kept, self.old = env, {}, None

    def tree(self, x):
        from engine.symt import SymBool, SymNum
        if x is None or isinstance(x, (bool, int, float, str, SymNum, SymBool)):
            return x
        if isinstance(x, dict):
            if not all(isinstance(k, str) for k in x):
                raise TypeError("keys must be str")
            return {k: self.tree(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.tree(v) for v in x]
        raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")

    def dump(self, obj, fp, **k):
        self.kept[os.path.realpath(fp.name)] = self.tree(obj)
        fp.write("kept")

    def dumps(self, obj, **k):
        key = f"kept-string-{len(self.kept)}"
        self.kept[key] = self.tree(obj)
        return key

    def __enter__(self):
        if self.env.symbolic:
            self.old = json.dump, json.dumps
            json.dump, json.dumps = self.dump, self.dumps
        return self

    def __exit__(self, *a):
        if self.old:
            json.dump, json.dumps = self.old

    def read(self, path):
        if self.env.symbolic:
            s = Path(path).read_text()
            return self.kept[s.strip()] if s.startswith("kept-string") else self.kept[os.path.realpath(path)]
        with open(path, encoding="utf-8") as f:
            return json.load(f)


def numbers(env, label, got, want):
    """nested lists of numbers equal to a tensor"""
    import torch
    if isinstance(want, torch.Tensor):
        want = want.tolist()

    def shape(x):
        return (len(x),) + shape(x[0]) if isinstance(x, list) and x else (0,) if isinstance(x, list) else ()

    def flat(x):
        return [v for y in x for v in flat(y)] if isinstance(x, list) else [x]
    ok = shape(got) == shape(want) and (not isinstance(got, list) or len(flat(got)) == len(flat(want)))
    env.check(label + ": shape", ok)
    if ok and flat(got):
        env.eq(label, flat(got), flat(want), 1e-5)
