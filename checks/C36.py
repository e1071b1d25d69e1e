import contextlib
import io
import logging
import sys

from engine import strings as S
from engine.run import Case
from engine.symt import SymNum

EXPLANATION = ("sequences of set-up calls run with symbolic level numbers (and every level name, format and propagation flag), followed by "
               "messages of every severity through loggers of the namespace; logger names are strings of symbolic characters")
OUTSIDE = ["loggers to which the user attached handlers of their own", "level 0 (NOTSET), which delegates to the parent by definition",
           "more than the stated number of calls"]
ASSUMPTIONS = ["the standard logging module routes records as documented (its code is executed)"]

FORMATS = ["%(levelname)s:%(name)s:%(message)s", "A %(message)s", "B %(asctime)s %(message)s"]


@contextlib.contextmanager
def clean(env):
    """a fresh logging tree for the library and the root, restored afterwards"""
    man, root = logging.Logger.manager, logging.getLogger()
    saved = dict(man.loggerDict), root.handlers[:], root.level, logging.lastResort, logging._checkLevel
    tree = {n: (x, x.handlers[:], x.level, x.propagate, x.disabled) for n, x in man.loggerDict.items() if isinstance(x, logging.Logger)}
    for n in [n for n in man.loggerDict if n.split(".")[0] in ("torchrir", "app")]:
        del man.loggerDict[n]
    real = logging._checkLevel

    def check(level):
        return level if isinstance(level, SymNum) else real(level)
    logging._checkLevel = check
    out = io.StringIO()
    err, sys.stderr = sys.stderr, out
    seen = []

    class Root(logging.Handler):
        def emit(self, record):
            seen.append(record.getMessage())
    rh = Root()
    root.handlers[:] = [rh]
    root.setLevel(1)
    try:
        yield out, seen, rh
    finally:
        sys.stderr = err
        man.loggerDict.clear()
        man.loggerDict.update(saved[0])
        root.handlers[:] = saved[1]
        root.setLevel(saved[2])
        logging.lastResort, logging._checkLevel = saved[3:]
        for n, (x, hs, lv, pr, di) in tree.items():
            x.handlers[:] = hs
            x.level, x.propagate, x.disabled = lv, pr, di
        man._clear_cache()


def level_of(env, tag, kinds):
    k = env.choice(tag + " given as", kinds)
    if k == "number":
        v = env.int(tag, 1, 60)
        return v, v
    return k, {"DEBUG": 10, "info": 20, "Warning": 30, "ERROR": 40, "critical": 50, "WARN": 30, "fatal": 50}[k]


def sequence(env, cfg):
    from torchrir.logging import LoggingConfig, get_logger, setup_logging
    import torchrir.logging as tl
    n = cfg["calls"]
    with clean(env) as (out, seen, rh):
        root = logging.getLogger()
        state = None
        for i in range(n):
            given, num = level_of(env, f"level {i}", cfg["levels"])
            fmt = env.choice(f"format {i}", FORMATS[:cfg["formats"]])
            prop = env.choice(f"propagate {i}", cfg["propagate"])
            date = env.choice(f"datefmt {i}", cfg.get("dates", [None]))
            bad = cfg.get("bad") == i
            if bad:
                given = env.choice("bad level", ["verbose", "", None, 2.5, "10"])
            name = cfg.get("name")
            k = dict(name=name) if name else {}
            r = env.call(lambda: setup_logging(LoggingConfig(level=given, format=fmt, propagate=prop, datefmt=date), **k))
            if bad:
                env.check("an unknown level is refused", r.raised(ValueError, TypeError))
                continue
            env.check("set-up succeeds", r.ok)
            if not r.ok:
                return
            lg = r.value
            state = (num, fmt, prop, date)
            env.check("the library's logger is returned", lg is logging.getLogger(name or "torchrir"))
        base = logging.getLogger(cfg.get("name") or "torchrir")
        if state is None:
            env.check("nothing is configured by refused calls", not base.handlers)
            return
        num, fmt, prop, date = state
        env.check("exactly one handler", len(base.handlers) == 1)
        env.check("the root logger keeps its handler and level", root.handlers == [rh] and root.level == 1)
        if len(base.handlers) != 1:
            return
        h = base.handlers[0]
        env.check("logger at the requested level", base.level == num)
        sev = env.choice("severity", [10, 20, 25, 30, 40, 50])
        child = env.choice("through", cfg["through"])
        if cfg.get("name"):
            lg = logging.getLogger(cfg["name"] + ("" if child is None else "." + child))
        else:
            lg = get_logger(child)
        env.check("loggers of the namespace have no handlers of their own", lg is base or not lg.handlers)
        h.setStream(out)
        lg.log(sev, "hello %d", 7)
        text = out.getvalue()
        enabled = env.truth(num <= sev)
        env.check("emitted once when enabled, not otherwise", text.count("hello 7") == (1 if enabled else 0))
        env.check("the root sees it only when propagating", len(seen) == (1 if enabled and prop else 0))
        env.observe("emitted", [float(text.count("hello 7")), float(len(seen))])
        if enabled:
            want = logging.Formatter(fmt, datefmt=date)
            rec = logging.LogRecord(lg.name, sev, "", 0, "hello %d", (7,), None)
            if "asctime" not in fmt:
                env.check("the most recent format is used", text == want.format(rec) + "\n")
            else:
                stamp = text[2:].split(" hello")[0]
                env.check("the most recent date format is used", text.startswith("B ") and (len(stamp) == 4 and stamp.isdigit() if date else len(stamp) > 10))


def names(env, cfg):
    """loggers obtained by name live under the library's namespace"""
    from torchrir.logging import get_logger
    S.fresh()
    S.register("torchrir")
    pre = env.choice("prefix", ["", "torchrir", "torchrir.", "torch", "torchri"])
    n = env.choice("characters", cfg["n"])
    name = pre + S.text(env, "c", n, lo=32)
    asked = []
    real = logging.getLogger

    class Named:
        def __init__(self, name):
            self.name = name

    def fake(name=None):
        asked.append(name)
        return Named("root" if not name else name)
    with clean(env):
        if env.symbolic:
            logging.getLogger = fake
        try:
            r = env.call(get_logger, name)
            r0 = env.call(get_logger)
        finally:
            logging.getLogger = real
    env.check("a logger is returned", r.ok and r0.ok)
    if not (r.ok and r0.ok):
        return
    env.check("no name gives the base logger", r0.value.name == "torchrir")
    got = r.value.name
    if len(name) == 0:
        want = "torchrir"
    else:
        head = S.native(name)[:9]
        inside = S.eq(env, head[:8], "torchrir") if len(head) == 8 else (S.eq(env, head, "torchrir.") if len(head) == 9 else False)
        want = name if env.truth(inside) else "torchrir." + name
    ok = len(got) == len(want)
    env.check("the name, under the namespace", S.eq(env, got, want) if ok else False)
    if ok:
        env.observe("name", S.codes(got))


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=100000, time_s=600 if deep else 60, validate_max=4, weight=2)
    full = ["number", "DEBUG", "info", "Warning", "ERROR", "critical", "WARN", "fatal"]
    cs = [Case("one-call", sequence, dict(calls=1, levels=full, formats=3, propagate=[False, True], dates=[None, "%Y"], through=[None, "x"]), **o),
          Case("two-calls", sequence, dict(calls=2, levels=["number", "info"], formats=2, propagate=[False, True], through=["x.y"]), **o),
          Case("three-calls", sequence, dict(calls=3, levels=["number"], formats=2 if deep else 1, propagate=[False, True] if deep else [False], through=[None, "a", "torchrir.b"]), **o),
          Case("dates", sequence, dict(calls=2, levels=["ERROR", "DEBUG"], formats=3, propagate=[False], dates=[None, "%Y"], through=["x"]), **o),
          Case("refused", sequence, dict(calls=2, levels=["number"], formats=2, propagate=[True, False], through=["a"], bad=1), **o),
          Case("refused-first", sequence, dict(calls=1, levels=["number"], formats=1, propagate=[False], through=["a"], bad=0), **o),
          Case("other-name", sequence, dict(calls=2, levels=["number"], formats=2, propagate=[False, True], through=[None, "x"], name="app"), **o),
          Case("nested-name", sequence, dict(calls=2, levels=["number"], formats=1, propagate=[False], through=[None, "x"], name="torchrir.sub"), **o),
          Case("names", names, dict(n=[0, 1, 2, 4, 9] if not deep else list(range(0, 12))), **o)]
    if deep:
        cs.append(Case("four-calls", sequence, dict(calls=4, levels=["number"], formats=2, propagate=[False, True], through=["a"]), **o))
    return cs
