from types import SimpleNamespace

from engine.run import Case
from checks._rng import ChoiceRng

EXPLANATION = ("load_dataset_sources and choose_speakers run on a stand-in dataset whose samples and asked duration are symbolic and whose "
               "random draws are all solver-chosen")
OUTSIDE = ["durations of less than one sample or not positive", "speakers all of whose utterances are empty", "recordings with several channels",
           "more speakers, utterances or samples than stated", "rounding of duration times rate in floating point"]
ASSUMPTIONS = ["the random generator follows the documented contract of random.Random (sample without replacement, shuffle in place)"]


def make(env, cfg, speakers, utts, rates):
    """utts[s]: list of lengths; audio is symbolic"""
    from torchrir.datasets.base import BaseDataset
    audio = {}
    for s, name in enumerate(speakers):
        for u, n in enumerate(utts[s]):
            audio[name, f"{name}-u{u}"] = env.tensor(f"a{s}_{u}", (n,), -1.0, 1.0)
    loaded, made = [], []

    class Set(BaseDataset):
        def __init__(self, speaker):
            self.speaker = speaker
            made.append(speaker)

        def list_speakers(self):
            return list(speakers)

        def available_sentences(self):
            return [SimpleNamespace(utterance_id=k[1], text="t") for k in audio if k[0] == self.speaker]

        def load_audio(self, utterance_id):
            loaded.append((self.speaker, utterance_id))
            return audio[self.speaker, utterance_id].clone(), rates[speakers.index(self.speaker)][int(utterance_id.rsplit("u", 1)[1])]
    return Set, audio, loaded, made


def sources(env, cfg):
    from torchrir.datasets import load_dataset_sources
    k = env.choice("speakers", cfg["speakers"])
    num = env.choice("asked sources", cfg["num"])
    names = [f"spk{chr(97 + i)}" for i in range(k)]
    lens = [[env.choice(f"length {s}.{u}", cfg["lengths"]) for u in range(env.choice(f"utterances {s}", cfg["utts"]))] for s in range(k)]
    if any(row and not sum(row) for row in lens):
        env.check("outside", True)
        return
    fs = cfg["fs"]
    if cfg.get("mismatch"):
        rates = [[env.choice(f"rate {s}.{u}", [fs, fs * 2]) for u in range(len(lens[s]))] for s in range(k)]
    else:
        rates = [[fs] * len(r) for r in lens]
    top = cfg["top"]
    dur = env.real("duration", 1.0 / (fs if not cfg.get("mismatch") else fs), (top + 0.99) / fs)
    Set, audio, loaded, made = make(env, cfg, names, lens, rates)
    keep = {i: a.clone() for i, a in audio.items()}
    r = env.call(load_dataset_sources, dataset_factory=Set, num_sources=num, duration_s=dur, rng=ChoiceRng(env))
    if num > k:
        env.check("too few speakers refused", not r.ok)
        return
    used = list(dict.fromkeys(s for s, _ in loaded))
    seen = [rates[names.index(s)][int(u.rsplit("u", 1)[1])] for s, u in loaded]
    if len(set(seen)) > 1:
        env.check("mismatched sampling rates refused", not r.ok)
        return
    if not r.ok:
        # the only other reason is a chosen speaker without utterances
        env.check("refused without reason", r.raised(RuntimeError) and any(not row for row in lens))
        return
    sig, rate, info = r.value
    env.check("a signal per source", sig.shape[0] == num and len(info) == num)
    env.check("sampling rate", isinstance(rate, int) and all(v == rate for v in seen))
    sp = [s for s, _ in info]
    env.check("distinct speakers", len(set(sp)) == num and all(s in names for s in sp))
    env.check("speakers that were loaded", used == sp)
    n = sig.shape[1]
    env.check("asked duration", env.And(n <= dur * rate, dur * rate < n + 1))
    for i, (s, ids) in enumerate(info):
        env.check(f"utterances of {i} are the ones loaded", list(ids) == [u for t, u in loaded if t == s])
        env.check(f"utterances of {i} belong to the speaker", all((s, u) in audio for u in ids))
        row = [x for u in ids if (s, u) in audio for x in [keep[s, u][t] for t in range(keep[s, u].shape[0])]]
        env.check(f"enough utterances for {i}", len(row) >= n)
        last = keep[s, ids[-1]].shape[0] if (s, ids[-1]) in keep else 0
        env.check(f"no utterance listed in vain {i}", len(row) - last < n)
        for t in range(min(n, len(row))):
            env.eq(f"source {i} sample {t}", sig[i, t], row[t], tol=0.0)
    for key, a in audio.items():
        env.check(f"dataset untouched {key}", tuple(a.shape) == tuple(keep[key].shape))


def speakers(env, cfg):
    from torchrir.datasets import choose_speakers
    k = env.choice("speakers", [0, 1, 2, 3, 4])
    num = env.choice("asked", [1, 2, 3, 4, 5])
    names = [f"s{i}" for i in range(k)]
    d = SimpleNamespace(list_speakers=lambda: list(names))
    r = env.call(choose_speakers, d, num, ChoiceRng(env))
    if k == 0 or num > k:
        env.check("refused", r.raised(RuntimeError, ValueError))
        return
    env.check("accepted", r.ok)
    env.check("count", len(r.value) == num)
    env.check("distinct members", len(set(r.value)) == num and set(r.value) <= set(names))


def cases(tier):
    deep = tier == "thorough"
    o = dict(max_paths=60000, time_s=700 if deep else 60)
    return [Case("one", sources, dict(speakers=[1], num=[1, 2], lengths=[0, 1, 3], utts=[0, 1, 2], fs=4, top=5), **o),
            Case("two", sources, dict(speakers=[2], num=[2], lengths=[1, 2] if not deep else [1, 2, 3], utts=[1, 2], fs=4, top=3), **o),
            Case("of-three", sources, dict(speakers=[3], num=[1, 2], lengths=[2], utts=[0, 1], fs=4, top=3), **o),
            Case("rates", sources, dict(speakers=[2], num=[2], lengths=[1], utts=[1, 2], fs=4, top=2, mismatch=True), **o),
            Case("long", sources, dict(speakers=[1], num=[1], lengths=[2], utts=[3], fs=8, top=7 if not deep else 12), **o),
            Case("speakers", speakers, {}, **o)]
