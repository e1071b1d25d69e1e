"""Independent reference model of the image-source method, used by several checks."""
import itertools
import math

import torch

D = torch.float64
C = 343.0


def cfg_plain(fdl=5, **k):
    from torchrir.config import SimulationConfig
    base = dict(frac_delay_length=fdl, use_lut=False, rir_hpf_enable=False)
    base.update(k)
    return SimulationConfig(**base)


def images(order, dim, nb=None):
    if nb is not None:
        return list(itertools.product(*[range(-n, n + 1) for n in nb]))
    r = range(-order, order + 1)
    return [v for v in itertools.product(r, repeat=dim) if sum(abs(x) for x in v) <= order]


def mirror_1d(n, s, length, b_lo, b_hi):
    """|n| successive reflections at alternating walls, the last one at the wall on the side the
    image lies on; returns (coordinate, product of wall coefficients)."""
    k = abs(n)
    walls = []
    side = "hi" if n > 0 else "lo"
    for _ in range(k):
        walls.append(side)
        side = "lo" if side == "hi" else "hi"
    walls.reverse()
    p, g = s, 1.0
    # Unfold: reflecting the whole picture at a wall of the real room, first wall first.  In the
    # frame of the real room the point moves from p to 2*wall-p.
    for w in walls:
        if w == "hi":
            p = 2.0 * length - p
            g = g * b_hi
        else:
            p = 0.0 - p
            g = g * b_lo
    return p, g


GAINS = {
    "omni": lambda c: 1.0,
    "subcardioid": lambda c: 0.75 + 0.25 * c,
    "cardioid": lambda c: 0.5 + 0.5 * c,
    "hypercardioid": lambda c: 0.25 + 0.75 * c,
    "bidir": lambda c: c,
}


def gain(env, pattern, c):
    if pattern == "homni":
        return env.ite(c > 0, 1.0, 0.0)
    return GAINS[pattern](c)


def hann(fdl):
    if fdl == 1:
        return [1.0]
    return [0.5 - 0.5 * math.cos(2 * math.pi * i / (fdl - 1)) for i in range(fdl)]


def img_list(env, src, mic, size, beta, idx, pat=("omni", "omni"), so=None, mo=None):
    """[(distance, amplitude)] of each image source.  so/mo: unit vectors (lists) or None."""
    dim = len(size)
    out = []
    for n in idx:
        g = 1.0
        v = []
        for d in range(dim):
            p, b = mirror_1d(n[d], src[d], size[d], beta[2 * d], beta[2 * d + 1])
            g = g * b
            v.append(mic[d] - p)
        d2 = 0.0
        for x in v:
            d2 = d2 + x * x
        dist = env.sqrt(d2)
        a = g
        if pat[0] != "omni":
            a = a * gain(env, pat[0], sum_(x * o for x, o in zip(v, so)) / dist)
        if pat[1] != "omni":
            a = a * gain(env, pat[1], sum_(-1.0 * x * o for x, o in zip(v, mo)) / dist)
        out.append((dist, a / dist))
    return out


def sum_(it):
    r = 0.0
    for x in it:
        r = r + x
    return r


def render(env, imgs, fs, c, nsample, fdl, tol0=0.0):
    """rir[j] = sum_i A_i * sinc(j - s_i) * hann[j - floor(s_i) + (fdl-1)/2] with
    s_i = fs*d_i/c + (fdl-1)/2."""
    h = (fdl - 1) // 2
    w = hann(fdl)
    terms = [[] for _ in range(nsample)]
    for dist, amp in imgs:
        s = dist / c * fs + h
        i0 = env.floor(s)
        lo, hi = bounds(env, i0)
        for j in range(nsample):
            if hi is not None and (j > hi + h or j < lo - h):
                continue
            win = 0.0
            for n in range(fdl):
                if abs(w[n]) < 1e-12:
                    continue
                if hi is not None and not (lo <= j - n + h <= hi):
                    continue
                win = win + env.ite(i0 == j - n + h, w[n], 0.0)
            terms[j].append(amp * win * env.sinc(j - s))
    return [env.sum(t) for t in terms]


def bounds(env, i0):
    if not env.symbolic:
        return i0, i0
    from engine import terms as T
    from engine.symt import SymNum
    if not isinstance(i0, SymNum):
        return int(i0), int(i0)
    lo, hi = T.iv(i0.e)
    return (None, None) if lo is None or hi is None else (int(lo), int(hi))


def vec(env, name, los, his):
    return [env.real(f"{name}{i}", lo, hi) for i, (lo, hi) in enumerate(zip(los, his))]


def betas(env, dim, lo=0.0, hi=1.0, name="b"):
    return [env.real(f"{name}{i}", lo, hi) for i in range(2 * dim)]


def room(env, size, beta, fs, c=C, t60=None, dtype=D):
    from torchrir.models import Room
    return Room.shoebox(size=env.tensor_of(size), fs=fs, c=c,
                        beta=None if beta is None else env.tensor_of(beta), t60=t60, dtype=dtype)
