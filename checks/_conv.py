"""Reference linear convolution, used by several checks."""


def conv(env, x, h):
    n, L = len(x), len(h)
    out = []
    for j in range(n + L - 1):
        out.append(env.sum([x[i] * h[j - i] for i in range(max(0, j - L + 1), min(n, j + 1))]))
    return out


def add_at(out, start, y):
    for i, v in enumerate(y):
        out[start + i] = out[start + i] + v


def row(t):
    return [t[i] for i in range(t.shape[0])]


def sig(env, shape, name="x"):
    return env.tensor(name, shape, -1.0, 1.0)


def compare(env, what, got, want, tol=1e-6):
    """got: tensor (n_mic, N) or (N,);  want: list of rows"""
    shape = (len(want[0]),) if len(want) == 1 else (len(want), len(want[0]))
    if not env.truth(tuple(got.shape) == shape):
        env.fail(f"{what}: shape {tuple(got.shape)}, expected {shape}")
    g = got.reshape(len(want), -1)
    for m, w in enumerate(want):
        for j, v in enumerate(w):
            env.eq(f"{what}: mic {m} sample {j}", g[m, j], v, tol=tol)
