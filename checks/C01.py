from engine.run import Case
from checks import _ism as I

LEVEL = "other"
EXPLANATION = ("simulate_rir is executed symbolically (source, microphone, room size, wall coefficients are real "
               "variables) and every output sample is proved equal to an independently written sum over mirror images.")


def body(env, cfg):
    from torchrir.sim import simulate_rir
    dim, order, nb, nsample, fs = cfg["dim"], cfg["order"], cfg.get("nb"), cfg["nsample"], cfg["fs"]
    fdl = cfg.get("fdl", 5)
    size = I.vec(env, "L", [2.0] * dim, [2.5] * dim)
    src = I.vec(env, "s", [0.2] + [0.4] * (dim - 1), [0.7] + [1.4] * (dim - 1))
    if cfg.get("anywhere"):
        src, mic = I.vec(env, "s", [0.0] * dim, [2.0] * dim), I.vec(env, "m", [0.0] * dim, [2.0] * dim)
        env.assume(mic[0] - src[0] >= 0.001)
    elif cfg.get("near"):
        src = I.vec(env, "s", [0.0] * dim, [1.9] * dim)
        mic = [a + d for a, d in zip(src, I.vec(env, "d", [0.0005] + [-0.02] * (dim - 1), [0.03] * dim))]
    else:
        mic = I.vec(env, "m", [1.0] + [0.5] * (dim - 1), [1.8] + [1.5] * (dim - 1))
    beta = I.betas(env, dim)
    c = env.real("c", 300.0, 360.0) if cfg.get("c") else I.C
    room = I.room(env, size, beta, fs, c=c)
    out = simulate_rir(room=room, sources=env.tensor_of([src]), mics=env.tensor_of([mic]), max_order=order,
                       nb_img=nb, nsample=nsample, config=I.cfg_plain(fdl))
    imgs = I.img_list(env, src, mic, size, beta, I.images(order, dim, nb))
    ref = I.render(env, imgs, fs, c, nsample, fdl)
    env.eq("rir", out, [[ref]])


def cases(tier):
    cs = [
        Case("2d-o0", body, dict(dim=2, order=0, nsample=10, fs=343.0)),
        Case("2d-o2", body, dict(dim=2, order=2, nsample=20, fs=343.0)),
        Case("2d-o3", body, dict(dim=2, order=3, nsample=24, fs=343.0)),
        Case("3d-o1", body, dict(dim=3, order=1, nsample=14, fs=343.0)),
        Case("3d-o2", body, dict(dim=3, order=2, nsample=18, fs=343.0)),
        Case("3d-o3", body, dict(dim=3, order=3, nsample=12, fs=171.5)),
        Case("2d-nb31", body, dict(dim=2, order=1, nb=(3, 1), nsample=20, fs=343.0)),
        Case("3d-nb102", body, dict(dim=3, order=0, nb=(1, 0, 2), nsample=18, fs=343.0)),
        Case("2d-short1", body, dict(dim=2, order=2, nsample=1, fs=343.0)),
        Case("2d-short3", body, dict(dim=2, order=2, nsample=3, fs=343.0)),
        Case("2d-short5", body, dict(dim=2, order=1, nsample=5, fs=686.0)),
        Case("2d-fdl1", body, dict(dim=2, order=1, nsample=10, fs=343.0, fdl=1)),
        Case("2d-fdl3", body, dict(dim=2, order=2, nsample=4, fs=343.0, fdl=3)),
        Case("2d-fdl7", body, dict(dim=2, order=1, nsample=9, fs=686.0, fdl=7)),
        Case("3d-short4", body, dict(dim=3, order=1, nsample=4, fs=343.0)),
    ]
    cs += [Case("2d-anywhere", body, dict(dim=2, order=2, nsample=12, fs=343.0, anywhere=True)),
           Case("3d-near", body, dict(dim=3, order=1, nsample=9, fs=343.0, near=True)),
           Case("2d-near", body, dict(dim=2, order=1, nsample=9, fs=686.0, near=True, fdl=3)),
           Case("2d-speed", body, dict(dim=2, order=2, nsample=14, fs=343.0, c=True))]
    if tier == "thorough":
        cs += [
            Case("2d-o6", body, dict(dim=2, order=6, nsample=40, fs=343.0)),
            Case("3d-o4", body, dict(dim=3, order=4, nsample=30, fs=343.0)),
            Case("3d-o5", body, dict(dim=3, order=5, nsample=12, fs=343.0)),
            Case("2d-nb74", body, dict(dim=2, order=1, nb=(7, 4), nsample=50, fs=343.0)),
            Case("3d-nb322", body, dict(dim=3, order=0, nb=(3, 2, 2), nsample=30, fs=343.0)),
            Case("2d-fdl21", body, dict(dim=2, order=3, nsample=40, fs=686.0, fdl=21)),
            Case("2d-fs2k", body, dict(dim=2, order=2, nsample=60, fs=2000.0)),
        ]
    return cs
