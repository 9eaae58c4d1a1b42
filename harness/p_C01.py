"""C01: dense <-> MPA round trips."""
import itertools as it
import numpy as np
import gen
import ops

DT = ['f8', 'c16', 'f4', 'c8', 'i8', 'i4']


def arr_(rng, shape, dt):
    if dt == 'b1':
        return rng.randint(0, 2, size=shape).astype(bool)
    t = gen.tens(rng, shape, dt, -4, 4)
    k = rng.randint(6) if t.ndim else 5
    if k == 0:           # other memory layouts
        t = np.asfortranarray(t)
    elif k == 1:
        t = np.repeat(t, 2, axis=0)[::2]
    elif k == 2:
        t = np.array(t[..., ::-1])[..., ::-1]
    elif k == 3:
        t = t.copy()
        t.flags.writeable = False
    return t


def cases(rng, tier):
    """yield callables"""
    big = 256 if tier == 'thorough' else 128
    # every length x legs-per-site x dims pattern
    for n in range(1, 7):
        for legs in range(0, 4):
            for dims in ((1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (1, 7)):
                for dt in DT:
                    yield ('uni', n, legs, dims, dt)
    for rep in range(1500 if tier == 'thorough' else 250):
        yield ('mix', rng.randint(1, 7) if rep % 5 else rng.randint(7, 13), None, (1, 4) if rep % 3 else (1, 7), DT[rng.randint(len(DT))])
    for rep in range(300 if tier == 'thorough' else 60):
        yield ('kron', rng.randint(1, 6), None, (1, 3), DT[rng.randint(len(DT))])
        yield ('virt', rng.randint(1, 5), None, (1, 3), DT[rng.randint(2)])
        yield ('grp', rng.randint(1, 5), None, (1, 2), DT[rng.randint(2)])


def run(R, rng, tier, mine):
    R.again = 6
    R.units = True
    lim = 256 if tier == 'thorough' else 128
    for k, c in enumerate(list(cases(rng, tier))):
        sub = np.random.RandomState(rng.randint(2**31 - 1))
        if not mine(k):
            continue
        R.run_case('C01:%s' % (c,), one, R, sub, c, lim)


def rt(R, i, dense, rng, uniform):
    if i is None:
        return
    ops.to_array(R, i)
    if uniform:
        ops.to_array_global(R, i)
    ops.prep(R, rng, i)
    ops.to_array(R, i)
    if uniform:
        ops.to_array_global(R, i)


def one(R, rng, c, lim):
    kind, n, legs, dims, dt = c
    p = gen.prec(dt)
    if kind == 'uni':
        for _ in range(100):
            sh = [tuple(rng.randint(dims[0], dims[1] + 1) for _ in range(legs)) for _ in range(n)]
            if np.prod([np.prod(s, dtype=int) for s in sh], dtype=int) <= lim:
                break
        else:
            return
        flat = tuple(d for s in sh for d in s)
        arr = arr_(rng, flat, dt)
        if legs == 0:
            if n > 1:
                return
            i = ops.from_array(R, arr, None, p=p)
            return rt(R, i, arr, rng, False)
        i = ops.from_array(R, arr, legs, p=p)
        rt(R, i, arr, rng, True)
        if n == 1:
            i = ops.from_array(R, arr, None, p=p)
            rt(R, i, arr, rng, True)
        # global form
        gl = arr_(rng, tuple(sh[s][l] for l in range(legs) for s in range(n)), dt)
        i = ops.from_array(R, gl, legs, p=p, glob=True)
        rt(R, i, gl, rng, True)
        if n == 1:
            i = ops.from_array(R, gl, None, p=p, glob=True)
            rt(R, i, gl, rng, True)
        # rank deficient input
        f = [arr_(rng, s, dt) for s in sh]
        full = f[0]
        for t in f[1:]:
            full = np.multiply.outer(full, t)
        if np.abs(full.astype(complex)).max() < 20000:
            i = ops.from_array(R, full, legs, p=p)
            rt(R, i, full, rng, True)
        i = ops.from_array(R, np.zeros(flat, arr.dtype), legs, p=p)
        rt(R, i, full, rng, True)
    elif kind == 'mix':
        sh = gen.rshape(rng, n, legs=(0, 3), dims=dims, maxsize=lim)
        if n == 1 and not sh[0]:
            sh = [(2,)]
        flat = tuple(d for s in sh for d in s)
        # a trailing site without legs is indistinguishable from no site
        arr = arr_(rng, flat, dt)
        nd = [len(s) for s in sh]
        while len(nd) > 1 and nd[-1] == 0:
            nd.pop()
        if nd[-1] == 0:
            return
        i = ops.from_array(R, arr, nd, p=p, lazy=bool(rng.randint(2)))
        rt(R, i, arr, rng, False)
        # raw local tensors in arbitrary gauge
        i = R.new(gen.rmpa(rng, sh, 3, dt if dt != 'b1' else 'f8'), p=p)
        rt(R, i, None, rng, False)
    elif kind == 'kron':
        sh = gen.rshape(rng, n, legs=(0, 3), dims=dims, maxsize=lim)
        ts = [gen.tens(rng, s, dt if dt != 'b1' else 'i8') for s in sh]
        i = ops.from_kron(R, ts, p=p, lazy=bool(rng.randint(2)))
        rt(R, i, None, rng, False)
    elif kind == 'virt':
        sh = gen.rshape(rng, n, legs=(1, 2), dims=dims, maxsize=lim // 8)
        l, r = rng.randint(1, 4), rng.randint(1, 4)
        arr = arr_(rng, (l,) + tuple(d for s in sh for d in s) + (r,), dt)
        ops.from_array_virtual(R, arr, [len(s) for s in sh])
    elif kind == 'grp':
        k = rng.randint(1, 4)
        sh = gen.rshape(rng, n * k, legs=(0, 2), dims=dims, maxsize=lim)
        i = R.new(gen.rmpa(rng, sh, 3, dt), p=p)
        if i is None:
            return
        ops.prep(R, rng, i)
        g = ops.group_sites(R, i, int(k))
        ops.to_array(R, g)
        legs = rng.randint(1, 3)
        sh = [tuple(rng.randint(1, 3) for _ in range(legs * k)) for _ in range(n)]
        if np.prod([np.prod(s) for s in sh]) <= lim:
            i = R.new(gen.rmpa(rng, sh, 3, dt), p=p)
            ops.prep(R, rng, i)
            s = ops.split_sites(R, i, int(k))
            ops.to_array(R, s)
            if s is not None:
                ops.group_sites(R, s, int(k))
