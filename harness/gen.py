"""Random integer-valued inputs."""
import numpy as np

DTYPES = ['f8', 'c16', 'f4', 'c8', 'i8']


def prec(dt):
    return 2 if dt in ('f4', 'c8') else 1


def tens(rng, shape, dt='f8', lo=-2, hi=2):
    shape = tuple(shape)
    for _ in range(20):
        t = rng.randint(lo, hi + 1, size=shape)
        if dt[0] == 'c':
            t = t + 1j * rng.randint(lo, hi + 1, size=shape)
        if t.size == 0 or np.any(t):
            break
    else:
        t = np.ones(shape)
    return np.array(t).astype(np.dtype(dt))


def rshape(rng, n, legs=(0, 3), dims=(1, 3), maxsize=128, uniform=None):
    """list of site shapes with bounded total size"""
    if uniform is not None:
        return [tuple(uniform)] * n
    for _ in range(20 if n > 4 and dims[0] == 1 else 200):
        sh = [tuple(rng.randint(dims[0], dims[1] + 1)
                    for _ in range(rng.randint(legs[0], legs[1] + 1))) for _ in range(n)]
        while sum(len(s) for s in sh) > 28:              # numpy's limit (dense values)
            i = rng.randint(n)
            if len(sh[i]) > min(legs[0], 28 // n):
                sh[i] = sh[i][1:]
        if dims == (1, 3) and rng.randint(5) == 0:       # one large leg
            i = rng.randint(n)
            if sh[i]:
                j = rng.randint(len(sh[i]))
                sh[i] = sh[i][:j] + (rng.randint(4, 8),) + sh[i][j + 1:]
        if np.prod([np.prod(s, dtype=int) for s in sh], dtype=int) <= maxsize:
            return sh
    if dims[0] > 1:
        return [(1,)] * n
    # too large: make random legs trivial until it fits
    where = [(i, j) for i, s in enumerate(sh) for j in range(len(s)) if s[j] > 1]
    for k in rng.permutation(len(where)):
        i, j = where[k]
        sh[i] = sh[i][:j] + (1,) + sh[i][j + 1:]
        if np.prod([np.prod(s, dtype=int) for s in sh], dtype=int) <= maxsize:
            break
    return sh


def rranks(rng, n, rmax=3):
    rk = [1] + [rng.randint(1, rmax + 1) for _ in range(n - 1)] + [1]
    if rmax in (2, 3) and n > 1 and rng.randint(6) == 0:      # one large bond
        rk[rng.randint(1, n)] = rng.randint(4, 10)
    return rk


def lts(rng, sh, rmax=3, dt='f8', lo=-1, hi=1, ranks=None):
    rk = ranks or rranks(rng, len(sh), rmax)
    real = {'c16': 'f8', 'c8': 'f4'}.get(dt, dt)
    dts = [dt] * len(sh)
    if real != dt and rng.randint(2):       # complex array with some real sites
        dts = [[dt, real][rng.randint(2)] for _ in sh]
    return [tens(rng, (rk[i],) + tuple(s) + (rk[i + 1],), dts[i], lo, hi) for i, s in enumerate(sh)]


def val(ltens):
    from obs import contract
    return contract(ltens)[0, ..., 0]


def small(ltens, lim=10000):
    v = val(ltens)
    return np.abs(v).max() < lim


def rmpa(rng, sh, rmax=3, dt='f8', lim=3000):
    for k in range(50):
        t = lts(rng, sh, rmax if k < 40 else 1, dt)
        if k > 10:
            t = [(x * (rng.randint(k, size=x.shape) < 12)).astype(x.dtype) for x in t]
        if np.abs(val(t)).max() < lim and np.any(val(t)):
            return t
    return t
