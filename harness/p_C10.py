"""C10: singular values over all cuts, norm."""
import numpy as np
import mpnum as mp
import bpp
import gen
import ops
from p_C05 import scale_lt

DT = ['f8', 'c16', 'i8']


def run(R, rng, tier, mine):
    R.units = True
    k = 0
    for rep in range(2500 if tier == 'thorough' else 400):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C10:pairs', pairs, R, s, s.randint(1, 6))
    for rep in range(2500 if tier == 'thorough' else 400):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C10:any', anyt, R, s, s.randint(1, 7))
    for rep in range(100 if tier == 'thorough' else 16):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C10:wide', wide, R, s)


def wide(R, rng):
    """many singular values"""
    d = int(rng.randint(17, 24))
    M = np.zeros((d, d))
    M[np.arange(d), rng.permutation(d)] = rng.choice([-1, 1], size=d)
    for _ in range(rng.randint(0, 6)):
        M[rng.randint(d), rng.randint(d)] = rng.randint(-1, 2)
    if rng.randint(3) == 0:
        M[rng.randint(d)] = 0
    lts = [np.eye(d)[None], M[..., None]]
    k = rng.randint(3)
    if k == 1:
        lts = [np.eye(d)[None], M[:, None], np.eye(d)[..., None]]
    elif k == 2:
        lts = [np.ones((1, 1)), np.eye(d)[None], M[..., None], np.ones((1, 1))]
    powers(R, rng, R.new(lts), M, 'rank %d' % d)


def powers(R, rng, m, val, desc):
    ops.prep(R, rng, m)
    w = 16 * np.linalg.norm(val) ** 2
    pm = 1
    while pm < 5 and w ** (pm + 1) < 1e7:
        pm += 1

    def f(x):
        un = 2.0 ** (-2 * R.unit.get(m, 0))
        return [np.array([((v * un) ** k).sum() for k in range(1, pm + 1)]) for v in sq(x, [])]
    R.op('svals_pow', [m], f, a=dict(m=pm), out='vals', unit=0, desc='singularvals of %s' % desc)
    ops.norm(R, m)
    for _ in range(rng.randint(3)):
        scale_lt(R, m, int(rng.randint(len(R.obj[m]))), bool(rng.randint(2)), rng, True)
        if rng.randint(2):
            ops.norm(R, m)
    if rng.randint(2):
        ops.rand_canon(R, rng, m)
    ops.norm(R, m)
    R.op('svals_pow', [m], f, a=dict(m=pm), out='vals', unit=0, desc='singularvals again')
    ops.to_array(R, m)


def sq(m, cnt):
    out = []
    for v in m.singularvals():
        v = np.asarray(v)
        if v.ndim != 1 or (v < 0).any():
            raise ValueError('singular values not a vector of non-negative numbers')
        cnt.append(len(v))
        out.append(np.sort(v.astype(float))[::-1] ** 2)
    return out


def pairs(R, rng, n):
    m, d, dt = bpp.make(R, rng, n, maxsize=200, dts=('f8', 'i8'))
    if m is None:
        return
    ops.prep(R, rng, m)
    for _ in range(2):
        cnt = []
        need = [len(d['lam'][0] if d['kind'] == 'ghz' else d['lam'][b]) for b in range(n - 1)]

        def f(x):
            v = sq(x, cnt)
            # missing zero singular values do not matter
            for b, w in enumerate(v):
                if b < len(need) and len(w) < need[b]:
                    v[b] = np.concatenate([w, np.zeros(need[b] - len(w))])
            return v
        a = dict(d=d, cnt=cnt)
        R.op('svals_bpp', [m], f, a=a, out='vals', desc='singularvals kind=%s lam=%s' % (d['kind'], d['lam']),
             extra=lambda r: {})
        while len(cnt) < n - 1:
            cnt.append(0)
        ops.norm(R, m)
        if rng.randint(2):
            scale_lt(R, m, int(rng.randint(n)), False, rng)
            if rng.randint(2):
                ops.norm(R, m)
        if rng.randint(2):
            ops.rand_canon(R, rng, m)
        if rng.randint(2):
            c = ops.unary(R, ['copy', 'conj', 'reverse'][0], m)
            if c is not None:
                m = c


def anyt(R, rng, n):
    dt = DT[rng.randint(len(DT))]
    flav = rng.randint(4)
    sh = gen.rshape(rng, n, legs=(0, 2), dims=(1, 3), maxsize=72)
    t = gen.lts(rng, sh, 3, dt)
    for _ in range(60):
        v = gen.val(t)
        w = np.linalg.norm(v) ** 2
        if w < 60 and np.any(v):
            break
        t = gen.lts(rng, sh, rng.randint(1, 4), dt)
    else:
        t = [np.ones((1,) + tuple(s) + (1,)) for s in sh]
        if np.prod([x.size for x in t]) > 60:
            return
    if flav == 0:
        t[rng.randint(n)] *= 0
    powers(R, rng, R.new(t, p=gen.prec(dt)), gen.val(t), sh)
