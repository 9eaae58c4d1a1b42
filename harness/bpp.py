"""Tensors with exactly known spectra over all cuts (see spec/Bpp.tla)."""
import numpy as np
from obs import enc_int


def spectrum(rng, r, hi=7):
    return sorted((int(x) for x in 1 + rng.permutation(hi)[:r]), reverse=True)


def draw(rng, n, rmax=3, maxsize=150, hi=6):
    """description d and integer site tensors (one leg per site)"""
    for _ in range(200):
        kind = 'pairs' if n > 1 and rng.randint(4) else 'ghz'
        if kind == 'ghz':
            r = rng.randint(1, rmax + 1)
            lam = [spectrum(rng, r, 7)]
            need = [r] * n
        else:
            lam = [spectrum(rng, rng.randint(1, rmax + 1), hi) for _ in range(n - 1)]
            rr = [1] + [len(x) for x in lam] + [1]
            need = [rr[i] * rr[i + 1] for i in range(n)]
        dims = [d + (rng.randint(0, 2) if rng.randint(3) == 0 else 0) for d in need]
        if np.prod(dims) <= maxsize:
            break
    else:
        kind, lam, need, dims = 'ghz', [[2, 1][:1]], [1] * n, [1] * n
    perm, ph = [], []
    cplx = bool(rng.randint(2))
    mixed = cplx and rng.randint(2)         # some sites real
    for d, q in zip(dims, need):
        p = [0] * d
        here = cplx and not (mixed and rng.randint(2))
        for k, pos in enumerate(rng.permutation(d)[:q]):
            p[pos] = k + 1
        perm.append(p)
        ph.append([int(rng.randint(4) if here else 2 * rng.randint(2)) for _ in range(d)])
    d = dict(kind=kind, lam=lam, perm=perm, ph=ph)
    return d, build(d), cplx


def build(d):
    n = len(d['perm'])
    lts = []
    for i in range(n):
        p, ph = d['perm'][i], d['ph'][i]
        if d['kind'] == 'ghz':
            r = len(d['lam'][0])
            t = np.zeros((r, len(p), r), complex)
            for x, q in enumerate(p):
                if q:
                    t[q - 1, x, q - 1] = 1j ** ph[x] * (d['lam'][0][q - 1] if i == 0 else 1)
            if i == 0:
                t = t.sum(axis=0, keepdims=True)
            if i == n - 1:
                t = t.sum(axis=2, keepdims=True)
        else:
            rl = 1 if i == 0 else len(d['lam'][i - 1])
            rr = 1 if i == n - 1 else len(d['lam'][i])
            t = np.zeros((rl, len(p), rr), complex)
            for x, q in enumerate(p):
                if q:
                    a, c = divmod(q - 1, rr)
                    t[a, x, c] = 1j ** ph[x] * (1 if i == n - 1 else d['lam'][i][c])
        lts.append(t)
    return lts


def unimodular(rng, r):
    x = np.eye(r)
    inv = np.eye(r)
    for _ in range(rng.randint(0, 3)):
        if r < 2:
            break
        i, j = rng.permutation(r)[:2]
        s = 1 if rng.randint(2) else -1
        e = np.eye(r)
        e[i, j] = s
        f = np.eye(r)
        f[i, j] = -s
        x = x.dot(e)
        inv = f.dot(inv)
    return x, inv


def gauge(rng, lts, redundant=True):
    """same tensor, other site tensors"""
    lts = [np.array(t) for t in lts]
    for b in range(len(lts) - 1):
        A, B = lts[b], lts[b + 1]
        if redundant and rng.randint(3) == 0:
            k = rng.randint(3)
            if k == 0:
                A, B = np.concatenate([A, A], axis=-1), np.concatenate([B, 0 * B], axis=0)
            elif k == 1:
                A, B = np.concatenate([A, 0 * A[..., :1]], axis=-1), np.concatenate([B, B[:1]], axis=0)
            else:
                A, B = np.concatenate([A, A], axis=-1), np.concatenate([2 * B, -B], axis=0)
        x, inv = unimodular(rng, A.shape[-1])
        lts[b] = np.tensordot(A, x, axes=(-1, 0))
        lts[b + 1] = np.tensordot(inv, B, axes=(1, 0))
    return lts


def legs(rng, lts):
    """split the site leg"""
    out = []
    for t in lts:
        d = t.shape[1]
        opts = [(d,), (d, 1), (1, d)] + [(a, d // a) for a in range(2, d) if d % a == 0]
        s = opts[rng.randint(len(opts))]
        out.append(t.reshape((t.shape[0],) + s + (t.shape[2],)))
    return out


def make(R, rng, n, rmax=3, maxsize=150, redundant=True, hi=6, dts=('f8', 'f8', 'f4', 'i8')):
    """returns id, description, dtype"""
    d, lts, cplx = draw(rng, n, rmax, maxsize, hi)
    lts = gauge(rng, lts, redundant)
    if rng.randint(2):
        lts = legs(rng, lts)
    cplx = any(np.any(t.imag) for t in lts)
    dt = dts[rng.randint(len(dts))]
    if cplx:
        dt = {'f8': 'c16', 'f4': 'c8', 'i8': 'c16'}[dt]
        keep = rng.randint(3)       # real site tensors in a complex array
        lts = [t.astype(dt) if keep == 0 or np.any(t.imag) else t.real.astype({'c16': 'f8', 'c8': 'f4'}[dt]) for t in lts]
    else:
        lts = [t.real.astype(dt) for t in lts]
    i = R.new(lts, p=2 if dt in ('f4', 'c8') else 1)
    return i, d, dt
