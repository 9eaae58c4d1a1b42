"""Integer POVMs and states; the real objects are the normalised ones."""
import zlib
import numpy as np
import mpnum as mp
from mpnum.povm import MPPovm
import gen


def gvec(rng, d, cplx):
    while True:
        v = rng.randint(-1, 2, size=d).astype(complex)
        if cplx:
            v = v + 1j * rng.randint(-1, 2, size=d)
        if np.any(v):
            return v


def elems(rng, d, m, cplx=True, extra=1, cheap=False):
    """m positive Gaussian-integer matrices summing to c times the identity"""
    if m == 1:
        return np.eye(d)[None].astype(complex), 1
    if cheap:
        if d == 2 and m == 2 and rng.randint(2):
            z = [1, 1j][rng.randint(2)]
            return np.array([[[1, s * np.conj(z)], [s * z, 1]] for s in (1, -1)]), 2
        K = np.zeros((m, d, d), complex)
        for i in range(d):
            K[rng.randint(m), i, i] = 1
        return K, 1
    kind = rng.randint(4)
    if kind == 0 and m >= d and extra == 0:
        K = np.zeros((m, d, d), complex)
        for i in range(d):
            K[i, i, i] = 1
        return K[rng.permutation(m)], 1
    K = [np.zeros((d, d), complex)]
    for _ in range(m - 1):
        k = np.zeros((d, d), complex)
        for _ in range(1 + rng.randint(2)):
            v = gvec(rng, d, cplx)
            k += np.outer(v, v.conj())
        K.append(k)
    S = sum(K)
    c = int(np.ceil(np.linalg.eigvalsh(S).max() - 1e-9)) + (extra if rng.randint(2) else extra)
    K[0] = c * np.eye(d) - S
    K = np.array(K)
    return K[rng.permutation(m)], c


def block(rng, outs, ds, cplx=True, extra=1, cheap=False):
    """joint POVM of one or two sites: local tensors (integer), c"""
    K, c = elems(rng, int(np.prod(ds)), int(np.prod(outs)), cplx, extra, cheap)
    if len(ds) == 1:
        return [K[None, ..., None]], c
    o1, o2 = outs
    d1, d2 = ds
    K = K.reshape(o1, o2, d1, d2, d1, d2).transpose(0, 2, 4, 1, 3, 5)
    s1, s2 = o1 * d1 * d1, o2 * d2 * d2
    M = K.reshape(s1, s2)
    if s1 <= s2:
        return [np.eye(s1).reshape(1, o1, d1, d1, s1), M.reshape(s1, o2, d2, d2, 1)], c
    return [M.reshape(1, o1, d1, d1, s2), np.eye(s2).reshape(s2, o2, d2, d2, 1)], c


def rand_outs(rng, n, hi=3, need=True):
    while True:
        o = [int(x) for x in rng.randint(1, hi + 1, size=n)]
        if n > 4:               # long chains: few sites with several outcomes
            o = [x if rng.randint(n) < 3 else 1 for x in o]
        if not need or max(o) > 1:
            return o


def regauge(ts):
    """in some cases: powers of two moved between the sites, or ranks larger than needed (same value)"""
    rng = np.random.RandomState(zlib.crc32(b''.join(np.ascontiguousarray(t).tobytes() for t in ts)) % 2**32)
    n = len(ts)
    if n > 1 and rng.randint(4) == 0:
        i, j = rng.permutation(n)[:2]
        g = 2.0 ** rng.randint(1, 31)
        ts[i], ts[j] = ts[i] * g, ts[j] / g
    if n > 1 and rng.randint(6) == 0:
        i = rng.randint(n - 1)
        r = ts[i].shape[-1]
        k = rng.randint(1, 6)
        X = rng.randint(-1, 2, size=(r, k))
        ts[i] = np.tensordot(ts[i], np.concatenate([np.eye(r), X], 1), (-1, 0))
        ts[i + 1] = np.tensordot(np.concatenate([np.eye(r), np.zeros((k, r))], 0), ts[i + 1], (1, 0))
    return ts


class Pv:
    """integer local tensors, normalisation, real object"""

    def __init__(self, lts, c, outs, plain=False):
        self.lts, self.c, self.outs, self.plain = lts, c, outs, plain
        self.ns = [o for o in outs if o > 1]
        self._obj = None

    @property
    def obj(self):
        if self._obj is None:
            f = [np.array(t) for t in self.lts]
            f[0] = f[0] / self.c
            self._obj = MPPovm(f if self.plain else regauge(f))
        return self._obj


def rand_povm(rng, outs, ds, cplx=True, extra=1, joint=True, maxc=400):
    tries = 0
    while True:
        tries += 1
        lts, c, i = [], 1, 0
        n = len(ds)
        while i < n:
            w = 2 if joint and i + 1 < n and ds[i] * ds[i + 1] <= 4 and rng.randint(4) == 0 else 1
            l, k = block(rng, outs[i:i + w], ds[i:i + w], cplx, extra,
                         tries > 5 and rng.randint(tries) > 3)
            lts += l
            c *= k
            i += w
        if c <= maxc:
            break
    if not any(np.iscomplex(t).any() for t in lts) and rng.randint(2):
        lts = [t.real for t in lts]
    return Pv(lts, c, list(outs))


def messup(rng, m):
    """value-preserving changes of the internal form (real object)"""
    for _ in range(rng.randint(3)):
        k = rng.randint(5)
        if k == 3 and len(m) > 1:
            m.canonicalize(right=int(rng.randint(1, len(m) + 1)) if rng.randint(2) else 1)
        elif k == 4 and len(m) > 2:
            a = int(rng.randint(0, len(m) - 1))
            m.canonicalize(left=a, right=int(rng.randint(a + 1, len(m) + 1)))
        elif k == 0 and len(m) > 1:
            a = int(rng.randint(0, len(m)))
            m.canonicalize(left=a)
        elif k == 1 and len(m) > 1:
            m.canonicalize()
        elif k == 2 and len(m) > 1:
            m.compress(relerr=1e-12)
    return m


def rho_lts(lts):
    out = []
    for t in lts:
        r = np.einsum('lsar,mtan->lmstrn', t, t.conj())
        s = r.shape
        out.append(r.reshape(s[0] * s[1], s[2], s[3], s[4] * s[5]))
    return out


class St:
    """integer state: lts, mode, norm (trace), real normalised object"""

    def __init__(self, rng, ds, mode, cplx=True, maxD=60, rmax=2):
        n = len(ds)
        tries = 0
        while True:
            tries += 1
            if tries > 10:
                rmax = 1
            if mode == 'mps':
                l = gen.lts(rng, [(d,) for d in ds], rmax, 'c16' if cplx else 'f8')
                D = int(round(np.linalg.norm(gen.val(l)) ** 2))
            else:
                an = [int(x) for x in rng.randint(1, 3, size=n)]
                l = gen.lts(rng, list(zip(ds, an)), rmax, 'c16' if cplx else 'f8')
                D = int(round(np.linalg.norm(gen.val(l)) ** 2))
            if 0 < D <= maxD:
                break
            if tries > 15:      # sparser
                l = [t * (rng.randint(3, size=t.shape) == 0) for t in l]
                D = int(round(np.linalg.norm(gen.val(l)) ** 2))
                if 0 < D <= maxD:
                    break
        f = [np.array(t) for t in l]
        f[0] = f[0] / np.sqrt(D)
        if mode == 'mpdo':
            l, f = rho_lts(l), rho_lts(f)
        self.lts, self.D, self.mode = l, D, mode
        self.obj = mp.MPArray(regauge(f))


def numer(pv, st):
    """numerators of the probabilities (harness only: used to pick cases, never as oracle)"""
    l = st.lts
    if st.mode == 'mps':
        l = [t[:, :, None, :] for t in l]
    if st.mode != 'mpdo':
        l = rho_lts(l)
    p = np.ones((1, 1, 1))
    for a, b in zip(pv.lts, l):
        p = np.einsum('xlm,lokjr,mjks->xors', p, a, b)
        p = p.reshape((-1,) + p.shape[2:])
    return p[:, 0, 0].real.reshape([o for o in pv.outs if o > 1])
