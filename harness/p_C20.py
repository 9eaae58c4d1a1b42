"""C20: cyclic nearest-neighbour Hamiltonians, XY model."""
import numpy as np
import scipy.sparse as sp
from scipy.sparse.linalg import eigsh
import mpnum as mp
from mpnum.utils import physics
from obs import enc_int, enc_dense, clampi, digest
import gen


def run(R, rng, tier, mine):
    k = 0
    reps = dict(cyc=(300, 3000), xy=(60, 300), e0=(160, 800))
    for name in ('cyc', 'xy', 'e0'):
        for rep in range(reps[name][tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C20:' + name, globals()[name], R, s)


def dense(x):
    return x.toarray() if sp.issparse(x) else np.asarray(x)


def cyc(R, rng):
    d = [2, 2, 2, 3, 1][rng.randint(5)]
    n = int(rng.randint(2, 6))
    while d ** (2 * n) > 1100:
        n -= 1
    dt = ['f8', 'c16', 'i8'][rng.randint(3)]
    same = rng.randint(4) == 0
    lts, vals = [], []
    for k in range(n):
        if same and k:
            lts.append(lts[0])
            vals.append(vals[0])
            continue
        r = int(rng.randint(1, 4))
        a, b = gen.tens(rng, (1, d, d, r), dt, -2, 2), gen.tens(rng, (r, d, d, 1), dt, -2, 2)
        if r > 1 and rng.randint(4) == 0:       # parts of very different size
            a = a.copy()
            a[..., 0] *= [256, 2048, 8192][rng.randint(3)]
        lts.append((a, b))
        vals.append(np.tensordot(a, b, axes=(3, 0))[0, ..., 0])
    mpos = [mp.MPArray(list(t)) for t in lts]
    if same:
        mpos = [mpos[0]] * n
    for m in mpos:
        if rng.randint(3) == 0:
            m.canonicalize([None, 'afull', 0][rng.randint(3)])
    mats = [v.transpose(0, 2, 1, 3).reshape(d * d, d * d) for v in vals]
    e = dict(op='cyclic', fam='cyc', terms=[enc_int(v) for v in vals], d=d, sparse=dict(z=0), mpo=dict(z=0), exc='')
    form = rng.randint(3)
    st = [m if (form == 0 or form == 2 and rng.randint(2)) else x for m, x in zip(mpos, mats)]
    st = [st, tuple(st)][rng.randint(2)]
    dig = [digest(m) for m in mpos]
    cp = [m.copy() for m in mats]
    which = rng.randint(3)
    desc = 'cyclic Hamiltonian n=%d d=%d form=%d %s' % (n, d, form, dt)
    if which != 1:
        res, exc = R.call(lambda: enc_dense(dense(physics.sparse_cH(st, ldim=d) if d != 2 or rng.randint(2) else physics.sparse_cH(st))))
        e['exc'] = exc
        e['sparse'] = res if not exc else e['sparse']
    if which != 0 and not e['exc']:
        def f():
            m = physics.mpo_cH([mpos, tuple(mpos)][rng.randint(2)])
            return enc_dense(m.to_array())
        res, exc = R.call(f)
        e['exc'] = exc
        e['mpo'] = res if not exc else e['mpo']
    e['kept'] = all(digest(m) == g for m, g in zip(mpos, dig)) and all(np.array_equal(a, b) for a, b in zip(cp, mats))
    R.stateless(e, desc)


def xy(R, rng):
    n = int(rng.randint(2, 9))
    g = int(rng.randint(-3, 4))
    res, exc = R.call(lambda: [enc_dense(4 * t.to_array()) for t in physics.cXY_local_terms(n, [g, float(g)][rng.randint(2)])])
    e = dict(op='xyterms', fam='xy', n=n, g=g, exc=exc)
    if not exc:
        e['got'] = res
    R.stateless(e, 'cXY_local_terms(%d, %d)' % (n, g))


SQ = [(0, 1), (1, 1), (-1, 1), (5, 11), (3, 13), (8, 13), (-5, 11)]


def e0(R, rng):
    n = int([1, 2, 2, 3, 4, 5, 6, 6, 6, 6, 8, 10, 10, 14, 18, 22, 12][rng.randint(17)])
    if rng.randint(2):
        p, q = SQ[rng.randint(len(SQ))]
    else:
        q = int(rng.randint(1, 30))
        p = int(rng.randint(-q, q + 1))
    g = p / q
    e = dict(op='xyE0', fam='xye0', n=n, p=p, q=q, low=[])
    res, exc = R.call(lambda: float(physics.cXY_E0(n, g)))
    e['exc'] = exc
    if not exc:
        e['e0'] = int(np.rint(res * 1e7))

        if n <= 10 and (n < 10 or rng.randint(3) == 0):
            def ref():
                H = physics.sparse_cH(physics.cXY_local_terms(n, g))
                if n <= 6:
                    return np.linalg.eigvalsh(dense(H))[0]
                return eigsh(H, k=1, which='SA', v0=np.random.RandomState(1).randn(H.shape[0]), tol=1e-11)[0][0]
            low, exc = R.call(ref)
            if exc:
                e['exc'] = exc
            else:
                e['low'] = [int(np.rint(low * 1e7))]
    R.stateless(e, 'cXY_E0(%d, %d/%d)' % (n, p, q))
