"""C09: variational compression."""
import numpy as np
import mpnum as mp
import gen
from obs import digest
from p_C06 import cfobs, value
from p_C08 import unit


def run(R, rng, tier, mine):
    k = 0
    for rep in range(2400 if tier == 'thorough' else 360):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C09:var', var, R, s)
    for rep in range(300 if tier == 'thorough' else 60):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C09:reject', reject, R, s)


def rand_lts(rng, sh, rk, cplx):
    lts = [rng.randn(rk[i], *(tuple(s) + (rk[i + 1],))) for i, s in enumerate(sh)]
    if cplx:
        mixed = rng.randint(4) == 0         # real and complex tensors in one array
        lts = [t if mixed and rng.randint(2) else t + 1j * rng.randn(*t.shape) for t in lts]
    return lts


def powers(rng, lts, u):
    """multiply the tensors by powers of two with product 2^u"""
    n = len(lts)
    k = rng.randint(3)
    if k < 2:
        us = [0] * n
        us[[0, -1][k]] = u
    else:
        us = [int(x) for x in rng.randint(-8, 9, size=n)]
        us[rng.randint(n)] += u - sum(us)
    return [t * 2.0 ** x for t, x in zip(lts, us)]


def unit_of(rng):
    return int(rng.choice([-60, -40, -24, 24, 40, 60])) if rng.randint(3) == 0 else 0


def messup(rng, m):
    n = len(m)
    for _ in range(rng.randint(3)):
        a = rng.randint(0, n)
        m.canonicalize(int(a), int(rng.randint(a + 1, n + 1)))
    if n > 1 and rng.randint(5) == 0:
        m.canonicalize(left=n - 1) if rng.randint(2) else m.canonicalize(right=1)


def redundant(rng, lts):
    """same tensor with larger ranks"""
    lts = [t.copy() for t in lts]
    for b in range(len(lts) - 1):
        if rng.randint(3) == 0:
            A, B = lts[b], lts[b + 1]
            lts[b] = np.concatenate([A, A[..., :1]], axis=-1)
            lts[b + 1] = np.concatenate([B, 0.5 * B[:1]], axis=0)
            lts[b + 1][0] *= 0.5
    return lts


def var(R, rng):
    n = int(rng.choice([1, 2, 2, 3, 3, 4, 5]))
    sh = gen.rshape(rng, n, legs=(0, 2), dims=(1, 3), maxsize=256)
    if rng.randint(6) == 0:         # long chain, some sites of dimension one
        n = int(rng.randint(6, 10))
        while True:
            sh = [[(), (1,), (2,), (2,), (3,), (2, 1), (1, 2)][rng.randint(7)] for _ in range(n)]
            if np.prod([np.prod(s) for s in sh]) <= 256:
                break
    rk = [1] + [int(rng.randint(1, 5 if rng.randint(8) else 10)) for _ in range(n - 1)] + [1]
    cplx = bool(rng.randint(2))
    lts = rand_lts(rng, sh, rk, cplx)
    if rng.randint(8) == 0:
        lts = [np.rint(t.real).astype(int) for t in lts]
    if rng.randint(3) == 0:
        lts = redundant(rng, [t * 1.0 for t in lts])
    if rng.randint(3) == 0:
        lts = powers(rng, lts, unit_of(rng))
    m = mp.MPArray([t.copy() for t in lts])
    u = value(m)
    nu = np.linalg.norm(u) ** 2
    if nu == 0:
        return
    messup(rng, m)
    shape = [tuple(s) for s in m.shape]
    vs = int(rng.choice([1, 2, 2, 3, 4, n]))
    rmax = max(list(m.ranks) + [1])
    kw = dict()
    explicit = vs != 2 or rng.randint(2)
    if explicit:
        kw['var_sites'] = vs
    start = None
    sdig = None
    s0 = 0
    mode = rng.randint(5)
    rank = int(rng.randint(1, rmax + 2))
    if mode == 0:
        rank = rmax
    srk = None
    if mode in (1, 2, 3):
        if mode == 1:
            srk = [1] + [int(rng.randint(1, rmax + 1)) for _ in range(n - 1)] + [1]
            start = mp.MPArray(powers(rng, rand_lts(rng, sh, srk, cplx or bool(rng.randint(2))), unit_of(rng)))
            messup(rng, start)
        elif mode == 2:
            start = m.compression('svd', rank=min(rank, rmax))[0]
        else:
            start = mp.random_mpa(n, shape, rank, randstate=rng, dtype=np.complex_ if cplx else np.float_)
            if rng.randint(2):
                start = start * -2.5
        rank = max(list(start.ranks) + [1])
        kw['startmpa'] = start
        sv = value(start)
        s0 = unit(abs(np.vdot(u, sv)) ** 2 / np.linalg.norm(sv) ** 2 / nu)
        sdig = sv.copy()
    else:
        kw['rank'] = rank
    seed = int(rng.randint(2**31 - 1))
    runs = []
    cur_rmax = max(list(m.ranks) + [1])
    # optimum over all tensors of this rank, and the true ranks
    pos = np.cumsum([0] + [len(s) for s in sh])
    best = 1.0
    true = []
    for b in range(1, n):
        sv_ = np.linalg.svd(u.reshape(int(np.prod(u.shape[:pos[b]], dtype=int)), -1), compute_uv=False)
        best = min(best, (sv_[:rank] ** 2).sum() / nu)
        true.append(int((sv_ > 1e-9 * sv_[0]).sum()))
    copied = n == 1 or rank > cur_rmax
    # with a generic start vector of sufficient rank nothing is lost
    exact = copied or (mode in (0, 4) and all(t <= rank for t in true)) or \
        (mode == 3 and all(t <= r for t, r in zip(true, start.ranks)))
    inplace = bool(rng.randint(2))
    orig = 0.0
    schg = 0.0
    rep = True
    cont = dict(ok=False, ov=0)
    for sweeps in (1, 2, 4):
        x = m.copy() if inplace else m

        def f():
            k2 = dict(kw, num_sweeps=sweeps)
            if start is None:
                k2['randstate'] = np.random.RandomState(seed)
            if inplace:
                ov = x.compress('var', **k2)
                return x, ov
            return x.compression('var', **k2)
        res, exc = R.call(f)
        if exc:
            R.stateless(dict(op='variational', fam='vargen', exc=exc), '%r' % (kw,))
            return
        c, ov = res
        cv = value(c)
        uc = np.vdot(u, cv)
        runs.append(dict(ov=unit(np.real(ov) / nu), ovim=unit(np.imag(ov) / nu), uc=unit(uc.real / nu),
                         ucim=unit(uc.imag / nu), cc=unit(np.linalg.norm(cv) ** 2 / nu),
                         err=unit(np.linalg.norm(u - cv) ** 2 / nu), obs=cfobs(c, 0, 0), orig=0,
                         same=[tuple(s) for s in c.shape] == shape))
        if sweeps == 2 and not copied:
            # the same procedure, continued from the intermediate result
            res3, exc = R.call(lambda: m.compression('var', startmpa=c, num_sweeps=2,
                                                     **({'var_sites': vs} if explicit else {})))
            if not exc:
                gap = True
                for b in range(1, n):
                    w = np.linalg.svd(cv.reshape(int(np.prod(u.shape[:pos[b]], dtype=int)), -1), compute_uv=False)
                    gap &= len(w) >= c.ranks[b - 1] and w[c.ranks[b - 1] - 1] > 1e-4 * w[0]
                cont = dict(ok=bool(gap), ov=unit(np.real(res3[1]) / nu))
        if not inplace:
            orig = max(orig, np.abs(value(m) - u).max() / np.sqrt(nu))
        if start is not None:
            schg = max(schg, np.abs(value(start) - sdig).max() / np.abs(sdig).max())
        elif sweeps == 2:
            res2, exc = R.call(f) if not inplace else (None, '')
            if res2:
                rep = bool(np.abs(value(res2[0]) - cv).max() <= 1e-9 * np.sqrt(nu))
        # the result is independent of the arguments
        if not inplace and start is None and rng.randint(3) == 0:
            c *= 3.0
            c.canonicalize()
            orig = max(orig, np.abs(value(m) - u).max() / np.sqrt(nu))
    R.stateless(dict(op='variational', fam='vargen', exc='', runs=runs, s0=s0, vs=min(vs, n), rank=rank,
                     best=unit(best), exact=bool(exact), copied=bool(copied), orig=unit(orig), schg=unit(schg),
                     repeat=rep, cont=cont),
                'shape=%s ranks=%s mode=%d rank=%d vs=%s inplace=%r srk=%s' % (sh, rk, mode, rank, vs, inplace, srk))


def reject(R, rng):
    n = int(rng.randint(2, 5))
    sh = gen.rshape(rng, n, legs=(1, 2), dims=(2, 3), maxsize=256)
    m = mp.MPArray(rand_lts(rng, sh, [1] + [2] * (n - 1) + [1], False))
    u = value(m)
    other = [s[::-1] if s != s[::-1] else s[:1] + (1,) + s[1:] for s in sh]      # same sizes, other legs
    for kw in (dict(num_sweeps=2), dict(num_sweeps=1, startmpa=mp.random_mpa(n, other, 2)), dict(rank=2), dict(num_sweeps=1, rank=1, foo=3),
               dict(num_sweeps=1, startmpa=mp.random_mpa(n, [tuple(d + 1 for d in s) for s in sh], 2))):
        for name in ('compress', 'compression'):
            res, exc = R.call(lambda: getattr(m, name)('var', **kw))
            R.stateless(dict(op='variational-reject', fam='varbad', exc=exc, want='ValueError' if kw == dict(num_sweeps=2) else '',
                             dev=unit(np.abs(value(m) - u).max())), '%s(%r)' % (name, sorted(kw)))
