"""C12: extremal eigenvalues (eig, eig_sum)."""
import json
import os
import numpy as np
import mpnum as mp
from mpnum import linalg
from p_C06 import cfobs, value
from p_C08 import unit
from p_C09 import rand_lts, messup, powers, unit_of
from obs import enc_int


def run(R, rng, tier, mine):
    k = 0
    reps = dict(generic=(110, 1000), full=(90, 900), sums=(90, 900), diagonal=(60, 600), default=(24, 200), reject=(10, 20))
    for name in ('generic', 'full', 'sums', 'diagonal', 'default', 'reject'):
        for rep in range(reps[name][tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C12:' + name, globals()[name], R, s)
    for b in [json.loads(x) for x in open(os.path.join(R.gen, 'sweep.jsonl'))]:
        for rep in range((1, 8)[tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C12:replay', replay, R, s, b)


def dims_of(rng, n, maxsize=48):
    while True:
        if n > 5:       # sites of dimension one in between
            d = [int(rng.randint(1 if 0 < i < n - 1 else 2, 4)) for i in range(n)]
        else:
            d = [int(rng.randint(2, 4)) for _ in range(n)]
        if np.prod(d) <= maxsize:
            return d


def dense(m):
    """dense matrix of an MPO / projector of an MPS"""
    v = value(m)
    n = len(m)
    if m.ndims[0] == 1:
        v = v.reshape(-1)
        return np.outer(v, v.conj())
    v = v.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
    d = int(np.prod(v.shape[:n]))
    return v.reshape(d, d)


def herm(rng, dims, r=2, cplx=True, u=0):
    """a Hermitian operator which is not zero"""
    n = len(dims)
    r = r if rng.randint(8) else 5
    while True:
        rk = [1] + [int(rng.randint(1, r + 1)) for _ in range(n - 1)] + [1]
        lts = rand_lts(rng, [(d, d) for d in dims], rk, cplx)
        if u == 0 and rng.randint(8) == 0:
            lts = [np.rint(t.real).astype(int) for t in lts]
            a = mp.MPArray(lts)
        else:
            a = mp.MPArray(powers(rng, [t * 1.0 for t in lts], u))
        v, w = value(a), value(a.adj())
        if np.abs(v + w).max() > 1e-3 * np.abs(v).max():
            return a + a.adj()


class Cb:
    """dense solver for the local problems, recording them"""

    def __init__(self, which, flat, vecs=True):
        self.which, self.flat = which, flat
        self.steps, self.sizes, self.hasv0, self.ref = [], [], True, None

    def __call__(self, op, v0=None, **kw):
        if not isinstance(op, np.ndarray):
            op = op.dot(np.eye(op.shape[1]))
        w, v = np.linalg.eigh((op + op.conj().T) / 2)
        k = {'SA': 0, 'LA': -1, 'LM': int(np.argmax(np.abs(w)))}[self.which]
        q = w[k]
        if v0 is not None and self.ref is None:
            self.ref = np.linalg.norm(v0)
        if v0 is not None and np.linalg.norm(v0) > 1e-8 * min(self.ref, 1.0):
            q = np.vdot(v0, op.dot(v0)).real / np.vdot(v0, v0).real
        self.steps.append((np.abs(op - op.conj().T).max(), w.min(), w.max(), w[k], q))
        self.sizes.append(len(op))
        self.hasv0 = self.hasv0 and v0 is not None
        if self.flat:
            return w[k:][:1], v[:, k]
        return w[k:][:1], v[:, [k]]


def extreme(w, which):
    return {'SA': w.min(), 'LA': w.max(), 'LM': w[np.argmax(np.abs(w))]}[which]


def ray(H, psi):
    v = value(psi).reshape(-1)
    return float((np.vdot(v, H.dot(v)) / np.vdot(v, v)).real), float(np.vdot(v, v).real)


def one(R, mpas, H, f, which, vs, dims, rank, full, desc, start=None, tol=None, cb=None, other=None, again=False, sweeps=0):
    """one search; f(eigs) performs it"""
    R.warm([('neg', m) for m in mpas] + ([('neg', start)] if start is not None else []),
           lambda: f(Cb(cb.which, cb.flat) if cb is not None else None), 5)
    before = [value(m).copy() for m in mpas]
    sv = value(start).copy() if start is not None else None
    start_rk = start.ranks if start is not None else ()
    res, exc = R.call(lambda: f(cb))
    if exc:
        R.stateless(dict(op='eig', fam='eig', exc=exc), desc)
        return None
    e, psi = res
    w = np.linalg.eigvalsh(H)
    nh = np.abs(w).max() or 1.0
    q, nrm = ray(H, psi)
    steps = cb.steps if cb is not None else []
    chg = max([0.0] + [np.abs(value(m) - b).max() / (np.abs(b).max() or 1.0) for m, b in zip(mpas, before)])
    schg = np.abs(value(start) - sv).max() / (np.abs(sv).max() or 1.0) if start is not None else 0.0
    rep = 0
    if again:
        r2, exc = R.call(lambda: f(Cb(cb.which, cb.flat) if cb is not None else None))
        rep = unit((np.real(r2[0]) - np.real(e)) / nh) if not exc else 1500000000
    R.stateless(dict(op='eig', fam='eig', exc='', which=which, vs=vs, e=unit(np.real(e) / nh), eim=unit(np.imag(e) / nh),
                     lo=unit(w.min() / nh), hi=unit(w.max() / nh), ray=unit(q / nh), nrm=unit(nrm),
                     q0=unit(ray(H, start)[0] / nh) if start is not None else 0, hasq0=start is not None,
                     steps=[[unit(a / nh) for a in s] for s in steps],
                     sizes=[int(x) for x in cb.sizes] if cb is not None else [], sweeps=int(sweeps), hasv0=cb is not None and cb.hasv0,
                     srk=[int(x) for x in start_rk] if start is not None else [], full=bool(full), tol=tol or 300,
                     rk=[int(r) for r in psi.ranks], rank=int(rank), shape=[list(map(int, s)) for s in psi.shape],
                     want=[[int(d)] for d in dims], chg=unit(chg), schg=unit(schg), rep=rep,
                     other=unit(other / nh) if other is not None else 0, hasother=other is not None,
                     obs=cfobs(psi, 0, 0)), desc)
    return np.real(e)


def setup(rng, full=None):
    n = int(rng.randint(2, 6)) if rng.randint(6) else int(rng.randint(6, 9))
    vs = int(rng.choice([v for v in (1, 1, 2, 2, 3, 4) if v < n]))
    dims = dims_of(rng, n)
    return n, vs, dims


def startvec(rng, dims, rank):
    """random start vector without two consecutive ranks 1"""
    n = len(dims)
    cplx = bool(rng.randint(3))
    while True:
        if rank == 'full':
            v = mp.random_mpa(n, [(d,) for d in dims], 10**6 if n > 1 else 1, randstate=rng, dtype=np.complex_ if cplx else np.float_)
        elif isinstance(rank, int):
            v = mp.random_mpa(n, [(d,) for d in dims], rank, randstate=rng, dtype=np.complex_ if cplx else np.float_)
        else:
            rk = [1] + [int(rng.randint(1, 4)) for _ in range(n - 1)] + [1]
            v = mp.MPArray(rand_lts(rng, [(d,) for d in dims], rk, cplx))
            v.canonicalize(right=1)
            v.canonicalize(left=n - 1)
        r = (1,) + tuple(v.ranks) + (1,)
        if not any(a == b == 1 for a, b in zip(r, r[1:])):
            break
    u = unit_of(rng)
    if u:
        v = mp.MPArray(powers(rng, [np.array(t) for t in v.lt], u))
    if rng.randint(2):
        messup(rng, v)
    return v


def generic(R, rng):
    n, vs, dims = setup(rng)
    cplx = bool(rng.randint(2))
    H = herm(rng, dims, 2, cplx, unit_of(rng))
    messup(rng, H)
    D = dense(H)
    which = ['SA', 'LA', 'LM'][rng.randint(3)]
    sw = int(rng.randint(1, 4))
    kw = dict(num_sweeps=sw)
    if vs != 2 or rng.randint(2):
        kw['var_sites'] = vs
    if rng.randint(2):
        start = startvec(rng, dims, [2, 3, 'any'][rng.randint(3)])
        kw['startvec'] = start
        one(R, [H], D, lambda cb: linalg.eig(H, eigs=cb, **kw), which, vs, dims, max(start.ranks), False,
            'eig n=%d vs=%d dims=%s which=%s sweeps=%d start ranks %s' % (n, vs, dims, which, sw, start.ranks),
            start=start, cb=Cb(which, bool(rng.randint(2))), again=bool(rng.randint(2)), sweeps=sw)
    else:
        rank = int(rng.randint(2, 5))
        seed = int(rng.randint(2**31 - 1))
        one(R, [H], D, lambda cb: linalg.eig(H, eigs=cb, startvec_rank=rank, randstate=np.random.RandomState(seed), **kw),
            which, vs, dims, rank, False, 'eig n=%d vs=%d dims=%s which=%s sweeps=%d rank=%d' % (n, vs, dims, which, sw, rank),
            cb=Cb(which, bool(rng.randint(2))), again=True, sweeps=sw)


def full(R, rng):
    n, vs, dims = setup(rng)
    u = unit_of(rng)
    H = herm(rng, dims, 2, bool(rng.randint(2)), u)
    if rng.randint(3) == 0:
        H = H + mp.MPArray(powers(rng, [np.eye(d)[None, ..., None] * 2.0 for d in dims], u))
    D = dense(H)
    which = ['SA', 'LA', 'LM'][rng.randint(3)]
    start = startvec(rng, dims, 'full')
    kw = dict(num_sweeps=int(rng.randint(1, 3)), var_sites=vs)
    if rng.randint(2):
        one(R, [H], D, lambda cb: linalg.eig(H, startvec=start, eigs=cb, **kw), which, vs, dims, max(start.ranks), True,
            'eig full rank n=%d vs=%d dims=%s which=%s' % (n, vs, dims, which), start=start, cb=Cb(which, False),
            sweeps=kw['num_sweeps'])
    else:
        seed = int(rng.randint(2**31 - 1))
        one(R, [H], D, lambda cb: linalg.eig(H, startvec_rank=100, eigs=cb, randstate=np.random.RandomState(seed), **kw),
            which, vs, dims, 100, True, 'eig full rank n=%d vs=%d dims=%s which=%s' % (n, vs, dims, which),
            cb=Cb(which, True), again=True, sweeps=kw['num_sweeps'])


def sums(R, rng):
    n, vs, dims = setup(rng)
    k = int(rng.randint(1, 5))
    mpas = []
    u = unit_of(rng)
    for _ in range(k):
        if rng.randint(2):
            m = herm(rng, dims, 2, bool(rng.randint(2)), u)
        else:
            rk = [1] + [int(rng.randint(1, 4)) for _ in range(n - 1)] + [1]
            m = mp.MPArray(powers(rng, rand_lts(rng, [(d,) for d in dims], rk, bool(rng.randint(2))), u // 2))
        messup(rng, m)
        mpas.append(m)
    D = sum(dense(m) for m in mpas)
    which = ['SA', 'LA'][rng.randint(2)]
    isfull = bool(rng.randint(2))
    start = startvec(rng, dims, 'full' if isfull else [2, 3, 'any'][rng.randint(3)])
    kw = dict(num_sweeps=int(rng.randint(1, 3)), var_sites=vs)
    if rng.randint(3):
        kw['startvec'] = start
        st, rank, rs = start, max(start.ranks), False
    else:
        rank = 100 if isfull else int(rng.randint(2, 4))
        kw['startvec_rank'] = rank
        st, rs = None, True
    seed = int(rng.randint(2**31 - 1))
    desc = 'eig_sum n=%d vs=%d dims=%s which=%s ndims=%s full=%r' % (n, vs, dims, which, [m.ndims[0] for m in mpas], isfull)
    lazy = rng.randint(2)

    def f(cb):
        kk = dict(kw)
        if rs:
            kk['randstate'] = np.random.RandomState(seed)
        return linalg.eig_sum((m for m in mpas) if lazy else mpas, eigs=cb, **kk)
    other = None
    if not rs and not isfull and vs == 1:
        # the same algorithm on the explicit sum
        op = mp.MPArray.from_array_global(D.reshape(tuple(dims) * 2), ndims=2)
        r, exc = R.call(lambda: linalg.eig(op, eigs=Cb(which, False), **kw))
        other = np.real(r[0]) if not exc else None
    one(R, mpas, D, f, which, vs, dims, rank, isfull, desc, start=st, cb=Cb(which, bool(rng.randint(2))), other=other, again=rs,
        sweeps=kw['num_sweeps'])


def diagonal(R, rng):
    """classical operators with integer values: the result is known exactly"""
    n, vs, dims = setup(rng)
    r = int(rng.randint(1, 3))
    rk = [1] + [r] * (n - 1) + [1]
    lts = [rng.randint(-2, 3, size=(rk[i], d, rk[i + 1])) for i, d in enumerate(dims)]
    ol = []
    for t in lts:
        o = np.zeros((t.shape[0], t.shape[1], t.shape[1], t.shape[2]))
        for x in range(t.shape[1]):
            o[:, x, x, :] = t[:, x, :]
        ol.append(o)
    u = unit_of(rng)
    U = 2.0 ** u
    H = mp.MPArray(powers(rng, ol, u))
    messup(rng, H)
    which = ['SA', 'LA'][rng.randint(2)]
    start = startvec(rng, dims, 'full')
    cb = Cb(which, False)
    before = value(H).copy()
    res, exc = R.call(lambda: linalg.eig(H, 1, vs, startvec=start, eigs=cb) if rng.randint(2)
                      else linalg.eig_sum([H], 1, vs, startvec=start, eigs=cb))
    if exc:
        R.stateless(dict(op='eig-diagonal', fam='eigdiag', exc=exc), 'dims=%s' % dims)
        return
    e, psi = res
    e = e / U
    v = value(psi).reshape(-1)
    # weight of the vector per value of the operator
    wt = [unit(abs(x) ** 2) for x in v]
    R.stateless(dict(op='eig-diagonal', fam='eigdiag', exc='', which=which, lts=[enc_int(t) for t in lts],
                     e=int(np.rint(np.real(e))), edev=unit(np.real(e) - np.rint(np.real(e))), wt=wt,
                     chg=unit(np.abs(value(H) - before).max() / U)), 'dims=%s vs=%d which=%s unit=2^%d' % (dims, vs, which, u))


def replay(R, rng, b):
    """one behaviour of Sweep.tla"""
    n, vs = b['n'], b['w']
    while True:
        dims = [int(x) for x in rng.permutation([2, 3, 5, 2, 3])[:n]]
        if np.prod(dims) <= 100 or n > 4:
            break
    H = herm(rng, dims, 2, bool(rng.randint(2)), unit_of(rng))
    which = ['SA', 'LA'][rng.randint(2)]
    start = startvec(rng, dims, [2, 3, 'any'][rng.randint(3)])
    kw = dict(num_sweeps=b['total'], var_sites=vs, startvec=start)
    f = (lambda cb: linalg.eig(H, eigs=cb, **kw)) if rng.randint(2) else (lambda cb: linalg.eig_sum([H], eigs=cb, **kw))
    one(R, [H], dense(H), f, which, vs, dims, max(start.ranks), False,
        'replay n=%d vs=%d dims=%s which=%s sweeps=%d start ranks %s' % (n, vs, dims, which, b['total'], start.ranks),
        start=start, cb=Cb(which, bool(rng.randint(2))), sweeps=b['total'])


def default(R, rng):
    """default solver (scipy's eigsh): largest magnitude"""
    while True:
        n = int(rng.randint(3, 6))
        vs = int(rng.choice([1, 2]))
        dims = dims_of(rng, n)
        H = herm(rng, dims, 2, True, unit_of(rng))
        w = np.linalg.eigvalsh(dense(H))
        a = np.sort(np.abs(w))
        if a[-1] - a[-2] > 0.05 * a[-1]:
            break
    seed = int(rng.randint(2**31 - 1))
    kw = dict(num_sweeps=2, startvec_rank=100)
    if vs == 1:
        kw['var_sites'] = 1
    if rng.randint(2):
        one(R, [H], dense(H), lambda cb: linalg.eig(H, randstate=np.random.RandomState(seed), **kw), 'LM', vs, dims, 100, True,
            'eig default solver n=%d vs=%d dims=%s' % (n, vs, dims), tol=20000)
    else:
        one(R, [H], dense(H), lambda cb: mp.eig_sum([H], randstate=np.random.RandomState(seed), **kw), 'LM', vs, dims, 100, True,
            'eig_sum default solver n=%d vs=%d dims=%s' % (n, vs, dims), tol=20000)


def reject(R, rng):
    dims = [2, 3, 2]
    H = herm(rng, dims, 2)
    ok = startvec(rng, dims, 2)
    bad = mp.MPArray.from_kron([np.ones(d) for d in dims])
    v = value(H).copy()
    cb = Cb('SA', False)
    for want, kw in (('ValueError', dict(num_sweeps=1)), ('ValueError', dict(num_sweeps=1, startvec_rank=1)),
                     ('', dict(num_sweeps=1, startvec=ok, var_sites=3)), ('', dict(num_sweeps=1, startvec=bad, var_sites=1)),
                     ('', dict(num_sweeps=1, startvec=ok, var_sites=4)),
                     ('ValueError', dict(num_sweeps=1, startvec=ok, eigs=lambda op, v0=None: np.linalg.eigh(op)))):
        for f in (lambda **k: linalg.eig(H, **k), lambda **k: linalg.eig_sum([H, H], **k)):
            kk = dict(kw)
            kk.setdefault('eigs', cb)
            r, exc = R.call(lambda: f(**kk))
            R.stateless(dict(op='eig-reject', fam='varbad', exc=exc, want=want, dev=unit(np.abs(value(H) - v).max())),
                        '%s' % sorted(kw))
