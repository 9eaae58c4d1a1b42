"""C18: generated arrays."""
import itertools as it
import numpy as np
import mpnum as mp
from mpnum import factory
from obs import enc_int, observe, contract, clampi
import gen
import ops


def run(R, rng, tier, mine):
    k = 0
    reps = dict(exact=(500, 4000), rand=(700, 8000), ham=(60, 500), normal=(8, 40), fullrank=(80, 800))
    for name in ('exact', 'rand', 'ham', 'normal', 'fullrank'):
        for rep in range(reps[name][tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C18:' + name, globals()[name], R, s)


def ldims(rng, n, legs=None, lim=700):
    """(argument, list of site shapes)"""
    while True:
        form = rng.randint(3)
        if form == 0 and legs in (None, 1):
            d = int(rng.randint(1, 4))
            arg, sh = ([d, np.int64(d)][rng.randint(2)], [(d,)] * n)
        elif form == 1:
            t = tuple(int(x) for x in rng.randint(1, 4, size=legs or rng.randint(1, 4)))
            arg, sh = ([t, list(t), iter(t)][rng.randint(3)], [t] * n)
        else:
            sh = [tuple(int(x) for x in rng.randint(1, 4, size=(legs or rng.randint(1, 4)))) for _ in range(n)]
            if legs is None and n > 1 and rng.randint(4) == 0:
                sh[rng.randint(1, n)] = ()
            arg = [tuple(sh), [list(s) for s in sh], iter(list(sh))][rng.randint(3)]
        if np.prod([np.prod(s, dtype=int) for s in sh], dtype=int) <= lim:
            return arg, sh


def ranks(rng, n, big=5):
    if rng.randint(2):
        r = int(rng.randint(1, big + 1))
        return r, [r] * (n - 1)
    rk = [int(x) for x in rng.randint(1, big + 1, size=n - 1)]
    return [tuple(rk), list(rk), iter(list(rk))][rng.randint(3)], rk


def exact(R, rng):
    n = int(rng.randint(1, 6))
    op = ['eye', 'zero', 'diagonal'][rng.randint(3)]
    if op == 'eye':
        while True:
            dims = [int(x) for x in rng.randint(1, 5, size=n)]
            if np.prod(dims) <= 24:
                break
        if rng.randint(3) == 0:
            dims = [2 if n < 5 else 1] * n
            arg = [dims[0], np.int64(dims[0])][rng.randint(2)]
        else:
            arg = [dims, tuple(dims), iter(list(dims))][rng.randint(3)]
        i = R.op('eye', [], lambda: factory.eye(n, arg), a=dict(dims=dims), outopen=0)
    elif op == 'zero':
        arg, sh = ldims(rng, n, lim=300)
        ra, rk = ranks(rng, n)
        force = bool(rng.randint(2))
        kw = dict(force_rank=True) if force else ([{}, dict(force_rank=False)][rng.randint(2)])
        i = R.op('zero', [], lambda: factory.zero(n, arg, ra, **kw), a=dict(sh=[list(s) for s in sh], rank=rk, force=force),
                 outopen=0, desc='zero(%d, %s, %s, force=%s)' % (n, sh, rk, force))
    else:
        m = int(rng.randint(1, 5))
        n = int(rng.randint(1, 6))
        if m ** n > 300:
            n = 3
        dt = gen.DTYPES[rng.randint(5)]
        v = gen.tens(rng, (m,), dt, -5, 5)
        if rng.randint(12) == 0:
            v = gen.tens(rng, (m, 2), dt)
        if rng.randint(3) == 0:
            v[..., rng.randint(v.shape[-1])] = 0
        p = 1
        i = R.op('diagonal', [], lambda: factory.diagonal_mpa(v.copy(), n), a=dict(t=enc_int(v), n=n), outopen=0, p=p,
                 desc='diagonal_mpa(%s, %d)' % (v.tolist(), n))
    if i is None:
        return
    # generated arrays can be used like any other
    for _ in range(rng.randint(0, 3)):
        k = rng.randint(5)
        if k == 0:
            ops.imul(R, rng, i, [(2, 0), (-1, 0), (0, 1)][rng.randint(3)])
        elif k == 1:
            ops.rand_canon(R, rng, i)
        elif k == 2:
            ops.add(R, i, i)
        elif k == 3:
            R.op('norm2', [i], lambda m: mp.norm(m) ** 2, out='val', post=True)
        else:
            ops.to_array(R, i)


def mat(m):
    """dense operator as a matrix; sites have two legs"""
    a = contract([np.asarray(t) for t in m.lt])[0, ..., 0]
    n = len(m)
    a = a.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
    d = int(np.prod(a.shape[:n], dtype=int))
    return a.reshape(d, -1)


def state_key(rs):
    st = rs.get_state()
    return (st[1].tobytes(), st[2], st[3], st[4])


def seeded(R, rng, f):
    """(object, reproducible, global generator untouched, next draw differs, exception)"""
    seed = int(rng.randint(2**31 - 1))
    own = bool(rng.randint(4))

    def go():
        if own:
            g0 = state_key(np.random)
            rs = np.random.RandomState(seed)
            m = f(rs)
            kept = state_key(np.random) == g0
            nxt = f(rs)
            np.random.seed(int(rng.randint(2**31 - 1)))
            m2 = f(np.random.RandomState(seed))
        else:
            kept = True
            np.random.seed(seed)
            m = f(None)
            nxt = f(None)
            np.random.seed(seed)
            m2 = f(None)
        same = len(m) == len(m2) and all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(m.lt, m2.lt))
        x, y = [contract([np.asarray(t) for t in z.lt]) for z in (m, nxt)]
        return m, same, kept, (x.shape != y.shape) or not np.allclose(x, y)
    return R.call(go)


def devs(m, kind):
    n = len(m)
    v = contract([np.asarray(t) for t in m.lt])
    out = dict(finite=bool(np.isfinite(v).all()), ndev=clampi((np.linalg.norm(v) - 1) * 1e9), hdev=0, tdev=0, neg=0)
    if kind in ('mpo', 'mpdo', 'ham'):
        A = mat(m)
        sc = max(np.abs(A).max(), 1e-300)
        out['hdev'] = clampi(np.abs(A - A.conj().T).max() / sc * 1e9)
        if kind == 'mpdo':
            out['tdev'] = clampi(abs(np.trace(A) - 1) * 1e9)
            out['neg'] = clampi(max(0, -np.linalg.eigvalsh((A + A.conj().T) / 2).min()) * 1e9)
    return out


def emit(R, kind, sh, rk, force, dtype, normalized, hermitian, res, exc, desc, more=lambda m: {}):
    e = dict(op=kind, fam='random', kind=kind, exc=exc)
    if not exc:
        def obs():
            m, same, kept, fresh = res
            d = dict(obs=observe(m, 0), again=bool(same), globalkept=bool(kept), fresh=bool(fresh))
            for k in ('re', 'im', 'res'):
                d['obs'].pop(k, None)
            d.update(devs(m, kind))
            d.update(more(m))
            return d
        d, e['exc'] = R.call(obs)
        if not e['exc']:
            e.update(d)
    e.update(sh=[list(s) for s in sh], rank=rk, force=force, dtype=dtype, normalized=normalized, hermitian=hermitian)
    R.stateless(e, desc)


def rand(R, rng):
    n = int(rng.randint(1, 6))
    kind = ['mpa', 'mpa', 'mps', 'mpo', 'mpdo'][rng.randint(5)]
    force = bool(rng.randint(2))
    kw = dict(force_rank=True) if force else ([{}, dict(force_rank=False)][rng.randint(2)])
    if kind in ('mpa', 'mps'):
        arg, sh = ldims(rng, n, legs=1 if kind == 'mps' else None)
        if hasattr(arg, '__next__'):
            arg = list(arg)
        ra, rk = ranks(rng, n)
        if hasattr(ra, '__next__'):
            ra = list(ra)
        if kind == 'mps':
            if rng.randint(2):
                arg, sh = 2, [(2,)] * n
            norm, dt = True, 'c16'
            f = lambda rs: factory.random_mps(n, arg, ra, randstate=rs, **kw)   # noqa
        else:
            norm = bool(rng.randint(2))
            dt = ['f8', 'c16'][rng.randint(2)]
            k2 = dict(kw)
            if norm or rng.randint(2):
                k2['normalized'] = norm
            if dt == 'c16' or rng.randint(2):
                k2['dtype'] = np.complex_ if dt == 'c16' else np.float_
            f = lambda rs: factory.random_mpa(n, arg, ra, randstate=rs, **k2)   # noqa
        herm = False
    else:
        d = int(rng.randint(1, 4))
        while d ** n > 40:
            d = int(rng.randint(1, 4))
        arg, sh = d, [(d, d)] * n
        ra, rk = ranks(rng, n, 4)
        if hasattr(ra, '__next__'):
            ra = list(ra)
        dt = 'c16'
        if kind == 'mpo':
            herm, norm = bool(rng.randint(2)), bool(rng.randint(3))
            k2 = dict(kw)
            if herm or rng.randint(2):
                k2['hermitian'] = herm
            if not norm or rng.randint(2):
                k2['normalized'] = norm
            f = lambda rs: factory.random_mpo(n, d, ra, randstate=rs, **k2)   # noqa
        else:
            herm, norm, force = True, False, False
            r = int(rng.randint(1, 5)) if rng.randint(3) else int(rng.randint(5, 13))
            rk = [r] * (n - 1)
            f = lambda rs: factory.random_mpdo(n, d, r, rs) if rs is not None else factory.random_mpdo(n, d, r)   # noqa
    res, exc = seeded(R, rng, f)
    if not exc and (kind == 'mpdo' and d == 1 or kind == 'mpo' and herm and norm and d == 1):
        res = res[:3] + (True,)     # only one such array
    if not exc and kind in ('mps', 'mpa', 'mpo') and norm and dt == 'f8' and all(np.prod(s, dtype=int) == 1 for s in sh):
        res = res[:3] + (True,)
    emit(R, kind, sh, rk, force, dt, norm, herm, res, exc,
         'random_%s(%d, %s, %s, force=%s, normalized=%s, hermitian=%s, %s)' % (kind, n, sh, rk, force, norm, herm, dt))


def opbasis(d):
    """orthonormal basis of operators, the first one proportional to the identity"""
    M = np.concatenate([np.eye(d).reshape(1, -1), np.eye(d * d)])
    q, _ = np.linalg.qr(M.T)
    return q.T.reshape(-1, d, d)


def ham(R, rng):
    d = int(rng.randint(1, 4))
    n = int(rng.randint(1, 6 if d > 1 else 9))
    while d ** n > 32:
        n -= 1
    L = int(rng.randint(1, n + 1))
    if rng.randint(6) == 0:      # longer than the chain
        kw = dict(ldim=d, intlen=n + int(rng.randint(1, 3)))
        res, exc = R.call(lambda: factory.random_local_ham(n, **kw))
        R.stateless(dict(op='reject', fam='reject', exc=exc), 'random_local_ham(%d, %r)' % (n, kw))
        return
    kw = {}
    if d != 2 or rng.randint(2):
        kw['ldim'] = d
    if L != 2 or rng.randint(2):
        kw['intlen'] = L
    if L > n:
        return
    f = lambda rs: factory.random_local_ham(n, randstate=rs, **kw)   # noqa
    res, exc = seeded(R, rng, f)
    if not exc and d == 1:
        res = res[:3] + (True,)

    def more(m):
        B = opbasis(d)
        a = contract([np.asarray(t) for t in m.lt])[0, ..., 0]
        for i in range(n):       # coefficients in the product basis; consumed legs come back last
            a = np.tensordot(a, B.conj(), axes=([0, 1], [1, 2]))
        sc = max(np.abs(a).max(), 1e-9)
        bad = 0
        for ix in it.product(range(d * d), repeat=n):
            nz = [i for i in range(n) if ix[i]]
            if nz and nz[-1] - nz[0] + 1 > L:
                bad = max(bad, abs(a[ix]))
        distinct = True
        if d > 1:
            comp = []
            for s in range(n - L + 1):
                sl = tuple((slice(None) if s < i < s + L - 1 else slice(1, None)) if s <= i < s + L else 0 for i in range(n))
                comp.append(a[sl].ravel())
            distinct = all(np.abs(comp[i] - comp[j]).max() > 1e-6 * sc for i in range(len(comp)) for j in range(i)) and \
                all(np.abs(c).max() > 1e-6 * sc for c in comp)
        return {'nonlocal': clampi(bad / sc * 1e9), 'distinct': bool(distinct)}
    emit(R, 'ham', [(d, d)] * n, [], False, 'c16', False, True, res, exc, 'random_local_ham(%d, ldim=%d, intlen=%d)' % (n, d, L), more)


def normal(R, rng):
    dt = ['f8', 'c16'][rng.randint(2)]
    seed = int(rng.randint(2**31 - 1))

    def f():
        rs = np.random.RandomState(seed)
        v = []
        for _ in range(30):
            m = factory.random_mpa(4, 3, 4, randstate=rs, force_rank=True, dtype=np.complex_ if dt == 'c16' else np.float_)
            v += [np.asarray(t).ravel() for t in m.lt]
        return np.concatenate(v)
    v, exc = R.call(f)
    if exc:
        R.stateless(dict(op='normal', fam='random', exc=exc, kind='mpa'), 'entries')
        return
    parts = [v.real, v.imag] if dt == 'c16' else [v]
    R.stateless(dict(op='normal', fam='normal', n=len(v), sum=[int(1000 * p.sum()) for p in parts],
                     sq=[int(1000 * (p ** 2).sum()) for p in parts],
                     cross=int(1000 * (v.real * v.imag).sum())), 'entries of random_mpa %s' % dt)


def fullrank(R, rng):
    """maximal ranks, for shapes no tensor could be stored for as well"""
    n = int(rng.randint(1, 5)) if rng.randint(3) == 0 else int(rng.randint(5, 80))
    big = [3, 5, 12, 400][rng.randint(4)]
    form = rng.randint(2)
    if form:
        sh = [tuple(int(x) for x in rng.randint(1, big, size=rng.randint(1, 4))) for _ in range(n)]
        arg = sh
    else:
        sh = [(int(x),) for x in rng.randint(1, big, size=n)]
        arg = [s[0] for s in sh]
    arg = [arg, tuple(arg)][rng.randint(2)]
    res, exc = R.call(lambda: [int(min(r, 2**30)) for r in mp.mparray.full_rank(arg)])
    R.stateless(dict(op='full_rank', fam='fullrank', exc=exc, sh=[list(s) for s in sh], got=res or []),
                'full_rank(%d sites, dimensions below %d)' % (n, big))
