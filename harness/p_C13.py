"""C13: probabilities of POVM outcomes."""
import numpy as np
import mpnum as mp
from mpnum.povm import MPPovm, MPPovmList
import gen
import ops
import povm
from obs import enc_int, enc_dense
from p_C11 import redargs, fresh

MODES = ('mps', 'pmps', 'mpdo')


def run(R, rng, tier, mine):
    R.again = 6
    k = 0
    reps = dict(exact=(200, 2000), dense=(520, 5000), blocks=(240, 2400), lists=(160, 1600), tiny=(120, 1200), reject=(40, 400))
    for name in ('exact', 'dense', 'blocks', 'lists', 'tiny', 'reject'):
        for rep in range(reps[name][tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C13:' + name, globals()[name], R, s)


def hd(rng, n, lim=12):
    while True:
        d = [int(x) for x in rng.randint(1, 4, size=n)]
        if np.prod(d) <= lim:
            return d


def setup(rng, nmin=1, nmax=4, lim=8):
    if rng.randint(6) == 0:         # long chain, most sites of dimension one
        n = int(rng.randint(nmax + 1, 9))
        while True:
            ds = [int(rng.randint(1, 4)) if rng.randint(n) < 3 else 1 for _ in range(n)]
            if np.prod(ds) <= lim:
                return n, ds
    n = int(rng.randint(nmin, nmax + 1))
    ds = hd(rng, n, lim)
    return n, ds


def exact(R, rng):
    """arbitrary integer tensors: probabilities as matrix-product array"""
    n, ds = setup(rng)
    while True:
        outs = povm.rand_outs(rng, n, need=False)
        if np.prod(outs) * np.prod(ds) ** 2 <= 600:
            break
    cplx = bool(rng.randint(2))
    dt = 'c16' if cplx else ['f8', 'i8'][rng.randint(2)]
    t = gen.rmpa(rng, [(o, d, d) for o, d in zip(outs, ds)], 2, dt, 30)
    pv = R.new(t, cls=MPPovm)
    mode = MODES[rng.randint(3)]
    m = int(rng.randint(n, n + 3)) if rng.randint(2) else n
    sd = list(ds)
    if m > n:
        if len(set(ds)) > 1:
            m = n
        else:
            if ds[0] == 1 or (mode == 'mps' and n < 3 and ds[0] == 2 and rng.randint(3) == 0):
                m = int(rng.randint(n, n + 8)) if ds[0] == 1 else 6
            elif n > 5:
                m = n
            else:
                while ds[0] ** m > 16 and m > n:
                    m -= 1
            sd = [ds[0]] * m
    sh = [(d,) for d in sd] if mode == 'mps' else [(d, int(rng.randint(1, 3))) for d in sd] if mode == 'pmps' else \
        [(d, d) for d in sd]
    st = R.new(gen.rmpa(rng, sh, 2, 'c16' if rng.randint(2) else 'f8', 8))
    ops.prep(R, rng, pv, 1)
    ops.prep(R, rng, st, 1)
    call = mode
    if mode != 'pmps' and rng.randint(2):
        call = 'auto'
    if m == n and rng.randint(2):
        R.op('povm_pmf', [pv, st], lambda p, s: p.pmf(s, call), a=dict(mode=mode), desc='pmf mode=%s' % call)
    else:
        R.op('povm_expect', [pv, st], lambda p, s: p.expectations(s, call), a=dict(mode=mode), out='objs',
             desc='expectations mode=%s' % call)
    if rng.randint(3) == 0:
        R.op('povm_probmap', [pv], lambda p: p.probability_map)
    if rng.randint(3) == 0:
        R.op('povm_elements', [pv], lambda p: p.elements, out='objs')
    if rng.randint(4) == 0 and m == n and mode == 'mpdo':
        R.op('povm_pmf', [pv, st], lambda p, s: mp.dot(p.probability_map, s.ravel()), a=dict(mode=mode),
             desc='dot(probability_map, ravel)')
    ops.to_array(R, pv)
    ops.to_array(R, st)


def emit(R, pvs, st, req, f, desc, den=None, copies=1):
    """f() returns the list of dense distributions"""
    R.warm([(st.mode, st.obj)] + [('povm', q.obj) for q in pvs], f)
    before = [np.array(t) for t in st.obj.lt], [[np.array(t) for t in p.obj.lt] for p in pvs]
    res, exc = R.call(f)
    if not exc:
        try:
            den = den or [pvs[r[0] - 1].c * st.D for r in req]
            got = []
            for r, d in zip(res, den):
                r = np.asarray(r)
                if r.dtype.kind != 'f':
                    raise TypeError('probabilities of type %s' % r.dtype)
                got.append(enc_dense(r * d))
            if len(res) != len(req):
                got += [enc_dense(np.zeros(()))] * (len(res) - len(got))
        except Exception as err:        # noqa
            exc = 'ObservationFailed:' + type(err).__name__
    if exc:
        R.stateless(dict(op='pmf', fam='pmf', exc=exc), desc)
        return None
    R.stateless(dict(op='pmf', fam='pmf', exc='', povms=[[enc_int(t) for t in p.lts] for p in pvs],
                     state=[enc_int(t) for t in st.lts], mode=st.mode, req=[list(map(int, r)) for r in req], den=den,
                     got=got, copies=copies), desc)
    return res


def dense(R, rng):
    n, ds = setup(rng, 1, 5, 12)
    while True:
        outs = povm.rand_outs(rng, n)
        if np.prod(outs) * np.prod(ds) ** 2 <= 900:
            break
    pv = povm.rand_povm(rng, outs, ds, bool(rng.randint(4)), int(rng.randint(2)))
    mode = MODES[rng.randint(3)]
    st = povm.St(rng, ds, mode, bool(rng.randint(4)), rmax=int(rng.randint(1, 4)))
    povm.messup(rng, pv.obj)
    if rng.randint(2):
        povm.messup(rng, st.obj)
    for impl in [['auto', 'default'][rng.randint(2)]] * 2 if mode != 'pmps' else ['auto', 'default', 'pmps-symm', 'pmps-ltr']:
        call = 'auto' if mode != 'pmps' and rng.randint(2) else mode
        kw = dict(impl=impl) if impl != 'auto' or rng.randint(2) else {}
        if rng.randint(4) == 0:
            kw['eps'] = 1e-9
        if rng.randint(5) == 0 and impl in ('auto', 'default'):
            f = lambda: [mp.prune(pv.obj.pmf(st.obj, call), True).to_array().real]
            desc = 'pmf().to_array'
        else:
            f = lambda: [pv.obj.pmf_as_array(st.obj, call, **kw)]
            desc = 'pmf_as_array %s' % kw
        emit(R, [pv], st, [[1, 0, n]], f, '%s outs=%s dims=%s mode=%s' % (desc, outs, ds, call))


def blocks(R, rng):
    """one POVM on blocks of a longer chain"""
    d = int(rng.randint(2, 4))
    n = int(rng.randint(1, 4 if d == 2 else 3))
    m = int(rng.randint(n, 5 if d == 2 else 4))
    if rng.randint(6) == 0:
        d, n = 1, int(rng.randint(1, 8))
        m = int(rng.randint(n, 10))
    outs = povm.rand_outs(rng, n)
    m = max(m, n)
    pv = povm.rand_povm(rng, outs, [d] * n, bool(rng.randint(4)))
    mode = MODES[rng.randint(3)]
    st = povm.St(rng, [d] * m, mode, bool(rng.randint(4)), maxD=100)
    povm.messup(rng, st.obj)
    povm.messup(rng, pv.obj)
    asarr = bool(rng.randint(2))
    k = rng.randint(3)
    if k == 0:
        kw, st0 = {}, list(range(m - n + 1))
    elif k == 1:
        kw, st0 = dict(width=n), list(range(m - n + 1))
    else:
        st0 = [int(x) for x in rng.randint(0, m - n + 1, size=rng.randint(1, 4))]
        kw = dict(width=n, startsites=st0) if rng.randint(2) else dict(startsites=st0, stopsites=[s + n for s in st0])
    req = [[1, s, s + n] for s in st0]
    emit(R, [pv], st, req, lambda: list(pv.obj.block_pmfs_as_array(st.obj, mode, asarray=asarr, **fresh(kw))),
         'block_pmfs_as_array outs=%s m=%d mode=%s %s' % (outs, m, mode, kw))


def lists(R, rng):
    d = 2
    n = int(rng.randint(1, 4))
    if rng.randint(6) == 0:
        d, n = 1, int(rng.randint(2, 7))
    k = int(rng.randint(1, 4))
    same = rng.randint(2)
    outs0 = povm.rand_outs(rng, n)
    pvs = [povm.rand_povm(rng, outs0 if same else povm.rand_outs(rng, n), [d] * n, bool(rng.randint(4)))
           for _ in range(k)]
    L = MPPovmList(p.obj for p in pvs)
    mode = MODES[rng.randint(3)]
    o = rng.randint(4)
    call = 'auto' if mode != 'pmps' and rng.randint(2) else mode
    if o == 0:
        st = povm.St(rng, [d] * n, mode)
        emit(R, pvs, st, [[i + 1, 0, n] for i in range(k)], lambda: list(L.pmf_as_array(st.obj, call)),
             'MPPovmList.pmf_as_array mode=%s' % call)
    elif o == 1:
        st = povm.St(rng, [d] * n, mode)
        emit(R, pvs, st, [[i + 1, 0, n] for i in range(k)],
             lambda: [mp.prune(p, True).to_array().real for p in L.pmf(st.obj, call)], 'MPPovmList.pmf mode=%s' % call)
    else:
        m = n + k - 1
        if d ** m > 16:
            return
        st = povm.St(rng, [d] * m, mode, maxD=100)
        starts = list(range(k))
        kw = {}
        if o == 3:
            starts = [int(x) for x in rng.randint(0, m - n + 1, size=k)]
            kw = dict(startsites=starts, width=n)
        emit(R, pvs, st, [[i + 1, s, s + n] for i, s in enumerate(starts)],
             lambda: list(L.block_pmfs_as_array(st.obj, mode, asarray=bool(same and rng.randint(2)), **fresh(kw))),
             'MPPovmList.block_pmfs_as_array m=%d mode=%s %s' % (m, mode, kw))


# six directions of a qubit: 2 * basis + sign; the specification only sees their numbers
VEC = [np.array(v, complex) / np.linalg.norm(v) for v in ([1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j])]


def tiny(R, rng):
    """outcomes with very small probabilities: every site has the measurement w P, w (1 - P), (1 - w) 1
    with w = 2^-e and the state is a product of the same directions"""
    n = int(rng.randint(1, 4))
    dirs = [int(x) for x in rng.randint(6, size=n)]
    meas = [[int(rng.randint(6)), int(rng.randint(12, [20, 40][rng.randint(2)]))] for _ in range(n)]
    loc = []
    for k, e in meas:
        P = [np.outer(v, v.conj()) for v in (VEC[k], VEC[k ^ 1])]
        w = 2.0 ** -e
        loc.append(np.array([P[0] * w, P[1] * w, np.eye(2) * (1 - w)]))
    pv = MPPovm.from_kron(loc)
    mode = MODES[rng.randint(3)]
    vs = [VEC[k] for k in dirs]
    if mode == 'mps':
        st = mp.MPArray.from_kron(vs)
    elif mode == 'pmps':
        anc = [np.array([[1.0], [0.6, 0.8]][rng.randint(2)]) for _ in range(n)]
        st = mp.MPArray.from_kron([np.outer(v, a) for v, a in zip(vs, anc)])
    else:
        st = mp.MPArray.from_kron([np.outer(v, v.conj()) for v in vs])
    if rng.randint(2):
        povm.messup(rng, st)
    impl = 'auto'
    if rng.randint(2):
        impl = ['default', 'pmps-symm', 'pmps-ltr'][rng.randint(3)] if mode == 'pmps' else 'default'
    o = rng.randint(3)
    f = [lambda: pv.pmf_as_array(st, mode, impl=impl),
         lambda: list(pv.block_pmfs_as_array(st, mode, width=n))[0],
         lambda: list(MPPovmList([pv]).pmf_as_array(st, mode))[0]][o]
    res, exc = R.call(f)
    e = dict(op='pmf', fam='tiny', exc=exc, dirs=dirs, meas=meas, got=[], shape=[])
    if not exc:
        r = np.asarray(res)
        e['shape'] = [int(x) for x in r.shape]
        # binary logarithm in thousandths; nothing below 2^-900
        e['got'] = [int(np.rint(1000 * np.log2(x))) if np.isfinite(x) and x > 2.0 ** -900 else (-900000 if 0 <= x < 1 else 900000)
                    for x in np.ravel(r.real)]
    R.stateless(e, 'pmf with small probabilities, %s mode=%s impl=%s dirs=%s meas=%s' % (
        ('pmf_as_array', 'block_pmfs_as_array', 'MPPovmList')[o], mode, impl, dirs, meas))


def reject(R, rng):
    """states of another length, unknown implementations and modes"""
    n = int(rng.randint(1, 4))
    outs = povm.rand_outs(rng, n)
    ds = [2] * n
    pv = povm.rand_povm(rng, outs, ds)
    mode = MODES[rng.randint(3)]
    k = rng.randint(4)
    m = n
    if k < 3:
        m = n + 1 if n == 1 or rng.randint(2) else n - 1
    st = povm.St(rng, [2] * m, mode, maxD=100)
    f, what = [(lambda: pv.obj.pmf(st.obj, mode), 'pmf'),
               (lambda: pv.obj.pmf_as_array(st.obj, mode), 'pmf_as_array'),
               (lambda: list(MPPovmList([pv.obj]).pmf_as_array(st.obj, mode)), 'MPPovmList.pmf_as_array'),
               (lambda: pv.obj.pmf_as_array(st.obj, mode, impl='fast'), 'pmf_as_array impl=fast')][k]
    res, exc = R.call(f)
    R.stateless(dict(op='reject', fam='reject', exc=exc), '%s, %d sites measured, state of %d' % (what, n, m))
