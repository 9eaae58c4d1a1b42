"""C11: MPS / PMPS / MPO conversions and reductions."""
import numpy as np
import mpnum as mp
from mpnum import mpsmpo
import gen
import ops


def run(R, rng, tier, mine):
    R.again = 6
    R.units = True
    k = 0
    for rep in range(4000 if tier == 'thorough' else 560):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C11', case, R, s)
    for rep in range(200 if tier == 'thorough' else 30):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C11:reject', reject, R, s)


def reject(R, rng):
    """requests that do not say which reductions are wanted, or that cannot be met"""
    n = int(rng.randint(1, 6))
    sh = [(int(d), int(d)) for d in rng.randint(2, 4, size=n)]
    st, sp = [0], [int(rng.randint(1, n + 1))]
    bad = [('width and stopsites', dict(width=1, startsites=st, stopsites=sp)),
           ('width and stopsites', dict(width=1, stopsites=sp)),
           ('stopsites without startsites', dict(stopsites=sp)),
           ('neither width nor stopsites', dict(startsites=st)),
           ('nothing', {})]
    mpo = mp.MPArray([np.ones((1,) + s + (1,)) for s in sh])
    mps = mp.MPArray([np.ones((1, s[0], 1)) for s in sh])
    for what, kw in bad:
        for name, x in (('reductions_mpo', mpo), ('reductions_pmps', mpo), ('reductions_mps_as_mpo', mps),
                        ('reductions_mps_as_pmps', mps)):
            r, exc = R.call(lambda: list(getattr(mpsmpo, name)(x, **kw)))
            R.stateless(dict(op=name, fam='reject', exc=exc), '%s with %s' % (name, what))
        for mode, x in (('mps', mps), ('pmps', mpo), ('mpdo', mpo)):
            r, exc = R.call(lambda: list(mpsmpo.reductions(x, mode, **kw)[0]))
            R.stateless(dict(op='reductions', fam='reject', exc=exc), 'reductions(%r) with %s' % (mode, what))
    for mode in ('mpo', 'x', None):
        r, exc = R.call(lambda: mpsmpo.reductions(mpo, mode, width=1))
        R.stateless(dict(op='reductions', fam='reject', exc=exc), 'reductions in mode %r' % (mode,))
    for sup in ([], [n], [0, n], [-1]):
        r, exc = R.call(lambda: mpsmpo.pmps_reduction(mpo, sup))
        R.stateless(dict(op='pmps_reduction', fam='reject', exc=exc), 'pmps_reduction to sites %s of %d' % (sup, n))
    # objects of the wrong kind
    three = mp.MPArray([np.ones((1, 2, 2, 2, 1)) for s in sh])
    for name, x, kw in (('reductions_mpo', mps, dict(width=1)), ('reductions_mpo', three, dict(width=1)),
                        ('mps_to_pmps', mpo, {}), ('mps_to_mpo', mpo, {}), ('pmps_to_mps', mpo, {}),
                        ('reductions_mps_as_mpo', mpo, dict(width=1)), ('reductions_mps_as_pmps', mpo, dict(width=1))):
        r, exc = R.call(lambda: list(getattr(mpsmpo, name)(x, **kw)) if kw else getattr(mpsmpo, name)(x))
        R.stateless(dict(op=name, fam='reject', exc=exc), '%s of an object with %s legs per site' % (name, x.ndims))


def dims(rng, n, lim, lo=1, hi=3):
    while True:
        if n > 5:
            d = [int(rng.randint(lo, hi + 1)) if rng.randint(n) < 4 else lo for _ in range(n)]
        else:
            d = [int(rng.randint(lo, hi + 1)) for _ in range(n)]
            if hi == 3 and n < 4 and rng.randint(10) == 0:
                d[rng.randint(n)] = int(rng.randint(4, 6))
        if np.prod(d) <= lim:
            return d


def dm(p):
    """density matrix (local form) of a PMPS, contracted independently"""
    from obs import contract
    v = contract([np.asarray(t) for t in p.lt])
    assert v.shape[0] == 1 and v.shape[-1] == 1
    v = v[0, ..., 0]
    n = len(p)
    if any(len(s) != 2 for s in p.shape) or v.ndim != 2 * n:
        raise ValueError('not a PMPS')
    v = v.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
    ds = v.shape[:n]
    m = v.reshape(int(np.prod(ds)), -1)
    r = m.dot(m.conj().T).reshape(tuple(ds) * 2)
    return r.transpose([x for i in range(n) for x in (i, n + i)])


class Lazy(list):
    """to be passed as an iterator"""


def fresh(kw):
    return {k: iter(list(v)) if isinstance(v, Lazy) else v for k, v in kw.items()}


def redargs(rng, n):
    """keyword arguments and the intervals they stand for"""
    k = rng.randint(4)
    if k == 0:
        w = int(rng.randint(1, n + 1))
        return dict(width=w), list(range(n - w + 1)), [s + w for s in range(n - w + 1)]
    if k == 1:
        w = int(rng.randint(1, n + 1))
        st = [int(rng.randint(0, n - w + 1)) for _ in range(rng.randint(1, 4))]
        return dict(width=w, startsites=Lazy(st) if rng.randint(2) else st), st, [s + w for s in st]
    st, sp = [], []
    for _ in range(rng.randint(1, 5)):
        a = int(rng.randint(0, n))
        st.append(a)
        sp.append(int(rng.randint(a + 1, n + 1)))
    if k == 2:
        return dict(startsites=st, stopsites=sp), st, sp
    return dict(startsites=Lazy(st), stopsites=Lazy(sp)), st, sp


def case(R, rng):
    n = int(rng.randint(1, 6)) if rng.randint(5) else int(rng.randint(6, 10))
    kind = ['mps', 'pmps', 'mpo'][rng.randint(3)]
    dt = ['f8', 'c16', 'f8', 'c16', 'i8', 'c8'][rng.randint(6)]
    while True:
        if kind == 'mps':
            sh = [(d,) for d in dims(rng, n, 16)]
        elif kind == 'pmps':
            sh = list(zip(dims(rng, n, 16), dims(rng, n, 12, 1, 2 if rng.randint(2) else 3)))
        else:
            d = dims(rng, n, 16)
            sh = list(zip(d, d))
        break
    if kind == 'mps' and rng.randint(3) == 0 or kind == 'pmps' and rng.randint(4) == 0:
        pass
    m = ops.mk(R, rng, sh, 3, dt, lim=40)
    if kind == 'mps':
        for _ in range(3):
            o = rng.randint(5)
            if o == 0:
                p = R.op('mps_to_pmps', [m], mpsmpo.mps_to_pmps)
                if p and rng.randint(2):
                    q = R.op('pmps_to_mps', [p], mpsmpo.pmps_to_mps)
                    if q:
                        ops.imul(R, rng, q)
                if p and rng.randint(2):
                    pm(R, rng, p, n)
            elif o == 1:
                r = R.op('mps_to_mpo', [m], mpsmpo.mps_to_mpo)
                if r and rng.randint(2):
                    red_mpo(R, rng, r, n)
            elif o == 2:
                kw, st, sp = redargs(rng, n)
                R.op('reductions_mpo', [m], lambda x: mpsmpo.reductions_mps_as_mpo(x, **fresh(kw)),
                     a=dict(mode='mps', st=st, sp=sp), out='objs', desc='reductions_mps_as_mpo st=%s sp=%s' % (st, sp))
            else:
                kw, st, sp = redargs(rng, n)
                if o == 3:
                    f = lambda x: [dm(p) for p in list(mpsmpo.reductions_mps_as_pmps(x, **fresh(kw)))]
                else:
                    f = lambda x: [dm(p) for p in list(tagged(mpsmpo.reductions(x, 'mps', **fresh(kw)), 'pmps'))]
                R.op('reductions_pmps', [m], f, a=dict(mode='mps', st=st, sp=sp), out='vals',
                     desc='reductions of MPS st=%s sp=%s' % (st, sp))
            ops.prep(R, rng, m, 1)
    elif kind == 'pmps':
        for _ in range(3):
            pm(R, rng, m, n)
    else:
        for _ in range(2):
            red_mpo(R, rng, m, n)
    ops.to_array(R, m)


def tagged(res, want):
    r, tag = res
    if tag != want:
        raise ValueError('wrong tag %r' % (tag,))
    return r


def red_mpo(R, rng, m, n):
    kw, st, sp = redargs(rng, n)
    if rng.randint(2):
        f = lambda x: mpsmpo.reductions_mpo(x, **fresh(kw))
    else:
        f = lambda x: tagged(mpsmpo.reductions(x, 'mpdo', **fresh(kw)), 'mpdo')
    ids = R.op('reductions_mpo', [m], f, a=dict(mode='mpo', st=st, sp=sp), out='objs',
               desc='reductions_mpo st=%s sp=%s' % (st, sp))
    if ids and rng.randint(2):
        # results are independent of each other and of the operator
        ops.imul(R, rng, ids[0])
        ops.rand_canon(R, rng, ids[-1])
    if ids and rng.randint(3) == 0:
        ops.imul(R, rng, m)


def pm(R, rng, p, n):
    sh = [tuple(int(d) for d in s) for s in R.obj[p].shape]
    o = rng.randint(6)
    if o == 0:
        r = R.op('pmps_to_mpo', [p], mpsmpo.pmps_to_mpo)
        if r and rng.randint(2):
            red_mpo(R, rng, r, n)
    elif o == 1:
        ds = set(d for d, _ in sh if d > 1)
        glob = len(ds) == 1 and bool(rng.randint(2))
        R.op('pmps_dm', [p], (lambda x: mpsmpo.pmps_dm_to_array(x, global_=True)) if glob
             else mpsmpo.pmps_dm_to_array, a=dict(glob=glob), out='val', desc='pmps_dm_to_array(global_=%r)' % glob)
    elif o == 2:
        R.op('pmps_to_mps', [p], mpsmpo.pmps_to_mps, desc='pmps_to_mps %s' % (sh,))
    elif o == 3:
        S = sorted(rng.permutation(n)[:rng.randint(1, n + 1)].tolist())
        if rng.randint(2):
            S = S[::-1]
        sup = set(S) if rng.randint(2) else S
        R.op('pmps_reduction', [p], lambda x: dm(mpsmpo.pmps_reduction(x, sup)), a=dict(sup=[int(s) for s in S]), out='val',
             desc='pmps_reduction(%r)' % (sup,))
        if rng.randint(2) and any(d > 1 for i, (d, _) in enumerate(sh) if i in S):
            # the documented use: dense reduced state of non-consecutive sites
            R.op('pmps_reduction', [p], lambda x: mpsmpo.pmps_dm_to_array(mpsmpo.pmps_reduction(x, sup)).reshape(
                 redshape(sh, S)), a=dict(sup=[int(s) for s in S]), out='val',
                 desc='pmps_dm_to_array(pmps_reduction(%r))' % (sup,))
    else:
        kw, st, sp = redargs(rng, n)
        if o == 4:
            f = lambda x: [dm(q) for q in list(mpsmpo.reductions_pmps(x, **fresh(kw)))]
        else:
            f = lambda x: [dm(q) for q in list(tagged(mpsmpo.reductions(x, 'pmps', **fresh(kw)), 'pmps'))]
        R.op('reductions_pmps', [p], f, a=dict(mode='pmps', st=st, sp=sp), out='vals',
             desc='reductions of PMPS st=%s sp=%s' % (st, sp))


def redshape(sh, S):
    out = []
    for i in range(min(S), max(S) + 1):
        d = sh[i][0] if i in S else 1
        out += [d, d]
    return out
