"""C08: SVD compression."""
import numpy as np
import mpnum as mp
from mpnum.utils import truncated_svd
from mpnum.utils.extmath import randomized_svd
import bpp
import gen
import ops
from obs import clampi
from p_C06 import cfobs, value


def run(R, rng, tier, mine):
    R.units = True
    k = 0
    for rep in range(2500 if tier == 'thorough' else 260):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            n = s.randint(1, 6)
            R.run_case('C08:exact n=%d' % n, exact, R, s, n)
    for rep in range(2500 if tier == 'thorough' else 320):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C08:generic', generic, R, s)
    for rep in range(600 if tier == 'thorough' else 80):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C08:degenerate', degenerate, R, s)
    for rep in range(40):
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C08:reject', reject, R, s)


def rels(rng, d):
    """relerr p/q away from the decision points"""
    for _ in range(50):
        q = int(rng.randint(2, 30))
        p = int(rng.randint(1, q + 1))
        ok = True
        for lam in d['lam']:
            S = sum(lam)
            for k in range(1, len(lam) + 1):
                if p < q and abs(sum(lam[:k]) * q - S * (q - p)) * 1000 < S * q:
                    ok = False
        if ok:
            return [p, q]
    return [1, 1]


def exact(R, rng, n):
    m, d, dt = bpp.make(R, rng, n)
    if m is None:
        return
    rmax = max(len(x) for x in d['lam'])
    full = max(list(R.obj[m].ranks) + [1])
    plans = []
    for rank in sorted(set([1, 2, rmax, rmax + 1, full + 2])):
        plans.append((rank, []))
    for _ in range(3):
        plans.append((0, rels(rng, d)))
        plans.append((int(rng.randint(1, rmax + 1)), rels(rng, d)))
    plans.append((0, []))
    for rank, rel in plans:
        if d['kind'] == 'ghz' and n > 2 and rel and rel[0] < rel[1]:
            continue        # later cuts depend on earlier truncations
        c = ops.unary(R, 'copy', m)
        if rng.randint(2):
            ops.prep(R, rng, c)
        kw = {}
        if rank:
            kw['rank'] = rank
        if rel:
            kw['relerr'] = rel[0] / rel[1]
        elif rng.randint(8) == 0 and dt not in ('f4', 'c8'):
            kw['relerr'] = 0.0
        dr = [None, 'left', 'right'][rng.randint(3)]
        if dr or rng.randint(2):
            kw['direction'] = dr
        if dr and rng.randint(3) == 0:
            # canonical form established beforehand
            if dr == 'left':
                ops.canonicalize(R, c, left='afull')
            else:
                ops.canonicalize(R, c, right='afull')
            kw['canonicalize'] = False
        elif rng.randint(3) == 0:
            kw['canonicalize'] = True
        sv = rng.randint(6)
        if sv == 0:
            kw['svdfunc'] = truncated_svd
        elif sv == 1:
            kw['svdfunc'] = lambda A, k: truncated_svd(A, k)
        elif sv == 2 and not rel and dt in ('f8', 'c16'):
            kw['svdfunc'] = lambda A, k: randomized_svd(A, min(k, *A.shape), n_oversamples=60, n_iter=5,
                                                        randstate=np.random.RandomState(1))
        a = dict(d=d, rank=int(rank), rel=rel)
        txt = 'compress(%s) kind=%s lam=%s' % ({x: y for x, y in kw.items() if x != 'svdfunc'}, d['kind'], d['lam'])
        pos = rng.randint(2) and dict(method='svd') or {}
        kw.update(pos)
        if rng.randint(2):
            R.op('compress_bpp', [c], lambda x: x.compress(**kw), a=a, out='val', post=True, desc=txt)
        else:
            R.op('compression_bpp', [c], lambda x: x.compression(**kw), a=a, out='objval', desc='compression: ' + txt)
            ops.to_array(R, c)
        R.free([i for i in list(R.obj) if i != m])


def degenerate(R, rng):
    """zero and product tensors with redundant ranks: compression to any rank is exact"""
    n = int(rng.randint(1, 7))
    dt = ['f8', 'c16', 'f4', 'i8'][rng.randint(4)]
    sh = gen.rshape(rng, n, legs=(0, 2), dims=(1, 3), maxsize=128)
    t = gen.rmpa(rng, sh, 1, dt, lim=40)
    zero = rng.randint(2)
    if zero:
        t[rng.randint(n)] *= 0
    t = [x.astype(dt) for x in bpp.gauge(rng, t)] if dt[0] == 'c' else [x.real.astype(dt) for x in bpp.gauge(rng, t)]
    m = R.new(t, p=gen.prec(dt))
    for _ in range(4):
        kw = {}
        if rng.randint(4):
            kw['rank'] = int(rng.randint(1, 4))
        if rng.randint(3) == 0:
            kw['relerr'] = [0.0, 0.25, 0.5, 1e-6][rng.randint(4)]
        dr = [None, 'left', 'right'][rng.randint(3)]
        if dr:
            kw['direction'] = dr
        c = ops.unary(R, 'copy', m)
        ops.prep(R, rng, c)
        if rng.randint(2):
            R.op('compress_exact', [c], lambda x: x.compress('svd', **kw), a=dict(rank=kw.get('rank', 0)), out='val',
                 post=True, desc='compress(%r) of a %s' % (kw, 'zero tensor' if zero else 'product'))
            ops.norm(R, c)
        else:
            R.op('compression_exact', [c], lambda x: x.compression('svd', **kw), a=dict(rank=kw.get('rank', 0)),
                 out='objval', desc='compression(%r) of a %s' % (kw, 'zero tensor' if zero else 'product'))
    ops.to_array(R, m)


def reject(R, rng):
    m = ops.mk(R, rng, gen.rshape(rng, rng.randint(2, 5), legs=(1, 2), dims=(1, 3), maxsize=64), 3, 'f8')
    bad = [('ValueError', dict(method='foo')), ('ValueError', dict(method='svd', direction='up')),
           ('', dict(method='svd', rank=0)), ('', dict(method='svd', relerr=1.5)), ('', dict(method='svd', relerr=-0.5)),
           ('ValueError', dict(method='var', num_sweeps=1))]
    for exc, kw in bad:
        a = dict(exc=exc) if exc else {}
        R.op('compress_bad', [m], lambda x: x.compress(**kw), a=a, out='none', desc='compress(%r)' % (kw,))
        R.op('compress_bad', [m], lambda x: x.compression(**kw), a=a, out='none', desc='compression(%r)' % (kw,))
    ops.to_array(R, m)


U = 1e8


def unit(x):
    return int(max(-1.5e9, min(1.5e9, round(x * U)))) if np.isfinite(x) else 1500000000


def generic(R, rng):
    """random float tensors: the relations that hold for every compression"""
    n = int(rng.randint(2, 6))
    sh = gen.rshape(rng, n, legs=(0, 2), dims=(1, 3), maxsize=256)
    rk = [1] + [int(rng.randint(1, 6)) for _ in range(n - 1)] + [1]
    cplx = bool(rng.randint(2))
    lts = [rng.randn(rk[i], *(tuple(s) + (rk[i + 1],))) for i, s in enumerate(sh)]
    if cplx:
        mixed = rng.randint(2)
        lts = [t if mixed and rng.randint(2) else t + 1j * rng.randn(*t.shape) for t in lts]
    m = mp.MPArray([t.copy() for t in lts])
    for _ in range(rng.randint(3)):
        a = rng.randint(0, n)
        m.canonicalize(int(a), int(rng.randint(a + 1, n + 1)))
    u = value(mp.MPArray(lts))
    nu = np.linalg.norm(u) ** 2
    rank = int(rng.randint(1, 6))
    kw = dict(rank=rank)
    rel = None
    if rng.randint(3) == 0:
        rel = float(rng.rand() * 0.6)
        kw['relerr'] = rel
        if rng.randint(2):
            del kw['rank']
    dr = [None, 'left', 'right'][rng.randint(3)]
    if dr:
        kw['direction'] = dr
    inplace = bool(rng.randint(2))

    def f():
        if inplace:
            ov = m.compress('svd', **kw)
            return m, ov
        return m.compression('svd', **kw)
    res, exc = R.call(f)
    if exc:
        R.stateless(dict(op='generic', fam='svdgen', exc=exc), '%r' % (kw,))
        return
    c, ov = res
    cv = value(c)
    tails, tops = [], []
    pos = np.cumsum([0] + [len(s) for s in sh])
    for b in range(1, n):
        sv = np.linalg.svd(u.reshape(int(np.prod(u.shape[:pos[b]], dtype=int)), -1), compute_uv=False)
        k = int(c.ranks[b - 1])
        tails.append(unit((sv[k:] ** 2).sum() / nu))
        frac = sv[k:].sum() / sv.sum()
        tops.append(unit(frac))
    uc = np.vdot(u, cv)
    R.stateless(dict(op='generic', fam='svdgen', exc='', ov=unit(np.real(ov) / nu), ovim=unit(np.imag(ov) / nu),
                     uc=unit(uc.real / nu), ucim=unit(uc.imag / nu), cc=unit(np.linalg.norm(cv) ** 2 / nu),
                     err=unit(np.linalg.norm(u - cv) ** 2 / nu), tails=tails, frac=tops,
                     rank=kw.get('rank', 0), rel=unit(rel) if rel is not None else -1, obs=cfobs(c, 0, 0),
                     orig=0 if inplace else unit(np.abs(value(m) - u).max() / np.sqrt(nu)),
                     same=[list(map(int, s)) for s in c.shape] == [list(map(int, s)) for s in sh]),
                'shape=%s ranks=%s %r inplace=%r' % (sh, rk, kw, inplace))
