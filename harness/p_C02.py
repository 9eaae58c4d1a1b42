"""C02: arithmetic is the arithmetic of the represented tensors."""
import itertools as it
import numpy as np
import mpnum as mp
import gen
import ops

DT = ['f8', 'c16', 'f4', 'c8', 'i8']


def run(R, rng, tier, mine):
    R.again = 6
    R.units = True
    reps = 6 if tier == 'thorough' else 1
    k = 0
    todo = []
    for rep in range(reps):
        for n in range(1, 7):
            for d1, d2 in it.product(DT, DT):
                todo.append(('bin', n, d1, d2))
        for n in (1, 2, 3, 4, 5, 6, (7, 8, 9)[rep % 3], (12, 10, 11)[rep % 3]):
            for d1 in DT:
                for kind in ('scal', 'unary', 'sumup', 'special', 'alg'):
                    todo.append((kind, n, d1, DT[rng.randint(5)]))
                if n in (2, 3, 4):
                    todo.append(('bigrank', n, d1, DT[rng.randint(5)]))
                for kind in ('scal', 'unary', 'sumup', 'special', 'alg'):
                    todo.append((kind, n, d1, DT[rng.randint(5)]))
    for c in todo:
        sub = np.random.RandomState(rng.randint(2**31 - 1))
        k += 1
        if mine(k):
            R.run_case('C02:%s' % (c,), one, R, sub, *c)


def one(R, rng, kind, n, d1, d2):
    sh = gen.rshape(rng, n, legs=(0, 3), dims=(1, 3), maxsize=96)
    if kind == 'bin':
        a = ops.mk(R, rng, sh, 3, d1)
        b = ops.mk(R, rng, sh, 3, d2)
        ops.add(R, a, b)
        ops.sub(R, a, b)
        c = ops.add(R, b, a)
        d = ops.sub(R, c, a) if c is not None else None
        if d is not None:
            ops.prep(R, rng, d)
            ops.iadd(R, d, b)
            ops.isub(R, d, b)
            ops.add(R, d, d)
            ops.sub(R, d, d)
        ops.sumup(R, rng, [a, b, a], lazy=bool(rng.randint(2)))
    elif kind == 'bigrank':
        sh = gen.rshape(rng, n, legs=(1, 2), dims=(1, 3), maxsize=48)

        def big(dt):
            while True:
                rk = [1] + [int(rng.randint(8, 31)) for _ in range(n - 1)] + [1]
                t = gen.lts(rng, sh, dt=dt, ranks=rk)
                for x in t[1:-1]:       # keep the values small
                    x *= rng.randint(0, 4, size=x.shape) == 0
                if np.abs(gen.val(t)).max() < 2000:
                    return R.new(t, p=gen.prec(dt))
        a, b, c = big(d1), big(d2), big(d1)
        ops.add(R, a, b)
        ops.sub(R, b, c)
        ops.sumup(R, rng, [a, b, c])
        ops.prep(R, rng, a)
        ops.add(R, a, b)
        ops.mul(R, rng, b)
    elif kind == 'scal':
        a = ops.mk(R, rng, sh, 3, d1, lim=300)
        for c in ops.SCALARS:
            ops.mul(R, rng, a, c)
        for s, c in ((2, (2, 0)), (2.0, (2, 0)), (np.int64(-3), (-3, 0)), (np.float32(2), (2, 0)),
                     (np.complex64(1j), (0, 1)), (True, (1, 0)), (1j, (0, 1))):
            R.op('mul', [a], lambda m: m * s, a=dict(c=list(c)), desc='mpa * %r' % (s,))
            R.op('mul', [a], lambda m: s * m if not isinstance(s, np.generic) else m.__rmul__(s),
                 a=dict(c=list(c)), desc='%r * mpa' % (s,))
        ops.prep(R, rng, a)
        ops.div(R, rng, a)
        b = ops.mul(R, rng, a, (2, 0))
        for _ in range(4):
            ops.div(R, rng, b)
            ops.imul(R, rng, b, [(2, 0), (-1, 0), (0, 1), (1, 1)][rng.randint(4)])
            ops.prep(R, rng, b, 1)
            ops.div(R, rng, b, inplace=True)
        ops.unary(R, 'neg', b)
        # division by a non-representable scalar is checked after multiplying back
        c7 = R.op('mul', [a], lambda m: (m / 7.0) * 7.0, a=dict(c=[1, 0]), desc='(mpa / 7.0) * 7.0')
        R.op('mul', [a], lambda m: (m / 3) * 3, a=dict(c=[1, 0]), desc='(mpa / 3) * 3')
        ops.imul(R, rng, a, (0, 0))
        # scalars only
        for bad in (np.ones(2), 'x', [1.0], None):
            if isinstance(bad, str):
                continue
            R.op('bad_update', [b], lambda m: m.__mul__(bad), out='none', desc='mpa * %r' % (bad,))
            R.op('bad_update', [b], lambda m: m.__imul__(bad), out='none', desc='mpa *= %r' % (bad,))
            R.op('bad_update', [b], lambda m: m.__truediv__(bad), out='none', desc='mpa / %r' % (bad,))
            R.op('bad_update', [b], lambda m: m.__itruediv__(bad), out='none', desc='mpa /= %r' % (bad,))
    elif kind == 'unary':
        a = ops.mk(R, rng, sh, 3, d1)
        for op in ('neg', 'pos', 'conj', 'T', 'adj', 'copy'):
            b = ops.unary(R, op, a)
            if b is not None and op != 'pos':
                ops.prep(R, rng, b)
                ops.unary(R, ('conj', 'T', 'adj', 'neg')[rng.randint(4)], b)
        # same number of legs at every site: explicit permutations
        legs = rng.randint(1, 4)
        sh2 = gen.rshape(rng, n, uniform=None, legs=(legs, legs), dims=(1, 3), maxsize=96)
        if all(len(s) == legs for s in sh2):
            c = ops.mk(R, rng, sh2, 3, d1)
            ops.transpose(R, c, None)
            for p in it.permutations(range(legs)):
                d = ops.transpose(R, c, p)
            ops.transpose(R, c, list(p))
    elif kind == 'sumup':
        ids = [ops.mk(R, rng, sh, 2, [d1, d2, 'f8', 'c16'][rng.randint(4)], lim=300) for _ in range(rng.randint(1, 5))]
        ops.sumup(R, rng, ids, weights=None, lazy=bool(rng.randint(2)))
        ops.sumup(R, rng, ids, weights=[list(ops.SCALARS[rng.randint(len(ops.SCALARS))]) for _ in ids])
        ops.sumup(R, rng, ids, weights=[[i + 2, 0] for i, _ in enumerate(ids)], lazy=True)
        ws = np.array([float(i - 1) for i, _ in enumerate(ids)])
        R.op('sumup', ids, lambda *ms: mp.sumup(ms, weights=ws), a=dict(w=[[i - 1, 0] for i, _ in enumerate(ids)]),
             desc='sumup(weights=ndarray)')
        R.op('sumup', ids, lambda *ms: mp.sumup(list(ms), weights=(w for w in ws)),
             a=dict(w=[[i - 1, 0] for i, _ in enumerate(ids)]), desc='sumup(weights=iterator)')
    elif kind == 'special':
        legs = rng.randint(1, 3)
        sh2 = gen.rshape(rng, n, legs=(legs, legs), dims=(1, 3), maxsize=64)
        m = rng.randint(1, 6) if rng.randint(4) else rng.randint(6, 22)
        if m > 5 and n in (2, 3, 4):
            sh2 = [(int(np.ceil(m ** .5)),)] * n if n > 2 else [(m,)] * n
            sh2 = sh2 if n < 4 else [sh2[0], (2,), (2,), sh2[0]]
        # a common scale per site: the SVD of the summands side by side is only accurate to the largest of them
        ids = [ops.mk(R, rng, sh2, 1, d1 if d1[0] != 'i' else 'f8', prep_=not R.case_unit) for _ in range(m)]
        full = max([1] + list(mp.full_rank(sh2)))
        # exact as soon as every intermediate SVD can keep everything
        suff = max([1] + [min(m, int(np.prod([np.prod(s) for s in sh2[:j]]))) for j in range(1, n)])
        for rank in (suff, m, m + 2, full + m):
            ops.special_sumup(R, rng, ids, rank)
        ops.special_sumup(R, rng, ids, max(m, full), weights=[[int(rng.randint(-2, 3)), 0] for _ in ids], lazy=True)
        if d1[0] == 'c':
            ops.special_sumup(R, rng, ids, m, weights=[[int(rng.randint(-2, 3)), int(rng.randint(-1, 2))] for _ in ids])
    elif kind == 'alg':
        # algebraic programs: random expressions over a pool of equal shape
        pool = [ops.mk(R, rng, sh, 2, [d1, d2][i % 2], lim=200) for i in range(3)]
        pool = [p for p in pool if p is not None]
        for step in range(8):
            if not pool:
                break
            a = pool[rng.randint(len(pool))]
            b = pool[rng.randint(len(pool))]
            if max(R.obj[a].ranks + R.obj[b].ranks + (1,)) > 14:
                break
            k = rng.randint(7)
            if k == 0:
                r = ops.add(R, a, b)
            elif k == 1:
                r = ops.sub(R, a, b)
            elif k == 2:
                r = ops.mul(R, rng, a, [(2, 0), (-1, 0), (0, 1)][rng.randint(3)])
            elif k == 3:
                r = ops.unary(R, 'conj', a)
            elif k == 4:
                ops.imul(R, rng, a, [(-1, 0), (2, 0), (0, -1)][rng.randint(3)])
                r = None
            elif k == 5:
                r = ops.div(R, rng, a)
            else:
                ops.prep(R, rng, a)
                r = None
            if r is not None:
                pool.append(r)
