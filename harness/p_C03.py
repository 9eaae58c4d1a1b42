"""C03: contractions, traces, norms equal their dense definition."""
import itertools as it
import numpy as np
import mpnum as mp
import gen
import ops

DT = ['f8', 'c16', 'f4', 'c8', 'i8']
KINDS = ['dot', 'dotmix', 'partialdot', 'inner', 'sandwich', 'norm', 'trace', 'ptrace', 'sum', 'diag', 'outer', 'types']


def run(R, rng, tier, mine):
    R.again = 6
    R.units = True
    reps = 30 if tier == 'thorough' else 8
    k = 0
    for rep in range(reps):
        for n in (1, 2, 3, 4, 5, 6 + rep % 7):
            for kind in KINDS:
                c = (kind, n, DT[rng.randint(5)], DT[rng.randint(5)], rep)
                sub = np.random.RandomState(rng.randint(2**31 - 1))
                k += 1
                if mine(k):
                    R.run_case('C03:%s' % (c,), one, R, sub, kind, n, c[2], c[3], rep)


def uni(rng, n, legs, maxsize, dims=(1, 3)):
    return gen.rshape(rng, n, legs=(legs, legs), dims=dims, maxsize=maxsize)


def one(R, rng, kind, n, d1, d2, rep):
    def dim(m):
        """leg dimension below m, mostly trivial in long chains, rarely large"""
        if n > 5 and rng.randint(3):
            return 1
        if n < 4 and rng.randint(12) == 0:
            return rng.randint(4, 7)
        return rng.randint(1, m)
    if kind == 'dot':
        # matching legs on every site, chosen axes
        for _ in range(3):
            la, lb = rng.randint(1, 4), rng.randint(1, 4)
            nc = rng.randint(0, min(la, lb) + 1)
            n = min(n, 28 // max(la, lb, la + lb - 2 * nc, 1))
            ax = list(rng.permutation(la)[:nc])
            bx = list(rng.permutation(lb)[:nc])
            for _ in range(300):
                sa = [[dim(4) for _ in range(la)] for _ in range(n)]
                sb = [[dim(4) for _ in range(lb)] for _ in range(n)]
                for s, t in zip(sa, sb):
                    for u, v in zip(ax, bx):
                        t[v] = s[u]
                tot = np.prod([np.prod(s) for s in sa]) * np.prod([np.prod(s) for s in sb])
                con = np.prod([np.prod([s[u] for u in ax], dtype=int) for s in sa], dtype=int)
                if np.prod([np.prod(s) for s in sa]) <= 200 and np.prod([np.prod(s) for s in sb]) <= 200 \
                        and tot // con ** 2 <= 256 and tot // con <= 20000:
                    break
            else:
                continue
            sgn = lambda x, l: int(x) if rng.randint(2) else int(x) - l
            axp = [sgn(x, la) for x in ax]
            bxp = [sgn(x, lb) for x in bx]
            a = ops.mk(R, rng, [tuple(s) for s in sa], 2, d1, lim=200)
            b = ops.mk(R, rng, [tuple(s) for s in sb], 2, d2, lim=200)
            forms = [(tuple(axp), tuple(bxp)), (list(axp), list(bxp))]
            if nc == 1:
                forms.append((axp[0], bxp[0]))
            ops.dot(R, a, b, axes=forms[rng.randint(len(forms))])
            if n * (la + lb - 2) <= 28 and all(s[-1] == t[0] for s, t in zip(sa, sb)):
                ops.dot(R, a, b)
            R.free([a, b])
    elif kind == 'dotmix':
        # different numbers of legs on different sites, default axes
        for _ in range(3):
            sa = gen.rshape(rng, n, legs=(1, 3), dims=(1, 3), maxsize=100)
            sb = [[s[-1]] + [rng.randint(1, 3) for _ in range(rng.randint(0, 3))] for s in sa]
            if any(len(s) == 0 for s in sa) or np.prod([np.prod(s) for s in sb]) > 100 or \
                    np.prod([np.prod(s[:-1], dtype=int) * np.prod(t[1:], dtype=int) for s, t in zip(sa, sb)]) > 256:
                continue
            a = ops.mk(R, rng, sa, 2, d1, lim=200)
            b = ops.mk(R, rng, [tuple(s) for s in sb], 2, d2, lim=200)
            ops.dot(R, a, b)
            R.free([a, b])
        n = min(n, 6)
        a = ops.mk(R, rng, [(2,)] * n, 2, d1)
        b = ops.mk(R, rng, [(2,)] * (n + 1), 2, d2)
        ops.dot(R, a, b)     # length mismatch
        ops.inner(R, a, b)
        ops.localouter(R, b, a)
    elif kind == 'partialdot':
        for _ in range(3):
            m = rng.randint(1, n + 1)
            start = rng.randint(0, n - m + 1)
            la, lb = rng.randint(1, 3), rng.randint(1, 3)
            nc = rng.randint(1, min(la, lb) + 1)
            ax = list(rng.permutation(la)[:nc])
            bx = list(rng.permutation(lb)[:nc])
            for _ in range(200):
                sa = [[dim(3) for _ in range(la)] for _ in range(n)]
                sb = [[dim(3) for _ in range(lb)] for _ in range(m)]
                for j in range(m):
                    for u, v in zip(ax, bx):
                        sb[j][v] = sa[start + j][u]
                if np.prod([np.prod(s) for s in sa]) <= 64 and np.prod([np.prod(s) for s in sb]) <= 32:
                    break
            else:
                continue
            a = ops.mk(R, rng, [tuple(s) for s in sa], 2, d1, lim=200)
            b = ops.mk(R, rng, [tuple(s) for s in sb], 2, d2, lim=200)
            ax2 = [int(x) if rng.randint(2) else int(x) - la for x in ax]
            bx2 = [int(x) if rng.randint(2) else int(x) - lb for x in bx]
            if nc == 1 and rng.randint(2):
                axes, raxes = (ax2[0], bx2[0]), (bx2[0], ax2[0])
            else:
                axes, raxes = (tuple(ax2), tuple(bx2)), (tuple(bx2), tuple(ax2))
            ops.partialdot(R, a, b, start, axes)
            if m < n:
                ops.partialdot(R, b, a, start, raxes)
            if all(sa[start + j][-1] == sb[j][0] for j in range(m)):
                ops.partialdot(R, a, b, start)
            R.free([a, b])
    elif kind == 'inner':
        sh = gen.rshape(rng, n, legs=(0, 3), dims=(1, 3), maxsize=128)
        a = ops.mk(R, rng, sh, 3, d1, lim=200)
        b = ops.mk(R, rng, sh, 3, d2, lim=200)
        ops.inner(R, a, b)
        ops.inner(R, b, a)
        ops.inner(R, a, a)
        # product MPS
        sh = gen.rshape(rng, n, legs=(1, 1), dims=(1, 4), maxsize=128)
        a = ops.mk(R, rng, sh, 1, d1, lim=200)
        b = ops.mk(R, rng, sh, 3, d2, lim=200)
        ops.inner_prod_mps(R, a, b)
        ops.inner_prod_mps(R, a, a)
        ops.inner(R, a, b)
    elif kind == 'sandwich':
        d1, d2 = [(d1, d2), ('c16', 'c16')][rng.randint(2)]
        for _ in range(20):
            d = [dim(4) for _ in range(n)]
            e = [dim(4) for _ in range(n)]
            if np.prod(d) * np.prod(e) <= 200:
                break
        else:
            d = e = [1] * n
        o = ops.mk(R, rng, list(zip(e, d)), 3, d1, lim=100)
        x = ops.mk(R, rng, [(k,) for k in d], 3, d2, lim=100)
        y = ops.mk(R, rng, [(k,) for k in e], 3, d1, lim=100)
        ops.sandwich(R, o, x, y)
        q = ops.mk(R, rng, [(k, k) for k in d], 3, d2, lim=100) if np.prod(d) ** 2 <= 256 else None
        if q is not None:
            ops.sandwich(R, q, x)
            ops.sandwich(R, q, x, x)
            z = ops.mk(R, rng, [(k,) for k in d], 2, d1, lim=100)
            ops.sandwich(R, q, x, z)
    elif kind == 'norm':
        sh = gen.rshape(rng, n, legs=(0, 3), dims=(1, 3), maxsize=128)
        a = ops.mk(R, rng, sh, 3, d1, lim=200)
        b = ops.mk(R, rng, sh, 3, d2, lim=200)
        ops.normdist(R, a, b)
        ops.norm(R, a)
        ops.norm(R, a)
        ops.norm(R, b)
        ops.normdist(R, b, a)
        c = ops.sub(R, a, b)
        if c is not None:
            ops.norm(R, c)
            ops.prep(R, rng, c)
            ops.imul(R, rng, c, (2, 0))
            ops.norm(R, c)
            ops.norm(R, c)
    elif kind == 'trace':
        legs = [2, 2, 3][rng.randint(3)]
        d1 = [d1, 'c16', 'c16', 'c8'][rng.randint(4)]
        n = min(n, 28 // legs)
        l1, l2 = [int(v) for v in rng.permutation(legs)[:2]]
        for _ in range(200):
            sh = [[dim(4) for _ in range(legs)] for _ in range(n)]
            for s in sh:
                s[l2] = s[l1]
            if np.prod([np.prod(s) for s in sh]) <= 256:
                break
        else:
            return
        a = ops.mk(R, rng, [tuple(s) for s in sh], 3, d1, lim=500)
        f = lambda v: v if rng.randint(2) else v - legs
        if legs == 2:
            if {l1, l2} == {0, 1}:
                ops.trace(R, a)
            ops.trace(R, a, (f(l1), f(l2)))
            ops.trace(R, a, [(f(l1), f(l2)) for _ in range(n)])
            ops.partialtrace(R, a)
        ops.partialtrace(R, a, (f(l1), f(l2)))
    elif kind == 'ptrace':
        legs = [rng.randint(2, 4) if n < 8 else 2 for _ in range(n)]
        axes, sh = [], []
        for l in legs:
            s = [dim(3) for _ in range(l)]
            if rng.randint(3) == 0:
                axes.append(None)
            else:
                u, v = [int(x) for x in rng.permutation(l)[:2]]
                s[v] = s[u]
                axes.append((u if rng.randint(2) else u - l, v if rng.randint(2) else v - l))
            sh.append(tuple(s))
        if np.prod([np.prod(s) for s in sh]) > 600:
            return
        a = ops.mk(R, rng, sh, 3, d1, lim=500)
        ops.partialtrace(R, a, axes)
        ops.partialtrace(R, a, tuple(axes))
        # every choice of traced sites for a square operator
        m = min(n, 4)
        b = ops.mk(R, rng, [(2, 2)] * m, 3, d2, lim=500)
        for mask in it.product([0, 1], repeat=m):
            ops.partialtrace(R, b, [(0, 1) if k else None for k in mask])
    elif kind == 'sum':
        sh = gen.rshape(rng, n, legs=(0, 3) if rng.randint(2) else (0, 6), dims=(1, 3), maxsize=128)
        a = ops.mk(R, rng, sh, 3, d1)
        ops.sum_(R, a, None)
        ops.sum_(R, a, ())
        ops.sum_(R, a, [])
        per = [[int(x) for x in range(len(s)) if rng.randint(2)] if rng.randint(4) else None for s in sh]
        ops.sum_(R, a, per)
        ops.sum_(R, a, tuple(None if p is None else tuple(p) for p in per))
        ops.sum_(R, a, [None] * n)
        ops.sum_(R, a, [()] * n)
        legs = rng.randint(1, 6)
        sh = gen.rshape(rng, n, legs=(legs, legs), dims=(1, 3), maxsize=128)
        a = ops.mk(R, rng, sh, 3, d2)
        if all(len(s) == legs for s in sh):
            for k in range(legs):
                ops.sum_(R, a, k)
                ops.sum_(R, a, (k,))
            ops.sum_(R, a, [int(x) for x in rng.permutation(legs)[:rng.randint(1, legs + 1)]])
            ops.sum_(R, a, np.int64(0))
    elif kind == 'diag':
        legs = rng.randint(1, 4)
        n = min(n, 28 // legs)
        ax = rng.randint(legs)
        d = rng.randint(1, 4)
        for _ in range(100):
            sh = [[dim(4) for _ in range(legs)] for _ in range(n)]
            for s in sh:
                s[ax] = d
            if np.prod([np.prod(s) for s in sh]) <= 256:
                break
        else:
            return
        a = ops.mk(R, rng, [tuple(s) for s in sh], 3, d1)
        ops.diag(R, a, int(ax))
        if n > 1:       # no diagonal if the dimensions differ
            j = rng.randint(n)
            bad = [tuple(s) for s in sh]
            bad[j] = bad[j][:ax] + (d + 1 + rng.randint(2),) + bad[j][ax + 1:]
            if np.prod([np.prod(s) for s in bad]) <= 256:
                ops.diag(R, ops.mk(R, rng, bad, 2, d1), int(ax))
        b = ops.mk(R, rng, [(d,)] * n, 3, d2) if d ** n <= 256 else None
        if b is not None:
            ops.diag(R, b)
    elif kind == 'outer':
        sa = gen.rshape(rng, n, legs=(0, 2), dims=(1, 3), maxsize=16)
        sb = gen.rshape(rng, n, legs=(0, 2), dims=(1, 3), maxsize=16)
        a = ops.mk(R, rng, sa, 2, d1, lim=200)
        b = ops.mk(R, rng, sb, 2, d2, lim=200)
        ops.localouter(R, a, b)
        ops.localouter(R, b, a)
    elif kind == 'types':
        d = [2] * n
        n = min(n, 6)
        raw = gen.rmpa(rng, [(2, 2)] * n if n <= 3 else [(2, 1)] * n, 2, d1, lim=200)
        a = R.new(raw, p=gen.prec(d1), cls=ops.SubMPA)
        b = ops.mk(R, rng, [(2, 2)] * n if n <= 3 else [(1, 2)] * n, 2, d2, lim=200)
        ax = dict(l=ops.axarg(-1), r=ops.axarg(0))
        ops.typed(R, 'dot', [a, b], lambda x, y: mp.dot(x, y), 'SubMPA', ax)
        ops.typed(R, 'dot', [a, b], lambda x, y: mp.dot(x, y, astype=mp.MPArray), 'MPArray', ax)
        ops.typed(R, 'dot', [b, a], lambda x, y: mp.dot(x, y, astype=ops.SubMPA), 'SubMPA',
                  ax) if n <= 3 else None
        ops.typed(R, 'get', [a], lambda x: x.get([1] * n), 'SubMPA', dict(v=[1] * n))
        ops.typed(R, 'get', [a], lambda x: x.get([0] * n, astype=mp.MPArray), 'MPArray', dict(v=[0] * n))
        if n <= 3:
            ops.typed(R, 'partialtrace', [a], lambda x: mp.partialtrace(x), 'SubMPA', dict(v=[[0, 1]] * n))
            ops.typed(R, 'partialtrace', [a], lambda x: mp.partialtrace(x, mptype=mp.MPArray), 'MPArray',
                      dict(v=[[0, 1]] * n))
        if n <= 2:
            ops.typed(R, 'chain', [a, b], lambda x, y: mp.chain([x, y]), 'SubMPA', {})
            ops.typed(R, 'chain', [b, a], lambda x, y: mp.chain([x, y]), 'MPArray', {})
            ops.typed(R, 'chain', [b, a], lambda x, y: mp.chain([x, y], astype=ops.SubMPA), 'SubMPA', {})
        ops.typed(R, 'copy', [a], lambda x: x.copy(), 'SubMPA', {})
