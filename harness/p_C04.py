"""C04: operations rearranging sites and legs."""
import itertools as it
import numpy as np
import mpnum as mp
import gen
import ops

DT = ['f8', 'c16', 'f4', 'c8', 'i8']
KINDS = ['chain', 'inject', 'embed', 'localsum', 'prune', 'reshape', 'vleg', 'split', 'reverse', 'pad', 'get', 'axis',
         'group', 'slices']


def run(R, rng, tier, mine):
    R.again = 6
    R.units = True
    reps = 30 if tier == 'thorough' else 5
    k = 0
    for rep in range(reps):
        for n in (1, 2, 3, 4, 5, 6, 7 + rep % 6):
            for kind in KINDS:
                c = (kind, n, DT[rng.randint(5)], DT[rng.randint(5)], rep)
                sub = np.random.RandomState(rng.randint(2**31 - 1))
                k += 1
                if mine(k):
                    R.run_case('C04:%s' % (c,), one, R, sub, kind, n, c[2], c[3])


def rs(rng, n, legs=(0, 3), maxsize=64):
    return gen.rshape(rng, n, legs=legs, dims=(1, 3), maxsize=maxsize)


def one(R, rng, kind, n, d1, d2):
    if kind == 'chain':
        ids = [ops.mk(R, rng, rs(rng, rng.randint(1, 4), maxsize=6), 3, [d1, d2, 'f8'][rng.randint(3)], lim=20)
               for _ in range(rng.randint(1, 4))]
        r = ops.chain(R, ids, lazy=bool(rng.randint(2)))
        if r is not None:
            ops.prep(R, rng, r)
            ops.to_array(R, r)
        R.op('chain', [], lambda: mp.chain([]))
    elif kind == 'inject':
        m = min(n, 4)
        for _ in range(4):
            sh = [(rng.randint(1, 3),) + tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 2))) for _ in range(m)]
            a = ops.mk(R, rng, sh, 3, d1, lim=100)
            k = rng.randint(5)
            if np.prod([np.prod(s) for s in sh]) > 32:
                continue
            pos = int(rng.randint(0, m + 1))
            if k == 0:
                ops.inject(R, a, pos, int(rng.randint(0, 3)))
            elif k == 1:
                ops.inject(R, a, pos, int(rng.randint(0, 3)), gen.tens(rng, (2,) * rng.randint(0, 3), d2))
            elif k == 2:
                ops.inject(R, a, pos, None, [gen.tens(rng, (2,) * rng.randint(0, 3), d2) for _ in range(rng.randint(0, 3))])
            else:
                np_ = rng.randint(1, min(m + 1, 3) + 1)
                P = sorted(int(x) for x in rng.permutation(m + 1)[:np_])
                N = [int(rng.randint(0, 3)) if rng.randint(3) else None for _ in P]
                Te = []
                for nn in N:
                    if nn is None:
                        Te.append([gen.tens(rng, (2,) * rng.randint(0, 3), d2) for _ in range(rng.randint(0, 2))])
                    else:
                        Te.append(None if rng.randint(2) else gen.tens(rng, (2,) * rng.randint(0, 3), d2))
                tot = np.prod([np.prod(s) for s in sh])
                for p, nn, tt in zip(P, N, Te):
                    if nn is None:
                        tot *= np.prod([t.size for t in tt], dtype=int)
                    else:
                        tot *= (9 if tt is None else tt.size) ** nn
                if tot > 600:
                    N, Te = [1] * len(P), [None] * len(P)
                if rng.randint(3) == 0 and len(P) > 1:      # positions out of order
                    j = rng.randint(len(P) - 1)
                    P[j + 1] = int(rng.randint(P[j] + 1))
                if k == 3 and all(x is not None for x in N):
                    ops.inject(R, a, P, N)
                else:
                    ops.inject(R, a, P, N, Te)
    elif kind == 'embed':
        m = min(n, 3)
        d = rng.randint(1, 3)
        for _ in range(3):
            a = ops.mk(R, rng, [(d, d)] * m, 3, d1, lim=100)
            L = m + rng.randint(0, 3)
            if d ** (2 * L) > 1100:
                continue
            for st in range(0, L - m + 1):
                ops.embed_slice(R, a, L, st)
            b = ops.mk(R, rng, rs(rng, m, maxsize=8), 3, d1, lim=50)
            emb = gen.tens(rng, tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 3))), d2)
            for st in range(0, L - m + 1):
                ops.embed_slice(R, b, L, st, emb)
            R.free([a, b])
    elif kind == 'slices':
        for _ in range(4):
            w, o, k = int(rng.randint(1, 5)), int(rng.randint(1, 4)), int(rng.randint(0, 5))
            L = w + k * o + (int(rng.randint(1, o)) if o > 1 and rng.randint(4) == 0 else 0)
            res, exc = R.call(lambda: [(s.start, s.stop, s.step) for s in mp.regular_slices(L, w, o)])
            ok = not exc and all(st in (None, 1) for _, _, st in res)
            R.stateless(dict(op='regular_slices', fam='slices', exc=exc, length=L, width=w, offset=o,
                             got=[[int(a), int(b)] for a, b, _ in res] if ok else []), 'regular_slices(%d, %d, %d)' % (L, w, o))
        # positions that do not fit
        m = int(rng.randint(1, 4))
        x = mp.MPArray(gen.rmpa(rng, [(2, 2)] * m, 2, 'f8'))
        L = m + int(rng.randint(1, 4))
        st = int(rng.randint(0, L))
        sp = [q for q in range(st + 1, L + 1) if q - st != m]
        if sp:
            sp = sp[rng.randint(len(sp))]
            res, exc = R.call(lambda: mp.embed_slice(L, slice(st, sp), x))
            R.stateless(dict(op='embed_slice', fam='reject', exc=exc), 'embed_slice of %d sites on sites %d to %d of %d' % (m, st, sp, L))
        y = mp.MPArray(gen.rmpa(rng, [(2,)] * (m + 1), 3, 'f8'))
        for p in range(m):
            if y.ranks[p] > 1:
                res, exc = R.call(lambda: y.leg2vleg(p))
                R.stateless(dict(op='leg2vleg', fam='reject', exc=exc), 'leg2vleg(%d), rank %d' % (p, y.ranks[p]))
    elif kind == 'localsum':
        w = rng.randint(1, 4)
        cnt = rng.randint(1, 4)
        L = w + cnt - 1
        d = 2 if L <= 4 else 1
        mk = lambda k, dt: ops.mk(R, rng, [(d, d)] * k, 2, dt, lim=60)
        ids = [mk(w, [d1, d2, 'f8', 'c16'][rng.randint(4)]) for _ in range(cnt)]
        ops.local_sum(R, ids, lazy=bool(rng.randint(2)))
        # explicitly given regular slices
        ops.local_sum(R, ids, starts=list(range(cnt)), length=L)
        ops.local_sum(R, ids, starts=list(range(cnt)), length=L, style=1 + int(rng.randint(2)))
        # general slices
        L2 = min(L + 1, 5 if d == 1 else 4)
        ids2, starts = [], []
        for _ in range(rng.randint(1, 4)):
            k = rng.randint(1, L2 + 1)
            ids2.append(mk(k, [d1, d2][rng.randint(2)]))
            starts.append(int(rng.randint(0, L2 - k + 1)))
        ops.local_sum(R, ids2, starts=starts, length=L2, style=int(rng.randint(3)))
        # one leg, explicit embedding tensor
        emb = gen.tens(rng, (2,), d2)
        # wide terms, long chains
        w4, cnt4 = int(rng.randint(1, 7)), int(rng.randint(1, 7))
        for d4 in (1, 2):
            sh4 = [(d4,)] * w4 if d4 ** (w4 + cnt4 - 1) <= 64 else [(1,)] * w4
            emb4 = gen.tens(rng, sh4[0], d2)
            ids4 = [ops.mk(R, rng, sh4, 2, [d1, d2][rng.randint(2)], lim=60) for _ in range(cnt4)]
            ops.local_sum(R, ids4, emb=emb4)
            ops.local_sum(R, ids4, emb=emb4, starts=list(range(cnt4)), length=w4 + cnt4 - 1)
            R.free(ids4)
        ids3 = [ops.mk(R, rng, [(2,)] * w, 2, d1, lim=60) for _ in range(cnt)]
        ops.local_sum(R, ids3, emb=emb)
        ops.local_sum(R, ids3, emb=emb, starts=list(range(cnt)), length=L)
        ops.local_sum(R, ids3, emb=emb, starts=[0] * cnt, length=L)
    elif kind == 'prune':
        for _ in range(3):
            sh = [s if rng.randint(2) else ((), (1,), (1, 1))[rng.randint(3)] for s in rs(rng, n, maxsize=64)]
            a = ops.mk(R, rng, sh, 3, d1)
            ops.prune(R, a)
            ops.prune(R, a, True)
    elif kind == 'reshape':
        sh = rs(rng, n, legs=(0, 3), maxsize=96)
        a = ops.mk(R, rng, sh, 3, d1)
        ops.unary(R, 'ravel', a)
        ops.reshape(R, a, 'prune')
        for lazy in (False, True):
            new = []
            for s in sh:
                k = rng.randint(5)
                sz = int(np.prod(s, dtype=int))
                new.append([(sz,), (-1,), (1, sz), tuple(reversed(s)), (-1, 1)][k])
            ops.reshape(R, a, new, lazy)
        legs = rng.randint(1, 3)
        n = min(n, 9)
        b = ops.mk(R, rng, [(2, 3) if n <= 2 else (2, 2) if n <= 3 else (2, 1)] * n, 3, d2)
        t = R.obj[b].shape[0]
        for new in [(-1,), (t[1], t[0]), (t[0] * t[1],), (1, -1), (t[0], -1, 1), (t[1], -1), [t[1], t[0]]]:
            ops.reshape(R, b, new)
        c = ops.reshape(R, b, (-1,))
        if c is not None:
            ops.prep(R, rng, c)
            ops.reshape(R, c, tuple(t))
            ops.reshape(R, c, [tuple(t)] * n)
    elif kind == 'vleg':
        if n == 1:
            n = 2
        sh = rs(rng, n, legs=(0, 2), maxsize=64)
        for pos in range(n - 1):
            a = ops.mk(R, rng, sh, 3, d1)
            v = ops.vleg2leg(R, a, pos)
            if v is None:
                continue
            ops.leg2vleg(R, v, pos)
            ops.prep(R, rng, v)
            if R.obj[v].ranks[pos] == 1:
                w = ops.leg2vleg(R, v, pos)
                if w is not None:
                    ops.prep(R, rng, w)
                    ops.norm(R, w)
            # raw legs, exact values: the opened pair as ordinary legs
            raw = gen.rmpa(rng, sh, 3, 'f8')
            b = R.new(raw)
            lts = [np.array(t) for t in raw]
            lts[pos] = lts[pos][..., None]
            lts[pos + 1] = lts[pos + 1][None]
            from obs import contract, enc_int
            full = contract(lts)[0, ..., 0]
            if full.size <= 600 and b is not None:
                sh2 = [t.shape[1:-1] for t in lts]
                R.op('from_array_virtual', [], lambda: R.obj[b].vleg2leg(pos).to_array(),
                     a=dict(t=enc_int(full)), out='val', desc='vleg2leg(%d).to_array()' % pos, unit=R.case_unit)
    elif kind == 'split':
        if n == 1:
            n = 2
        sh = rs(rng, n, legs=(0, 2), maxsize=64)
        a = ops.mk(R, rng, sh, 3, d1)
        for pos in range(n - 1):
            ops.split(R, a, pos)
            ops.prep(R, rng, a)
            ops.split(R, a, pos)
    elif kind == 'reverse':
        sh = rs(rng, n, legs=(0, 3), maxsize=96)
        a = ops.mk(R, rng, sh, 3, d1)
        b = ops.unary(R, 'reverse', a)
        if b is not None:
            ops.prep(R, rng, b)
            ops.unary(R, 'reverse', b)
    elif kind == 'pad':
        sh = rs(rng, n, legs=(1, 2), maxsize=64)
        a = ops.mk(R, rng, sh, 3, d1)
        ops.pad_ranks(R, a)
        for rank in range(1, 7):
            ops.pad_ranks(R, a, rank)
            b = ops.pad_ranks(R, a, rank, True)
            if b is not None and rank == 4:
                ops.prep(R, rng, b)
                ops.to_array(R, b)
        ops.pad_ranks(R, a, None, True)
    elif kind == 'get':
        sh = [(rng.randint(1, 4),) + tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 2))) for _ in range(n)]
        if np.prod([np.prod(s) for s in sh]) > 400:
            sh = [(2,)] * n
        a = ops.mk(R, rng, sh, 3, d1)
        for _ in range(4):
            idx = [int(rng.randint(s[0])) for s in sh]
            ops.get(R, a, tuple(idx) if rng.randint(2) else idx)
    elif kind == 'axis':
        n = min(n, 4)
        legs = [rng.randint(1, 4) for _ in range(n)]
        sh = [tuple(rng.randint(1, 4) if n < 3 else rng.randint(1, 3) for _ in range(l)) for l in legs]
        if np.prod([np.prod(s) for s in sh]) > 400:
            sh = [(2,) * min(l, 2) for l in legs]
        a = ops.mk(R, rng, sh, 2, d1)
        R.free(ops.axis_iter(R, a) or [])
        R.free(ops.axis_iter(R, a, [int(rng.randint(len(s))) for s in sh]) or [])
        m = min(len(s) for s in sh)
        R.free(ops.axis_iter(R, a, int(rng.randint(m))) or [])
    elif kind == 'group':
        k = rng.randint(1, 4)
        m = max(1, n // k)
        sh = rs(rng, m * k, legs=(0, 2), maxsize=96)
        a = ops.mk(R, rng, sh, 3, d1)
        g = ops.group_sites(R, a, int(k))
        for kk in range(1, m * k + 2):
            ops.group_sites(R, a, kk)
        sh = [tuple(rng.randint(1, 3) for _ in range(k * rng.randint(1, 3))) for _ in range(m)]
        if np.prod([np.prod(s) for s in sh]) <= 128:
            b = ops.mk(R, rng, sh, 3, d2)
            ops.split_sites(R, b, int(k))
