"""C21: construction of POVMs."""
import numpy as np
import mpnum as mp
import mpnum.povm as mpp
from mpnum.povm import MPPovm, MPPovmList
from mpnum.povm import localpovm
from obs import enc_int, enc_dense, clampi
import gen
import ops
import povm


def run(R, rng, tier, mine):
    k = 0
    reps = dict(local=(220, 1500), heap=(380, 4000), scaled=(300, 2600), pauli=(40, 200))
    for name in ('local', 'heap', 'scaled', 'pauli'):
        for rep in range(reps[name][tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C21:' + name, globals()[name], R, s)


# ---------------------------------------------------------------- local POVMs
def pinvdev(A, B):
    """deviation from the four Moore-Penrose conditions"""
    sc = max(1, np.abs(B).max())
    return clampi(max(np.abs(A.dot(B).dot(A) - A).max(), np.abs(B.dot(A).dot(B) - B).max() / sc,
                      np.abs(A.dot(B) - A.dot(B).conj().T).max(), np.abs(B.dot(A) - B.dot(A).conj().T).max()) * 1e9)


def local(R, rng):
    f = ['x', 'y', 'z', 'pauli', 'parts', 'concat', 'concat', 'vectors'][rng.randint(8)]
    d = int(rng.randint(2, 6))
    e = dict(op=f, fam='localpovm', f=f, d=d, scale=2 * (d - 1), ts=[], w=[], W=0, left=0, ic=True)
    if f in ('x', 'y', 'z'):
        if f == 'z':
            e['scale'] = 1
            if rng.randint(4) == 0:
                e['d'] = d = 1
        go = lambda: [getattr(mpp, f + '_povm')(d)]      # noqa
    elif f == 'pauli':
        e['scale'] *= 3 if d == 2 else 2
        go = lambda: [mpp.pauli_povm(d)]                 # noqa
    elif f == 'parts':
        go = lambda: localpovm.pauli_parts(d)            # noqa
    elif f == 'concat':
        d = e['d'] = int(rng.randint(1, 4))
        m = int(rng.randint(1, 4))
        cs, Ks = [], []
        for _ in range(m):
            K, c = povm.elems(rng, d, int(rng.randint(1, 4)), bool(rng.randint(2)), 1)
            cs.append(c)
            Ks.append(K)
        L = int(np.lcm.reduce(cs))
        w = [int(x) for x in rng.randint(1, 5, size=m)]
        W = sum(w)
        if rng.randint(8) == 0:
            W += 1                      # weights do not sum to one
        weights = [x / W for x in w]
        if L * W > 10**4:
            return
        if rng.randint(10) == 0:        # one weight (or POVM) too many
            if rng.randint(2):
                w, weights = w + [0], weights + [0.0]
            else:
                Ks, cs = Ks + Ks[:1], cs + cs[:1]
        lazy = rng.randint(4)
        e.update(scale=L * W, w=w, W=W, ts=[enc_int(K * (L // c)) for K, c in zip(Ks, cs)])
        ic = bool(rng.randint(2))

        def go():
            args = [mpp.POVM(K / c) for K, c in zip(Ks, cs)]
            args = iter(args) if lazy & 1 else args if rng.randint(2) else tuple(args)
            p = localpovm.concat(args, iter(weights) if lazy & 2 else weights, *([ic] if ic else []))
            if p.informationally_complete != ic:
                raise ValueError('info_complete')
            return [p]
    else:
        d = e['d'] = int(rng.randint(1, 5))
        vs = [gen.tens(rng, (d,), 'c16' if rng.randint(3) else 'f8', -3, 3) for _ in range(rng.randint(1, 5))]
        e.update(scale=1, ts=[enc_int(v) for v in vs])
        go = lambda: [mpp.POVM.from_vectors(vs if rng.randint(2) else iter(vs))]     # noqa
    sc = e['scale']

    def run():
        out = dict(got=[], pm=[], mp=[], lens=[])
        for p in go():
            els = np.array([np.array(x) for x in p])
            if not all(np.array_equal(p[k], els[k]) for k in range(len(p))):
                raise ValueError('indexing')
            out['got'].append(enc_dense(els * sc))
            out['pm'].append(enc_dense(np.asarray(p.probability_map) * sc))
            out['lens'].append(len(p))
            A, B = np.asarray(p.probability_map), np.asarray(p.linear_inversion_map)
            out['mp'].append(pinvdev(A, B))
            if f == 'pauli':
                out['left'] = clampi(np.abs(B.dot(A) - np.eye(d * d)).max() * 1e9)
                out['ic'] = bool(p.informationally_complete)
            elif f in ('x', 'y', 'z', 'parts') and p.informationally_complete:
                raise ValueError('x, y and z measurements are not informationally complete')
        return out
    res, e['exc'] = R.call(run)
    e.update(res or {})
    R.stateless(e, '%s d=%d' % (f, d))


# ------------------------------------------------------- heap: projective POVMs
def proj(rng, outs, ds, joint=True):
    lts, i, n = [], 0, len(ds)
    while i < n:
        w = 2 if joint and i + 1 < n and rng.randint(3) == 0 else 1
        d, m = int(np.prod(ds[i:i + w])), int(np.prod(outs[i:i + w]))
        K = np.zeros((m, d, d))
        for q in range(d):
            K[rng.randint(m), q, q] = 1
        if w == 1:
            lts.append(K[None, ..., None])
        else:
            o1, o2 = outs[i:i + 2]
            d1, d2 = ds[i:i + 2]
            M = K.reshape(o1, o2, d1, d2, d1, d2).transpose(0, 2, 4, 1, 3, 5).reshape(o1 * d1 * d1, o2 * d2 * d2)
            if M.shape[0] <= M.shape[1]:
                lts += [np.eye(len(M)).reshape(1, o1, d1, d1, -1), M.reshape(-1, o2, d2, d2, 1)]
            else:
                lts += [M.reshape(1, o1, d1, d1, -1), np.eye(M.shape[1]).reshape(-1, o2, d2, d2, 1)]
        i += w
    return lts


def dims(rng, n, hi=3, lim=8):
    while True:
        if n > 3:
            d = [int(rng.randint(1, hi + 1)) if rng.randint(n) < 2 else 1 for _ in range(n)]
        else:
            d = [int(x) for x in rng.randint(1, hi + 1, size=n)]
        if np.prod(d) <= lim:
            return d


def heap(R, rng):
    kind = ['embed', 'embed', 'block', 'list', 'repeat', 'repeat'][rng.randint(6)]
    n = int(rng.randint(1, 4)) if rng.randint(5) else int(rng.randint(4, 8))
    if kind == 'embed':
        ds = dims(rng, n)
        outs = dims(rng, n, 3, 8)
    else:
        ds = [int(rng.randint(1, 3)) if n < 4 else 1] * n
        outs = dims(rng, n, 3, 6)
    m = 1 if kind in ('embed', 'block') else int(rng.randint(1, 3))
    ids = []
    for _ in range(m):
        if m > 1:
            outs = dims(rng, n, 2, 6)
        if kind in ('embed', 'block', 'list') and rng.randint(4) == 0:      # any elements
            i = R.new(gen.rmpa(rng, [(o, d, d) for o, d in zip(outs, ds)], 3, ['c16', 'f8', 'i8'][rng.randint(3)], 30), cls=MPPovm)
        else:
            i = R.new(proj(rng, outs, ds), cls=MPPovm)
        if i is None:
            return
        ops.prep(R, rng, i)
        ids.append(i)
    ty = dict(ty='MPPovm')
    if kind == 'embed':
        extra = int(rng.randint(0, 3))
        N = n + extra
        start = int(rng.randint(0, extra + 1))
        full = dims(rng, start, 3, 4) + ds + dims(rng, N - n - start, 3, 4)
        if np.prod(full, dtype=int) ** 2 * np.prod(outs) > 3000:
            return
        if len(set(full)) == 1 and rng.randint(2):
            arg = full[0]
        else:
            arg = [full, tuple(full), np.array(full)][rng.randint(3)]
        if rng.randint(10) == 0:
            bad = extra + 1 if rng.randint(2) else -1 - int(rng.randint(0, 2))
            R.op('bad_new', [ids[0]], lambda p: p.embed(N, bad, full), out='none', desc='embed(%d, %d, %s)' % (N, bad, full))
            return
        r = R.op('povm_embed', ids, lambda p: p.embed(N, start, arg), a=dict(n=N, start=start, dims=full, **ty),
                 desc='embed(%d, %d, %s)' % (N, start, full))
        res = [r]
    elif kind in ('block', 'list'):
        N = min(n + int(rng.randint(0, 5 if ds[0] == 2 else 7)), 10)
        while ds[0] == 2 and N > n and ds[0] ** (2 * N) * np.prod(outs) > 2100:
            N -= 1
        if ds[0] ** (2 * N) * np.prod(outs) > 3000:
            return
        f = (lambda p: p.block(N).mpps) if kind == 'block' else (lambda *p: MPPovmList(p).block(N).mpps)
        res = R.op('povm_block', ids, f, a=dict(n=N, d=ds[0], **ty), out='objs', desc='%s.block(%d)' % (kind, N))
    else:
        fac = [all(R.ranks(i)[k - 1] == 1 for i in ids) for k in range(1, n)]
        Ns = [N for N in range(1, min(3 * n, 10) + 1) if (N % n == 0 or fac[N % n - 1])
              and ds[0] ** (2 * N) * np.prod(outs) ** (N / n) <= 3000]
        if not Ns:
            return
        N = Ns[rng.randint(len(Ns))]
        f = (lambda p: [p.repeat(N)]) if m == 1 and rng.randint(2) else (lambda *p: MPPovmList(p).repeat(N).mpps)
        res = R.op('povm_repeat', ids, f, a=dict(n=N, **ty), out='objs', desc='repeat(%d) of %d' % (N, n))
    for r in res or []:        # results are independent of each other
        if r is not None and rng.randint(3) == 0:
            ops.imul(R, rng, r, (2, 0))
    for i in ids:
        ops.to_array(R, i)


# -------------------------------------------------------------- general POVMs
def attr(m):
    return dict(outdims=[int(x) for x in m.outdims], hdims=[int(x) for x in m.hdims], nsoutpos=[int(x) for x in m.nsoutpos],
                nsoutdims=[int(x) for x in m.nsoutdims])


def emit(R, e, go, scales, desc, sel=None):
    # sel: the results to look at (default: all of them)
    e.setdefault('sel', list(range(1, len(scales) + 1)) if sel is None else [i + 1 for i in sel])
    e.update(cnt=0, bad=[])

    def run():
        out = dict(got=[], attr=[], ty=[], pmap=[], pmsh=[], els=[])
        ms = go()
        out['cnt'] = len(ms)
        for k in e['sel']:
            if k > len(ms):
                break
            m = ms[k - 1]
            out['got'].append(enc_dense(np.asarray(m.to_array()) * scales[k - 1]))
            pm = m.probability_map
            out['pmap'].append(enc_dense(np.asarray(pm.to_array()).reshape(-1) * scales[k - 1]))
            out['pmsh'].append([[int(x) for x in q] for q in pm.shape])
            if np.prod(m.outdims) <= 12:
                els = [np.asarray(x.to_array()) for x in m.elements]
                out['els'].append([enc_dense(x.reshape(-1) * scales[k - 1]) for x in els])
            else:
                out['els'].append([])
            out['attr'].append(attr(m))
            out['ty'].append(type(m).__name__)
        return out
    res, exc = R.call(run)
    e.update(res or {})
    e.update(fam='povmcons', exc=exc, scale=scales, op=e['f'])
    R.stateless(e, desc)


def scaled(R, rng):
    f = ['local', 'eye', 'repeat', 'repeat', 'attr', 'reject'][rng.randint(6)]
    e = dict(f=f, d=0, n=0, ts=[], dims=[], lts=[], norm=True)
    if f == 'local':
        d = int(rng.randint(1, 4))
        n = int(rng.randint(1, 4))
        m = int(rng.randint(1, 4))
        while (m * d * d) ** n > 1500:
            n -= 1
        K, c = povm.elems(rng, d, m, bool(rng.randint(2)), 1, cheap=n > 2)
        if c ** n > 5000:
            return
        e.update(n=n, ts=[enc_int(K)])
        arg = K / c if rng.randint(2) else mpp.POVM(K / c)
        emit(R, e, lambda: [MPPovm.from_local_povm(arg, n)], [c ** n], 'from_local_povm d=%d n=%d m=%d' % (d, n, m))
    elif f == 'eye':
        ds = dims(rng, int(rng.randint(1, 5)), 3, 12)
        e.update(dims=ds)
        emit(R, e, lambda: [MPPovm.eye([ds, tuple(ds), iter(ds)][rng.randint(3)])], [1], 'eye(%s)' % ds)
    elif f == 'repeat':
        # blocks of one or two sites, cut between blocks
        k = int(rng.randint(1, 3))
        lists, scales = [], []
        n = None
        N = None
        for q in range(k):
            for _ in range(30):
                blocks = []
                tot = 0
                want = n or int(rng.randint(1, 4))
                while tot < want:
                    w = 2 if want - tot >= 2 and rng.randint(3) == 0 else 1
                    outs = [int(x) for x in rng.randint(1, 3 + (w == 1), size=w)]
                    ds = [int(rng.randint(1, 3)) for _ in range(w)]
                    blocks.append(povm.block(rng, outs, ds, bool(rng.randint(2)), 1, cheap=bool(rng.randint(2))))
                    tot += w
                cuts, s = [], 0
                for b in blocks[:-1]:
                    s += len(b[0])
                    cuts.append(s)
                n_ = tot
                Ns = [x for x in range(1, 3 * n_ + 1) if x % n_ in [0] + cuts]
                if N is None:
                    ok = [x for x in Ns if x > 0]
                    N_ = ok[rng.randint(len(ok))]
                else:
                    N_ = N
                    if N % n_ not in [0] + cuts:
                        continue
                lts = [t for b in blocks for t in b[0]]
                size = np.prod([np.prod(lts[i % n_].shape[1:-1]) for i in range(N_)])
                sc = 1
                pos = 0
                while pos < N_:
                    for b in blocks:
                        if pos < N_:
                            sc *= b[1]
                            pos += len(b[0])
                if size > 2500 or sc > 5000:
                    continue
                n, N = n_, N_
                c = int(np.prod([b[1] for b in blocks]))
                pv = povm.Pv(lts, c, [t.shape[1] for t in lts], plain=True)
                lists.append(pv)
                scales.append(int(sc))
                break
        if not lists:
            return
        for pv in lists:
            pv.obj
            for _ in range(rng.randint(3)):
                j = rng.randint(4)
                if j == 0:
                    mp.norm(pv.obj)
                elif j == 1:
                    pv.obj.canonicalize(int(rng.randint(0, n)))
                elif j == 2:
                    pv.obj.canonicalize()
                else:
                    pv.obj.canonicalize(right=int(rng.randint(1, n + 1)))
        e.update(lts=[[enc_int(t) for t in pv.lts] for pv in lists], n=N)
        if len(lists) == 1 and rng.randint(2):
            go = lambda: [lists[0].obj.repeat(N)]       # noqa
        else:
            go = lambda: MPPovmList(p.obj for p in lists).repeat(N).mpps      # noqa
        emit(R, e, go, scales, 'repeat(%d) of %d sites, %d POVMs' % (N, n, len(lists)))
    elif f == 'reject':
        why = ['legs', 'square', 'outcomes', 'lengths', 'block', 'embeddims', 'onedim', 'onedim'][rng.randint(8)]
        n = int(rng.randint(1, 4))
        j = int(rng.randint(n))

        def go():
            sh = [(1 + k % 2, 2, 2) for k in range(n)]
            if why in ('legs', 'square', 'outcomes'):
                sh[j] = dict(legs=[(2, 2), (2,), (2, 2, 2, 2)][rng.randint(3)], square=[(2, 1, 2), (1, 3, 2)][rng.randint(2)],
                             outcomes=(256, 1, 1))[why]
                return MPPovm.from_kron([np.ones(q) for q in sh])
            if why == 'lengths':
                a, b = (MPPovm.from_kron([np.eye(2)[None]] * q) for q in (n, n + 1))
                return MPPovmList([a, b] if rng.randint(2) else [b, b, a])
            if why == 'onedim':
                return [lambda: localpovm.pauli_parts(1), lambda: mpp.pauli_mpp(1, 1), lambda: mpp.pauli_mpps(1, 1)][rng.randint(3)]()
            if why == 'block':
                return MPPovm.eye([2] * j + [3] + [2] * (n - j)).block(n + 2)
            return MPPovm.eye([2] * n).embed(n + 1, 1, [2] * (n + rng.randint(2) * 2))
        _, exc = R.call(go)
        e.update(fam='povmcons', exc=exc, op='reject ' + why, sel=[], cnt=0)
        R.stateless(e, 'reject ' + why)
    else:
        n = int(rng.randint(1, 5))
        ds = dims(rng, n, 3, 8)
        outs = dims(rng, n, 3, 12)
        pv = povm.rand_povm(rng, outs, ds, bool(rng.randint(4)), maxc=60)
        povm.messup(rng, pv.obj)
        e.update(lts=[[enc_int(t) for t in pv.lts]])
        emit(R, e, lambda: [pv.obj], [pv.c], 'attributes outs=%s dims=%s' % (outs, ds))


def pauli(R, rng):
    d = int(rng.randint(2, 5))
    n = int(rng.randint(1, 5))
    f = ['pauli_mpp', 'pauli_mpps'][rng.randint(2)]
    P = 3 if d == 2 else 2
    S = 2 * (d - 1)
    while n > 1 and (max(d * (d - 1), d) * (P if f == 'pauli_mpp' else 1) * d * d) ** n > 4100:
        n -= 1
    e = dict(f=f, d=d, n=n, ts=[], dims=[], lts=[], norm=True)
    if f == 'pauli_mpp':
        emit(R, e, lambda: [mpp.pauli_mpp(n, d)], [(S * P) ** n], 'pauli_mpp(%d, %d)' % (n, d))
    else:
        q = P ** n
        sel = sorted({int(x) for x in rng.randint(q, size=3)} | {q - 1}) if n > 2 else None
        emit(R, e, lambda: mpp.pauli_mpps(n, d).mpps, [S ** n] * q, 'pauli_mpps(%d, %d)' % (n, d), sel)
